"""Optical materials: indices, dispersion, and how they are found."""
from fractions import Fraction
from . import law
from .common import *
from vg import univar as U
from vg.lab import Undecided

F = Fraction
LINES = {'d': F('0.5875618'), 'F': F('0.4861327'), 'C': F('0.6562725')}

# refractive index at 587.6 nm in the catalogue of the manufacturer (Schott, Ohara, Hoya, CDGM, Heraeus)
CATALOGUE = {
    'N_BK7': '1.51680', 'N_SF2': '1.64769', 'N_SF8': '1.68894', 'SF2': '1.64769', 'SF5': '1.67270', 'N_SF5': '1.67271',
    'N_SF6': '1.80518', 'N_SF6HT': '1.80518', 'N_SF10': '1.72828', 'N_SF11': '1.78472', 'N_SF57': '1.84666',
    'N_BAF10': '1.67003', 'N_BAK1': '1.57250', 'N_BAK4': '1.56883', 'FK51A': '1.48656', 'LAFN7': '1.74950',
    'N_LASF9': '1.85025', 'N_LAK22': '1.65113', 'N_SSK5': '1.65844', 'E_FD10': '1.72825', 'FusedSilica': '1.45846',
    'N_SK16': '1.62041', 'E_BAF11': '1.66672', 'N_LAK10': '1.72003', 'S_BAH11': '1.66672', 'S_TIH6': '1.80518',
    'N_SK2': '1.60738', 'S_PHM52': '1.61800', 'S_NPH2': '1.92286', 'N_PK52A': '1.49700', 'H_LAF3B': '1.74400',
    'H_ZF52GT': '1.84666', 'H_ZF13': '1.78472', 'H_ZK50': '1.60738', 'H_F4': '1.62005'}


def materials(L):
    base = L.P.cls('Material')
    out = []
    todo = list(base.subclasses)
    while todo:
        c = todo.pop(0)
        out.append(c)
        todo += c.subclasses
    L.fact('at least 36 materials are defined', len(out) >= 36)
    return out


def n_of(L, c, x):
    f = L.I.getattr(L.st, L.I.classval(c), 'n')
    return f


def note(L, c, name='n'):
    _, b = c.lookup(name)
    if b is not None:
        L.entry = '%s.%s (%s:%d)' % (c.name, name, c.module.relpath, getattr(getattr(b.value, 'node', None), 'lineno', 0))


def square(L, c):
    """n(x)^2 as a fraction of two polynomials of x"""
    x = L.var('x', '+')
    aid = next(iter(x.a.atoms()))
    a = L.trial(L.apply, n_of(L, c, x), x)
    if a.value is None:
        return None, None
    v = T.restrict(a.value, a.guard)
    if type(v) is not T.Leaf:
        v = T.restrict(v, and_(T.cmp_num('>', x, N(F(4, 10))), T.cmp_num('<', x, N(2))))
    if type(v) is not T.Leaf:
        fs = [U.fraction_of(T.mul(l, l), aid) for g, l in T.leaves(v, TRUE)]
        note(L, c)
        if all(f is not None for f in fs):
            L.fact('%s: one formula from 0.4 to 2 microns' % c.name, all(U.same(f, fs[0]) for f in fs[1:]),
                   'the index is given by %d different formulas' % len(fs))
        v = T.restrict(v, and_(T.cmp_num('>', x, N(F(4, 10))), T.cmp_num('<', x, N(F(7, 10)))))
    if type(v) is not T.Leaf:
        raise Undecided('index given by cases')
    return U.fraction_of(T.mul(v, v), aid), x


def isqrt(q):
    """square root of a fraction to 1e-15"""
    import math
    s = 10 ** 30
    return F(math.isqrt(q.numerator * s * s // q.denominator), s)


@law('C22')
def range_of_wavelengths(L):
    """wavelengths that cannot be in microns are refused by all materials, others are not"""
    x = L.var('x', '+')
    for c in materials(L):
        note(L, c)
        a = L.trial(L.apply, n_of(L, c, x), x)
        L.raises('%s: refuses less than 0.01 and more than 10 microns' % c.name, a, 'ValueError',
                 when=T.or_(T.cmp_num('>', x, N(10)), T.cmp_num('<', x, N(F(1, 100)))))


@law('C22')
def dispersion(L):
    """from 0.4 to 2 microns the index of a glass is between 1.4 and 2.1 and decreases with the wavelength"""
    a, b = F(4, 10), F(2)
    k = 0
    for c in materials(L):
        pq, x = square(L, c)
        note(L, c)
        if c.name == 'Air':
            L.fact('Air: n = 1', pq is not None and U.at(pq, a) == 1 and U.at(pq, b) == 1 and pq[0] == pq[1])
            continue
        if pq is None:
            continue
        k += 1
        L.fact('%s: index above 1.4 from 0.4 to 2 microns' % c.name, U.sign_on(U.minus(pq, F(14, 10) ** 2), a, b) == '+')
        L.fact('%s: index below 2.1 from 0.4 to 2 microns' % c.name, U.sign_on(U.minus(pq, F(21, 10) ** 2), a, b) == '-')
        L.fact('%s: index decreases from 0.4 to 2 microns' % c.name, U.sign_on(U.slope(pq), a, b) == '-')
    L.fact('at least 35 dispersion formulas were analysed', k >= 35)


@law('C22')
def abbe_numbers(L):
    """the Abbe number is that of the dispersion formula"""
    k = 0
    for c in materials(L):
        if c.name == 'Air':
            continue
        pq, x = square(L, c)
        note(L, c, 'abbeNumber')
        v = L.apply(L.I.getattr(L.st, L.I.classval(c), 'abbeNumber'))
        if pq is None or type(v) is not T.Leaf or v.kind != 'num' or not v.a.is_const():
            continue
        k += 1
        n = {l: isqrt(U.at(pq, w)) for l, w in LINES.items()}
        V = v.a.const()
        if n['F'] == n['C']:
            L.fact('%s: dispersion' % c.name, False, 'same index at 0.486 and 0.656 micron')
            continue
        got = (n['d'] - 1) / (n['F'] - n['C'])
        L.fact('%s: (nd-1)/(nF-nC) is the Abbe number within 0.1%%' % c.name, abs(got / V - 1) < F(1, 1000) if V else False,
               'formula %.4f, abbeNumber() %s' % (float(got), float(V)))
        L.eq('%s: Vd() is abbeNumber()' % c.name, L.apply(L.I.getattr(L.st, L.I.classval(c), 'Vd')), v)
    L.fact('at least 35 Abbe numbers were compared', k >= 35)


@law('C22')
def catalogue_indices(L):
    """a glass has the index of the glass of that name"""
    k = 0
    for c in materials(L):
        if c.name not in CATALOGUE:
            continue
        pq, x = square(L, c)
        note(L, c)
        if pq is None:
            continue
        k += 1
        n = isqrt(U.at(pq, LINES['d']))
        L.fact('%s: index at 587.6 nm' % c.name, abs(n - F(CATALOGUE[c.name])) < F(3, 100000),
               'formula %.6f, catalogue %s' % (float(n), CATALOGUE[c.name]))
    L.fact('at least 34 indices were compared', k >= 34)


@law('C22')
def found_by_name(L):
    """with or without dashes or capitals"""
    find = L.get(L.cls('Material'), 'findByName')
    k = 0
    for c in materials(L):
        for nm in {c.name.replace('_', '-'), c.name.replace('_', ''), c.name.lower().replace('_', '-'), c.name.upper().replace('_', ''),
                   '-'.join(c.name.replace('_', ''))}:
            m = L.apply(find, nm)
            L.entry = 'Material.findByName (raytracing/materials.py)'
            L.eq('%s is %s' % (nm, c.name), L.I.classval(L.I.obj(L.st, m).cls), L.I.classval(c))
            k += 1
    L.eq('no name is air', L.I.classval(L.I.obj(L.st, L.apply(find, NONE)).cls), L.cls('Air'))
    for bad in ('N-BK', 'BK77', 'nothing', 'N-SF666', 'F6'):
        L.raises('%s is refused' % bad, L.trial(L.apply, find, bad), 'ValueError')


@law('C22')
def all_materials(L):
    ms = materials(L)
    got = L.apply(L.get(L.cls('Material'), 'all'))
    L.entry = 'Material.all (raytracing/materials.py)'
    L.eq('names', T.tup(L.seq(got)), T.tup([T.const(c.name) for c in ms]))
    names = [c.name for c in ms]
    L.fact('no two materials have the same name', len(names) == len(set(names)), [n for n in names if names.count(n) > 1])
    L.fact('no two names are the same without dashes or capitals', len({n.replace('_', '').lower() for n in names}) == len(names))
    import ast
    seen = {}
    for st in L.P.module('materials').tree.body:
        if isinstance(st, ast.ClassDef):
            L.fact('%s is defined once' % st.name, st.name not in seen, 'materials.py:%d' % st.lineno)
            seen[st.name] = st.lineno


@law('C22')
def printed_name(L):
    for c in materials(L):
        note(L, c, '__str__')
        m = L.I.call(L.st, L.I.classval(c), [], {})
        L.eq('%s: str()' % c.name, L.run('return str(m)', m=m), T.const(c.name.replace('_', '-')))


@law('C22', ['0.5', '0.6'])
def found_by_index(L, lam):
    """every material within the tolerance, and only them"""
    lam = F(lam)
    base, tol = L.cls('Material'), F('0.03')
    ms = materials(L)
    for target in (F('1.5'), F('1.65'), F('1.8')):
        r = L.apply(L.get(base, 'findByIndex'), target, lam, tol)
        L.entry = 'Material.findByIndex (raytracing/materials.py)'
        got = [x.a[0] for x in L.seq(r)]
        want = []
        for c in ms:
            pq, _ = square(L, c)
            if abs(isqrt(U.at(pq, lam)) - target) < tol:
                want.append(T.const(c.name))
        L.eq('materials of index %s within %s' % (float(target), float(tol)), T.tup(got), T.tup(want))


@law('C22')
def abstract_material(L):
    L.raises('a material without a kind has no index', L.trial(L.apply, L.get(L.cls('Material'), 'n'), L.var('x', '+')), 'TypeError')
