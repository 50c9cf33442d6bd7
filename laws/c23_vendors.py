"""Catalogue lenses and objectives."""
import re
import ast
from fractions import Fraction as F
from . import law
from .common import *
from vg.models import known_value

NO_GLASS = ('PN_33_921', 'PN_88_593')      # given with indices, not glasses
MODULES = ('thorlabs', 'eo')


def leaves(L, base):
    out = []
    for c in L.P.cls(base).subclasses:
        out += leaves(L, c.name) if c.subclasses else [c]
    return out


def lenses(L, base='CompoundLens'):
    out = []
    for c in leaves(L, base):
        if c.module.name.split('.')[-1] in MODULES and c not in out:
            out.append(c)
    return out


def val(t):
    """float value of a constant term, None when it is not one"""
    return known_value(t) if type(t) is T.Leaf else None


def string(t):
    return t.a if type(t) is T.Leaf and t.kind == 'const' and isinstance(t.a, str) else None


def num(L, e, name):
    return val(L.get(e, name))


def is_doublet(L, e):
    return L.raw(e, 'fa') is not None


def close(a, b, rel):
    return a is not None and b is not None and abs(a - b) <= rel * abs(b)


def optics(L, label, e):
    """what the glass does is what the catalogue says"""
    f, fb, te, dia = num(L, e, 'designFocalLength'), num(L, e, 'fb'), num(L, e, 'te'), num(L, e, 'apertureDiameter')
    f1 = val(L.idx(L.call(e, 'effectiveFocalLengths'), 0))
    f2 = val(L.idx(L.call(e, 'effectiveFocalLengths'), 1))
    b = val(L.call(e, 'backFocalLength'))
    L.fact(label + ': focal length within 5% of the catalogue', close(f1, f, 0.05), 'computed %s, catalogue %s' % (f1, f))
    L.fact(label + ': same focal length on both sides, in air', close(f2, f1, 1e-9), '%s and %s' % (f1, f2))
    L.fact(label + ': back focal length within 5% of the catalogue', close(b, fb, 0.05), 'computed %s, catalogue %s' % (b, fb))
    Rs = [num_or_flat(L, e, 'R1'), num_or_flat(L, e, 'R3' if is_doublet(L, e) else 'R2')]
    thick = sum(num(L, e, k) for k in (('tc1', 'tc2') if is_doublet(L, e) else ('tc',)))
    h = dia / 2

    def sag(R):
        if R is None:
            return 0
        if abs(R) < h:
            return None
        return R - (R / abs(R)) * (R * R - h * h) ** .5
    s = [sag(R) for R in Rs]
    ok = None not in s
    L.fact(label + ': the diameter is smaller than the spheres of its faces', ok)
    if ok:
        t = thick + s[1] - s[0]
        L.fact(label + ': edge thickness within 6% of the catalogue', close(t, te, 0.06), 'computed %s, catalogue %s' % (t, te))
    L.fact(label + ': length is the sum of the thicknesses', close(num(L, e, 'L'), thick, 1e-9))


def num_or_flat(L, e, name):
    t = L.get(e, name)
    return val(t)


def glass(L, label, e, w):
    """indices are those of the materials at wavelength w"""
    for n, m in ((('n1', 'mat1'), ('n2', 'mat2')) if is_doublet(L, e) else (('n', 'mat'),)):
        mat = L.get(e, m)
        if mat is NONE:
            continue
        L.eq('%s: %s is the index of %s' % (label, n, m), L.get(e, n), L.call(mat, 'n', w))


def parts(L, e):
    return [x for x in L.seq(L.get(e, 'elements'))]


@law('C23', ['AchromatDoubletLens', 'SingletLens'])
def lenses_are_what_they_say(L, base):
    """focal lengths, thickness and diameter of the catalogue are those of the surfaces and glasses"""
    k = 0
    for c in lenses(L, base):
        L.entry = '%s (raytracing/%s.py)' % (c.name, c.module.name.split('.')[-1])
        a = L.attempt(L.new, c.name)
        L.quiet('%s: can be created' % c.name, a)
        e = a.value
        if e is None:
            continue
        k += 1
        optics(L, c.name, e)
        dia = L.get(e, 'apertureDiameter')
        for i, x in enumerate(parts(L, e)):
            if i % 2 == 0:
                L.eq('%s: surface %d has the diameter of the lens' % (c.name, i), L.get(x, 'apertureDiameter'), dia)
        w = L.get(e, 'wavelengthRef')
        if w is not NONE:
            glass(L, c.name, e, w)
    L.fact('at least %d lenses were analysed' % (300 if base[0] == 'A' else 6), k >= (300 if base[0] == 'A' else 6), k)


@law('C23', ['AchromatDoubletLens', 'SingletLens'])
def at_another_wavelength(L, base):
    """with a wavelength, a lens has the indices of its glasses at that wavelength"""
    k = 0
    for c in lenses(L, base):
        if c.name in NO_GLASS:
            continue
        L.entry = '%s (raytracing/%s.py)' % (c.name, c.module.name.split('.')[-1])
        k += 1
        w = N(F(7, 10))
        e = L.new(c.name, wavelength=w)
        glass(L, c.name, e, w)
        L.eq('%s: the first surface enters the first glass' % c.name, L.get(parts(L, e)[0], 'n2'), L.get(e, 'n1' if is_doublet(L, e) else 'n'))
        f = val(L.idx(L.call(e, 'effectiveFocalLengths'), 0))
        L.fact(c.name + ': the focal length at 700 nm is within 10% of the catalogue', close(f, num(L, e, 'designFocalLength'), 0.1), f)
    L.fact('at least %d lenses were analysed' % (300 if base[0] == 'A' else 6), k >= (300 if base[0] == 'A' else 6), k)


@law('C23')
def part_numbers(L):
    """Thorlabs doublets: ACddd-fff have a diameter of ddd/10 mm and a focal length of fff mm, ACN are negative"""
    k = 0
    for c in lenses(L, 'AchromatDoubletLens'):
        m = re.match(r'(ACN?|ACT)(\d{3})_(\d+)_', c.name)
        if m is None or c.module.name.split('.')[-1] != 'thorlabs':
            continue
        L.entry = '%s (raytracing/thorlabs.py)' % c.name
        k += 1
        e = L.new(c.name)
        dia, f = num(L, e, 'apertureDiameter'), num(L, e, 'fa')
        L.fact('%s: diameter' % c.name, abs(dia * 10 - int(m.group(2))) <= 0.5, dia)
        want = int(m.group(3)) * (-1 if m.group(1) == 'ACN' else 1)
        L.fact('%s: focal length' % c.name, abs(f - want) <= max(0.5, 0.02 * abs(want)), f)
        L.eq('%s: design focal length' % c.name, L.get(e, 'designFocalLength'), L.get(e, 'fa'))
    L.fact('at least 295 part numbers were read', k >= 295, k)


@law('C23')
def labels(L):
    """a lens is labelled with its own part number"""
    k = 0
    for c in lenses(L):
        L.entry = '%s (raytracing/%s.py)' % (c.name, c.module.name.split('.')[-1])
        e = L.new(c.name)
        lab = L.get(e, 'label')
        L.fact('%s: has a label' % c.name, string(lab))
        got = re.sub(r'[^A-Za-z0-9]', '', string(lab) or '').replace('EO', 'PN')
        L.fact('%s: label' % c.name, got == c.name.replace('_', ''), string(lab))
        k += 1
    L.fact('at least 310 labels were read', k >= 310, k)


@law('C23')
def mounted_lenses(L):
    """the mounted (-ML) version of a lens has the same surfaces and glasses"""
    k = 0
    by = {c.name: c for c in lenses(L)}
    for n in sorted(by):
        if not n.endswith('_ML') or n[:-3] not in by:
            continue
        L.entry = '%s (raytracing/thorlabs.py)' % n
        k += 1
        a, b = L.new(n[:-3]), L.new(n)
        for p, tol in (('R1', .01), ('R2', .01), ('R3', .01), ('tc1', .02), ('tc2', .02), ('apertureDiameter', 0), ('fa', .02),
                       ('fb', .01), ('n1', .001), ('n2', .001)):
            x, y = L.get(a, p), L.get(b, p)
            if x is y:
                continue
            L.fact('%s: %s' % (n, p), close(val(x), val(y), tol), '%s, and %s for %s' % (val(y), val(x), n[:-3]))
    L.fact('at least 120 mounted lenses were compared', k >= 120, k)


@law('C23')
def defined_once(L):
    """no lens is hidden by another one of the same name"""
    for mod in MODULES + ('olympus', 'nikon', 'materials'):
        seen = {}
        for st in L.P.module(mod).tree.body:
            if isinstance(st, ast.ClassDef):
                L.fact('%s.%s is defined once' % (mod, st.name), st.name not in seen, '%s.py:%d and %s' % (mod, st.lineno, seen.get(st.name)))
                seen[st.name] = st.lineno


@law('C23')
def list_of_lenses(L):
    """all() gives the name of every lens, once"""
    for base in ('CompoundLens', 'AchromatDoubletLens', 'SingletLens'):
        got = L.seq(L.call(L.cls(base), 'all'))
        L.entry = 'CompoundLens.all (raytracing/specialtylenses.py)'
        names = [string(x) for x in got]
        want = [c.name for c in leaves(L, base)]
        L.fact(base + ': every lens', sorted(names) == sorted(want), '%d names, %d classes' % (len(names), len(want)))
        L.fact(base + ': once', len(names) == len(set(names)))


OBJECTIVES = ['olympus', 'nikon']


@law('C23')
def objectives(L):
    """catalogue objectives: magnification of their name, telecentric, as long as they say"""
    k = 0
    for c in leaves(L, 'Objective'):
        mod = c.module.name.split('.')[-1]
        if mod not in OBJECTIVES:
            continue
        k += 1
        L.entry = '%s (raytracing/%s.py)' % (c.name, mod)
        e = L.new(c.name)
        f = L.get(e, 'f')
        m = re.search(r'(\d+)X', c.name)
        tube = {'olympus': (180, 90), 'nikon': (200,)}[mod]
        L.fact('%s: the name has a magnification' % c.name, m is not None)
        L.fact('%s: focal length is that of the tube lens over the magnification' % c.name,
               any(close(val(f), t / int(m.group(1)), 1e-9) for t in tube), val(f))
        mag = L.get(e, 'magnification')
        if mag is not NONE:
            L.eq('%s: magnification' % c.name, mag, N(int(m.group(1))))
            fn, na = L.get(e, 'fieldNumber'), L.get(e, 'NA')
            L.eq('%s: optical invariant' % c.name, L.call(e, 'maximumOpticalInvariant'), T.div(T.mul(fn, na), T.mul(N(2), mag)))
        L.eq('%s: length' % c.name, L.get(e, 'L'), L.get(e, 'focusToFocusLength'))
        for name, want in zip('ABCD', (N(0), f, T.neg(T.div(N(1), f)), N(0))):
            L.eq('%s: %s' % (c.name, name), L.get(e, name), want)
        ba, na = num(L, e, 'backAperture'), num(L, e, 'NA')
        L.fact('%s: back aperture of the order of 2 f NA' % c.name, 0.4 < ba / (2 * na * val(f)) < 1.6, ba)
        lab = L.get(e, 'label')
        L.fact('%s: labelled' % c.name, m.group(1) in (string(lab) or ''))
    L.fact('at least 6 objectives were analysed', k >= 6, k)


@law('C23', ['both', 'reference', 'wavelength', 'indices', 'indices and wavelength', 'one index'])
def which_index(L, how):
    """materials at the wavelength asked for, or else the reference one; without materials, the indices given"""
    w, wr = N(F(7, 10)), N(F(5876, 10000))
    n1, n2 = L.var('n1', '+'), L.var('n2', '+')
    d = dict(fa=N(F(502, 10)), fb=N(F(434, 10)), R1=N(F(333, 10)), R2=N(F(-2228, 100)), R3=N(F(-29107, 100)), tc1=N(9), tc2=N(F(25, 10)),
             te=N(F(87, 10)), diameter=N(F(254, 10)))
    s = dict(f=N(100), fb=N(97), R1=N(F(333, 10)), R2=N(F(-2228, 100)), tc=N(9), te=N(F(87, 10)), diameter=N(F(254, 10)))
    kd, ks = {}, {}
    mats = L.cls('N_BAF10'), L.cls('SF5')
    if 'ind' in how:
        kd, ks = dict(n1=n1, n2=n2), dict(n=n1)
        if 'and' in how:
            kd.update(wavelength=w)
            ks.update(wavelength=w)
    else:
        kd, ks = dict(mat1=mats[0], mat2=mats[1]), dict(n=NONE, mat=mats[0])
        for k in (kd, ks):
            if how in ('both', 'wavelength'):
                k['wavelength'] = w
            if how in ('both', 'reference'):
                k['wavelengthRef'] = wr
        n1, n2 = (L.call(m, 'n', wr if how == 'reference' else w) for m in mats)
    if how == 'one index':
        del kd['n2'], ks['n']
        ks['n'] = NONE
        L.raises('a doublet without one of its indices is refused', L.trial(L.new, 'AchromatDoubletLens', **dict(d, **kd)), 'ValueError')
        L.raises('a singlet without index is refused', L.trial(L.new, 'SingletLens', **dict(s, **ks)), 'ValueError')
        return
    if 'ind' in how:
        for x in (n1, n2):
            L.assume(T.cmp_num('>', x, N(1)))
            L.assume(T.cmp_num('<', x, N(2)))
        L.lenient = True            # some of these glasses make a lens without power
    e = L.new('AchromatDoubletLens', **dict(d, **kd))
    L.note(e, '__init__')
    L.eq('doublet: n1', L.get(e, 'n1'), n1)
    L.eq('doublet: n2', L.get(e, 'n2'), n2)
    e = L.new('SingletLens', **dict(s, **ks))
    L.note(e, '__init__')
    L.eq('singlet: n', L.get(e, 'n'), n1)


@law('C23', [(n, k) for n in ('AC254_050_A', 'PN_33_922', 'LA1608_A', 'ACN254_050_A') for k in ('list', 'array')])
def focal_shifts(L, name, kind):
    """the shift at a wavelength is the focal length there minus the design one, and the lens is unchanged"""
    e = L.new(name)
    before = L.image(e)
    ws = [N(F(5, 10)), N(F(6, 10)), N(F(7, 10))]
    L.note(e, 'focalShifts')
    r = L.run('import numpy\nreturn e.focalShifts(%s)' % ('ws' if kind == 'list' else 'numpy.array(ws)'), e=e, ws=L.v(list(ws)))
    sh = L.idx(r, 1)
    L.eq('as many as wavelengths', L.length(sh), N(3))
    for i, w in enumerate(ws):
        f = L.idx(L.call(L.new(name, wavelength=w), 'effectiveFocalLengths'), 0)
        L.eq('shift %d' % i, L.idx(sh, i), T.sub(f, L.get(e, 'designFocalLength')))
        L.eq('wavelength %d in nm' % i, L.idx(L.idx(r, 0), i), T.mul(N(1000), w))
    L.eq('the lens is unchanged', L.image(e), before)


def notes(L, had):
    return [string(a.a[1][1] if isinstance(a.a[1], (list, tuple)) else a.a[2]) for _, a in L.st.effects[had:] if a.kind == 'app' and a.a[0] == 'effect:warn']


OFF = [('f', 'less', F(99, 100)), ('f', 'more', F(101, 100)), ('fb', 'less', F(99, 100)), ('fb', 'more', F(101, 100)), ('te', 'less', F(95, 100)), ('te', 'more', F(105, 100))]


@law('C23', [(k, o[0], o[1]) for k in ('doublet', 'singlet', 'flat') for o in OFF])
def data_that_disagree(L, kind, which, way):
    """a note says so, with both values, when a focal length (1%) or the edge thickness (5%) announced is not the one that follows from the rest"""
    limit = next(o[2] for o in OFF if o[:2] == (which, way))
    R, t, n, h = (F(25), F(-25), F(-85)), (F(6), F(2)), (F(3, 2), F(8, 5)), F(7)
    if kind != 'doublet':
        R, t, n = (F(25), F(-25) if kind == 'singlet' else None), t[:1], n[:1]
    m, before = (F(1), F(0), F(0), F(1)), F(1)
    for i, r in enumerate(R):  # what follows from the surfaces
        after = n[i] if i < len(n) else F(1)
        p = (before - after) / (after * r) if r is not None else F(0)
        q = before / after
        m = (m[0], m[1], p * m[0] + q * m[2], p * m[1] + q * m[3])
        if i < len(t):
            m = (m[0] + t[i] * m[2], m[1] + t[i] * m[3], m[2], m[3])
        before = after
    f, fb = -1 / m[2], -m[0] / m[2]
    sag = lambda r: r - (r * r - h * h) ** 0.5 * (1 if r > 0 else -1) if r is not None else 0
    te = F(float(sum(t) + F(float(sag(R[-1]))) - F(float(sag(R[0]))))).limit_denominator(10 ** 9)
    true = {'f': f, 'fb': fb, 'te': te}
    for within in (True, False):
        ratio = limit + F(1, 2000) * (1 if (limit < 1) == within else -1)  # of what is obtained to what is announced
        said = dict(true)
        said[which] = true[which] / ratio
        d = dict(R1=N(R[0]), R2=N(R[1]) if R[1] is not None else INF, te=N(said['te']), fb=N(said['fb']), diameter=N(2 * h), label='L')
        if kind == 'doublet':
            d.update(fa=N(said['f']), R3=N(R[2]), tc1=N(t[0]), tc2=N(t[1]), n1=N(n[0]), n2=N(n[1]))
        else:
            d.update(f=N(said['f']), tc=N(t[0]), n=N(n[0]))
        had = len(L.st.effects)
        e = L.new('AchromatDoubletLens' if kind == 'doublet' else 'SingletLens', **d)
        L.note(e, '__init__')
        got = notes(L, had)
        ratio = float(ratio)
        if within:
            L.fact('no note at %.4f of the value announced' % ratio, not got, '%s' % got)
            continue
        L.fact('one note at %.4f of the value announced' % ratio, len(got) == 1, '%s' % got)
        for m_ in got[:1]:
            v = [float(x) for x in re.findall(r'(?<![A-Za-z])-?[0-9]+\.?[0-9]*(?:e[-+]?[0-9]+)?', (m_ or '').replace('1%', ''))]
            L.fact('it gives the value obtained', any(close(x, float(true[which]), 1e-2) and abs(x - float(true[which])) < 0.06 for x in v[:1]), m_)
            L.fact('and the one announced', any(close(x, float(said[which]), 1e-2) and abs(x - float(said[which])) < 0.06 for x in v[1:2]), m_)
