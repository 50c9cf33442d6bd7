"""What is printed or reported is what was computed."""
from . import law
import re
from fractions import Fraction
from .common import *
from . import c24_zemax as zemax
from .drawing import path, figures
from vg.models import cst

NUMBER = re.compile(r'(?<![\w./])[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|\binf\b)(?![\d/])')


def pieces(L, v):
    """[(guard, [text or (value, format)])] of a string"""
    out = []
    for g, l in T.leaves(v, TRUE):
        parts = l.a[1] if l.kind == 'app' and l.a[0] == 'concat' else (l,)
        ps = []
        for p in parts:
            if p.kind == 'app' and p.a[0] == 'fmt':
                ps.append((p.a[1][0], p.a[1][1].a))
            elif p.kind == 'const':      # numbers known beforehand are already in the text
                at = 0
                for m in NUMBER.finditer(p.a):
                    ps.append(p.a[at:m.start()])
                    ps.append((INF if 'inf' in m.group() else N(Fraction(m.group())), len(m.group().partition('.')[2]) if 'e' not in m.group() else ''))
                    at = m.end()
                ps.append(p.a[at:])
            else:
                ps.append((p, ''))
        out.append((g, ps))
    return out


def close(L, label, a, b, when=TRUE):
    """a value of a text is this one, rounded to the digits written"""
    x, y = [cst(v) if hasattr(v, 'kind') else None for v in (a[0], b)]
    if isinstance(a[1], int) and x is not None and y is not None:
        L.fact(label, when is FALSE or abs(x - y) <= Fraction(1, 2 * 10 ** a[1]), '%s instead of %s' % (T.show(a[0]), T.show(b)))
    else:
        L.eq(label, a[0], b, when)


def said(L, label, text, want, words=(), never=(), when=TRUE):
    """the text states the values wanted, in this order, and these words"""
    for g, ps in pieces(L, text):
        g = and_(g, when)
        if g is FALSE:
            continue
        vals = [p for p in ps if isinstance(p, tuple)]
        L.eq(label + ': how many values', N(len(vals)), N(len(want)), g)
        if len(vals) == len(want):
            for i, (a, b) in enumerate(zip(vals, want)):
                close(L, '%s: value %d' % (label, i), a, b, g)
        t = ''.join(p for p in ps if isinstance(p, str))
        for w in words:
            L.eq('%s: says "%s"' % (label, w), T.const(w in t), T.const(True), g)
        for w in never:
            L.eq('%s: does not say "%s"' % (label, w), T.const(w in t), T.const(False), g)


def printed(L, x):
    s = L.run('return str(x)', x=x)
    L.note(x, '__str__')
    return s


@law('C34', ['matrix', 'afocal', 'lens', 'group', 'edited'])
def a_matrix(L, kind):
    a, b, c = L.var('a'), L.var('b'), L.var('c', '!0')
    if kind in ('matrix', 'edited'):
        A = L.var('A', '!0')
        m = L.new('Matrix', A, b, c, T.div(T.add(N(1), T.mul(b, c)), A))
    elif kind == 'afocal':
        A = L.var('A', '!0')
        m = L.new('Matrix', A, b, 0, T.div(N(1), A))
    elif kind == 'lens':
        m = L.new('Lens', L.var('f', '!0'))
    else:
        m = L.new('MatrixGroup', L.v([L.new('Lens', L.var('f', '!0')), L.new('Space', L.var('d', '+'))]))
        L.call(m, 'append', L.new('Space', L.var('d2', '+')))
    vals = [L.get(m, k) for k in 'ABCD']
    before = L.image(m)
    s = printed(L, m)
    if kind == 'afocal':
        said(L, 'a matrix', s, vals + [INF], words=['afocal'])
    else:
        said(L, 'a matrix', s, [v for v in vals] + [T.div(N(-1), vals[2])], never=['afocal'])
    L.eq('printing does not modify it', L.image(m), before)


@law('C34', ['new', 'blocked', 'traced', 'refracted'])
def a_ray(L, kind):
    y, t, z = L.var('y'), L.var('t'), L.var('z')
    r = L.new('Ray', y, t, z, kind == 'blocked')
    if kind == 'traced':
        r = L.mul(L.new('Space', L.var('d', '+')), r)
    if kind == 'refracted':
        r = L.mul(L.new('Lens', L.var('f', '!0'), diameter=L.var('D', '+')), r)
    want = [L.get(r, k) for k in ('y', 'theta', 'z')]
    before = L.image(r)
    s = printed(L, r)
    b = L.get(r, 'isBlocked')
    said(L, 'a blocked ray', s, want, words=['(blocked)'], when=L.cmp("==", b, True))
    said(L, 'a ray that is not blocked', s, want, never=['blocked'], when=not_(L.cmp("==", b, True)))
    L.eq('printing does not modify it', L.image(r), before)


@law('C34', ['finite', 'any', 'converging'])
def a_beam(L, kind):
    n, lam, z, zR = L.var('n', '+'), L.var('lam', '+'), L.var('z'), L.var('zR', '+')
    x = L.var('x')
    if kind == 'any':
        zR = L.var('zR')
    elif kind == 'converging':
        x = T.neg(L.var('x', '+'))
    b = L.new('GaussianBeam', q=L.run('return x+1j*zR', x=x, zR=zR), n=n, wavelength=lam, z=z)
    finite = T.cmp_num('>', zR, N(0))
    q = L.get(b, 'q')
    before = L.image(b)
    s = printed(L, b)
    want = [q, L.get(b, 'w'), L.get(b, 'R'), z, T.mul(lam, N(1000000)), zR, L.get(b, 'waist'), L.get(b, 'waistPosition')]
    said(L, 'a beam', s, want, never=['not finite'], when=finite)
    said(L, 'a beam without size', s, [q], words=['not finite'], when=not_(finite))
    L.eq('printing does not modify it', L.image(b), before)


@law('C34', ['MM', 'IN'])
def a_prescription(L, unit):
    """one line per surface, in order, with radius, glass, spacing and diameter in mm"""
    L.files()
    sf, c, d, h = zemax.doublet(L)
    r = zemax.write(L, sf, unit=unit)
    k = N(zemax.UNITS[unit])
    before = L.image(r)
    s = L.call(r, 'prescription')
    L.note(r, 'prescription')
    want = []
    for i in range(3):
        want += [T.div(k, c[i]), T.mul(k, d[i]), T.mul(T.mul(N(2), k), h[i])]
    said(L, 'prescription', s, want, words=['N-BK7', 'SF5', 'Air'])
    for g, ps in pieces(L, s):
        t = ''.join(p if isinstance(p, str) else '#' for p in ps)
        lines = [x.split() for x in t.split('\n') if x.strip()]
        L.fact('a line of titles and one line per surface', len(lines) == 4, t)
        L.eq('columns', T.const(' '.join(lines[0])), T.const('R Material d diameter'), g)
        for x, glass in zip(lines[1:], ('N-BK7', 'SF5', 'Air')):
            L.eq('glass in its column', T.const(' '.join(x)), T.const('# %s # #' % glass), g)
    L.eq('reading it does not modify the reader', L.image(r), before)


def said_on_screen(L, n):
    """what was printed since"""
    return [x for _, e in L.st.effects[n:] if e.kind == 'app' and e.a[0] == 'effect:print' for x in e.a[1]]


RAYS = {'through': (0, 0), 'edge': (1, Fraction(7, 100)), 'not collected': (0, Fraction(15, 100)), 'below': (Fraction(-1, 2), Fraction(1, 20)),
        'vignetted': (Fraction(9, 10), Fraction(75, 1000)), 'vignetted below': (Fraction(-9, 10), Fraction(-75, 1000))}
CASES = {'all through': ['through', 'edge', 'below'], 'mixed': ['through', 'edge', 'not collected', 'vignetted', 'vignetted below'],
         'none through': ['not collected', 'not collected'], 'only vignetted': ['vignetted', 'vignetted below'],
         'one vignetted': ['through', 'vignetted', 'below'], 'two not collected': ['through', 'not collected', 'not collected'],
         'own source': ['through', 'vignetted', 'vignetted below', 'not collected', 'edge', 'below', 'through', 'not collected']}


@law('C34', list(CASES) + ['no field stop'])
def an_efficiency(L, kind):
    """the report of efficiency states the invariants and the ratio of the rays emitted that are transmitted and vignetted"""
    L.matplotlib()
    p = path(L, L.new('Space', 30), L.new('Lens', 10, diameter=T.div(N(62), N(10))), L.new('Space', 5), L.new('Aperture', 4), L.new('Space', 35))
    half = L.v(1) if kind != 'no field stop' else INF
    L.I.stubs[('ImagingPath', 'halfFieldOfView')] = lambda I, st, me, a, k: half
    L.I.stubs[('ImagingPath', 'fieldOfView')] = lambda I, st, me, a, k: T.mul(N(2), half) if half is not INF else INF
    which = CASES.get(kind, [])
    angle = T.div(N(1), N(5))
    height = half
    kw = dict(emissionHalfAngle=angle, nRays=len(which))
    if kind == 'own source':
        height = N(2)
        kw['objectDiameter'] = N(4)
    numbers = []
    for w in which:
        y, t = RAYS[w]
        numbers += [T.div(T.add(N(t), angle), T.mul(N(2), angle)), T.div(T.add(N(y), height), T.mul(N(2), height))]
    numbers.reverse()
    L.I.stubs['numpy.random.random'] = lambda I, st, me, a, k: numbers.pop()
    before = L.image(p, skip=('figure', 'design', '_lastRayToBeTraced', '_lastRayTrace', 'iteration'))
    n = len(L.st.effects)
    a = L.attempt(L.call, p, 'reportEfficiency', **kw)
    L.quiet('the report works', a)
    L.note(p, 'reportEfficiency')
    text = said_on_screen(L, n)
    L.eq('the path is not modified', L.image(p, skip=('figure', 'design', '_lastRayToBeTraced', '_lastRayTrace', 'iteration')), before)
    lines = []
    for x in text:
        for g, ps in pieces(L, x):
            L.fact('one report', g is TRUE, '%s' % ps)
            lines.append(ps)

    def line(words, values):
        got = [ps for ps in lines if words in ''.join(p for p in ps if isinstance(p, str))]
        L.fact('one line about: ' + words, len(got) == 1, '%d lines' % len(got))
        nums = [p for p in got[0] if isinstance(p, tuple)] if got else []
        L.fact(words + ': how many values', len(nums) == len(values), '%s' % [T.show(v) for v, _ in nums])
        for i, (a, b) in enumerate(zip(nums, values)):
            close(L, '%s: value %d' % (words, i), a, b)
    if kind == 'no field stop':
        L.fact('says why there is no report', len(lines) == 1 and 'no Field Stop' in lines[0][0], '%s' % lines)
        return
    through = len([w for w in which if w in ('through', 'edge', 'below')])
    lost = len([w for w in which if 'vignetted' in w])
    axial, fnumber, NA = L.call(p, 'axialRay'), L.call(p, 'fNumber'), L.call(p, 'NA')
    inv = L.call(p, 'lagrangeInvariant')
    Is = T.mul(height, angle)
    line('Lagrange invariant', [inv, half, L.get(axial, 'theta')])
    line('Object-side NA', [NA, fnumber])
    line('Field of view', [T.mul(N(2), half)])
    line('source equivalent invariant', [Is, height, angle])
    line('from Monte Carlo', [N(Fraction(100 * through, len(which))), angle, T.mul(N(2), height)])
    line('source invariants', [T.mul(N(100), T.div(inv, Is))])
    line('diameter of AS', [N(4), N(35)])
    if through + lost:
        line('Relative efficiency', [N(Fraction(100 * through, through + lost))])
    if lost:
        line('Loss to vignetting', [N(Fraction(100 * lost, through + lost))])
        where = [ps for ps in lines if 'positions' in ''.join(p for p in ps if isinstance(p, str))]
        L.fact('the positions', len(where) == 1 and '30' in ''.join(p if isinstance(p, str) else T.show(p[0]) for p in where[0]), '%s' % where)
    else:
        line('No losses to vignetting', [])
    if not which:
        return
    ax = L.seq(L.get(figures(L)[-1], 'axes'))[0]
    inside = {'Transmitted': [], 'Vignetted': [], 'Blocked': []}
    for g, q in L.items(L.get(ax, 'points')):
        x, y, kw = L.seq(q)
        label = [k for k in inside if L.cmp('==', L.run('return kw["label"]', kw=kw), T.const(k)) is TRUE]
        L.fact('dots of one of the three kinds', len(label) == 1 and g is TRUE)
        inside[label[0]] += list(zip(L.seq(x), L.seq(y)))
    for k, n in (('Transmitted', through), ('Vignetted', lost), ('Blocked', len(which) - through - lost)):
        L.fact('one dot per ray: ' + k, len(inside[k]) == n, '%d instead of %d' % (len(inside[k]), n))
    for k in inside:
        for i, (x, y) in enumerate(inside[k]):
            ok = and_(T.cmp_num('<=', absv(x), N(1)), T.cmp_num('<=', absv(y), N(1)))
            L.holds('%s %d is %s the square' % (k, i, 'outside' if k == 'Blocked' else 'in'), not_(ok) if k == 'Blocked' else ok)


@law('C34', [(1, 2), (2, 3), (3, 3)])
def progress(L, done, n):
    rays = [L.new('Ray', L.var('y%d' % i), L.var('t%d' % i)) for i in range(n)]
    r = L.new('Rays', L.v(rays))
    L.run('r.iteration = n', r=r, n=N(done))
    L.run('r.progressLog = 1', r=r)
    k = len(L.st.effects)
    L.quiet('showing the progress works', L.attempt(L.call, r, 'displayProgress'))
    L.note(r, 'displayProgress')
    text = said_on_screen(L, k)
    L.fact('one line', len(text) == 1, '%d' % len(text))
    said(L, 'progress', text[0], [N(Fraction(100 * done, n))], words=['%d/%d' % (done, n), '%'])
    L.eq('the rays are the same', L.image(L.v(L.seq(r))), L.image(L.v(rays)))


def tree(c):
    return [(c, d) for d in c.subclasses] + [p for d in c.subclasses for p in tree(d)]


@law('C34', ['Rays', 'Matrix', 'CompoundLens'])
def class_hierarchy(L, name):
    """an arrow from each class to each of its subclasses"""
    k = len(L.st.effects)
    L.apply(L.fn('utils', 'printClassHierarchy'), L.cls(name))
    lines = [l.a for t in said_on_screen(L, k) for _, l in T.leaves(t, TRUE)]
    want = ['"%s" -> "%s"' % (p.name, c.name) for p, c in tree(L.P.cls(name))]
    L.fact('some', len(want) > 3)
    L.fact('an arrow for each subclass, once', sorted(x for x in lines if '->' in x) == sorted(want), '%s' % lines)
    L.fact('a graph', any(x.startswith('digraph') and '{' in x for x in lines) and lines[-1] == '}', '%s' % lines)


@law('C34', ['CompoundLens', 'AchromatDoubletLens', 'SingletLens', 'Objective'])
def catalog(L, name):
    """each lens of the catalog is listed once"""
    got = L.seq(L.run('return c.all()', c=L.cls(name))) if name != 'Objective' else \
        L.seq(L.apply(L.fn('utils', 'allSubclasses'), L.cls(name)))
    want = [c.name for _, c in tree(L.P.cls(name)) if not c.subclasses]
    L.fact('some', len(want) > 3)
    L.eq('the lenses', T.const(' '.join(sorted(x.a for x in got))), T.const(' '.join(sorted(want))))
