"""Every optical element has the ABCD matrix of its physics, written here from first principles."""
from . import law
from .common import *


def _basic(L, e, A, B, C, D, length, nf, nb, dia=None):
    for f, w in zip(ABCD + ('L', 'frontIndex', 'backIndex'), (A, B, C, D, length, nf, nb)):
        L.eq('.' + f, L.get(e, f), L.v(w))
    L.eq('determinant is the ratio of the indices', L.get(e, 'determinant'), T.div(L.v(nf), L.v(nb)))
    if dia is not None:
        L.eq('.apertureDiameter', L.get(e, 'apertureDiameter'), dia)


@law('C03', [True, False])
def lens(L, finite):
    f, d = L.var('f', '!0'), L.var('d', '+') if finite else INF
    e = L.new('Lens', f, **({'diameter': d} if finite else {}))
    L.note(e, '__init__')
    _basic(L, e, N(1), N(0), T.neg(T.div(N(1), f)), N(1), N(0), N(1), N(1), d)
    y = L.var('y')
    r = L.mul(e, L.new('Ray', y, N(0)))
    # a ray parallel to the axis crosses it at the focal length
    L.eq('a parallel ray goes through the focal point', T.add(L.get(r, 'y'), T.mul(f, L.get(r, 'theta'))), N(0))
    L.eq('focal length', L.idx(L.call(e, 'effectiveFocalLengths'), 1), f, far_from_zero(T.div(N(1), f)))


@law('C03', [True, False])
def space(L, finite):
    d, n, dia = L.var('d', '0+'), L.var('n', '+'), L.var('dia', '+') if finite else INF
    e = L.new('Space', d, n, **({'diameter': dia} if finite else {}))
    L.note(e, '__init__')
    _basic(L, e, N(1), d, N(0), N(1), d, n, n, dia)
    L.eq('frontVertex', L.get(e, 'frontVertex'), NONE)
    L.eq('backVertex', L.get(e, 'backVertex'), NONE)
    r0 = ray(L)
    r = L.mul(e, r0)
    L.eq('a ray goes straight', L.get(r, 'y'), T.add(L.get(r0, 'y'), T.mul(d, L.get(r0, 'theta'))))
    L.eq('a ray goes straight: z', L.get(r, 'z'), T.add(L.get(r0, 'z'), d))


@law('C03', [True, False])
def dielectric_interface(L, curved):
    n1, n2, dia = L.var('n1', '+'), L.var('n2', '+'), L.var('dia', '+')
    R = L.var('R', '!0') if curved else INF
    e = L.new('DielectricInterface', n1, n2, *([R] if curved else []), diameter=dia)
    L.note(e, '__init__')
    p = T.div(T.sub(n1, n2), T.mul(n2, R)) if curved else N(0)
    _basic(L, e, N(1), N(0), p, T.div(n1, n2), N(0), n1, n2, dia)
    L.eq('frontVertex', L.get(e, 'frontVertex'), N(0))
    L.eq('backVertex', L.get(e, 'backVertex'), N(0))
    # Snell: angles measured from the normal, which is at -y/R
    y, th = L.var('y'), L.var('th')
    r = L.mul(e, L.new('Ray', y, th))
    k = T.div(y, R) if curved else N(0)
    out = L.trial(L.get, r, 'isBlocked').value
    L.eq('Snell-Descartes', T.mul(n2, T.add(L.get(r, 'theta'), k)), T.mul(n1, T.add(th, k)), not_(out))


@law('C03', [(True, True), (False, True), (True, False), (False, False)])
def thick_lens(L, c1, c2):
    n, t, dia = L.var('n', '+'), L.var('t', '+'), L.var('dia', '+')
    R1, R2 = L.var('R1', '!0') if c1 else INF, L.var('R2', '!0') if c2 else INF
    e = L.new('ThickLens', n, R1, R2, t, diameter=dia)
    L.note(e, '__init__')
    p1 = T.div(T.sub(N(1), n), T.mul(n, R1)) if c1 else N(0)
    p2 = T.div(T.sub(n, N(1)), R2) if c2 else N(0)
    # interface, then glass, then interface
    A, B = T.add(N(1), T.mul(t, p1)), T.div(t, n)
    C, D = p1, T.div(N(1), n)
    C, D = T.add(T.mul(p2, A), T.mul(n, C)), T.add(T.mul(p2, B), T.mul(n, D))
    _basic(L, e, A, B, C, D, t, N(1), N(1), dia)
    L.eq('frontVertex', L.get(e, 'frontVertex'), N(0))
    L.eq('backVertex', L.get(e, 'backVertex'), t)


@law('C03')
def dielectric_slab(L):
    n, t, dia = L.var('n', '+'), L.var('t', '+'), L.var('dia', '+')
    e = L.new('DielectricSlab', n, t, diameter=dia)
    L.note(e, '__init__')
    _basic(L, e, N(1), T.div(t, n), N(0), N(1), t, N(1), N(1), dia)
    L.eq('frontVertex', L.get(e, 'frontVertex'), N(0))
    L.eq('backVertex', L.get(e, 'backVertex'), t)


@law('C03')
def curved_mirror(L):
    R, dia, y = L.var('R', '!0'), L.var('dia', '+'), L.var('y')
    e = L.new('CurvedMirror', R, diameter=dia)
    L.note(e, '__init__')
    # concave (converging) is negative: f = -R/2
    _basic(L, e, N(1), N(0), T.div(N(2), R), N(1), N(0), N(1), N(1), dia)


@law('C03')
def aperture(L):
    dia, na = L.var('dia', '+'), L.var('na', '+')
    e = L.new('Aperture', dia, na)
    L.note(e, '__init__')
    _basic(L, e, N(1), N(0), N(0), N(1), N(0), N(1), N(1), dia)
    L.eq('.apertureNA', L.get(e, 'apertureNA'), na)
    L.eq('default NA', L.get(L.new('Aperture', dia), 'apertureNA'), INF)


@law('C03', ['+', '-', '0'])
def axicon(L, side):
    n, al = L.var('n', '+'), L.var('al', '+')
    y = N(0) if side == '0' else L.var('y', '+') if side == '+' else T.neg(L.var('y', '+'))
    th = L.var('th')
    e = L.new('Axicon', al, n)
    _basic(L, e, N(1), N(0), N(0), N(1), N(0), N(1), N(1), INF)
    r = L.mul(e, L.new('Ray', y, th))
    L.note(e, 'mul_ray')
    dev = T.mul(T.sub(n, N(1)), al)
    L.eq('deviation towards the axis', L.get(r, 'theta'),
         T.sub(th, dev) if side == '+' else T.add(th, dev) if side == '-' else th)
    L.eq('height is unchanged', L.get(r, 'y'), y)
    a = L.trial(L.mul, e, L.new('GaussianBeam', w=L.var('w', '+')))
    L.raises('an axicon refuses Gaussian beams', a, 'TypeError')


@law('C03')
def axicon_focal_line(L):
    n, al, dia = L.var('n', '+'), L.var('al', '+'), L.var('dia', '+')
    L.assume(T.cmp_num('>', n, N(1)))
    e = L.new('Axicon', al, n, diameter=dia)
    # the outermost parallel ray crosses the axis at the end of the focal line
    r = L.mul(e, L.new('Ray', T.div(dia, N(2)), N(0)))
    z = L.call(e, 'focalLineLength')
    L.eq('outermost ray crosses the axis at focalLineLength()', T.add(L.get(r, 'y'), T.mul(z, L.get(r, 'theta'))), N(0))
    y = L.var('y', '!0')             # above or below the axis
    r = L.mul(L.new('Axicon', al, n), L.new('Ray', y, N(0)))
    z = L.call(e, 'focalLineLength', y)
    L.eq('a ray at yMax crosses the axis at focalLineLength(yMax)', T.add(L.get(r, 'y'), T.mul(z, L.get(r, 'theta'))), N(0))


def _sphere(n1, n2, R):
    return (N(1), N(0), T.div(T.sub(n1, n2), T.mul(n2, R)), T.div(n1, n2))


def _dot(m, p):
    a, b, c, d = m
    A, B, C, D = p
    return (T.add(T.mul(a, A), T.mul(b, C)), T.add(T.mul(a, B), T.mul(b, D)),
            T.add(T.mul(c, A), T.mul(d, C)), T.add(T.mul(c, B), T.mul(d, D)))


def _chain(ms):
    p = (N(1), N(0), N(0), N(1))
    for m in ms:
        p = _dot(m, p)
    return p


@law('C03')
def singlet_lens(L):
    L.lenient = True
    f, fb, n, tc, te = L.var('f', '!0'), L.var('fb', '!0'), L.var('n', '+'), L.var('tc', '+'), L.var('te', '+')
    R1, R2, dia = L.var('R1', '!0'), L.var('R2', '!0'), L.var('dia', '+')
    e = L.new('SingletLens', f=f, fb=fb, R1=R1, R2=R2, tc=tc, te=te, n=n, diameter=dia)
    L.note(e, '__init__')
    w = _chain([_sphere(N(1), n, R1), (N(1), tc, N(0), N(1)), _sphere(n, N(1), R2)])
    _basic(L, e, *w, tc, N(1), N(1), dia)
    L.eq('frontVertex', L.get(e, 'frontVertex'), N(0))
    L.eq('backVertex', L.get(e, 'backVertex'), tc)
    for i, x in enumerate(L.seq(L.get(e, 'elements'))):
        if i != 1:
            L.eq('surface %d has the diameter of the lens' % i, L.get(x, 'apertureDiameter'), dia)


@law('C03')
def achromat_doublet(L):
    L.lenient = True
    f, fb, n1, n2 = L.var('f', '!0'), L.var('fb', '!0'), L.var('n1', '+'), L.var('n2', '+')
    t1, t2, te = L.var('t1', '+'), L.var('t2', '+'), L.var('te', '+')
    R1, R2, R3, dia = L.var('R1', '!0'), L.var('R2', '!0'), L.var('R3', '!0'), L.var('dia', '+')
    e = L.new('AchromatDoubletLens', fa=f, fb=fb, R1=R1, R2=R2, R3=R3, tc1=t1, tc2=t2, te=te, n1=n1, n2=n2, diameter=dia)
    L.note(e, '__init__')
    w = _chain([_sphere(N(1), n1, R1), (N(1), t1, N(0), N(1)), _sphere(n1, n2, R2), (N(1), t2, N(0), N(1)),
                _sphere(n2, N(1), R3)])
    _basic(L, e, *w, T.add(t1, t2), N(1), N(1), dia)
    L.eq('frontVertex', L.get(e, 'frontVertex'), N(0))
    L.eq('backVertex', L.get(e, 'backVertex'), T.add(t1, t2))
    for i, x in enumerate(L.seq(L.get(e, 'elements'))):
        if i % 2 == 0:
            L.eq('surface %d has the diameter of the lens' % i, L.get(x, 'apertureDiameter'), dia)


@law('C03')
def objective(L):
    L.lenient = True
    f, na, ff, wd, ba = L.var('f', '+'), L.var('na', '+'), L.var('ff', '+'), L.var('wd', '+'), L.var('ba', '+')
    L.assume(T.cmp_num('>=', ff, T.mul(N(2), f)))
    e = L.new('Objective', f=f, NA=na, focusToFocusLength=ff, backAperture=ba, workingDistance=wd)
    L.note(e, '__init__')
    # from back focal plane to front focal plane
    for k, w in zip(ABCD + ('L',), (N(0), f, T.neg(T.div(N(1), f)), N(0), ff)):
        L.eq('objective .' + k, L.get(e, k), w)
    L.eq('back aperture', L.get(L.idx(e, 0), 'apertureDiameter'), ba)


@law('C03', [True, False])
def four_f_system(L, finite):
    """two lenses separated by the sum of their focal lengths, between their outer focal planes"""
    f1, f2 = L.var('f1', '+'), L.var('f2', '+')
    d = (L.var('d1', '+'), L.var('d2', '+')) if finite else (INF, INF)
    e = L.new('System4f', f1, f2, *(d if finite else ()), **({'label': 'relay'} if finite else {}))
    L.note(e, '__init__')
    _basic(L, e, T.neg(T.div(f2, f1)), N(0), N(0), T.neg(T.div(f1, f2)), T.mul(N(2), T.add(f1, f2)), N(1), N(1))
    L.eq('label', L.get(e, 'label'), 'relay' if finite else '')
    y = L.var('y')
    z, at = N(0), []
    for x in L.seq(L.get(e, 'elements')):
        if L.I.obj(L.st, x).cls.name == 'Lens':
            at.append((z, L.get(x, 'f'), L.get(x, 'apertureDiameter')))
        z = T.add(z, L.get(x, 'L'))
    L.eq('two lenses', N(len(at)), N(2))
    if len(at) == 2:
        for i, w in enumerate([(f1, f1, d[0]), (T.add(T.mul(N(2), f1), f2), f2, d[1])]):
            for k, g, v in zip(('position', 'focal length', 'diameter'), at[i], w):
                L.eq('lens %d: %s' % (i, k), g, v)
    r = L.mul(e, L.new('Ray', y, N(0)))
    L.eq('the image is inverted, f2/f1 times as large', L.get(r, 'y'), T.neg(T.div(T.mul(f2, y), f1)))


@law('C03', [True, False])
def two_f_system(L, finite):
    """a lens between its focal planes"""
    f = L.var('f', '+')
    d = L.var('d', '+') if finite else INF
    e = L.new('System2f', f, *([d] if finite else []), **({'label': 'fourier'} if finite else {}))
    L.note(e, '__init__')
    _basic(L, e, N(0), f, T.neg(T.div(N(1), f)), N(0), T.mul(N(2), f), N(1), N(1))
    L.eq('label', L.get(e, 'label'), 'fourier' if finite else '')
    at = [x for x in L.seq(L.get(e, 'elements')) if L.I.obj(L.st, x).cls.name == 'Lens']
    L.eq('one lens', N(len(at)), N(1))
    if len(at) == 1:
        L.eq('diameter', L.get(at[0], 'apertureDiameter'), d)
        L.eq('focal length', L.get(at[0], 'f'), f)
