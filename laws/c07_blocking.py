"""Apertures: what blocks a ray, and blocked rays stay blocked."""
from . import law
from .common import *


def blocked(L, r):
    return L.I.truth(L.st, L.get(r, 'isBlocked'))


def outside(y, dia):
    return T.cmp_num('>', T.mul(N(2), absv(y)), dia)


def steep(th, na):
    return T.cmp_num('>', absv(th), na)


@law('C07', ['gen', 'C0'])
def element_blocks(L, c):
    m = mat(L, 1, c, ap=True, na=True)
    r = ray(L)
    y, th = L.get(r, 'y'), L.get(r, 'theta')
    o = L.mul(m, r)
    L.note(m, 'mul_ray')
    L.iff('a ray is blocked if and only if it is outside the diameter or steeper than the NA', blocked(L, o),
          or_(outside(y, L.get(m, 'apertureDiameter')), steep(th, L.get(m, 'apertureNA'))))
    L.iff('isNotBlocked is the opposite of isBlocked', L.I.truth(L.st, L.get(o, 'isNotBlocked')), not_(blocked(L, o)))


@law('C07')
def no_aperture_never_blocks(L):
    m = mat(L, 1, 'gen')
    o = L.mul(m, ray(L))
    L.note(m, 'mul_ray')
    L.iff('an infinite aperture blocks nothing', blocked(L, o), FALSE)
    o = L.call(m, 'traceThrough', ray(L))
    L.iff('an infinite aperture blocks nothing (trace)', blocked(L, o), FALSE)


@law('C07', ['gen', 'C0'])
def blocked_stays_blocked(L, c):
    m = mat(L, 1, c, ap=True, na=True)
    r = ray(L, blocked=TRUE)
    o = L.mul(m, r)
    L.note(m, 'mul_ray')
    L.iff('a blocked ray leaves blocked', blocked(L, o), TRUE)
    o = L.call(m, 'traceThrough', r)
    L.iff('a blocked ray leaves blocked (trace)', blocked(L, o), TRUE)


@law('C07', [0, 1])
def traced_element_blocks(L, length):
    """element with or without a length, traced"""
    m = mat(L, 1, 'gen', ap=True, length=N(0) if not length else L.var('Lp', '+'))
    r = ray(L)
    y, dia = L.get(r, 'y'), L.get(m, 'apertureDiameter')
    tr = L.call(m, "trace", r)
    L.note(m, 'trace')
    L.iff('the last ray of a trace is blocked when the first one was outside', blocked(L, L.idx(tr, -1)), outside(y, dia))
    if length:
        L.iff('the front of a long element blocks too', blocked(L, L.idx(tr, 0)), outside(y, dia))


@law('C07', [1, 2, 3])
def group_blocks(L, k):
    """a ray gets through if and only if it is inside every aperture where it crosses it"""
    ms = [mat(L, i + 1, 'gen' if i != 1 else 'C0', ap=True, indices=False, length=N(0)) for i in range(k)]
    g = L.new('MatrixGroup', ms)
    y, th = L.var('y'), L.var('th')
    o = L.call(g, 'traceThrough', L.new('Ray', y, th))
    bad = FALSE
    for m in ms:
        bad = or_(bad, outside(y, L.get(m, 'apertureDiameter')))
        A, B, C, D = abcd(L, m)
        y, th = T.add(T.mul(A, y), T.mul(B, th)), T.add(T.mul(C, y), T.mul(D, th))
    L.note(g, 'trace')
    L.iff('through a group: blocked if and only if outside one of the apertures', blocked(L, o), bad)


@law('C07', ['lens+space', 'thick'])
def group_of_real_elements(L, kind):
    d1, d2 = L.var('d1', '+'), L.var('d2', '+')
    if kind == 'lens+space':
        a = L.new('Lens', L.var('f', '!0'), diameter=d1)
        b = L.new('Space', L.var('d', '+'))
        c = L.new('Aperture', d2)
    else:
        a = L.new('ThickLens', L.var('n', '+'), L.var('R1', '!0'), L.var('R2', '!0'), L.var('t', '+'), diameter=d1)
        b = L.new('Space', L.var('d', '+'))
        c = L.new('Lens', L.var('f', '!0'), diameter=d2)
    g = L.new('ImagingPath', [a, b, c])
    y, th = L.var('y'), L.var('th')
    tr = L.call(g, 'trace', L.new('Ray', y, th))
    A, B, C, D = prod([abcd(L, a), abcd(L, b)])
    ya = T.add(T.mul(A, y), T.mul(B, th))
    L.note(g, 'trace')
    L.iff('the ray gets through both diameters or is blocked', blocked(L, L.idx(tr, -1)), or_(outside(y, d1), outside(ya, d2)))
    out = L.call(g, 'traceManyThrough', [L.new('Ray', y, th)], progress=False)
    L.iff('only rays that get through are collected', T.cmp_num('==', L.length(out), N(1)),
          not_(or_(outside(y, d1), outside(ya, d2))))


@law('C07', [1, 2])
def trace_never_unblocks(L, k):
    """along a trace, isBlocked never goes back to False"""
    ms = [mat(L, i + 1, 'gen', ap=True, indices=False, length=L.var('len%d' % i, '+') if i == 0 else N(0)) for i in range(k)]
    g = L.new('MatrixGroup', ms)
    tr = L.call(g, 'trace', L.new('Ray', L.var('y'), L.var('th')))
    rays_ = L.seq(tr)
    L.note(g, 'trace')
    for i, (a, b) in enumerate(zip(rays_, rays_[1:])):
        if i == 0:
            continue    # the first entry is the input ray itself
        L.iff('ray %d of the trace is blocked if ray %d is' % (i + 1, i), blocked(L, b), TRUE, blocked(L, a))


@law('C07')
def beams_are_clipped(L):
    m = mat(L, 1, 'gen', ap=True, indices=False)
    b = L.new('GaussianBeam', w=L.var('w', '+'), wavelength=L.var('lam', '+'))
    o = L.mul(m, b)
    L.note(m, 'mul_beam')
    L.iff('a beam is clipped if and only if it is wider than the diameter', L.I.truth(L.st, L.get(o, 'isClipped')),
          T.cmp_num('>', T.mul(N(2), L.get(o, 'w')), L.get(m, 'apertureDiameter')))
    L.set(b, 'isClipped', TRUE)
    o = L.mul(m, b)
    L.iff('a clipped beam stays clipped', L.I.truth(L.st, L.get(o, 'isClipped')), TRUE)


@law('C07')
def largest_diameter(L):
    d1, d2 = L.var('d1', '+'), L.var('d2', '+')
    g = L.new('MatrixGroup', [L.new('Lens', L.var('f', '!0'), diameter=d1), L.new('Space', L.var('d', '+')),
                              L.new('Aperture', d2)])
    L.note(g, 'largestDiameter')
    L.eq('largest diameter of a group', L.get(g, 'largestDiameter'), ite(T.cmp_num('>', d2, d1), d2, d1))
    L.iff('a group with an aperture has a finite aperture', L.I.truth(L.st, L.call(g, 'hasFiniteApertureDiameter')), TRUE)
    g = L.new('MatrixGroup', [L.new('Lens', L.var('f', '!0')), L.new('Space', L.var('d', '+'))])
    L.iff('a group without aperture has no finite aperture', L.I.truth(L.st, L.call(g, 'hasFiniteApertureDiameter')), FALSE)
    L.eq('largest diameter of a lens', L.get(L.new('Lens', L.var('f', '!0'), diameter=d1), 'largestDiameter'), d1)
