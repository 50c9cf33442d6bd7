"""Aperture stop, entrance pupil, chief, marginal and axial rays."""
from . import law
from .common import *


def simple(L, finite=True):
    """space, lens with a diameter, space: the lens is the stop"""
    d, f, dia = L.var('d', '+'), L.var('f', '!0'), L.var('dia', '+')
    p = L.new('ImagingPath', [L.new('Space', d), L.new('Lens', f, diameter=dia), L.new('Space', L.var('d2', '+'))])
    return p, d, f, dia


def two(L, order=0):
    """space, lens, space, aperture"""
    d1, d2, f = L.var('d1', '+'), L.var('d2', '+'), L.var('f', '!0')
    a1, a2 = L.var('a1', '+'), L.var('a2', '+')
    p = L.new('ImagingPath', [L.new('Space', d1), L.new('Lens', f, diameter=a1), L.new('Space', d2), L.new('Aperture', a2)])
    B1 = d1
    B2 = prod([free(d1), (N(1), N(0), T.neg(T.div(N(1), f)), N(1)), free(d2)])[1]
    return p, d1, d2, f, a1, a2, B1, B2


def ratios(L, B1, B2, a1, a2):
    return T.div(absv(B1), a1), T.div(absv(B2), a2)


@law('C12')
def aperture_stop_single(L):
    p, d, f, dia = simple(L)
    s = L.call(p, 'apertureStop')
    L.note(p, 'apertureStop')
    L.eq('single aperture: it is the stop (position)', L.get(s, 'z'), d)
    L.eq('single aperture: it is the stop (diameter)', L.get(s, 'diameter'), dia)
    L.iff('it has an aperture stop', L.I.truth(L.st, L.call(p, 'hasApertureStop')), TRUE)


@law('C12', [1, 2])
def aperture_stop_limits(L, which):
    """the stop is the aperture an axial ray fills the most"""
    p, d1, d2, f, a1, a2, B1, B2 = two(L)
    r1, r2 = ratios(L, B1, B2, a1, a2)
    L.assume(T.cmp_num('>', *((r1, r2) if which == 1 else (r2, r1))))
    s = L.call(p, 'apertureStop')
    L.note(p, 'apertureStop')
    L.eq('position of the stop', L.get(s, 'z'), d1 if which == 1 else T.add(d1, d2))
    L.eq('diameter of the stop', L.get(s, 'diameter'), a1 if which == 1 else a2)


@law('C12')
def no_aperture(L):
    p = L.new('ImagingPath', [L.new('Space', L.var('d', '+')), L.new('Lens', L.var('f', '!0'))])
    s = L.call(p, 'apertureStop')
    L.note(p, 'apertureStop')
    L.eq('no aperture: no stop position', L.get(s, 'z'), NONE)
    L.eq('no aperture: infinite diameter', L.get(s, 'diameter'), INF)
    L.iff('no aperture: no stop', L.I.truth(L.st, L.call(p, 'hasApertureStop')), FALSE)
    for nm in ('entrancePupil',):
        s = L.call(p, nm)
        L.eq('no aperture: no pupil', T.tup([L.idx(s, 0), L.idx(s, 1)]), T.tup([NONE, NONE]))
    m = L.call(p, 'marginalRays')
    L.eq('no aperture: no marginal rays', T.tup([L.idx(m, 0), L.idx(m, 1)]), T.tup([NONE, NONE]))
    L.eq('no aperture: no axial ray', L.call(p, 'axialRay'), NONE)
    L.eq('no aperture: no chief ray', L.call(p, 'chiefRay', L.var('y')), NONE)
    L.eq('no aperture: no f-number', L.call(p, 'fNumber'), NONE)


@law('C12', [1, 2])
def chief_ray(L, which):
    p, d1, d2, f, a1, a2, B1, B2 = two(L)
    r1, r2 = ratios(L, B1, B2, a1, a2)
    L.assume(T.cmp_num('>', *((r1, r2) if which == 1 else (r2, r1))))
    L.assume(far_from_zero(B1 if which == 1 else B2))
    y = L.var('y')
    r = L.call(p, 'chiefRay', y)
    L.note(p, 'chiefRay')
    L.eq('the chief ray starts at the given height', L.get(r, 'y'), y)
    ms = [free(d1), (N(1), N(0), T.neg(T.div(N(1), f)), N(1)), free(d2)][:1 if which == 1 else 3]
    A, B, C, D = prod(ms)
    L.eq('the chief ray goes through the centre of the stop', T.add(T.mul(A, y), T.mul(B, L.get(r, 'theta'))), N(0))


@law('C12', [1, 2])
def marginal_rays(L, which):
    p, d1, d2, f, a1, a2, B1, B2 = two(L)
    r1, r2 = ratios(L, B1, B2, a1, a2)
    L.assume(T.cmp_num('>', *((r1, r2) if which == 1 else (r2, r1))))
    L.assume(far_from_zero(B1 if which == 1 else B2))
    y = L.var('y')
    m = L.call(p, 'marginalRays', y)
    L.note(p, 'marginalRays')
    up, down = L.get(m, 'up'), L.get(m, 'down')
    ms = [free(d1), (N(1), N(0), T.neg(T.div(N(1), f)), N(1)), free(d2)][:1 if which == 1 else 3]
    A, B, C, D = prod(ms)
    a = a1 if which == 1 else a2
    hu, hd = [T.add(T.mul(A, y), T.mul(B, L.get(r, 'theta'))) for r in (up, down)]
    L.eq('marginal rays start at the given height', T.tup([L.get(up, 'y'), L.get(down, 'y')]), T.tup([y, y]))
    L.eq('marginal rays touch opposite edges of the stop', T.add(hu, hd), N(0))
    L.eq('marginal rays touch the edge of the stop', T.mul(hu, hu), T.div(T.mul(a, a), N(4)))
    L.iff('up is above down', T.cmp_num('>', L.get(up, 'theta'), L.get(down, 'theta')), TRUE)
    L.eq('the axial ray is the upper marginal ray from the axis', L.get(L.call(p, 'axialRay'), 'theta'),
         L.get(L.get(L.call(p, 'marginalRays'), 'up'), 'theta'))


@law('C12')
def chief_and_marginal_without_angle(L):
    """the stop is at an image of the object: no chief ray, no marginal ray"""
    dia = L.var('dia', '+')
    f = L.var('f', '!0')
    p = L.new('ImagingPath', [L.new('Lens', f, diameter=dia), L.new('Space', L.var('d', '+'))])
    L.eq('stop on the object: no chief ray', L.call(p, 'chiefRay', L.var('y')), NONE)
    m = L.call(p, 'marginalRays')
    L.eq('stop on the object: no marginal rays', T.tup([L.idx(m, 0), L.idx(m, 1)]), T.tup([NONE, NONE]))


@law('C12', [1, 2])
def entrance_pupil(L, which):
    """the image of the stop as seen from the object"""
    p, d1, d2, f, a1, a2, B1, B2 = two(L)
    r1, r2 = ratios(L, B1, B2, a1, a2)
    L.assume(T.cmp_num('>', *((r1, r2) if which == 1 else (r2, r1))))
    ms = [free(d1), (N(1), N(0), T.neg(T.div(N(1), f)), N(1)), free(d2)][:1 if which == 1 else 3]
    A, B, C, D = prod(ms)
    L.assume(far_from_zero(A))
    s = L.call(p, 'entrancePupil')
    L.note(p, 'entrancePupil')
    z, dia = L.get(s, 'z'), L.get(s, 'diameter')
    A2, B2_, C2, D2 = prod([free(T.neg(z))] + ms)
    L.eq('the stop and the entrance pupil are images of each other', B2_, N(0))
    L.eq('diameter of the pupil times the magnification is that of the stop', T.mul(dia, absv(A2)), a1 if which == 1 else a2)


@law('C12')
def numbers(L):
    p, d, f, dia = simple(L)
    L.assume(far_from_zero(T.div(N(1), f)))
    L.assume(far_from_zero(d))
    L.eq('f-number: focal length over diameter of the pupil', L.call(p, 'fNumber'), T.div(f, dia))
    r = L.call(p, 'axialRay')
    L.eq('axial ray reaches the edge of the lens', T.mul(L.get(r, 'theta'), d), T.div(dia, N(2)))
    L.eq('axial ray starts on the axis', L.get(r, 'y'), N(0))


@law('C12')
def image_size_of_object(L):
    p, d, f, dia = simple(L)
    h = L.var('h', '+')
    L.set(p, 'objectHeight', h)
    D = L.get(p, 'D')
    L.assume(not_(T.cmp_num('==', D, N(0))))
    size = L.call(p, 'imageSize', useObject=TRUE)
    c = L.call(p, 'forwardConjugate')
    A = prod([abcd(L, p), free(L.get(c, 'd'))])[0]
    L.note(p, 'imageSize')
    L.eq('size of the image of the object', size, absv(T.mul(h, A)))


@law('C12')
def questions_do_not_modify(L):
    p, d, f, dia = simple(L)
    b = L.image(p, skip=('iteration', '_lastRayToBeTraced', '_lastRayTrace'), depth=10)
    for m, a in (('apertureStop', ()), ('chiefRay', (L.var('y'),)), ('marginalRays', ()), ('axialRay', ()), ('entrancePupil', ())):
        L.call(p, m, *a)
        L.eq('%s() does not modify the path' % m, L.image(p, skip=('iteration', '_lastRayToBeTraced', '_lastRayTrace'), depth=10), b)


def system(L, kind):
    """(path, elements in order, the two that have a diameter, index in front)"""
    d1, d2, f = L.var('d1', '+'), L.var('d2', '+'), L.var('f', '!0')
    a1, a2 = L.var('a1', '+'), L.var('a2', '+')
    n0 = N(1)
    if kind == 'media':
        n1, n2, n3 = L.var('n1', '+'), L.var('n2', '+'), L.var('n3', '+')
        els = [L.new('Space', d1, n1), L.new('DielectricInterface', n1, n2, f, diameter=a1), L.new('Space', d2, n2),
               L.new('DielectricInterface', n2, n3, L.var('R', '!0'), diameter=a2), L.new('Space', L.var('d3', '+'), n3)]
        i, j, n0 = 1, 3, n1
        parts = els
    elif kind == 'space':
        els = [L.new('Space', d1, diameter=a1), L.new('Lens', f), L.new('Space', d2), L.new('Aperture', a2)]
        i, j = 0, 3
        parts = els
    else:
        els = [L.new('Space', d1), L.new('Lens', f, diameter=a1), L.new('Space', d2), L.new('Aperture', a2), L.new('Space', L.var('d3', '+'))]
        i, j = 1, 3
        g = lambda *x: L.new('MatrixGroup', L.v(list(x)))
        parts = {'nested': [els[0], g(*els[1:4]), els[4]], 'nested twice': [g(els[0], g(els[1], els[2])), g(els[3], els[4])],
                 'first nested': [g(*els[:2])] + els[2:], 'last nested': els[:3] + [g(*els[3:])], 'flat': els}[kind]
    p = L.new('ImagingPath', L.v(parts))
    return p, els, (i, j), (a1, a2), n0


KINDS = ['nested', 'nested twice', 'first nested', 'last nested', 'media', 'space']


@law('C12', [(k, w) for k in KINDS for w in (1, 2) if (k, w) != ('space', 1)])
def stop_of_a_system(L, kind, which):
    """in nested groups, in other media, behind an aperture with a length: stop, chief and marginal rays, pupil"""
    p, els, at, dia, n0 = system(L, kind)
    ms = [abcd(L, e) for e in els]
    upto = [prod(ms[:k + 1]) for k in at]
    r1, r2 = [T.div(absv(m[1]), a) for m, a in zip(upto, dia)]
    L.assume(T.cmp_num('>', *((r1, r2) if which == 1 else (r2, r1))))
    A, B, C, D = upto[which - 1]
    a = dia[which - 1]
    L.assume(far_from_zero(B))
    z = N(0)
    for e in els[:at[which - 1] + 1]:
        z = T.add(z, L.get(e, 'L'))
    s = L.call(p, 'apertureStop')
    L.note(p, 'apertureStop')
    L.eq('position of the stop', L.get(s, 'z'), z)
    L.eq('diameter of the stop', L.get(s, 'diameter'), a)
    L.iff('it has an aperture stop', L.I.truth(L.st, L.call(p, 'hasApertureStop')), TRUE)
    y = L.var('y')
    through = lambda r: T.add(T.mul(A, L.get(r, 'y')), T.mul(B, L.get(r, 'theta')))
    c = L.call(p, 'chiefRay', y)
    L.eq('the chief ray starts at the given height', L.get(c, 'y'), y)
    L.eq('the chief ray goes through the centre of the stop', through(c), N(0))
    m = L.call(p, 'marginalRays', y)
    up, down = L.get(m, 'up'), L.get(m, 'down')
    L.eq('marginal rays start at the given height', T.tup([L.get(up, 'y'), L.get(down, 'y')]), T.tup([y, y]))
    L.eq('marginal rays touch opposite edges of the stop', T.add(through(up), through(down)), N(0))
    L.eq('marginal rays touch the edge of the stop', T.mul(through(up), through(up)), T.div(T.mul(a, a), N(4)))
    L.iff('up is above down', T.cmp_num('>', L.get(up, 'theta'), L.get(down, 'theta')), TRUE)
    L.assume(far_from_zero(A))
    q = L.call(p, 'entrancePupil')
    zp, dp = L.get(q, 'z'), L.get(q, 'diameter')
    A2, B2, C2, D2 = prod([free(T.neg(zp))] + ms[:at[which - 1] + 1])
    L.eq('the stop and the entrance pupil are images of each other', B2, N(0))
    L.eq('diameter of the pupil times the magnification is that of the stop', T.mul(dp, absv(A2)), a)


@law('C12', ['lens', 'aperture', 'thick'])
def aperture_in_a_group(L, kind):
    """the only aperture is in a group, or in a group of a group"""
    d, a = L.var('d', '+'), L.var('a', '+')
    e = {'lens': lambda: L.new('Lens', L.var('f', '!0'), diameter=a), 'aperture': lambda: L.new('Aperture', a),
         'thick': lambda: L.new('ThickLens', L.var('n', '+'), L.var('R1', '!0'), L.var('R2', '!0'), L.var('t', '+'), diameter=a)}[kind]()
    for depth in (1, 2):
        g = e
        for _ in range(depth):
            g = L.new('MatrixGroup', L.v([g]))
        p = L.new('ImagingPath', L.v([L.new('Space', d), g]))
        L.iff('depth %d: it has an aperture' % depth, L.I.truth(L.st, L.call(p, 'hasFiniteApertureDiameter')), TRUE)
        L.iff('depth %d: the group has an aperture' % depth, L.I.truth(L.st, L.call(g, 'hasFiniteApertureDiameter')), TRUE)
        L.eq('depth %d: largest diameter' % depth, L.get(p, 'largestDiameter'), a)
        B = prod([free(d), abcd(L, e)])[1]
        L.assume(not_(T.cmp_num('==', B, N(0))))
        L.eq('depth %d: diameter of the stop' % depth, L.get(L.call(p, 'apertureStop'), 'diameter'), a)
