"""Field stop, field of view, size of the image: what the search returns, whatever number of steps it took."""
import ast
from fractions import Fraction
from . import law
from .common import *

SKIP = ('_lastRayToBeTraced', '_lastRayTrace')


def veq(L, a, b):
    return L.I.truth(L.st, L.I.compare1(L.st, ast.Eq(), a, b))


def far(L, geometry=None):
    """space, lens (the stop), space, aperture(s)"""
    d1, d2, f = L.var('d1', '+'), L.var('d2', '+'), L.var('f', '!0')
    if geometry:
        d1, d2, f = N(geometry[0]), N(geometry[1]), N(geometry[3])
    a, b = L.var('a', '+'), L.var('b', '+')
    es = [L.new('Space', d1), L.new('Lens', f, diameter=a), L.new('Space', d2), L.new('Aperture', b)]
    p = L.new('ImagingPath', es)
    return p, d1, d2, f, a, b


def heights(L, d1, f, d2):
    """height at the aperture of an axial ray of unit angle, and of the chief ray of unit height"""
    Ba = prod([free(d1), (N(1), N(0), T.neg(T.div(N(1), f)), N(1)), free(d2)])[1]
    # the chief ray from y has the angle -y/d1: it crosses the lens at its centre, and is not bent
    yb = T.neg(T.div(d2, d1))
    return Ba, yb


def lens_is_the_stop(L, d1, a, b, Ba):
    L.assume(T.cmp_num('>', T.mul(d1, b), T.mul(absv(Ba), a)))


@law('C32')
def field_stop_of_two_apertures(L):
    """when the lens is the aperture stop, nothing but the other aperture can be the field stop"""
    L.I.widen = True
    p, d1, d2, f, a, b = far(L)
    Ba, yb = heights(L, d1, f, d2)
    lens_is_the_stop(L, d1, a, b, Ba)
    before = L.image(p, skip=SKIP)
    s = L.call(p, 'fieldStop')
    L.note(p, 'fieldStop')
    z, dia = L.idx(s, 0), L.idx(s, 1)
    none = L.I.truth(L.st, L.I.compare1(L.st, ast.Is(), z, NONE))
    L.eq('the field stop is at the aperture', z, T.add(d1, d2), when=not_(none))
    L.eq('with its diameter', dia, b, when=not_(none))
    L.eq('no field stop: infinite diameter', dia, INF, when=none)
    L.eq('asking modifies nothing', L.image(p, skip=SKIP), before)


@law('C32', ['object', 'first', 'nested', 'far'])
def field_stop_is_found(L, where):
    """another aperture than the stop, on the object, in front of the stop, in a group or far: the search can end there, and only there"""
    L.I.widen = True
    if where in ('object', 'first'):
        d0, d1, a, b = N(0) if where == 'object' else L.var('d0', '+'), L.var('d1', '+'), L.var('a', '+'), L.var('b', '+')
        es = ([L.new('Space', d0)] if where == 'first' else []) + [L.new('Aperture', b), L.new('Space', d1), L.new('Lens', L.var('f', '!0'), diameter=a)]
        L.assume(T.cmp_num('>', T.mul(T.add(d0, d1), b), T.mul(d0, a)))
        L.assume(far_from_zero(T.add(d0, d1)))
        at = d0
        p = L.new('ImagingPath', L.v(es))
    else:
        p, d1, d2, f, a, b = far(L)
        Ba, yb = heights(L, d1, f, d2)
        lens_is_the_stop(L, d1, a, b, Ba)
        if where == 'nested':
            es = L.seq(L.get(p, 'elements'))
            p = L.new('ImagingPath', L.v([es[0], L.new('MatrixGroup', L.v(es[1:]))]))
        at = T.add(d1, d2)
    s = L.call(p, 'fieldStop')
    L.note(p, 'fieldStop')
    z, dia = L.idx(s, 0), L.idx(s, 1)
    none = L.I.truth(L.st, L.I.compare1(L.st, ast.Is(), z, NONE))
    L.fact('it can be found', none is not TRUE)
    L.eq('the field stop is at the aperture', z, at, when=not_(none))
    L.eq('with its diameter', dia, b, when=not_(none))


@law('C32', [(1, 1, 1, 3), (2, 3, 5, -7), (3, 2, 4, 1)])
def field_stop_of_three_apertures(L, *geometry):
    """beyond the aperture stop, the field stop is not an aperture that chief rays fill less than one before it"""
    L.I.widen = True
    p, d1, d2, f, a, b = far(L, geometry)
    d3, c = N(geometry[2]), L.var('c', '+')
    L.call(p, 'append', L.new('Space', d3))
    L.call(p, 'append', L.new('Aperture', c))
    lens = (N(1), N(0), T.neg(T.div(N(1), f)), N(1))
    Ba, yb = heights(L, d1, f, d2)
    Bc = prod([free(d1), lens, free(T.add(d2, d3))])[1]
    yc = T.neg(T.div(T.add(d2, d3), d1))
    lens_is_the_stop(L, d1, a, b, Ba)
    lens_is_the_stop(L, d1, a, c, Bc)
    s = L.call(p, 'fieldStop')
    L.note(p, 'fieldStop')
    z, dia = L.idx(s, 0), L.idx(s, 1)
    none = L.I.truth(L.st, L.I.compare1(L.st, ast.Is(), z, NONE))
    zb, zc = T.add(d1, d2), T.add(T.add(d1, d2), d3)
    atb = T.cmp_num('==', dia, b)
    L.holds('the field stop is one of the two other apertures, with its diameter', or_(none, or_(
        and_(veq(L, z, zb), veq(L, dia, b)), and_(veq(L, z, zc), veq(L, dia, c)))))
    L.holds('when it is the last one, chief rays fill it more than the one before', or_(none, or_(
        veq(L, z, zb), T.cmp_num('>', T.mul(absv(yc), b), T.mul(absv(yb), c)))))


@law('C32', ['no aperture', 'stop on the object', 'stop at an image of the object'])
def no_field_stop(L, case):
    """no aperture stop, or chief rays that do not exist: no field stop, infinite field of view, no principal ray"""
    L.I.widen = True
    f = L.var('f', '+')
    if case == 'no aperture':
        es = [L.new('Space', L.var('d1', '+')), L.new('Lens', f), L.new('Space', L.var('d2', '+'))]
    elif case == 'stop on the object':
        es = [L.new('Aperture', L.var('a', '+')), L.new('Space', L.var('d1', '+')), L.new('Lens', f)]
    else:
        # the distance is that of the image, up to rounding
        e = L.var('e', '+')
        L.assume(T.cmp_num('<', e, N(Fraction(1, 10 ** 6))))
        es = [L.new('Space', T.mul(N(2), f)), L.new('Lens', f), L.new('Space', T.add(T.mul(N(2), f), e)), L.new('Aperture', L.var('a', '+'))]
    p = L.new('ImagingPath', es)
    s = L.call(p, 'fieldStop')
    L.note(p, 'fieldStop')
    L.note(p, 'halfFieldOfView')
    L.eq('no field stop: no position', L.idx(s, 0), NONE)
    L.eq('no field stop: infinite diameter', L.idx(s, 1), INF)
    L.iff('no field stop: hasFieldStop() is False', L.I.truth(L.st, L.call(p, 'hasFieldStop')), FALSE)
    L.eq('no field stop: infinite half field of view', L.call(p, 'halfFieldOfView'), INF)
    L.eq('no field stop: infinite field of view', L.call(p, 'fieldOfView'), INF)
    L.eq('no field stop: no principal ray', L.call(p, 'principalRay'), NONE)
    L.eq('no field stop: the invariant is infinite', L.call(p, 'lagrangeInvariant'), INF)


@law('C32')
def has_field_stop(L):
    """hasFieldStop() is about what fieldStop() finds"""
    p, d1, d2, f, a, b = far(L)
    found = T.truth_atom(T.app('found', (), 'bool'))
    L.I.stubs[('ImagingPath', 'fieldStop')] = lambda I, st, me, x, k: T.ite(found, T.tup([d1, a]), T.tup([NONE, INF]))
    L.note(p, 'hasFieldStop')
    L.iff('hasFieldStop()', L.I.truth(L.st, L.call(p, 'hasFieldStop')), found)


@law('C32')
def half_field_of_view(L):
    """the chief ray from the height that is returned goes through all apertures"""
    L.I.widen = True
    p, d1, d2, f, a, b = far(L)
    Ba, yb = heights(L, d1, f, d2)
    L.assume(far_from_zero(d1))
    lens_is_the_stop(L, d1, a, b, Ba)
    L.I.stubs[('ImagingPath', 'fieldStop')] = lambda I, st, me, x, k: T.tup([T.add(d1, d2), b])
    before = L.image(p, skip=SKIP)
    y = L.call(p, 'halfFieldOfView')
    L.note(p, 'halfFieldOfView')
    inf = veq(L, y, INF)
    for g, leaf in T.leaves(y):
        if leaf is INF:
            continue
        L.holds('the chief ray from the edge of the field is not blocked', or_(not_(g), T.cmp_num('<=', T.mul(absv(T.mul(yb, leaf)), N(2)), b)))
    L.eq('asking modifies nothing', L.image(p, skip=SKIP), before)


@law('C32')
def field_of_view(L):
    """field of view, principal ray and size of the image follow from half the field of view"""
    p, d1, d2, f, a, b = far(L)
    L.assume(far_from_zero(d1))
    Ba, yb = heights(L, d1, f, d2)
    lens_is_the_stop(L, d1, a, b, Ba)
    h = L.var('h', '+')
    L.I.stubs[('ImagingPath', 'halfFieldOfView')] = lambda I, st, me, x, k: h
    L.I.stubs[('ImagingPath', 'fieldStop')] = lambda I, st, me, x, k: T.tup([T.add(d1, d2), b])
    for m in ('fieldOfView', 'principalRay', 'lagrangeInvariant', 'NA'):
        L.note(p, m)
    L.eq('the field of view is twice its half', L.call(p, 'fieldOfView'), T.mul(N(2), h))
    r = L.call(p, 'principalRay')
    L.eq('the principal ray starts at the edge of the field', L.get(r, 'y'), h)
    L.eq('and goes through the centre of the stop', T.mul(L.get(r, 'theta'), d1), T.neg(h))
    ax = T.div(a, T.mul(N(2), d1))
    n = L.get(p, 'frontIndex')
    L.eq('the Lagrange invariant is that of axial and principal rays', L.call(p, 'lagrangeInvariant'),
         L.call(p, 'opticalInvariant', L.new('Ray', N(0), ax), L.new('Ray', h, T.div(T.neg(h), d1))))


@law('C32', [(m, s) for m in (None, '4/3') for s in ('aperture', 'no aperture')])
def numerical_aperture(L, medium, case):
    """index in front times the sine of the angle of the axial ray"""
    n = N(1) if medium is None else L.var('n', '+')
    d, dia = L.var('d', '+'), L.var('dia', '+')
    L.assume(far_from_zero(d))
    kw = {} if case == 'no aperture' else {'diameter': dia}
    p = L.new('ImagingPath', [L.new('Space', d, n), L.new('DielectricInterface', n, L.var('n2', '+'), L.var('R', '!0'), **kw)])
    L.note(p, 'NA')
    na = L.call(p, 'NA')
    if case == 'no aperture':
        L.eq('no axial ray: no numerical aperture', na, NONE)
    else:
        L.eq('NA = n sin(angle of the axial ray)', na, T.mul(n, T.numapp('sin', [T.div(dia, T.mul(N(2), d))])))


@law('C32', ['finite', 'infinite', 'no image', 'object'])
def image_size(L, case):
    """size of the image: field of view (or object) times the magnification, never negative"""
    d, f = L.var('d', '+'), L.var('f', '!0')
    p = L.new('ImagingPath', [L.new('Space', d), L.new('Lens', f)])
    D = L.get(p, 'D')
    fov = INF if case == 'infinite' else L.var('fov', '+')
    L.I.stubs[('ImagingPath', 'fieldOfView')] = lambda I, st, me, x, k: fov
    L.note(p, 'imageSize')
    if case == 'no image':
        L.assume(T.cmp_num('==', D, N(0)))
        L.eq('the image is at infinity: infinite size', L.call(p, 'imageSize'), INF)
        L.eq('the image is at infinity: infinite size of the object', L.call(p, 'imageSize', useObject=TRUE), INF)
        return
    L.assume(not_(T.cmp_num('==', D, N(0))))
    mag = T.div(T.neg(N(1)), T.sub(T.div(d, f), N(1)))
    if case == 'object':
        h = L.var('h', '+')
        L.set(p, 'objectHeight', h)
        L.eq('size of the image of the object', L.call(p, 'imageSize', useObject=TRUE), absv(T.mul(h, mag)))
        L.eq('given by position', L.call(p, 'imageSize', TRUE), absv(T.mul(h, mag)))
    elif case == 'finite':
        L.eq('size of the image of the field', L.call(p, 'imageSize'), absv(T.mul(fov, mag)))
    else:
        L.eq('infinite field: infinite image', L.call(p, 'imageSize'), INF)
    warned = [a for g, a in L.st.effects if a.kind == 'app' and a.a[0] == 'effect:warn']
    L.fact('a warning is given when (and only when) the field is infinite', bool(warned) == (case == 'infinite'))
