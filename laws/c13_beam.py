"""Gaussian beams: the complex radius, and everything that is read from it."""
from . import law
from .common import *
import math

PI = None


def j():
    return T.const(1j)


def pi(L):
    return L.get(L.I.models.module_value('math'), 'pi') if False else T.const(math.pi)


def beam(L, **kw):
    qr, qi, lam, n = L.var('qr'), L.var('qi', '+'), L.var('lam', '+'), L.var('n', '+')
    return L.new('GaussianBeam', q=T.add(qr, T.mul(qi, j())), n=n, wavelength=lam, **kw), qr, qi, lam, n


@law('C13', ['gen', 'C0', 'A0', 'D0'])
def abcd_law(L, c):
    """q' = (A q + B) / (C q + D)"""
    m = mat(L, 1, c)
    qr, qi, lam, z = L.var('qr'), L.var('qi', '+'), L.var('lam', '+'), L.var('z')
    q = T.add(qr, T.mul(qi, j()))
    b = L.new('GaussianBeam', q=q, n=L.get(m, 'frontIndex'), wavelength=lam, z=z)
    o = L.mul(m, b)
    L.note(m, 'mul_beam')
    A, B, C, D = abcd(L, m)
    L.eq("q' (C q + D) = A q + B", T.mul(L.get(o, 'q'), T.add(T.mul(C, q), D)), T.add(T.mul(A, q), B))
    L.eq('the beam advances by the length of the element', L.get(o, 'z'), T.add(z, L.get(m, 'L')))
    L.eq('the beam is now in the medium behind the element', L.get(o, 'n'), L.get(m, 'backIndex'))
    L.eq('the beam keeps its wavelength', L.get(o, 'wavelength'), lam)


@law('C13')
def index_is_tracked(L):
    m = mat(L, 1, 'gen')
    n = L.var('other', '+')
    L.assume(not_(T.cmp_num('==', n, L.get(m, 'frontIndex'))))
    b = L.new('GaussianBeam', q=T.add(L.var('qr'), T.mul(L.var('qi', '+'), j())), n=n, wavelength=L.var('lam', '+'))
    L.raises('a beam in another medium is refused', L.trial(L.mul, m, b), 'RuntimeError')


@law('C13')
def rayleigh_range(L):
    b, qr, qi, lam, n = beam(L)
    for nm in ('zo', 'rayleighRange', 'confocalParameter'):
        L.eq('%s is Im(q)' % nm, L.get(b, nm), qi)
    L.eq('the waist is Re(q) behind', L.get(b, 'waistPosition'), T.neg(qr))


@law('C13')
def width_and_curvature(L):
    """1/q = 1/R - i lambda/(n pi w^2)"""
    b, qr, qi, lam, n = beam(L)
    w = L.get(b, 'w')
    L.note(b, 'w')
    q2 = T.add(T.mul(qr, qr), T.mul(qi, qi))
    P = pi(L)
    L.eq('n pi w^2 Im(q) = lambda |q|^2', T.mul(T.mul(n, P), T.mul(T.mul(w, w), qi)), T.mul(lam, q2))
    R = L.get(b, 'R')
    L.note(b, 'R')
    L.eq('R = |q|^2 / Re(q)', T.mul(R, qr), q2, not_(T.cmp_num('==', qr, N(0))))
    L.eq('at the waist the wavefront is flat', R, INF, T.cmp_num('==', qr, N(0)))


@law('C13')
def waist(L):
    """the smallest width along the beam: pi n wo^2 = lambda zo"""
    b, qr, qi, lam, n = beam(L)
    wo = L.get(b, 'wo')
    L.note(b, 'wo')
    L.eq('pi n wo^2 = lambda zo', T.mul(T.mul(pi(L), n), T.mul(wo, wo)), T.mul(lam, qi))
    L.eq('waist is wo', L.get(b, 'waist'), wo)
    s = L.new('Space', T.neg(qr), n) if False else None
    # at the waist position, the width is wo
    c = L.new('GaussianBeam', q=T.mul(qi, j()), n=n, wavelength=lam)
    L.eq('the width at the waist is wo', L.get(c, 'w'), wo)


@law('C13')
def finite(L):
    b, *_ = beam(L)
    L.iff('a beam with Im(q) > 0 is finite', L.I.truth(L.st, L.get(b, 'isFinite')), TRUE)
    c = L.new('GaussianBeam', q=T.sub(L.var('qr'), T.mul(L.var('qi', '+'), j())), wavelength=L.var('lam', '+'))
    L.iff('a beam with Im(q) < 0 is not finite', L.I.truth(L.st, L.get(c, 'isFinite')), FALSE)
    L.eq('a beam that is not finite has no waist', L.get(c, 'wo'), NONE)
    L.eq('a beam that is not finite has an infinite width', L.get(c, 'w'), INF)


@law('C13', [True, False])
def from_width(L, flat):
    """a beam created from w and R has this w and R"""
    w, lam, n = L.var('w', '+'), L.var('lam', '+'), L.var('n', '+')
    R = INF if flat else L.var('R', '!0')
    b = L.new('GaussianBeam', w=w, R=R, n=n, wavelength=lam)
    L.note(b, '__init__')
    L.eq('w is the one given', T.mul(L.get(b, 'w'), L.get(b, 'w')), T.mul(w, w))
    L.eq('R is the one given', L.get(b, 'R'), R)
    if flat:
        L.eq('pi n w^2 = lambda zo', T.mul(T.mul(pi(L), n), T.mul(w, w)), T.mul(lam, L.get(b, 'zo')))
        L.eq('the waist is here', L.get(b, 'waistPosition'), N(0))
    L.eq('wavelength, n, z', T.tup([L.get(b, k) for k in ('wavelength', 'n', 'z')]), T.tup([lam, n, N(0)]))


@law('C13')
def nothing_given(L):
    L.raises('neither q nor w: ValueError', L.trial(L.new, 'GaussianBeam'), 'ValueError')


@law('C13')
def propagation(L):
    """in a space the Rayleigh range and the waist do not change; the waist comes closer by d"""
    b, qr, qi, lam, n = beam(L)
    d = L.var('d', '+')
    o = L.mul(L.new('Space', d, n), b)
    L.note(b, 'waistPosition')
    L.eq('free propagation keeps zo', L.get(o, 'zo'), L.get(b, 'zo'))
    L.eq('free propagation keeps the waist', L.get(o, 'wo'), L.get(b, 'wo'))
    L.eq('free propagation: distance to the waist', L.get(o, 'waistPosition'), T.sub(L.get(b, 'waistPosition'), d))


@law('C13')
def lens_images_waist(L):
    """at a lens the width is continuous, and 1/R changes by -1/f"""
    b, qr, qi, lam, n = beam(L)
    L.set(b, 'n', N(1))
    f = L.var('f', '!0')
    o = L.mul(L.new('Lens', f), b)
    L.eq('the width does not change in a thin lens', T.mul(L.get(o, 'w'), L.get(o, 'w')), T.mul(L.get(b, 'w'), L.get(b, 'w')))
    inv = lambda q: T.div(N(1), q)
    L.eq('1/q changes by -1/f', inv(L.get(o, 'q')), T.sub(inv(L.get(b, 'q')), T.div(N(1), f)))


@law('C13')
def flat_interface(L):
    """the width is continuous at an interface"""
    b, qr, qi, lam, n = beam(L)
    n2, R = L.var('n2', '+'), L.var('Rs', '!0')
    for nm, e in (('flat', L.new('DielectricInterface', n, n2)), ('curved', L.new('DielectricInterface', n, n2, R))):
        o = L.mul(e, b)
        L.note(e, 'mul_beam')
        L.eq('the width does not change at a %s interface' % nm, T.mul(L.get(o, 'w'), L.get(o, 'w')), T.mul(L.get(b, 'w'), L.get(b, 'w')))


@law('C13')
def reading_does_not_modify(L):
    b, *_ = beam(L)
    im = L.image(b)
    for k in ('R', 'w', 'wo', 'zo', 'waist', 'waistPosition', 'isFinite', 'confocalParameter', 'rayleighRange'):
        L.get(b, k)
    L.eq('reading the parameters does not modify the beam', L.image(b), im)
