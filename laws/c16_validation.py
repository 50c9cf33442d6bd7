"""Values that make no sense are refused, and what made sense is unchanged."""
from . import law
from .common import *


def nonpos(L, name):
    return T.neg(L.var(name, '0+'))


@law('C16', ['Matrix', 'Lens', 'Space', 'DielectricInterface', 'ThickLens', 'DielectricSlab', 'CurvedMirror', 'Aperture', 'Axicon'])
def apertures_are_positive(L, cls):
    d = nonpos(L, 'dia')
    n, t = L.var('n', '+'), L.var('t', '+')
    mk = {'Matrix': lambda: L.new('Matrix', apertureDiameter=d), 'Lens': lambda: L.new('Lens', t, diameter=d),
          'Space': lambda: L.new('Space', t, diameter=d), 'DielectricInterface': lambda: L.new('DielectricInterface', n, n, t, diameter=d),
          'ThickLens': lambda: L.new('ThickLens', n, t, t, t, diameter=d), 'DielectricSlab': lambda: L.new('DielectricSlab', n, t, diameter=d),
          'CurvedMirror': lambda: L.new('CurvedMirror', t, diameter=d), 'Aperture': lambda: L.new('Aperture', d),
          'Axicon': lambda: L.new('Axicon', t, n, diameter=d)}[cls]
    L.entry = 'Matrix.__init__'
    L.raises('%s with a diameter that is not positive: ValueError' % cls, L.trial(mk), 'ValueError')


@law('C16')
def na_is_positive(L):
    d = nonpos(L, 'na')
    L.entry = 'Matrix.__init__'
    L.raises('Matrix with an NA that is not positive: ValueError', L.trial(L.new, 'Matrix', apertureNA=d), 'ValueError')
    L.raises('Aperture with an NA that is not positive: ValueError', L.trial(L.new, 'Aperture', L.var('d', '+'), d), 'ValueError')


@law('C16')
def determinant_is_consistent(L):
    A, B, C, D = [L.var(k) for k in ABCD]
    nf, nb = L.var('nf', '+'), L.var('nb', '+')
    det = T.sub(T.mul(A, D), T.mul(B, C))
    bad = T.cmp_num('>', absv(T.sub(det, T.div(nf, nb))), N(1) if False else T.num(__import__('fractions').Fraction(1, 100000)))
    L.entry = 'Matrix.__init__'
    a = L.trial(L.new, 'Matrix', A, B, C, D, frontIndex=nf, backIndex=nb)
    big = T.cmp_num('>', absv(T.sub(det, T.div(nf, nb))), T.num(__import__('fractions').Fraction(1, 10000)))
    L.raises('a matrix whose determinant is not the ratio of the indices: ValueError', a, 'ValueError', when=big, only=False)
    good = T.cmp_num('<', absv(T.sub(det, T.div(nf, nb))), T.num(__import__('fractions').Fraction(1, 1000000)))
    L.eq('a matrix whose determinant is the ratio of the indices is accepted', a.raises(L.I), FALSE, good)


@law('C16')
def object_height(L):
    p = L.new('ImagingPath', [])
    h = L.var('h', '0+')
    L.set(p, 'objectHeight', h)
    L.eq('the object height is kept', L.get(p, 'objectHeight'), h)
    neg = T.neg(L.var('neg', '+'))
    a = L.trial(L.set, p, 'objectHeight', neg)
    L.entry = 'ImagingPath.objectHeight'
    L.raises('a negative object height is refused', a, 'ValueError')
    for s, e in a.raised:
        L.eq('a refused object height leaves the one before',
             L.I.getattr(s, p, 'objectHeight'), h, st=s)


@law('C16', ['number', 'mixed', 'append'])
def rays_are_rays(L, how):
    r = ray(L)
    if how == 'number':
        for nm, x in (('number', N(3)), ('list of numbers', L.v([N(3)]))):
            L.raises('Rays(%s) is refused' % nm, L.trial(L.new, 'Rays', x), 'TypeError')
    elif how == 'mixed':
        L.raises('Rays with one element that is not a ray is refused', L.trial(L.new, 'Rays', L.v([r, N(3)])), 'TypeError')
    else:
        g = L.new('Rays', [r])
        for nm, x in (('number', N(3)), ('string', T.const('ray')), ('list', L.v([r]))):
            a = L.trial(L.call, g, 'append', x)
            L.raises('Rays.append(%s) is refused' % nm, a, 'TypeError')
            for s, e in a.raised:
                L.eq('refused append: the rays are as they were', L.image(g, st=s), L.image(g), st=s)


@law('C16', ['any', 0, -1, -7])
def fan_counts(L, n):
    n = T.neg(L.var('count', '0+', True)) if n == 'any' else N(n)
    for nm, args in (('fan', (L.var('y'), L.var('a'), L.var('b'), n)),
                     ('fanGroup', (L.var('y'), L.var('y2'), n, L.var('a'), L.var('b'), N(2))),
                     ('fanGroup', (L.var('y'), L.var('y2'), N(2), L.var('a'), L.var('b'), n))):
        a = L.trial(lambda: L.apply(L.I.getattr(L.st, L.cls('Ray'), nm), *args))
        L.entry = 'Ray.' + nm
        L.raises('Ray.%s() of no rays: ValueError' % nm, a, 'ValueError')


@law('C16')
def lenses_need_an_index(L):
    L.lenient = True
    kw = {k: L.var(k, '+') for k in ('f', 'fb', 'R1', 'R2', 'tc', 'te', 'diameter')}
    a = L.trial(L.new, 'SingletLens', n=NONE, **kw)
    L.raises('a singlet without index or material: ValueError', a, 'ValueError')
    kw = {k: L.var(k, '+') for k in ('fa', 'fb', 'R1', 'R2', 'R3', 'tc1', 'tc2', 'te', 'diameter')}
    a = L.trial(L.new, 'AchromatDoubletLens', **kw)
    L.raises('a doublet without index or material: ValueError', a, 'ValueError')
    a = L.trial(L.new, 'AchromatDoubletLens', n1=L.var('n1', '+'), **kw)
    L.raises('a doublet with a single index: ValueError', a, 'ValueError')


@law('C16', ['finite', 'infinite'])
def chief_ray_from_the_edge(L, field):
    """a chief ray from the edge of the object needs an edge"""
    z, d = L.var('z', '+'), L.var('d', '+')
    L.assume(T.cmp_num('>', z, N(1)))
    p = L.new('ImagingPath', L.v([L.new('Space', z), L.new('Aperture', d)]))
    e = INF if field == 'infinite' else L.var('edge', '+')
    L.I.stubs[('ImagingPath', 'fieldOfView')] = lambda I, st, me, a, k: e if e is INF else T.mul(N(2), e)
    L.I.stubs[('ImagingPath', 'halfFieldOfView')] = lambda I, st, me, a, k: e
    y = L.var('y')
    r = L.call(p, 'chiefRay', y)
    L.eq('from the height given', L.get(r, 'y'), y)
    L.eq('through the center of the stop', T.add(y, T.mul(z, L.get(r, 'theta'))), N(0))
    a = L.trial(L.call, p, 'chiefRay')
    if field == 'infinite':
        L.raises('from an infinite edge is refused', a, 'ValueError')
        L.eq('no principal ray', L.call(p, 'principalRay'), NONE)
    else:
        r = L.call(p, 'chiefRay')
        L.eq('from the edge', L.get(r, 'y'), e)
        L.eq('from the edge, through the center of the stop', T.add(e, T.mul(z, L.get(r, 'theta'))), N(0))
