"""Tracing is a function of the elements and of the ray: nothing is modified, nothing is remembered."""
from . import law
from .common import *

SKIP = ('iteration', '_lastRayToBeTraced', '_lastRayTrace')
FIELDS = ('y', 'theta', 'z', 'isBlocked', 'wavelength', 'apertureDiameter')


def system(L, kind):
    if kind == 'matrix':
        return mat(L, 1, 'gen', ap=True, na=True)
    if kind == 'lens':
        return L.new('Lens', L.var('f', '!0'), diameter=L.var('dia', '+'))
    if kind == 'space':
        return L.new('Space', L.var('d', '+'), L.var('n', '+'), diameter=L.var('dia', '+'))
    if kind == 'thick':
        return L.new('ThickLens', L.var('n', '+'), L.var('R1', '!0'), L.var('R2', '!0'), L.var('t', '+'), diameter=L.var('dia', '+'))
    if kind == 'axicon':
        return L.new('Axicon', L.var('al', '+'), L.var('n', '+'), diameter=L.var('dia', '+'))
    if kind == 'group':
        return L.new('MatrixGroup', [L.new('Space', L.var('d1', '+'), diameter=L.var('dia', '+')),
                                     L.new('Lens', L.var('f', '!0'), diameter=L.var('dia2', '+'))])
    if kind == 'path':
        return L.new('ImagingPath', [L.new('Space', L.var('d1', '+')), L.new('Lens', L.var('f', '!0'), diameter=L.var('dia', '+')),
                                     L.new('Space', L.var('d2', '+'))])
    if kind == 'nested':
        g = L.new('MatrixGroup', [L.new('Space', L.var('d1', '+')), L.new('Lens', L.var('f', '!0'), diameter=L.var('dia', '+'))])
        return L.new('MatrixGroup', [L.new('Space', L.var('d2', '+'), diameter=L.var('dia2', '+')), g])


KINDS = ['matrix', 'lens', 'space', 'thick', 'axicon', 'group', 'path', 'nested']


def anyray(L, i=''):
    r = ray(L, i, blocked=T.truth_atom(L.sym('blocked' + i)))
    L.set(r, 'wavelength', L.var('lam' + i, '+'))
    return r


@law('C08', KINDS)
def nothing_is_modified(L, kind):
    s, r = system(L, kind), anyray(L)
    b = L.image(s, skip=SKIP, depth=12), L.image(r)
    for m in ('trace', 'traceThrough'):
        L.call(s, m, r)
        L.eq('%s() does not modify the elements' % m, L.image(s, skip=SKIP, depth=12), b[0])
        L.eq('%s() does not modify the ray' % m, L.image(r), b[1])


@law('C08', KINDS)
def same_again(L, kind):
    """the result does not depend on what was traced before"""
    s, r, other = system(L, kind), anyray(L), anyray(L, '2')
    f = lambda tr: [[L.get(L.idx(tr, i), k) for k in FIELDS] for i in (-1,)]
    first = f(L.call(s, 'trace', r))
    L.call(s, 'trace', other)
    L.call(s, 'traceThrough', other)
    again = f(L.call(s, 'trace', r))
    L.note(s, 'trace')
    for a, b in zip(first, again):
        for k, x, y in zip(FIELDS, a, b):
            L.eq('tracing the same ray again gives the same %s' % k, y, x)


@law('C08', KINDS)
def copy_of_ray_traces_alike(L, kind):
    """two rays with the same content give the same trace, even when one is changed after it was traced"""
    s, r = system(L, kind), anyray(L)
    L.call(s, 'trace', r)
    for k in ('y', 'theta', 'z', 'wavelength'):
        L.set(r, k, L.var(k + '_new'))
    L.set(r, 'isBlocked', FALSE)
    q = L.new('Ray', L.var('y_new'), L.var('theta_new'), z=L.var('z_new'), wavelength=L.var('wavelength_new'))
    a, b = L.call(s, 'trace', r), L.call(s, 'trace', q)
    L.note(s, 'trace')
    for k in FIELDS:
        L.eq('a ray that was changed is traced as it is now: ' + k, L.get(L.idx(a, -1), k), L.get(L.idx(b, -1), k))


@law('C08', ['group', 'path', 'nested'])
def trace_is_the_sequence(L, kind):
    """first the input ray, then what each element makes of it"""
    s, r = system(L, kind), anyray(L)
    tr = L.call(s, 'trace', r)
    L.note(s, 'trace')
    L.eq('a trace starts with the input ray', L.idx(tr, 0), r)
    cur = r
    for e in L.seq(L.get(s, 'elements')):
        cur = L.idx(L.call(e, 'trace', cur), -1)
    for k in FIELDS:
        L.eq('a trace ends with what the last element makes of the ray: ' + k, L.get(L.idx(tr, -1), k), L.get(cur, k))
    t = L.call(s, 'traceThrough', r)
    for k in FIELDS:
        L.eq('traceThrough() is the last ray of trace(): ' + k, L.get(t, k), L.get(L.idx(tr, -1), k))


@law('C08', ['lens', 'space', 'thick', 'group', 'path', 'nested'])
def trace_positions(L, kind):
    """an unblocked ray leaves at z + L, and positions never decrease along the trace"""
    s, r = system(L, kind), ray(L)
    tr = L.call(s, 'trace', r)
    L.note(s, 'trace')
    last = L.idx(tr, -1)
    free_ = not_(L.I.truth(L.st, L.get(last, 'isBlocked')))
    L.eq('a ray that gets through is at z + L', L.get(last, 'z'), T.add(L.get(r, 'z'), L.get(s, 'L')), free_)
    A, B, C, D = abcd(L, s)
    y, th = L.get(r, 'y'), L.get(r, 'theta')
    L.eq('height of the output ray', L.get(last, 'y'), T.add(T.mul(A, y), T.mul(B, th)), free_)
    L.eq('angle of the output ray', L.get(last, 'theta'), T.add(T.mul(C, y), T.mul(D, th)), free_)


@law('C08', ['lens', 'thick', 'group', 'nested'])
def wavelength_is_kept(L, kind):
    s, r = system(L, kind), anyray(L)
    o = L.call(s, 'traceThrough', r)
    L.note(s, 'traceThrough')
    L.eq('a ray keeps its wavelength', L.get(o, 'wavelength'), L.get(r, 'wavelength'))


@law('C08')
def beams_too(L):
    g = L.new('LaserPath', [L.new('Space', L.var('d1', '+')), L.new('Lens', L.var('f', '!0'), diameter=L.var('dia', '+')),
                            L.new('Space', L.var('d2', '+'))])
    b = L.new('GaussianBeam', w=L.var('w', '+'), wavelength=L.var('lam', '+'))
    im = L.image(b), L.image(g, skip=SKIP, depth=12)
    tr = L.call(g, 'trace', b)
    L.note(g, 'trace')
    L.eq('tracing a beam does not modify it', L.image(b), im[0])
    L.eq('tracing a beam does not modify the elements', L.image(g, skip=SKIP, depth=12), im[1])
    L.eq('the trace of a beam starts with it', L.idx(tr, 0), b)
    o = L.idx(tr, -1)
    A, B, C, D = abcd(L, g)
    q = L.get(b, 'q')
    L.eq('complex radius at the end', T.mul(L.get(o, 'q'), T.add(T.mul(C, q), D)), T.add(T.mul(A, q), B))
    L.eq('position at the end', L.get(o, 'z'), T.add(L.get(b, 'z'), L.get(g, 'L')))
    for nm, x in (('number', N(3)), ('None', NONE), ('list', L.v([]))):
        L.raises('tracing a %s raises TypeError' % nm, L.trial(L.call, g, 'trace', x), 'TypeError')
