"""The modes of a laser cavity reproduce themselves after a round trip."""
from . import law
from .common import *


def cavity(L, kind):
    d, f, n = L.var('d', '+'), L.var('f', '!0'), L.var('n', '+')
    if kind == 'matrix':
        return L.new('LaserCavity', [mat(L, 1, 'gen', indices=False)])
    if kind == 'lens':
        return L.new('LaserCavity', [L.new('Space', d), L.new('Lens', f), L.new('Space', L.var('d2', '+'))])
    if kind == 'glass':
        # all in the same medium: one matrix between two spaces in this medium
        return L.new('LaserCavity', [mat(L, 1, 'gen', indices=(n, n)), L.new('Space', d, n)])
    if kind == 'mirrors':
        return L.new('LaserCavity', [L.new('Space', d), L.new('CurvedMirror', L.var('R', '!0')), L.new('Space', d)])


KINDS = ['matrix', 'lens', 'glass', 'mirrors']


def disc(A, B, C, D):
    """(A - D)^2 + 4BC"""
    return T.add(T.mul(T.sub(A, D), T.sub(A, D)), T.mul(N(4), T.mul(B, C)))


@law('C14', [(k, s) for k in KINDS for s in ('stable', 'unstable')])
def modes_are_self_consistent(L, kind, s):
    c = cavity(L, kind)
    A, B, C, D = abcd(L, c)
    L.assume(far_from_zero(C))
    L.assume(T.cmp_num('<' if s == 'stable' else '>', disc(A, B, C, D), N(0)))
    m = L.call(c, 'eigenModes')
    L.note(c, 'eigenModes')
    for i in (0, 1):
        q = L.get(L.idx(m, i), 'q')
        L.eq('mode %d: q (C q + D) = A q + B' % i, T.mul(q, T.add(T.mul(C, q), D)), T.add(T.mul(A, q), B))
        L.eq('mode %d is in the medium of the cavity' % i, L.get(L.idx(m, i), 'n'), L.get(c, 'frontIndex'))


@law('C14', ['matrix', 'lens', 'mirrors'])
def stability(L, kind):
    """stable if and only if |A + D| < 2, and then there is one finite mode"""
    c = cavity(L, kind)
    A, B, C, D = abcd(L, c)
    L.assume(far_from_zero(C))
    dd = disc(A, B, C, D)
    L.assume(not_(T.cmp_num('==', dd, N(0))))
    L.note(c, 'isStable')
    L.iff('isStable if and only if the mode is confined', L.I.truth(L.st, L.get(c, 'isStable')), T.cmp_num('<', dd, N(0)))
    n = L.length(L.call(c, 'laserModes'))
    L.eq('one mode when stable, none otherwise', n, ite(T.cmp_num('<', dd, N(0)), N(1), N(0)))


@law('C14', ['stable'])
def stable_mode_comes_back(L, s):
    c = cavity(L, 'matrix')
    A, B, C, D = abcd(L, c)
    L.assume(far_from_zero(C))
    L.assume(T.cmp_num('<', disc(A, B, C, D), N(0)))
    ms = L.call(c, 'laserModes')
    b = L.idx(ms, 0)
    o = L.mul(c, b)
    L.note(c, 'laserModes')
    L.eq('the mode is the same after a round trip', L.get(o, 'q'), L.get(b, 'q'))
    L.iff('the mode is finite', L.I.truth(L.st, L.get(b, 'isFinite')), TRUE)


@law('C14')
def no_power(L):
    c = L.new('LaserCavity', [L.new('Space', L.var('d', '+'))])
    m = L.call(c, 'eigenModes')
    L.eq('a cavity without power has no mode', T.tup([L.idx(m, 0), L.idx(m, 1)]), T.tup([NONE, NONE]))
    L.eq('a cavity without power has no laser mode', L.length(L.call(c, 'laserModes')), N(0))
    L.iff('a cavity without power is not stable', L.I.truth(L.st, L.get(c, 'isStable')), FALSE)


@law('C14', [(k, a, b) for k in ('lens', 'thick lens', 'interfaces') for a in (False, True) for b in (False, True)])
def unfolding(L, kind, first, last):
    """appendElementsInReverse(): the way back, elements turned around, in reverse order"""
    n = L.var('n', '+')
    d1, d2 = L.new('Space', L.var('d1', '+')), L.new('Space', L.var('d2', '+'))
    m1, m2 = L.new('CurvedMirror', L.var('R1', '!0')), L.new('CurvedMirror', L.var('R2', '!0'))
    if kind == 'lens':
        es = [m1, d1, L.new('Lens', L.var('f', '!0')), d2, m2]
    elif kind == 'thick lens':
        es = [m1, L.new('ThickLens', n, L.var('Ra', '!0'), INF, L.var('t', '+')), d2, m2]
    else:
        es = [m1, L.new('DielectricInterface', 1, n, L.var('Ra', '!0')), L.new('Space', L.var('t', '+'), n), L.new('DielectricInterface', n, 1), m2]
    ms = [abcd(L, e) for e in es]
    back = []
    for e, (A, B, C, D) in zip(es, ms):
        det = T.sub(T.mul(A, D), T.mul(B, C))
        back.append((A, B, C, D) if e is m1 or e is m2 else tuple(T.div(x, det) for x in (D, B, C, A)))
    back = back[1 if first else 0:-1 if last else None][::-1]
    lengths = [L.get(e, 'L') for e in es]
    c = L.new('LaserCavity', es)
    L.call(c, 'appendElementsInReverse', skipFirstElement=first, skipLastElement=last)
    L.note(c, 'appendElementsInReverse')
    cur = L.seq(L.get(c, 'elements'))
    L.fact('number of elements', len(cur) == len(es) + len(back), '%d elements instead of %d' % (len(cur), len(es) + len(back)))
    L.eq('elements on the way there', T.tup(cur[:len(es)]), T.tup(es))
    for i, (e, w, l) in enumerate(zip(es, ms, lengths)):
        for k, v in zip(ABCD + ('L',), tuple(w) + (l,)):
            L.eq('element %d is not modified: %s' % (i, k), L.get(e, k), v)
    for i, (e, w) in enumerate(zip(cur[len(es):], back)):
        for k, v in zip(ABCD, w):
            L.eq('element %d of the way back: %s' % (i, k), L.get(e, k), v)
    for k, x in zip(ABCD, prod(ms + back)):
        L.eq('the matrix is that of the round trip: ' + k, L.get(c, k), x)


@law('C14', ['lens', 'mirrors'])
def questions_do_not_modify(L, kind):
    c = cavity(L, kind)
    b = L.image(c, depth=10)
    L.call(c, 'eigenModes')
    L.call(c, 'laserModes')
    L.get(c, 'isStable')
    L.note(c, 'eigenModes')
    L.eq('asking for the modes does not modify the cavity', L.image(c, depth=10), b)
