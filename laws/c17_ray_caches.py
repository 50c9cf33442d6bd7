"""Values computed from a set of rays are those of the rays it holds now."""
from . import law
from .common import *


def rays(L, n, pre=''):
    return [L.new('Ray', L.var('y%s%d' % (pre, i)), L.var('th%s%d' % (pre, i))) for i in range(n)]


def reflect(L, label, s, current):
    L.note(s, 'yValues')
    ys, ths = L.get(s, 'yValues'), L.get(s, 'thetaValues')
    L.eq(label + ': yValues', T.tup(L.seq(ys)), T.tup([L.get(r, 'y') for r in current]))
    L.eq(label + ': thetaValues', T.tup(L.seq(ths)), T.tup([L.get(r, 'theta') for r in current]))
    L.eq(label + ': count', L.get(s, 'count'), N(len(current)))
    L.eq(label + ': len()', L.length(s), N(len(current)))


def hist(L, label, s, meth, current, bins, lo, hi):
    """counts and centres of the bins, with the values of the rays held now"""
    L.note(s, meth)
    h = L.call(s, meth, bins, lo, hi)
    X, C = L.idx(h, 0), L.idx(h, 1)
    L.eq(label + ': as many centres as bins', L.length(X), N(bins))
    L.eq(label + ': as many counts as bins', L.length(C), N(bins))
    xs, cs = [L.idx(X, i) for i in range(bins)], [L.idx(C, i) for i in range(bins)]
    vals = [L.get(r, 'y' if 'Count' in meth else 'theta') for r in current]
    w = T.div(T.sub(hi, lo), N(bins))
    for i in range(bins):
        a, b = T.add(lo, T.mul(N(i), w)), T.add(lo, T.mul(N(i + 1), w))
        c = N(0)
        for v in vals:
            c = T.add(c, ite(and_(T.cmp_num('>=', v, a), T.cmp_num('<=' if i == bins - 1 else '<', v, b)), N(1), N(0)))
        L.eq('%s: centre of bin %d' % (label, i), xs[i], T.div(T.add(a, b), N(2)))
        L.eq('%s: number of rays in bin %d' % (label, i), cs[i], c)


def limits(L, i=''):
    lo, hi = L.var('lo%s' % i), L.var('hi%s' % i)
    L.assume(T.cmp_num('<', lo, hi))
    return lo, hi


@law('C17', [0, 1, 2], thorough=[3])
def values(L, n):
    r = rays(L, n)
    s = L.new('Rays', L.v(list(r)))
    reflect(L, 'new', s, r)
    reflect(L, 'again', s, r)


@law('C17', [0, 1, 2], thorough=[3])
def values_after_append(L, n):
    r = rays(L, n)
    s = L.new('Rays', L.v(list(r)))
    reflect(L, 'before', s, r)
    x = rays(L, 1, 'x')[0]
    L.call(s, 'append', x)
    reflect(L, 'after append', s, r + [x])
    L.call(s, 'append', x)
    reflect(L, 'after a second append', s, r + [x, x])


@law('C17', ['rayCountHistogram', 'rayAnglesHistogram'])
def histogram_after_append(L, meth):
    r = rays(L, 1)
    s = L.new('Rays', L.v(list(r)))
    lo, hi = limits(L)
    hist(L, 'before', s, meth, r, 2, lo, hi)
    x = rays(L, 1, 'x')[0]
    L.call(s, 'append', x)
    hist(L, 'after append', s, meth, r + [x], 2, lo, hi)


@law('C17', ['rayCountHistogram', 'rayAnglesHistogram'])
def histogram_other_parameters(L, meth):
    """the last histogram is not returned for other parameters"""
    r = rays(L, 1)
    s = L.new('Rays', L.v(list(r)))
    lo, hi = limits(L)
    lo2, hi2 = limits(L, '2')
    hist(L, 'first', s, meth, r, 2, lo, hi)
    hist(L, 'more bins', s, meth, r, 3, lo, hi)
    hist(L, 'another minimum and maximum', s, meth, r, 3, lo2, hi2)
    hist(L, 'first parameters again', s, meth, r, 2, lo, hi)


@law('C17')
def two_histograms(L):
    """heights and angles are not mixed up"""
    r = rays(L, 2)
    s = L.new('Rays', L.v(list(r)))
    lo, hi = limits(L)
    hist(L, 'heights', s, 'rayCountHistogram', r, 2, lo, hi)
    hist(L, 'angles', s, 'rayAnglesHistogram', r, 2, lo, hi)
    hist(L, 'heights again', s, 'rayCountHistogram', r, 2, lo, hi)


@law('C17', ['rayCountHistogram', 'rayAnglesHistogram'])
def default_limits(L, meth):
    """by default all rays are counted, between the lowest and the highest"""
    r = rays(L, 2)
    s = L.new('Rays', L.v(list(r)))
    L.note(s, meth)
    v = [L.get(x, 'y' if 'Count' in meth else 'theta') for x in r]
    L.assume(T.cmp_num('<', v[0], v[1]))
    h = L.call(s, meth, 2)
    xs, cs = L.seq(L.idx(h, 0)), L.seq(L.idx(h, 1))
    L.eq('every ray is counted', T.add(cs[0], cs[1]), N(2))
    L.eq('first centre', xs[0], T.add(v[0], T.div(T.sub(v[1], v[0]), N(4))))
    h = L.call(s, meth)
    L.eq('40 bins by default', N(len(L.seq(L.idx(h, 0)))), N(40))
    x = L.new('Ray', T.add(v[1], N(1)), T.add(v[1], N(1)))
    L.call(s, 'append', x)
    h = L.call(s, meth, 2)
    cs = L.seq(L.idx(h, 1))
    L.eq('every ray is counted after append', T.add(cs[0], cs[1]), N(3))


@law('C17', [(0, False), (1, False), (1, True), (2, True)])
def values_after_load(L, n, append):
    L.files()
    saved = rays(L, 2, 's')
    L.call(L.new('Rays', L.v(list(saved))), 'save', 'a.rays')
    r = rays(L, n)
    s = L.new('Rays', L.v(list(r)))
    reflect(L, 'before', s, r)
    lo, hi = limits(L)
    if n:
        hist(L, 'before', s, 'rayCountHistogram', r, 1, lo, hi)
    L.call(s, 'load', 'a.rays', append)
    L.note(s, 'load')
    reflect(L, 'after load', s, (r if append else []) + saved)
    if n:
        hist(L, 'after load', s, 'rayCountHistogram', (r if append else []) + saved, 1, lo, hi)


@law('C17', ['append', 'load'])
def two_sets_are_independent(L, how):
    r = rays(L, 2)
    a, b = L.new('Rays', L.v(list(r))), L.new('Rays', L.v(list(r)))
    reflect(L, 'first', a, r)
    reflect(L, 'second', b, r)
    x = rays(L, 1, 'x')
    if how == 'append':
        L.call(a, 'append', x[0])
    else:
        L.files()
        L.call(L.new('Rays', L.v(x)), 'save', 'f')
        L.call(a, 'load', 'f', append=True)
    reflect(L, 'first, edited', a, r + x)
    reflect(L, 'second, not edited', b, r)


@law('C17')
def copy_of_the_list(L):
    """the list that .rays gives can be edited without any effect on the set"""
    r = rays(L, 2)
    s = L.new('Rays', L.v(list(r)))
    c = L.get(s, 'rays')
    L.call(c, 'append', rays(L, 1, 'x')[0])
    reflect(L, 'after the edit of .rays', s, r)


@law('C17', ['RandomUniformRays', 'RandomLambertianRays'])
def random_rays_do_not_change(L, c):
    """a random set gives the same rays each time it is looked at"""
    if c == 'RandomLambertianRays':
        L.lenient = True
    s = L.new(c, maxCount=2)
    one = [L.idx(s, i) for i in (0, 1)]
    reflect(L, 'generated', s, one)
    L.eq('same ray', L.idx(s, 1), one[1])
    L.eq('last ray', L.idx(s, -1), one[1])


@law('C17', [(a, b) for a in ('Rays', 'RandomUniformRays') for b in ('Rays', 'RandomUniformRays')])
def sets_made_without_rays(L, a, b):
    """each new set starts empty, and what one gets is not in the other"""
    s = L.new(a)
    r = rays(L, 1)
    L.note(s, '__init__')
    L.eq('a new set holds nothing', T.tup(L.seq(L.get(s, 'rays'))), T.tup([]))
    L.call(s, 'append', r[0])
    o = L.new(b)
    L.eq('another new set holds nothing', T.tup(L.seq(L.get(o, 'rays'))), T.tup([]))
    x = rays(L, 1, 'x')
    L.call(o, 'append', x[0])
    L.eq('the first set holds its ray', T.tup(L.seq(L.get(s, 'rays'))), T.tup(r))
    L.eq('the other holds its own', T.tup(L.seq(L.get(o, 'rays'))), T.tup(x))
    if a == 'Rays':
        reflect(L, 'the first set', s, r)


@law('C17', [[], [1]])
def sets_made_from_the_same_list(L, had):
    """two sets made from one list do not share it"""
    r = rays(L, len(had))
    l = L.v(list(r))
    s, o = L.new('Rays', l), L.new('Rays', l)
    x = rays(L, 1, 'x')
    L.call(s, 'append', x[0])
    L.note(s, '__init__')
    reflect(L, 'the set', s, r + x)
    reflect(L, 'the other', o, r)
    L.eq('the list', T.tup(L.seq(l)), T.tup(r))
