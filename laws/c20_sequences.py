"""Sets of rays and groups of elements can be read like lists."""
from . import law
from .common import *

KINDS = ['Rays', 'UniformRays', 'RandomUniformRays', 'LampRays', 'MatrixGroup', 'ImagingPath', 'LaserPath', 'list subclass']


def container(L, kind, n=2):
    """(container, its elements in order)"""
    if kind in ('Rays',):
        r = [L.new('Ray', L.var('y%d' % i), L.var('t%d' % i)) for i in range(n)]
        return L.new('Rays', L.v(list(r))), r
    if kind == 'UniformRays':
        s = L.new(kind, yMax=L.var('ym', '+'), thetaMax=L.var('tm', '+'), M=n, N=1)
        return s, [L.idx(L.get(s, 'rays'), i) for i in range(n)]
    if kind == 'RandomUniformRays':
        s = L.new(kind, yMax=L.var('ym', '+'), thetaMax=L.var('tm', '+'), maxCount=n)
        return s, [L.idx(s, i) for i in range(n)]
    if kind == 'LampRays':
        s = L.new(kind, L.var('ym', '+'), N=n, T=1)
        return s, [L.idx(L.get(s, 'rays'), i) for i in range(n)]
    e = [L.new('Space', L.var('d%d' % i, '+')) if i % 2 else L.new('Lens', L.var('f%d' % i, '!0')) for i in range(n)]
    return L.new(kind, L.v(list(e))), e


def pair(a, b):
    return T.tup([a, b])


RS = ['Rays', 'UniformRays', 'RandomUniformRays', 'LampRays', 'MatrixGroup', 'ImagingPath', 'LaserPath']


def items(L, label, lst, want):
    got = L.seq(lst)
    L.eq(label + ': how many', N(len(got)), N(len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        L.eq('%s: element %d' % (label, i), g, w)


@law('C20', RS)
def one_loop(L, kind):
    s, e = container(L, kind)
    L.note(s, '__iter__')
    L.eq('len()', L.length(s), N(len(e)))
    items(L, 'for', L.run('r = []\nfor x in s:\n    r.append(x)\nreturn r', s=s), e)
    items(L, 'list()', L.run('return list(s)', s=s), e)
    items(L, 'second loop', L.run('r = []\nfor x in s:\n    r.append(x)\nreturn r', s=s), e)
    items(L, 'comprehension', L.run('return [x for x in s]', s=s), e)
    L.eq('enumerate()', L.run('return [i for i, x in enumerate(s)] == list(range(len(s)))', s=s), TRUE)


@law('C20', RS)
def nested_loops(L, kind):
    """loops over the same container inside of each other do not disturb each other"""
    s, e = container(L, kind)
    L.note(s, '__iter__')
    r = L.seq(L.run('''
        r = []
        for a in s:
            for b in s:
                r.append((a, b))
        return r''', s=s))
    want = [pair(a, b) for a in e for b in e]
    L.eq('number of pairs', N(len(r)), N(len(want)))
    for i, (g, w) in enumerate(zip(r, want)):
        L.eq('pair %d' % i, g, w)


@law('C20', RS)
def interrupted_loop(L, kind):
    """a loop that stops early does not change where the next one starts"""
    s, e = container(L, kind)
    L.note(s, '__iter__')
    L.run('for a in s:\n    break', s=s)
    items(L, 'after an interrupted loop', L.run('return list(s)', s=s), e)
    items(L, 'length looked at while looping', L.run('''
        r = []
        for a in s:
            if len(s) == 2 and s[0] is not None and s[-1] is not None:
                r.append(a)
        return r''', s=s), e)


@law('C20', RS)
def first_elements(L, kind):
    s, e = container(L, kind, 3)
    L.note(s, '__iter__')
    L.eq('two iterators advance separately', L.run('''
        i, j = iter(s), iter(s)
        return (next(i), next(j), next(i), next(j))''', s=s), T.tup([e[0], e[0], e[1], e[1]]))


@law('C20', RS)
def one_by_one(L, kind):
    """next() of a container gives each of its members once, in order, and then stops"""
    s, e = container(L, kind)
    L.note(s, '__next__')
    for i, x in enumerate(e):
        L.eq('next() number %d' % i, L.run('return next(s)', s=s), x)
    for turn in ('', ' (again)'):
        L.raises('then it stops' + turn, L.trial(L.run, 'return next(s)', s=s), 'StopIteration')
    items(L, 'a loop afterwards', L.run('return [x for x in s]', s=s), e)
    L.eq('length afterwards', L.length(s), N(len(e)))


@law('C20', [k for k in RS if k not in ('MatrixGroup', 'ImagingPath', 'LaserPath')] + ['MatrixGroup', 'ImagingPath', 'LaserPath'])
def indices(L, kind):
    s, e = container(L, kind)
    L.note(s, '__getitem__')
    for i in (0, 1, -1, -2):
        L.eq('[%d]' % i, L.idx(s, i), e[i])
    for i in (2, -3):
        L.raises('no element %d' % i, L.trial(L.idx, s, i), 'IndexError')


@law('C20', ['Rays', 'MatrixGroup', 'ImagingPath'])
def empty(L, kind):
    s, e = container(L, kind, 0)
    L.note(s, '__iter__')
    L.eq('len()', L.length(s), N(0))
    items(L, 'for', L.run('return [x for x in s]', s=s), [])
    s = L.new(kind)
    L.eq('without argument: len()', L.length(s), N(0))
    items(L, 'without argument: for', L.run('return [x for x in s]', s=s), [])
    L.raises('no first element', L.trial(L.idx, s, 0), 'IndexError')


@law('C20', ['Rays', 'MatrixGroup', 'ImagingPath'])
def appended_is_last(L, kind):
    s, e = container(L, kind)
    x = L.new('Ray', L.var('yx'), L.var('tx')) if kind == 'Rays' else L.new('Space', L.var('dx', '+'))
    L.note(s, 'append')
    L.run('for a in s:\n    break\ns.append(x)', s=s, x=x)
    L.eq('len()', L.length(s), N(3))
    items(L, 'for', L.run('return [a for a in s]', s=s), e + [x])
    L.eq('[-1]', L.idx(s, -1), x)
    L.eq('[2]', L.idx(s, 2), x)


@law('C20', ['Rays'])
def made_from(L, kind):
    """a list, a tuple, an iterator, a generator or another set of rays"""
    r = [L.new('Ray', L.var('y%d' % i), L.var('t%d' % i)) for i in range(2)]
    for what in ('[a, b]', '(a, b)', 'iter([a, b])', '(x for x in [a, b])', 'Rays([a, b])', 'map(lambda x: x, [a, b])'):
        s = L.run('return Rays(%s)' % what, a=r[0], b=r[1])
        items(L, what, L.run('return list(s)', s=s), r)
        L.eq(what + ': len()', L.length(s), N(2))
    for what in ('5', '[1, 2]', '[a, 1]', '"ab"'):
        L.raises('not from ' + what, L.trial(L.run, 'return Rays(%s)' % what, a=r[0]), 'TypeError')
    s = L.new('Rays', L.v(list(r)))
    for what in (N(5), L.v('a'), NONE, L.v([r[0]])):
        L.raises('only rays can be appended', L.trial(L.call, s, 'append', what), 'TypeError')


@law('C20', ['MatrixGroup', 'ImagingPath', 'LaserPath'])
def group_made_from(L, kind):
    e = [L.new('Lens', L.var('f', '!0')), L.new('Space', L.var('d', '+'))]
    g = L.run('return %s([a, b])' % kind, a=e[0], b=e[1])
    items(L, 'list', L.run('return list(s)', s=g), e)
    given = L.v(list(e))
    g = L.run('return %s(l)' % kind, l=given)
    L.run('g.append(x)', g=g, x=L.new('Space', L.var('d2', '+')))
    items(L, 'the list that was given is not changed', given, e)
    for what in ('[1, 2]', '[a, 1]', '"ab"'):
        L.raises('not from ' + what, L.trial(L.run, 'return %s(%s)' % (kind, what), a=e[0]), 'TypeError')
    for what in (N(5), L.v('a'), NONE):
        L.raises('only elements can be appended', L.trial(L.call, g, 'append', what), 'TypeError')


PARTS = ['0:2', '1:', ':2', ':', '-2:', ':-1', '::2', '::-1', '2:1', '1:9']


@law('C20', ['Rays', 'UniformRays', 'RandomUniformRays', 'LampRays', 'MatrixGroup', 'ImagingPath'])
def parts(L, kind):
    """a slice has the members of the slice of the list, in order, and indices out of range are refused"""
    s, e = container(L, kind, 3)
    for part in PARTS[:-3] if kind == 'MatrixGroup' else PARTS:
        b = [int(x) if x else None for x in part.split(':')]
        t = L.attempt(L.run, 'return list(s[%s])' % part, s=s)
        L.note(s, '__getitem__')
        L.quiet('[%s]' % part, t)
        if t.guard is not FALSE:
            items(L, '[%s]' % part, t.value, e[slice(*b)])
    L.eq('number of members', L.length(s), N(3))
    for i in (3, -4):
        L.raises('[%d]' % i, L.trial(L.idx, s, i), 'IndexError')
