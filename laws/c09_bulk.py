"""Tracing many rays is tracing each of them."""
from . import law
from .common import *
from .c08_trace import system, FIELDS


def rays_of(L, k, blocked=False):
    out = []
    for i in range(k):
        r = L.new('Ray', L.var('y%d' % i), L.var('th%d' % i))
        out.append(r)
    return out


def same_rays(L, label, got, want, n=None):
    L.eq(label + ': number of rays', L.length(got), N(len(want)))
    for i, w in enumerate(want):
        x = L.idx(got, i)
        for k in FIELDS:
            L.eq('%s: ray %d, %s' % (label, i, k), L.get(x, k), L.get(w, k))


@law('C09', [(k, n) for k in ('lens', 'group') for n in (0, 1, 2)])
def trace_many(L, kind, n):
    s, rs = system(L, kind), rays_of(L, n)
    want = [L.call(s, 'trace', r) for r in rs]
    got = L.call(s, 'traceMany', L.v(rs))
    L.note(s, 'traceMany')
    L.eq('traceMany(): one trace per ray', L.length(got), N(n))
    for i, w in enumerate(want):
        g = L.idx(got, i)
        L.eq('traceMany(): length of trace %d' % i, L.length(g), L.length(w))
        for k in FIELDS:
            L.eq('traceMany(): trace %d ends with the same %s' % (i, k), L.get(L.idx(g, -1), k), L.get(L.idx(w, -1), k))


def infinite(L, kind):
    """nothing blocks: every ray gets through"""
    if kind == 'lens':
        return L.new('Lens', L.var('f', '!0'))
    if kind == 'empty':
        return L.new('MatrixGroup')
    return L.new('MatrixGroup', [L.new('Space', L.var('d1', '+')), L.new('Lens', L.var('f', '!0')), L.new('Space', L.var('d2', '+'))])


FORMS = ['list', 'Rays', 'tuple', 'iterator']


def given(L, form, rs):
    if form == 'list':
        return L.v(list(rs))
    if form == 'tuple':
        return T.tup(rs)
    if form == 'Rays':
        return L.new('Rays', list(rs))
    return L.builtin('iter', L.v(list(rs)))


@law('C09', [(k, f, p) for k in ('lens', 'group', 'empty') for f in FORMS for p in (True, False)])
def trace_many_through(L, kind, form, progress):
    s, rs = infinite(L, kind), rays_of(L, 3)
    want = [L.call(s, 'traceThrough', r) for r in rs]
    x = given(L, form, rs)
    got = L.call(s, 'traceManyThrough', x, progress=progress)
    L.note(s, 'traceManyThrough')
    same_rays(L, 'traceManyThrough(%s)' % form, got, want)


@law('C09', [(k, m) for k in ('lens', 'group') for m in range(8)])
def only_unblocked_rays_in_order(L, kind, mask):
    s, rs = system(L, kind), rays_of(L, 3)
    outs = [L.call(s, 'traceThrough', r) for r in rs]
    want = []
    for i, o in enumerate(outs):
        b = L.I.truth(L.st, L.get(o, 'isBlocked'))
        L.assume(not_(b) if mask >> i & 1 else b)
        if mask >> i & 1:
            want.append(o)
    got = L.call(s, 'traceManyThrough', L.v(rs), progress=False)
    L.note(s, 'traceManyThrough')
    same_rays(L, 'traceManyThrough() keeps the rays that get through, in order', got, want)


@law('C09', [(k, p, 'list', False) for k in ('lens', 'group') for p in (1, 2, 3)] + [('lens', 2, f, False) for f in FORMS[1:]] +
     [('lens', 2, 'list', True), ('lens', None, 'list', False), ('lens', 2, 'fails', False), ('lens', 2, 'blocked', False)])
def in_parallel(L, kind, processes, form, progress):
    """same rays, whatever the number of processes (the order may change)"""
    s, rs = infinite(L, kind), rays_of(L, 3)
    n = 3
    if form == 'blocked':
        s = L.new('Aperture', L.var('dia', '+'))
        for i, r in enumerate(rs):
            b = L.I.truth(L.st, L.get(L.call(s, 'traceThrough', r), 'isBlocked'))
            L.assume(b if i == 1 else not_(b))
        rs0, rs, n = rs, rs, 2
    want = [L.call(s, 'traceThrough', r) for r in rs]
    if form == 'blocked':
        del want[1]
    kw = {} if processes is None else {'processes': processes}
    L.I.stubs['multiprocessing.cpu_count'] = lambda I, st, me, a, k: N(2)
    L.I.stubs['os.cpu_count'] = lambda I, st, me, a, k: N(2)
    if form == 'fails':
        def broken(I, st, me, a, k):
            I.raise_named(st, 'OSError', 'no more processes')
        L.I.stubs['multiprocessing.Pool'] = broken
    had = len(L.st.effects)
    got = L.call(s, 'traceManyThroughInParallel', given(L, form if form in FORMS else 'list', rs), progress=progress, **kw)
    L.note(s, 'traceManyThroughInParallel')
    if form == 'fails':
        L.fact('a warning tells when it did not work', any(e.kind == 'app' and e.a[0] == 'effect:warn' for _, e in L.st.effects[had:]))
    L.eq('in parallel: as many rays', L.length(got), N(n))
    every = TRUE
    for w in want:
        some = FALSE
        for j in range(n):
            x = L.idx(got, j)
            same = TRUE
            for k in ('y', 'theta', 'z'):
                same = and_(same, L.cmp('==', L.get(x, k), L.get(w, k)))
            some = or_(some, same)
        every = and_(every, some)
    L.iff('in parallel: every ray is there', every, TRUE)


@law('C09')
def not_iterable(L):
    s = system(L, 'lens')
    L.raises('traceManyThrough(number) raises TypeError', L.trial(L.call, s, 'traceManyThrough', N(3)), 'TypeError')
    L.raises('traceManyThrough([number]) raises TypeError', L.trial(L.call, s, 'traceManyThrough', L.v([3])), 'TypeError')


@law('C09', ['lens', 'group'])
def inputs_are_left_alone(L, kind):
    s, rs = system(L, kind), rays_of(L, 2)
    x = L.v(rs)
    b = L.image(x, depth=8)
    for m in ('traceMany', 'traceManyThrough'):
        L.call(s, m, x, **({'progress': False} if 'Through' in m else {}))
        L.note(s, m)
        L.eq('%s() leaves the rays alone' % m, L.image(x, depth=8), b)
