"""A group is the ordered product of the elements it currently holds."""
from . import law
from .common import *


def fold(L, els):
    """reference: what the ordered elements amount to (independent of Matrix.__mul__)"""
    A, B, C, D, Lt = N(1), N(0), N(0), N(1), N(0)
    fv = bv = NONE
    for e in els:
        a, b, c, d, l = [L.get(e, k) for k in ABCD + ('L',)]
        A, B, C, D = (T.add(T.mul(a, A), T.mul(b, C)), T.add(T.mul(a, B), T.mul(b, D)),
                      T.add(T.mul(c, A), T.mul(d, C)), T.add(T.mul(c, B), T.mul(d, D)))
        f, k = L.get(e, 'frontVertex'), L.get(e, 'backVertex')
        isn = lambda v: T.lift(lambda x: TRUE if x is NONE else FALSE, [v], {})
        fv = ite(isn(fv), T.lift(lambda x, y: NONE if x is NONE else T._add(x, y), [f, Lt], {}), fv)
        bv = ite(isn(k), bv, T.lift(lambda x, y: NONE if x is NONE else T._add(x, y), [k, Lt], {}))
        Lt = T.add(Lt, l)
    return A, B, C, D, Lt, fv, bv


def coherent(L, g, els, label, ray_=True):
    A, B, C, D, Lt, fv, bv = fold(L, els)
    L.note(g, 'append')
    cur = L.seq(L.get(g, 'elements'))
    L.eq(label + ': holds the expected elements', T.tup(cur), T.tup(els))
    for k, w in zip(ABCD + ('L', 'frontVertex', 'backVertex'), (A, B, C, D, Lt, fv, bv)):
        L.eq('%s: %s is that of the ordered elements' % (label, k), L.get(g, k), w)
    if els:
        L.eq(label + ': frontIndex', L.get(g, 'frontIndex'), L.get(els[0], 'frontIndex'))
        L.eq(label + ': backIndex', L.get(g, 'backIndex'), L.get(els[-1], 'backIndex'))
    else:
        L.eq(label + ': frontIndex of an empty group', L.get(g, 'frontIndex'), N(1))
        L.eq(label + ': backIndex of an empty group', L.get(g, 'backIndex'), N(1))
    tm = L.call(g, 'transferMatrix')
    for k, w in zip(ABCD + ('L', 'frontVertex', 'backVertex'), (A, B, C, D, Lt, fv, bv)):
        L.eq('%s: transferMatrix().%s' % (label, k), L.get(tm, k), w)
    if ray_:
        y, th = L.var('ry'), L.var('rth')
        out = L.call(g, 'traceThrough', L.new('Ray', y, th))
        L.eq(label + ': a traced ray leaves at A*y+B*theta', L.get(out, 'y'), T.add(T.mul(A, y), T.mul(B, th)))
        L.eq(label + ': a traced ray leaves with C*y+D*theta', L.get(out, 'theta'), T.add(T.mul(C, y), T.mul(D, th)))
        L.eq(label + ': a traced ray leaves at z=L', L.get(out, 'z'), Lt)
    L.eq(label + ': len()', L.length(g), N(len(els)))


VX = [('var', 'var'), (None, None), ('var', 'var'), ('var', 'var')]


def els(L, k, first=0, charts=None):
    """k valid elements in the same medium (so any order is admissible)"""
    n = L.var('n', '+')
    out = []
    for i in range(first, first + k):
        fv, bv = VX[i % 4]
        out.append(mat(L, i + 1, (charts or ('gen', 'C0', 'gen', 'A0'))[i % 4], indices=(n, n), fv=fv, bv=bv))
    return out


def plain(L, es):
    """elements that are not the identity matrix (whose index is 'transparent')"""
    for e in es:
        i = L.I.truth(L.st, L.get(e, 'isIdentity'))
        if i is not FALSE:
            L.assume(not_(i))


@law('C02', [0, 1, 2, 3], thorough=[4])
def construct(L, k):
    es = els(L, k)
    plain(L, es)
    g = L.new('MatrixGroup', list(es))
    coherent(L, g, es, 'MatrixGroup(%d elements)' % k)


@law('C02', [0, 1, 2], thorough=[3])
def append(L, k):
    es = els(L, k + 1)
    plain(L, es)
    g = L.new('MatrixGroup', list(es[:k]))
    L.call(g, 'append', es[k])
    coherent(L, g, es, 'after append')


@law('C02', [(1, 0), (1, 1), (1, -1), (2, 0), (2, 1), (2, 2), (2, -1), (2, -2)], thorough=[(3, 1), (3, 2), (3, -2)])
def insert(L, k, i):
    es = els(L, k + 1)
    plain(L, es)
    g = L.new('MatrixGroup', list(es[:k]))
    L.call(g, 'insert', i, es[k])
    want = list(es[:k])
    want.insert(i, es[k])
    coherent(L, g, want, 'after insert(%d)' % i)


@law('C02', [(1, 0), (2, 1), (2, 0)], thorough=[(2, 2)])
def insert_many(L, k, i):
    es = els(L, k + 2)
    plain(L, es)
    g = L.new('MatrixGroup', list(es[:k]))
    L.call(g, 'insert', i, [es[k], es[k + 1]])
    coherent(L, g, es[:i] + es[k:] + es[i:k], 'after insert(%d, list)' % i)


@law('C02', [(1, 0), (2, 0), (2, 1), (2, -1), (2, -2), (3, 1)], thorough=[(3, 0), (3, -2), (4, 2)])
def pop(L, k, i):
    es = els(L, k)
    plain(L, es)
    g = L.new('MatrixGroup', list(es))
    r = L.call(g, 'pop', i)
    want = list(es)
    L.eq('pop(%d) returns the element' % i, r, want.pop(i))
    coherent(L, g, want, 'after pop(%d)' % i)


@law('C02', [(1, 0), (2, 0), (2, 1), (2, -1), (2, -2), (3, 1), (3, -1)], thorough=[(3, -2), (3, -3)])
def setitem(L, k, i):
    es = els(L, k + 1)
    plain(L, es)
    g = L.new('MatrixGroup', list(es[:k]))
    L.I.setitem(L.st, g, N(i), es[k])
    want = list(es[:k])
    want[i] = es[k]
    L.entry = 'MatrixGroup.__setitem__'
    coherent(L, g, want, 'after group[%d] = element' % i)


@law('C02', [(3, 0, 2), (3, 1, 3), (3, 1, 2), (2, None, 1), (2, 1, None), (2, -1, None), (2, None, None), (3, 1, -1)],
     thorough=[(3, -2, -1)])
def setslice(L, k, a, b):
    es = els(L, k + 1)
    plain(L, es)
    g = L.new('MatrixGroup', list(es[:k]))
    sl = L.apply(L.bcls('slice'), a, b)
    L.I.setitem(L.st, g, sl, L.v([es[k]]))
    want = list(es[:k])
    want[a:b] = [es[k]]
    L.entry = 'MatrixGroup.__setitem__'
    coherent(L, g, want, 'after group[%s:%s] = [element]' % (a, b))


@law('C02', [(3, 0, 2, 'group'), (3, 1, None, 'group'), (2, 0, 1, 'two'), (3, 0, 2, 'none'), (2, 1, 2, 'element'), (3, 0, 3, 'step'), (3, 0, 2, 'step 1')])
def setslice_with(L, k, a, b, what):
    """a part of a group is replaced by a group, a list, nothing or one element; the step of the slice is not used"""
    es = els(L, k + 2)
    plain(L, es)
    g = L.new('MatrixGroup', list(es[:k]))
    new = {'none': [], 'element': [es[k]]}.get(what, [es[k], es[k + 1]])
    x = L.new('MatrixGroup', list(new)) if what == 'group' else es[k] if what == 'element' else L.v(list(new))
    sl = L.apply(L.bcls('slice'), a, b, *{'step': [2], 'step 1': [1]}.get(what, []))
    had = len(L.st.effects)
    L.I.setitem(L.st, g, sl, x)
    warned = any(e.kind == 'app' and e.a[0] == 'effect:warn' for _, e in L.st.effects[had:])
    want = list(es[:k])
    want[a:b] = new
    L.entry = 'MatrixGroup.__setitem__'
    coherent(L, g, want, 'after group[%s:%s] = %s' % (a, b, what), ray_=False)
    L.fact('a step that is not used is told about', warned == (what == 'step'))


@law('C02', [(3, 0, 2), (3, 1, None)])
def getslice(L, k, a, b):
    es = els(L, k)
    plain(L, es)
    g = L.new('MatrixGroup', list(es))
    s = L.idx(g, L.apply(L.bcls('slice'), a, b))
    coherent(L, s, es[a:b], 'group[%s:%s]' % (a, b))
    coherent(L, g, es, 'the sliced group', ray_=False)
    for i in range(-k, k):
        L.eq('group[%d]' % i, L.idx(g, i), es[i])


@law('C02', [('append', 'pop'), ('pop', 'append'), ('insert', 'pop'), ('pop', 'insert'), ('set', 'append')])
def two_edits(L, a, b):
    es = els(L, 4)
    plain(L, es)
    g = L.new('MatrixGroup', list(es[:2]))
    want = list(es[:2])
    for op, e in ((a, es[2]), (b, es[3])):
        # a trace in between must not be remembered
        L.call(g, 'traceThrough', L.new('Ray', L.var('ry'), L.var('rth')))
        if op == 'append':
            L.call(g, 'append', e)
            want.append(e)
        elif op == 'insert':
            L.call(g, 'insert', 0, e)
            want.insert(0, e)
        elif op == 'pop':
            L.call(g, 'pop', 0)
            want.pop(0)
        else:
            L.I.setitem(L.st, g, N(0), e)
            want[0] = e
    coherent(L, g, want, 'after %s, trace, %s' % (a, b))


@law('C02')
def edits_of_another_group(L):
    """two groups sharing elements do not share their lists"""
    es = els(L, 3)
    plain(L, es)
    g1 = L.new('MatrixGroup', list(es[:2]))
    g2 = L.new('MatrixGroup', g1)
    L.call(g2, 'append', es[2])
    coherent(L, g1, es[:2], 'original group', ray_=False)
    coherent(L, g2, es, 'copied and extended group', ray_=False)


@law('C02', [(how, edited, edit) for how in ('[:]', '[0:2]', 'group', 'list') for edited in ('copy', 'original')
             for edit in ('append', 'pop', 'set')])
def a_copy_and_its_original(L, how, edited, edit):
    """a slice that holds everything, or a group made from a group or from a list, has a list of its own"""
    es = els(L, 3)
    plain(L, es)
    o = L.v(list(es[:2])) if how == 'list' else L.new('MatrixGroup', list(es[:2]))
    if how in ('group', 'list'):
        c = L.new('MatrixGroup', o)
    else:
        c = L.idx(o, L.apply(L.bcls('slice'), *((N(0), N(2)) if how == '[0:2]' else (NONE, NONE))))
    x, y = (c, o) if edited == 'copy' else (o, c)
    want = list(es[:2])
    if edit == 'append':
        L.call(x, 'append', es[2])
        want.append(es[2])
    elif edit == 'pop':
        L.call(x, 'pop', N(0))
        want.pop(0)
    else:
        L.I.setitem(L.st, x, N(1), es[2])
        want[1] = es[2]
    L.entry = 'MatrixGroup.__init__, MatrixGroup.__getitem__ (raytracing/matrixgroup.py)'
    for label, z, w in (('edited', x, want), ('other', y, es[:2])):
        if how == 'list' and z is o:
            L.eq(label + ': the list', T.tup(L.seq(o)), T.tup(w))
        else:
            coherent(L, z, w, label + ' group', ray_=False)


@law('C02')
def nested_group(L):
    es = els(L, 3)
    plain(L, es)
    inner = L.new('MatrixGroup', list(es[1:]))
    g = L.new('MatrixGroup', [es[0], inner])
    A, B, C, D, Lt, fv, bv = fold(L, es)
    for k, w in zip(ABCD + ('L', 'frontVertex', 'backVertex'), (A, B, C, D, Lt, fv, bv)):
        L.eq('group in a group: ' + k, L.get(g, k), w)
    ms = L.seq(L.call(g, 'transferMatrices'))
    L.eq('transferMatrices() lists the elements of nested groups in order', T.tup(ms), T.tup(es))


TWICE = ['pop last', 'pop first', 'pop -3', 'set last', 'set first', 'insert last', 'slice', 'replace', 'append']


@law('C02', [(h, e) for h in ('same', 'equal') for e in TWICE])
def an_element_twice(L, how, edit):
    """the same element at two places, or two equal elements: an edit is made at the place asked for"""
    n = L.var('n', '+')
    d = L.var('d', '+')
    a, c = L.new('Space', d, n), mat(L, 1, 'gen', indices=(n, n), fv='var', bv='var')
    x = mat(L, 2, 'gen', indices=(n, n), fv='var', bv='var')
    b = a if how == 'same' else L.new('Space', d, n)
    plain(L, [c, x])
    want = [a, c, b]
    g = L.new('MatrixGroup', L.v(list(want)))
    if edit.startswith('pop'):
        i = {'last': -1, 'first': 0, '-3': -3}[edit[4:]] if how == 'same' else {'last': 2, 'first': 0, '-3': -3}[edit[4:]]
        L.eq('the element popped', L.call(g, 'pop', i), want.pop(i))
    elif edit.startswith('set'):
        i = {'last': 2, 'first': 0}[edit[4:]]
        L.I.setitem(L.st, g, N(i), x)
        want[i] = x
    elif edit == 'insert last':
        L.call(g, 'insert', 2, x)
        want.insert(2, x)
    elif edit == 'slice':
        s = L.idx(g, L.apply(L.bcls('slice'), N(1), NONE))
        coherent(L, s, want[1:], 'slice', ray_=False)
    elif edit == 'replace':
        L.I.setitem(L.st, g, L.apply(L.bcls('slice'), N(2), NONE), L.v([x]))
        want[2:] = [x]
    else:
        L.call(g, 'append', a)
        want.append(a)
    coherent(L, g, want, 'after ' + edit)
