"""Elements and groups are equal when they are made of the same parameters."""
from fractions import Fraction
from . import law
from .common import *

PARAMS = {
    'Lens': [('f', '!0'), ('diameter', '+')],
    'Space': [('d', '+'), ('n', '+')],
    'Aperture': [('diameter', '+')],
    'DielectricInterface': [('n1', '+'), ('n2', '+'), ('R', '!0'), ('diameter', '+')],
    'ThickLens': [('n', '+'), ('R1', '!0'), ('R2', '!0'), ('thickness', '+'), ('diameter', '+')],
    'DielectricSlab': [('n', '+'), ('thickness', '+'), ('diameter', '+')],
    'CurvedMirror': [('R', '!0'), ('diameter', '+')],
    'Axicon': [('alpha', '+'), ('n', '+'), ('diameter', '+')],
}


def values(L, kind, tag='', but=None):
    return {k: L.var(k + (tag if but is None or k == but else ''), s) for k, s in PARAMS[kind]}


def make(L, kind, label='', **v):
    return L.new(kind, label=label, **v)


@law('C33', list(PARAMS))
def same_parameters(L, kind):
    """two elements made with the same parameters are equal, an element equals itself, and nothing is modified"""
    v = values(L, kind)
    a, b = make(L, kind, **v), make(L, kind, **v)
    L.note(a, '__eq__')
    ia, ib = L.image(a), L.image(b)
    L.iff('same parameters: equal', L.cmp('==', a, b), TRUE)
    L.iff('same parameters: not unequal', L.cmp('!=', a, b), FALSE)
    L.iff('equal to itself', L.cmp('==', a, a), TRUE)
    L.eq('comparing modifies nothing', T.tup([L.image(a), L.image(b)]), T.tup([ia, ib]))


@law('C33', [(k, p) for k in PARAMS for p, s in PARAMS[k]] + [(k, 'label') for k in ('Lens', 'Space')])
def another_parameter(L, kind, p):
    """two elements that differ in one parameter are equal only when the values are"""
    v = values(L, kind)
    if p == 'label':
        a, b = make(L, kind, label='one', **v), make(L, kind, label='two', **v)
        same = FALSE
    else:
        w = values(L, kind, tag='_', but=p)
        if kind == 'ThickLens' and p != 'n':
            v['n'] = w['n'] = N(Fraction(3, 2))
            for q in (v, w):
                # with power
                L.assume(not_(T.cmp_num('==', T.add(q['thickness'], T.mul(N(3), T.sub(q['R2'], q['R1']))), N(0))))
        a, b = make(L, kind, **v), make(L, kind, **w)
        same = T.cmp_num('==', v[p], w[p])
    L.note(a, '__eq__')
    L.iff('equal exactly when %s is' % p, L.cmp('==', a, b), same)
    L.iff('the other way around too', L.cmp('==', b, a), same)
    L.iff('unequal exactly when %s is not' % p, L.cmp('!=', a, b), not_(same))


@law('C33', ['number', 'none', 'string', 'list', 'ray'])
def other_things(L, what):
    """an element or a group is not equal to something that is not one"""
    x = {'number': N(1), 'none': NONE, 'string': L.v('lens'), 'list': L.v([]), 'ray': None}[what]
    if what == 'ray':
        x = L.new('Ray', L.var('y'), L.var('theta'))
    lens = L.new('Lens', L.var('f', '!0'))
    for e in (lens, L.new('MatrixGroup', [lens]), L.new('MatrixGroup')):
        L.note(e, '__eq__')
        L.iff('not equal to a %s' % what, L.cmp('==', e, x), FALSE)
        L.iff('unequal to a %s' % what, L.cmp('!=', e, x), TRUE)


@law('C33', ['space', 'lens', 'length', 'order', 'group and element', 'empty'])
def groups(L, case):
    """groups are equal when their elements are, one by one"""
    d, f, d2, f2 = L.var('d', '+'), L.var('f', '!0'), L.var('d_', '+'), L.var('f_', '!0')
    a = [L.new('Space', d), L.new('Lens', f)]
    if case == 'space':
        b, same = [L.new('Space', d2), L.new('Lens', f)], T.cmp_num('==', d, d2)
    elif case == 'lens':
        b, same = [L.new('Space', d), L.new('Lens', f2)], T.cmp_num('==', f, f2)
    elif case == 'length':
        b, same = [L.new('Space', d), L.new('Lens', f), L.new('Space', d2)], FALSE
    elif case == 'order':
        b, same = [L.new('Lens', f), L.new('Space', d)], FALSE
    elif case == 'group and element':
        b, same = [L.new('MatrixGroup', [L.new('Space', d)]), L.new('Lens', f)], FALSE
    else:
        a, b, same = [], [], TRUE
    g, h = L.new('MatrixGroup', a), L.new('MatrixGroup', b)
    L.note(g, '__eq__')
    L.iff('equal exactly when all elements are', L.cmp('==', g, h), same)
    L.iff('the other way around too', L.cmp('==', h, g), same)
    L.iff('equal to itself', L.cmp('==', g, g), TRUE)


@law('C33', ['trace', 'loop', 'transferMatrix'])
def use_does_not_matter(L, how):
    """what has been done with a group does not make it different"""
    d, f = L.var('d', '+'), L.var('f', '!0')
    g, h = [L.new('MatrixGroup', [L.new('Space', d), L.new('Lens', f, diameter=L.var('dia', '+'))]) for _ in range(2)]
    L.note(g, '__eq__')
    if how == 'trace':
        L.call(g, 'trace', L.new('Ray', L.var('y'), L.var('theta')))
    elif how == 'loop':
        i = L.builtin('iter', g)
        L.builtin('next', i)
    else:
        L.call(g, 'transferMatrix')
    L.iff('still equal after %s' % how, L.cmp('==', g, h), TRUE)
    L.iff('still equal after %s (the other way around)' % how, L.cmp('==', h, g), TRUE)


@law('C33')
def copies_are_equal_and_independent(L):
    """a deep copy of a group is equal to it, until one of them is edited"""
    d, f = L.var('d', '+'), L.var('f', '!0')
    g = L.new('MatrixGroup', [L.new('Space', d), L.new('Lens', f)])
    h = L.run('import copy\nreturn copy.deepcopy(g)\n', g=g)
    L.note(g, '__eq__')
    before = L.image(g)
    L.iff('the copy is equal', L.cmp('==', g, h), TRUE)
    L.call(h, 'append', L.new('Space', d))
    L.eq('editing the copy does not modify the group', L.image(g), before)
    L.iff('the edited copy is not equal', L.cmp('==', g, h), FALSE)
