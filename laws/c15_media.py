"""Neighbouring elements share their medium; what does not fit is refused and nothing changes."""
from . import law
from .common import *
from .c02_group import fold, els, plain

SKIP = ('iteration', '_lastRayToBeTraced', '_lastRayTrace')


def group(L, k, n=None):
    n = L.var('n', '+') if n is None else n
    es = [mat(L, i + 1, ('gen', 'C0', 'gen')[i % 3], indices=(n, n)) for i in range(k)]
    plain(L, es)
    return L.new('MatrixGroup', list(es)), es, n


def other(L, i, n, both=False):
    """an element whose front medium is not the one at hand"""
    m = L.var('m%d' % i, '+')
    L.assume(not_(T.cmp_num('==', m, n)))
    return mat(L, 50 + i, 'gen', indices=(m, n if not both else L.var('mm%d' % i, '+')))


def refused(L, label, g, fn, *args, cls='ValueError'):
    before = L.image(g, skip=SKIP, depth=10)
    a = L.trial(fn, *args)
    L.note(g, 'append')
    L.raises('%s is refused' % label, a, cls)
    st = a.after
    # whatever was raised, the group is as it was: every abstract state that raises
    for s, e in a.raised:
        L.eq('%s: the group is as it was' % label, L.image(g, skip=SKIP, depth=10, st=s), before, st=s)


OPS = {
    'append': lambda L, g, x: lambda: L.I.call_method(L.st, g, 'append', [x]),
    'insert(0)': lambda L, g, x: lambda: L.I.call_method(L.st, g, 'insert', [N(0), x]),
    'insert(1)': lambda L, g, x: lambda: L.I.call_method(L.st, g, 'insert', [N(1), x]),
    'insert list': lambda L, g, x: lambda: L.I.call_method(L.st, g, 'insert', [N(1), L.v([x])]),
    'set[1]': lambda L, g, x: lambda: L.I.setitem(L.st, g, N(1), x),
    'set[-1]': lambda L, g, x: lambda: L.I.setitem(L.st, g, N(-1), x),
    'set slice': lambda L, g, x: lambda: L.I.setitem(L.st, g, L.apply(L.bcls('slice'), 1, 2), L.v([x])),
}


@law('C15', [(o, k) for o in OPS for k in (2, 3)])
def foreign_medium(L, op, k):
    if op in ('append',) and k == 3:
        pass
    g, es, n = group(L, k)
    x = other(L, 1, n)
    if op == 'insert(0)':   # its back medium does not fit the first element
        m = L.var('mb', '+')
        L.assume(not_(T.cmp_num('==', m, n)))
        x = mat(L, 60, 'gen', indices=(L.var('mf', '+'), m))
    refused(L, '%s with another index' % op, g, OPS[op](L, g, x))


@law('C15', [(o, x) for o in OPS for x in ('number', 'string', 'ray')])
def foreign_object(L, op, what):
    if op in ('insert list', 'set slice') and what == 'string':
        what = 'number'
    g, es, n = group(L, 2)
    x = {'number': N(3), 'string': T.const('lens')}.get(what) or L.new('Ray', L.var('y'), L.var('th'))
    before = L.image(g, skip=SKIP, depth=10)
    a = L.trial(OPS[op](L, g, x))
    L.note(g, 'append')
    L.raises('%s: a %s is refused' % (op, what), a, 'TypeError')
    for s, e in a.raised:
        L.eq('%s of a %s: the group is as it was' % (op, what), L.image(g, skip=SKIP, depth=10, st=s), before, st=s)


@law('C15', [(k, i) for k in (1, 2, 3) for i in ('out', '-out')])
def positions(L, k, i):
    g, es, n = group(L, k)
    j = k if i == 'out' else -k - 1
    before = L.image(g, skip=SKIP, depth=10)
    for nm, fn in (('pop', lambda: L.I.call_method(L.st, g, 'pop', [N(j)])),
                   ('set', lambda: L.I.setitem(L.st, g, N(j), es[0])),
                   ('get', lambda: L.I.subscript(L.st, g, N(j)))):
        a = L.trial(fn)
        L.note(g, 'pop')
        L.raises('%s(%d) of %d elements raises IndexError' % (nm, j, k), a, 'IndexError')
        for s, e in a.raised:
            L.eq('%s out of range: the group is as it was' % nm, L.image(g, skip=SKIP, depth=10, st=s), before, st=s)


@law('C15')
def pop_that_breaks_continuity(L):
    """removing an element between two media is refused"""
    n1, n2 = L.var('n1', '+'), L.var('n2', '+')
    L.assume(not_(T.cmp_num('==', n1, n2)))
    es = [mat(L, 1, 'gen', indices=(n1, n1)), mat(L, 2, 'gen', indices=(n1, n2)), mat(L, 3, 'gen', indices=(n2, n2))]
    g = L.new('MatrixGroup', list(es))
    refused(L, 'pop of the element between two media', g, lambda: L.I.call_method(L.st, g, 'pop', [N(1)]))


@law('C15')
def constructor_checks(L):
    n1, n2 = L.var('n1', '+'), L.var('n2', '+')
    L.assume(not_(T.cmp_num('==', n1, n2)))
    es = [mat(L, 1, 'gen', indices=(n1, n1)), mat(L, 2, 'gen', indices=(n2, n2))]
    for c in ('MatrixGroup', 'ImagingPath', 'LaserPath', 'LaserCavity'):
        L.raises('%s of elements in different media is refused' % c, L.trial(L.new, c, L.v(list(es))), 'ValueError')
        L.raises('%s of something that is not a list is refused' % c, L.trial(L.new, c, N(3)), 'TypeError')
        L.raises('%s of a list of numbers is refused' % c, L.trial(L.new, c, L.v([N(3)])), 'TypeError')


@law('C15', [1, 2])
def spaces_adopt_the_medium(L, k):
    """a space takes the medium of the element before it"""
    n = L.var('n', '+')
    g, es, n = group(L, k, n)
    s = L.new('Space', L.var('d', '+'), L.var('m', '+'))
    L.call(g, 'append', s)
    L.eq('a space takes the index of the element before', L.get(s, 'frontIndex'), n)
    L.eq('a space takes the index of the element before (back)', L.get(s, 'backIndex'), n)
    L.eq('index of the group', L.get(g, 'backIndex'), n)
    L.eq('the space is there', L.idx(g, -1), s)


@law('C15', ['interface', 'space of that medium', 'group'])
def space_after_a_change_of_medium(L, what):
    """a space behind an interface is in the medium behind it"""
    n1, n2, m = L.var('n1', '+'), L.var('n2', '+'), L.var('m', '+')
    e = L.new('DielectricInterface', n1, n2, L.var('R', '!0'))
    s = L.new('Space', L.var('d', '+'), n2 if what == 'space of that medium' else m)
    if what == 'group':
        L.assume(not_(T.cmp_num('==', n1, n2)))
        e = L.new('MatrixGroup', [e])
    g = L.new('MatrixGroup', [e, s])
    L.note(g, 'append')
    for k in ('frontIndex', 'backIndex'):
        L.eq('the space is in the medium behind (%s)' % k, L.get(s, k), n2)
    L.eq('the front index of the group is in front of the interface', L.get(g, 'frontIndex'), n1)
    L.eq('the back index of the group is behind the interface', L.get(g, 'backIndex'), n2)
    L.eq('the interface is as it was', T.tup([L.get(e, 'frontIndex'), L.get(e, 'backIndex')]), T.tup([n1, n2]))


@law('C15', ['insert(1)', 'insert list', 'set[1]', 'set slice'])
def spaces_adopt_the_medium_in_the_middle(L, op):
    """wherever a space is put in a group, it takes the medium of the element before it"""
    g, es, n = group(L, 3)
    m = L.var('m', '+')
    s = L.new('Space', L.var('d', '+'), m)
    a = L.attempt(OPS[op](L, g, s))
    L.note(g, 'append')
    L.quiet('%s of a space of another index is accepted' % op, a)
    L.eq('%s: the space is there' % op, L.idx(g, 1), s)
    L.eq('%s: the space takes the index of the element before' % op, L.get(s, 'frontIndex'), n)
    L.eq('%s: the space takes the index of the element before (back)' % op, L.get(s, 'backIndex'), n)
    L.eq('%s: what follows is as it was' % op, L.idx(g, 2), es[1 if 'insert' in op else 2])


@law('C15', [('append', 2), ('insert(1)', 2), ('set[1]', 3), ('append', 3)])
def neighbours_share_their_medium(L, op, k):
    """after any accepted edit, each element ends in the medium where the next one starts"""
    n = L.var('n', '+')
    g, es, n = group(L, k, n)
    x = mat(L, 40, 'gen', indices=(n, L.var('q', '+')))
    a = L.attempt(OPS[op](L, g, x))
    if L.st.guard is FALSE:
        return
    cur = L.seq(L.get(g, 'elements'))
    for i, (p, q) in enumerate(zip(cur, cur[1:])):
        L.note(g, 'append')
        L.eq('after %s: element %d ends where element %d starts' % (op, i, i + 1), L.get(p, 'backIndex'), L.get(q, 'frontIndex'))


@law('C15')
def interfaces_in_contact(L):
    n1, n2, n3 = L.var('n1', '+'), L.var('n2', '+'), L.var('n3', '+')
    es = [L.new('DielectricInterface', n1, n2, L.var('R1', '!0')), L.new('Space', L.var('d', '+'), n2),
          L.new('DielectricInterface', n2, n3, L.var('R2', '!0'))]
    g = L.new('MatrixGroup', list(es))
    L.eq('front index of the group', L.get(g, 'frontIndex'), n1)
    L.eq('back index of the group', L.get(g, 'backIndex'), n3)
    L.eq('determinant of the group', L.get(g, 'determinant'), T.div(n1, n3))


@law('C15', [(k, x) for k in ('space', 'matrix') for x in ('aperture', 'lens', 'interface')])
def behind_nothing(L, kind, what):
    """behind a space of no length or an identity matrix, in its medium, an element of another medium is refused"""
    n = L.var('n', '+')
    L.assume(not_(T.cmp_num('==', n, N(1))))
    e = L.new('Space', N(0), n) if kind == 'space' else L.new('Matrix', 1, 0, 0, 1, frontIndex=n, backIndex=n)
    g = L.new('MatrixGroup', L.v([e]))
    x = {'aperture': lambda: L.new('Aperture', 10), 'lens': lambda: L.new('Lens', L.var('f', '!0')),
         'interface': lambda: L.new('DielectricInterface', 1, L.var('n2', '+'))}[what]()
    before = L.image(x)
    refused(L, 'append of a %s' % what, g, lambda: L.I.call_method(L.st, g, 'append', [x]))
    L.eq('the element is as it was', L.image(x), before)
