"""Gated terms: hash-consed decision DAGs over typed leaves.

A value is either a Leaf or a Node.  A Node branches on a decision atom:
  * sign atoms  (poly)  : three ways   poly<0 / poly==0 / poly>0
  * truth atoms (term)  : two ways     true / false
Nodes are ordered by atom creation and reduced, so two values that are equal
as functions of their decision atoms are the same Python object.
"""
from fractions import Fraction
from . import rat as R
from .rat import Rat, ATOMS, rconst, ratom


class Unsupported(Exception):
    """The analysis met a construct it does not model."""


# --------------------------------------------------------------------- leaves
class V:
    __slots__ = ()


class Leaf(V):
    __slots__ = ('kind', 'a', 'b', 'id')

    def __repr__(self):
        return show(self)


class Node(V):
    __slots__ = ('atom', 'br', 'id')

    def __repr__(self):
        return show(self)


_table = {}
_counter = [0]


def _nid():
    _counter[0] += 1
    return _counter[0]


def leaf(kind, a=None, b=None, key=None):
    k = ('L', kind, key if key is not None else a, b)
    v = _table.get(k)
    if v is None:
        v = Leaf()
        v.kind, v.a, v.b, v.id = kind, a, b, _nid()
        _table[k] = v
    return v


def num(r):
    if not isinstance(r, Rat):
        r = rconst(r)
    return leaf('num', r)


def const(c):
    if isinstance(c, bool) or c is None or isinstance(c, (str, bytes)):
        return leaf('const', c, key=(type(c).__name__, c))
    if isinstance(c, int):
        return num(c)
    if isinstance(c, Fraction):
        return num(c)
    if isinstance(c, float):
        if c != c:
            return NAN
        if c == float('inf'):
            return INF
        if c == float('-inf'):
            return NINF
        return num(Fraction(repr(c)))
    if isinstance(c, complex):
        return num(rconst(Fraction(repr(c.real))) + R.RI * rconst(Fraction(repr(c.imag))))
    if c is Ellipsis:
        return leaf('const', 'Ellipsis', key=('ellipsis', '...'))
    raise Unsupported('constant %r' % (c,))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
INF = leaf('inf', 1)
NINF = leaf('inf', -1)
NAN = leaf('nan')
ERR = leaf('err')            # value of an undefined operation (division by zero)
NOTIMPL = leaf('const', 'NotImplemented', key=('NotImplemented',))


def ref(oid):
    return leaf('ref', oid)


def pyobj(kind, o):
    return leaf(kind, o, key=id(o))


def tup(items, cls=None):
    items = tuple(items)
    return leaf('tup', items, cls, key=(tuple(i.id for i in items)))


def app(fn, args, ty='any'):
    """opaque term"""
    args = tuple(args)
    return leaf('app', (fn, args, ty), key=(fn, tuple(a.id for a in args), ty))


# --------------------------------------------------------------------- decision atoms
class DAtom:
    __slots__ = ('id', 'kind', 'data', 'n', 'allowed')

    def __repr__(self):
        if self.kind == 'sgn':
            return 'sgn(%s)' % R.pstr(self.data)
        return 'truth(%s)' % (show(self.data) if isinstance(self.data, V) else str(self.data))


_atoms = {}
ATOMLIST = []


def datom(kind, key, data, n):
    k = (kind, key)
    a = _atoms.get(k)
    if a is None:
        a = DAtom()
        a.id, a.kind, a.data, a.n = len(ATOMLIST), kind, data, n
        a.allowed = None
        ATOMLIST.append(a)
        _atoms[k] = a
    return a


def mknode(atom, br):
    b0 = br[0]
    if all(b is b0 for b in br):
        return b0
    # push decisions inside equal-shaped tuples
    if all(type(b) is Leaf and b.kind == 'tup' for b in br):
        n = len(b0.a)
        if all(len(b.a) == n and b.b is b0.b for b in br):
            return tup([mknode(atom, [b.a[i] for b in br]) for i in range(n)], b0.b)
    k = ('N', atom.id) + tuple(b.id for b in br)
    v = _table.get(k)
    if v is None:
        v = Node()
        v.atom, v.br, v.id = atom, tuple(br), _nid()
        _table[k] = v
    return v


def branch(v, atom, i):
    if type(v) is Node:
        if v.atom is atom:
            return v.br[i]
        return v
    if v.kind == 'tup':
        return _tupbranch(v, atom, i)
    return v


_tbmemo = {}


def _tupbranch(v, atom, i):
    k = (v.id, atom.id, i)
    r = _tbmemo.get(k)
    if r is None:
        items = [cof(x, atom, i) for x in v.a]
        r = v if all(x is y for x, y in zip(items, v.a)) else tup(items, v.b)
        _tbmemo[k] = r
    return r


_cofmemo = {}


def cof(v, atom, i):
    """cofactor of v with atom=i (atom may occur anywhere)"""
    if type(v) is Leaf and v.kind != 'tup':
        return v
    k = (v.id, atom.id, i)
    r = _cofmemo.get(k)
    if r is not None:
        return r
    if type(v) is Leaf:
        r = _tupbranch(v, atom, i)
    elif v.atom is atom:
        r = v.br[i]
    elif v.atom.id > atom.id:
        # only tuples below could mention a smaller atom
        r = mknode(v.atom, [cof(b, atom, i) for b in v.br]) if _hastup(v) else v
    else:
        r = mknode(v.atom, [cof(b, atom, i) for b in v.br])
    _cofmemo[k] = r
    return r


_htmemo = {}


def _hastup(v):
    if type(v) is Leaf:
        return v.kind == 'tup'
    r = _htmemo.get(v.id)
    if r is None:
        r = any(_hastup(b) for b in v.br)
        _htmemo[v.id] = r
    return r


def top(*vs):
    t = None
    for v in vs:
        if type(v) is Node and (t is None or v.atom.id < t.id):
            t = v.atom
    return t


LIMIT = [400000]


def lift(f, args, memo=None):
    """apply f to the leaves of args"""
    if memo is None:
        memo = {}
    t = top(*args)
    if t is None:
        return f(*args)
    k = tuple(a.id for a in args)
    r = memo.get(k)
    if r is None:
        r = mknode_ord(t, [lift(f, [branch(a, t, i) for a in args], memo) for i in range(t.n)])
        memo[k] = r
        if len(memo) > LIMIT[0]:
            raise Unsupported('decision diagram too large')
    return r


def mknode_ord(atom, br):
    """mknode where branches may have smaller atoms at their top (f returned a
    Node with a smaller atom): re-establish the order."""
    b0 = br[0]
    if all(b is b0 for b in br):
        return b0
    t = None
    for b in br:
        if type(b) is Node and b.atom.id <= atom.id and (t is None or b.atom.id < t.id):
            t = b.atom
    if t is None:
        return mknode(atom, br)
    if t is atom:
        return mknode_ord(atom, [cof(b, atom, i) for i, b in enumerate(br)])
    return mknode(t, [mknode_ord(atom, [cof(b, t, i) for b in br]) for i in range(t.n)])


_memos = {}


def opmemo(name):
    return _memos.setdefault(name, {})


# --------------------------------------------------------------------- booleans
def _ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    m = opmemo('ite')
    k = (c.id, a.id, b.id)
    r = m.get(k)
    if r is None:
        if type(c) is Leaf:
            raise Unsupported('non-boolean gate %s' % show(c))
        t = top(c, a, b)
        r = mknode_ord(t, [_ite(branch(c, t, i), branch(a, t, i), branch(b, t, i)) for i in range(t.n)])
        m[k] = r
    return r


ite = _ite


def and_(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    return ite(a, b, FALSE)


def or_(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    return ite(a, TRUE, b)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    return ite(a, FALSE, TRUE)


def restrict(v, g):
    """simplify v under care set g"""
    if g is TRUE or g is FALSE:
        return v
    if type(v) is Leaf and v.kind != 'tup':
        return v
    m = opmemo('restrict')
    k = (v.id, g.id)
    r = m.get(k)
    if r is not None:
        return r
    if type(v) is Leaf:
        items = [restrict(x, g) for x in v.a]
        r = v if all(x is y for x, y in zip(items, v.a)) else tup(items, v.b)
    else:
        t = top(v, g)
        if t is not v.atom:
            gg = FALSE
            for b in g.br:
                gg = or_(gg, b)
            r = restrict(v, gg)
        else:
            gb = [branch(g, t, i) for i in range(t.n)]
            live = [i for i in range(t.n) if gb[i] is not FALSE]
            if len(live) == 1:
                r = restrict(v.br[live[0]], gb[live[0]])
            else:
                new = [None] * t.n
                for i in live:
                    new[i] = restrict(v.br[i], gb[i])
                for i in range(t.n):
                    if new[i] is None:
                        j = min(live, key=lambda q: abs(q - i))
                        new[i] = new[j]
                r = mknode_ord(t, new)
    m[k] = r
    return r


def leaves(v, g=TRUE):
    """[(guard, leaf)] of v under care g (guards are disjoint, within g)"""
    v = restrict(v, g)
    out = {}
    order = []

    def rec(v, path):
        if type(v) is Leaf:
            if v.id not in out:
                out[v.id] = [v, []]
                order.append(v.id)
            out[v.id][1].append(path)
            return
        for i, b in enumerate(v.br):
            rec(b, path + ((v.atom, i),))
    if type(v) is Leaf:
        return [(g, v)]
    for lid in _leafset(v):
        order.append(lid)
    res = []
    for l in order:
        lf = l
        gg = lift(lambda x, lf=lf: TRUE if x is lf else FALSE, [v], {})
        gg = and_(gg, g)
        if gg is not FALSE:
            res.append((gg, lf))
    return res


def _leafset(v):
    seen, out = set(), []
    st = [v]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if type(x) is Leaf:
            out.append(x)
        else:
            st.extend(x.br)
    out.sort(key=lambda l: l.id)
    return out


leafset = _leafset


# --------------------------------------------------------------------- numbers
def as_num_leaf(l):
    """numeric view of a leaf, or None"""
    k = l.kind
    if k in ('num', 'inf', 'nan', 'err'):
        return l
    if k == 'const' and isinstance(l.a, bool):
        return num(1 if l.a else 0)
    if k == 'app' and l.a[2] in ('any', 'num'):
        a = ATOMS.get(('app', l.id), kind='app', name=show(l), args=(l,), fn=l.a[0])
        return num(ratom(a))
    return None


SIGNS = {'+': (2,), '-': (0,), '0+': (1, 2), '!0': (0, 2), '0-': (0, 1), '0': (1,)}


def sgn_atom_allowed(p):
    """allowed sign indices of poly by simple sign facts"""
    signs = set()
    for m, c in p.items():
        s = {0 if c < 0 else 2}
        for a, e in m:
            info = ATOMS.info[a]
            f = SIGNS.get(info.sign, (0, 1, 2))
            if e % 2 == 0:
                f = (2,) if 1 not in f else (1, 2)
            ns = set()
            for x in s:
                for y in f:
                    if x == 1 or y == 1:
                        ns.add(1)
                    else:
                        ns.add(2 if x == y else 0)
            s = ns
        signs.add(frozenset(s))
    allowed = {0, 1, 2}
    un = set().union(*signs) if signs else {1}
    if un <= {1, 2}:
        allowed = {2} if any(s == frozenset({2}) for s in signs) else {1, 2}
    elif un <= {0, 1}:
        allowed = {0} if any(s == frozenset({0}) for s in signs) else {0, 1}
    elif len(p) == 1:
        allowed = un
    return allowed


def _sgnpoly(p):
    """decision node with leaves -1,0,1 for the sign of the polynomial"""
    if not p:
        return num(0)
    if len(p) == 1 and () in p:
        return num(1 if p[()] > 0 else -1)
    k, p = R.pcontent(p)
    mono = R.pmonogcd(p)
    res = None
    if mono and p != {mono: R.ONE}:
        p = R.pdivmono(p, mono)
    elif mono:
        p = {(): R.ONE}
    if mono:
        for a, e in mono:
            s = _sgnatom({((a, 1),): R.ONE})
            if e % 2 == 0:
                s = lift(lambda x: num(x.a.const() ** 2), [s])
            res = s if res is None else _smul(res, s)
        k2, p = R.pcontent(p)
        k = k * k2
    if not (len(p) == 1 and () in p):
        s = _sgnatom(p)
        res = s if res is None else _smul(res, s)
    elif p[()] < 0:
        k = -k
    if k < 0:
        res = lift(lambda x: num(-x.a.const()), [res])
    return res


def _smul(a, b):
    return lift(lambda x, y: num(x.a.const() * y.a.const()), [a, b])


def _sgnatom(p):
    key = R.pkey(p)
    al = sgn_atom_allowed(p)
    if len(al) == 1:
        return num(list(al)[0] - 1)
    at = datom('sgn', key, p, 3)
    br = [num(-1), num(0), num(1)]
    if len(al) == 2:
        miss = ({0, 1, 2} - al).pop()
        # merge the impossible branch with a neighbour
        j = min(al, key=lambda q: (abs(q - miss), -q))
        br[miss] = br[j]
    return mknode(at, br)


def sgn_rat(r):
    s = _sgnpoly(r.num)
    for f, e in r.den:
        if e % 2:
            fs = _sgnpoly(dict(f))
            fs = lift(lambda x: num(1) if x.a.const() >= 0 else x, [fs])
            s = _smul(s, fs)
    return s


def _sgn_leaf(l):
    if l.kind == 'num':
        if l.a.has_I():
            re, im = l.a.real_imag()
            if im.is_zero():
                return sgn_rat(re)
            return ERR
        return sgn_rat(l.a)
    if l.kind == 'inf':
        return num(l.a)
    return l   # nan / err


def sgn(v):
    return lift(_sgn_leaf, [v], opmemo('sgn'))


def truthcmp(op, s):
    """s: node of sign leaves (or nan/err)"""
    def f(l):
        if l.kind != 'num':
            return FALSE if (l.kind == 'nan' and op != '!=') else TRUE if l.kind == 'nan' else ERRB
        c = l.a.const()
        return const({'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op])
    return lift(f, [s])


ERRB = FALSE


def _add(x, y):
    if x.kind == 'num' and y.kind == 'num':
        return num(x.a + y.a)
    if x.kind == 'err' or y.kind == 'err':
        return ERR
    if x.kind == 'nan' or y.kind == 'nan':
        return NAN
    if x.kind == 'inf' and y.kind == 'inf':
        return x if x is y else NAN
    return x if x.kind == 'inf' else y


def _neg(x):
    if x.kind == 'num':
        return num(-x.a)
    if x.kind == 'inf':
        return leaf('inf', -x.a)
    return x


def _mul(x, y):
    if x.kind == 'num' and y.kind == 'num':
        return num(x.a * y.a)
    if x.kind == 'err' or y.kind == 'err':
        return ERR
    if x.kind == 'nan' or y.kind == 'nan':
        return NAN
    if x.kind == 'inf' and y.kind == 'inf':
        return leaf('inf', x.a * y.a)
    if y.kind == 'inf':
        x, y = y, x
    # inf * num
    s = _sgn_leaf(y)
    return lift(lambda l: NAN if l.kind != 'num' or l.a.const() == 0 else leaf('inf', x.a * int(l.a.const())), [s])


def _div(x, y):
    if x.kind == 'err' or y.kind == 'err':
        return ERR
    if x.kind == 'nan' or y.kind == 'nan':
        return NAN
    if y.kind == 'inf':
        return NAN if x.kind == 'inf' else num(0)
    if y.a.is_zero():
        return ERR
    if x.kind == 'inf':
        s = _sgn_leaf(y)
        return lift(lambda l: ERR if l.kind != 'num' or l.a.const() == 0 else leaf('inf', x.a * int(l.a.const())), [s])
    return num(x.a / y.a)


def _N(f):
    def g(*ls):
        out = []
        for l in ls:
            n = as_num_leaf(l)
            if n is None:
                raise TypeErr(l)
            out.append(n)
        return f(*out)
    return g


class TypeErr(Exception):
    """numeric operation on a non-numeric leaf"""


def add(a, b):
    return lift(_N(_add), [a, b], opmemo('add'))


def sub(a, b):
    return lift(_N(lambda x, y: _add(x, _neg(y))), [a, b], opmemo('sub'))


def mul(a, b):
    return lift(_N(_mul), [a, b], opmemo('mul'))


def div(a, b):
    return lift(_N(_div), [a, b], opmemo('div'))


def neg(a):
    return lift(_N(_neg), [a], opmemo('neg'))


def cmp_num(op, a, b):
    """numeric comparison as a boolean value"""
    def f(x, y):
        if x.kind == 'err' or y.kind == 'err':
            return ERRB
        if x.kind == 'nan' or y.kind == 'nan':
            return const(op == '!=')
        if x.kind == 'inf' and y.kind == 'inf':
            s = num(x.a - y.a)
        elif x.kind == 'inf':
            s = num(x.a)
        elif y.kind == 'inf':
            s = num(-y.a)
        else:
            d = x.a - y.a
            if d.has_I():
                re, im = d.real_imag()
                if op == '==':
                    return and_(truthcmp('==', sgn_rat(re)), truthcmp('==', sgn_rat(im)))
                if op == '!=':
                    return not_(and_(truthcmp('==', sgn_rat(re)), truthcmp('==', sgn_rat(im))))
                raise TypeErr(x)
            s = sgn_rat(d)
        return truthcmp(op, s)
    return lift(_N(f), [a, b], opmemo('cmp' + op))


def truth_atom(term):
    a = datom('truth', term.id, term, 2)
    return mknode(a, [TRUE, FALSE])


def eq_atom(x, y):
    if x.id > y.id:
        x, y = y, x
    return truth_atom(app('==', (x, y), 'bool'))


# --------------------------------------------------------------------- variables
def var(name, sign=None, isint=False):
    a = ATOMS.get(('var', name, sign, isint), kind='var', name=name, sign=sign, isint=isint)
    return num(ratom(a))


def numapp(fn, args, sign=None, square=None):
    key = ('fn', fn, tuple(a.id for a in args))
    a = ATOMS.get(key, kind='app', name='%s(%s)' % (fn, ', '.join(show(x) for x in args)), args=tuple(args),
                  sign=sign, square=square, fn=fn)
    return num(ratom(a))


# --------------------------------------------------------------------- printing
def show(v, depth=6):
    if depth == 0:
        return '...'
    if type(v) is Node:
        if v.atom.kind == 'sgn':
            return '{%s <0: %s | =0: %s | >0: %s}' % ((R.pstr(v.atom.data),) + tuple(show(b, depth - 1) for b in v.br))
        return '{%s ? %s : %s}' % ((show(v.atom.data, depth - 1),) + tuple(show(b, depth - 1) for b in v.br))
    k = v.kind
    if k == 'num':
        return repr(v.a)
    if k == 'inf':
        return '+inf' if v.a > 0 else '-inf'
    if k in ('nan', 'err'):
        return k
    if k == 'const':
        return repr(v.a)
    if k == 'ref':
        return '<obj %s>' % v.a
    if k == 'tup':
        return '(%s)' % ', '.join(show(x, depth - 1) for x in v.a)
    if k == 'app':
        fn, args, _ = v.a
        return '%s(%s)' % (fn, ', '.join(show(x, depth - 1) for x in args)) if args else str(fn)
    return '<%s %s>' % (k, getattr(v.a, 'name', v.a))
