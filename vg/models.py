"""Abstract models of the builtins and external libraries the repository uses."""
import ast
import math
from fractions import Fraction

from . import terms as T
from . import rat as R
from .terms import (TRUE, FALSE, NONE, INF, NINF, NAN, ERR, Leaf, Node, const, num, ite, and_, or_, not_, restrict,
                    leaves, lift, Unsupported)
from .program import ClassInfo, FuncInfo, Module, External

KNOWN_BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)

OBJ_ATTRS = {'BaseException': {'args', 'with_traceback', '__traceback__'}, 'object': {'__init__', '__eq__'}}


# ------------------------------------------------------------------ numeric helpers
def frac_sqrt(x):
    if x < 0:
        raise ValueError
    n, d = x.numerator, x.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    s = 10 ** 60
    return Fraction(math.isqrt(n * s * s // d), s)


def cst(l):
    """Fraction of a constant numeric leaf else None"""
    if l.kind == 'num' and l.a.is_const():
        return l.a.const()
    if l.kind == 'const' and isinstance(l.a, bool):
        return Fraction(int(l.a))
    return None


def as_int(l):
    c = cst(l)
    if c is not None and c.denominator == 1:
        return int(c)
    return None


FLOATFN = {
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
    'arcsin': math.asin, 'arccos': math.acos, 'arctan': math.atan, 'exp': math.exp, 'log': math.log,
    'log10': math.log10, 'radians': math.radians, 'degrees': math.degrees, 'deg2rad': math.radians,
    'rad2deg': math.degrees, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'log2': math.log2,
}
ALIAS = {'arcsin': 'asin', 'arccos': 'acos', 'arctan': 'atan', 'deg2rad': 'radians', 'rad2deg': 'degrees'}


def unary_float(I, st, fn, v):
    name = ALIAS.get(fn, fn)

    def one(l):
        l = T.as_num_leaf(l)
        if l is None:
            raise T.TypeErr(l)
        if l.kind in ('nan', 'err'):
            return l
        if l.kind == 'inf':
            if name == 'exp':
                return INF if l.a > 0 else num(0)
            if name == 'atan':
                return T.div(T.mul(num(l.a), T.num(R.ratom(R.PI_ATOM))), num(2))
            return NAN
        if name == 'radians':
            return T.div(T.mul(l, num(R.ratom(R.PI_ATOM))), num(180))
        if name == 'degrees':
            return T.div(T.mul(l, num(180)), num(R.ratom(R.PI_ATOM)))
        c = cst(l)
        if c is not None:
            if c == 0 and name in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh'):
                return num(0)
            if c == 0 and name in ('cos', 'exp', 'cosh'):
                return num(1)
            try:
                return num(Fraction(FLOATFN[name](float(c))))
            except ValueError:
                return ERR
        sign = '+' if name in ('exp', 'cosh') else None
        if name in ('sin', 'cos', 'tan'):
            q = cst(T.div(l, num(R.ratom(R.PI_ATOM))))
            if q is not None and q % Fraction(1, 2) == 0:
                k = int(q * 2) % 4
                if name == 'sin':
                    return num((0, 1, 0, -1)[k])
                if name == 'cos':
                    return num((1, 0, -1, 0)[k])
            if q is not None and name == 'cos' and q.denominator == 3:
                return num(Fraction((2, 1, -1, -2, -1, 1)[int(q * 3) % 6], 2))
        # odd / even functions: canonical sign of the argument
        if name in ('sin', 'tan', 'asin', 'atan', 'cos', 'sinh', 'tanh', 'cosh'):
            k, p = R.pcontent(l.a.num)
            if k < 0:
                r = T.numapp(name, [num(-l.a)], sign)
                return r if name in ('cos', 'cosh') else T.neg(r)
        return T.numapp(name, [l], sign)
    r = lift(one, [v], T.opmemo('fn' + name))
    bad = lift(lambda l: const(l is ERR), [r], {})
    if bad is not FALSE and not any(l is ERR for l in T.leafset(v)):
        I.raise_if(st, bad, 'ValueError', 'math domain error')
        r = restrict(r, st.guard)
    return r


def sqrt_leaf(l, cplx=False):
    l = T.as_num_leaf(l)
    if l is None:
        raise T.TypeErr(l)
    if l.kind in ('nan', 'err'):
        return l
    if l.kind == 'inf':
        return INF if l.a > 0 else NAN
    c = cst(l)
    if c is not None:
        if c >= 0:
            return num(frac_sqrt(c))
        if cplx:
            return num(R.RI * R.rconst(frac_sqrt(-c)))
        return ERR
    if cplx:
        return T.numapp('csqrt', [l], None, l.a)
    return T.numapp('sqrt', [l], '0+', l.a)


def fsqrt(I, st, v):
    neg = lift(lambda l: T.cmp_num('<', T.as_num_leaf(l), num(0)), [v], {})
    if neg is not FALSE:
        I.raise_if(st, neg, 'ValueError', 'math domain error')
        v = restrict(v, st.guard)
    return lift(sqrt_leaf, [v], T.opmemo('sqrt'))


def real_imag(I, l, which):
    r = l.a
    if any(R.ATOMS.info[a].fn in ('csqrt', 'cplx') or R.ATOMS.info[a].kind == 'app' and
           R.ATOMS.info[a].fn not in ('sqrt', 'imag', 'real', 'sin', 'cos', 'tan', 'exp', 'asin', 'acos', 'atan', 'log',
                                      'abs')
           and R.ATOMS.info[a].square is not None for a in r.atoms()):
        return T.numapp(which, [l])
    re, im = r.real_imag()
    return num(re if which == 'real' else im)


def absval(v):
    def one(l):
        l = T.as_num_leaf(l)
        if l is None:
            raise T.TypeErr(l)
        if l.kind == 'inf':
            return INF
        if l.kind != 'num':
            return l
        if l.a.has_I():
            re, im = l.a.real_imag()
            return sqrt_leaf(num(re * re + im * im))
        s = T.sgn(l)
        return lift(lambda x: l if x.kind == 'num' and x.a.const() >= 0 else T._neg(l), [s], {})
    return lift(one, [v], T.opmemo('abs'))


def power(I, st, a, b):
    def one(x, y):
        c = cst(y)
        if x.kind == 'err' or y.kind == 'err':
            return ERR
        if c is None:
            if y.kind == 'inf' or y.kind == 'nan' or x.kind != 'num':
                return NAN
            return T.numapp('pow', [x, y])
        if x.kind == 'inf':
            if c == 0:
                return num(1)
            return (INF if (x.a > 0 or c % 2 == 0) else NINF) if c > 0 else num(0)
        if x.kind == 'nan':
            return NAN
        if c.denominator == 1:
            if c < 0 and x.a.is_zero():
                return ERR
            return num(x.a.pow(int(c)))
        if c.denominator == 2:
            s = sqrt_leaf(x)
            if s is ERR:
                return num(R.RI * R.rconst(frac_sqrt(-cst(x)))) if c == Fraction(1, 2) else ERR
            if s.kind == 'num':
                return num(s.a.pow(int(c.numerator)))
            return s
        cx = cst(x)
        if cx is not None and cx > 0:
            return num(Fraction(float(cx) ** float(c)))
        return T.numapp('pow', [x, y])
    return lift(T._N(one), [a, b], {})


def floordiv(I, st, a, b, mod):
    def one(x, y):
        p, q = cst(x), cst(y)
        if p is not None and q is not None and q != 0:
            return num(p % q if mod else Fraction(p // q))
        if x.kind == 'num' and y.kind == 'num':
            return T.numapp('mod' if mod else 'floordiv', [x, y])
        return NAN
    z = lift(lambda l: const(cst(l) == 0), [b], {})
    if z is not FALSE:
        I.raise_if(st, z, 'ZeroDivisionError', '')
        b = restrict(b, st.guard)
    return lift(T._N(one), [a, b], {})


# ------------------------------------------------------------------ strings
def concat(parts):
    out = []
    for p in parts:
        if type(p) is Leaf and p.kind == 'app' and p.a[0] == 'concat':
            out.extend(p.a[1])
        else:
            out.append(p)
    m = []
    for p in out:
        if m and type(m[-1]) is Leaf and m[-1].kind == 'const' and type(p) is Leaf and p.kind == 'const' and isinstance(p.a, str):
            m[-1] = const(m[-1].a + p.a)
        else:
            m.append(p)
    if len(m) == 1:
        return m[0]
    if not m:
        return const('')
    if any(type(x) is Node for x in m):
        return lift(lambda *ls: concat(list(ls)), m, {})
    return T.app('concat', m, 'str')


def fmt(I, st, v, spec='', conv=-1):
    def one(l):
        if l.kind == 'const' and isinstance(l.a, str) and spec == '':
            return l
        if l.kind == 'const' and spec == '':
            return const(str(l.a))
        if l.kind == 'const' and isinstance(l.a, str):
            try:
                return const(format(l.a, spec))
            except ValueError:
                pass
        if l.kind == 'class' and spec == '':
            return const("<class '%s'>" % (l.a.module.name + '.' + l.a.name if l.a.module else l.a.name))
        c = cst(l)
        if c is not None and c.denominator == 1 and spec == '':
            return const(str(int(c)))
        if l.kind == 'app' and l.a[2] == 'str' and spec == '':
            return l
        if c is not None and spec[-1:] in 'feEgG%' and spec != '':
            try:
                return const(format(float(c), spec))
            except (ValueError, OverflowError):
                pass
        return T.app('fmt', (l, const(spec)), 'str')

    def dispatch(s, l):
        if l.kind == 'ref':
            o = I.heapget(s, l.a)
            c, b = o.cls.lookup('__str__')
            if b is not None and not c.builtin:
                return I.call_func(s, b.value, [l], {})
            c, b = o.cls.lookup('__repr__')
            if b is not None and not c.builtin:
                return I.call_func(s, b.value, [l], {})
            if spec == '' and any(x.name == 'BaseException' for x in o.cls.mro()) and 'args' in o.fields:
                ar = o.fields['args']
                if type(ar) is Leaf and ar.kind == 'tup' and o.cls.name != 'KeyError' and len(ar.a) < 2:
                    return fmt(I, s, ar.a[0]) if ar.a else const('')
            return T.app('fmt', (I.freeze(s, l), const(spec)), 'str')
        return one(l)
    return I.split(st, v, dispatch)


def could_equal(x, y):
    """can a constant be equal to a concatenation"""
    if y.kind == 'const':
        x, y = y, x
    if x.kind != 'const' or not isinstance(x.a, str) or y.kind != 'app' or y.a[0] != 'concat':
        return True
    s, parts = x.a, list(y.a[1])
    k = lambda p: type(p) is Leaf and p.kind == 'const' and isinstance(p.a, str)
    if k(parts[0]):
        if not s.startswith(parts[0].a):
            return False
        s = s[len(parts[0].a):]
        parts = parts[1:]
    if parts and k(parts[-1]):
        if not s.endswith(parts[-1].a):
            return False
        s = s[:len(s) - len(parts[-1].a)]
        parts = parts[:-1]
    for p in parts:
        if k(p):
            i = s.find(p.a)
            if i < 0:
                return False
            s = s[i + len(p.a):]
    return True


STRM = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'replace', 'startswith', 'endswith', 'join', 'find',
        'isdigit', 'isnumeric', 'title', 'capitalize', 'casefold', 'count', 'index', 'rsplit', 'partition',
        'rpartition', 'splitlines', 'isalpha', 'isspace', 'zfill', 'ljust', 'rjust', 'center', 'encode', 'format',
        'removeprefix', 'removesuffix', 'swapcase', 'rfind'}


def from_py(I, st, o):
    if isinstance(o, (list,)):
        return I.newlist(st, [from_py(I, st, x) for x in o])
    if isinstance(o, tuple):
        return T.tup([from_py(I, st, x) for x in o])
    return const(o)


def str_method(I, st, selfv, name, args, kwargs):
    if name == 'format':
        if selfv.kind != 'const':
            return T.app('format', [selfv] + [I.freeze(st, a) for a in args], 'str')
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(selfv.a):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                head = field
                rest = ''
                for i, ch in enumerate(field):
                    if ch in '.[':
                        head, rest = field[:i], field[i:]
                        break
                if head == '':
                    idx = auto
                    auto += 1
                    v = args[idx] if idx < len(args) else None
                elif head.isdigit():
                    v = args[int(head)] if int(head) < len(args) else None
                else:
                    v = kwargs.get(head)
                if v is None:
                    I.raise_named(st, 'IndexError', 'format')
                if rest:
                    if rest.startswith('.') and rest[1:].isidentifier():
                        v = I.getattr(st, v, rest[1:])
                    else:
                        return T.app('format', [selfv] + [I.freeze(st, a) for a in args], 'str')
                parts.append(fmt(I, st, v, spec or ''))
        except ValueError:
            I.raise_named(st, 'ValueError', 'format')
        return concat(parts)
    if name == 'join':
        def gj(its):
            parts = []
            for i, (g, x) in enumerate(its):
                if g is not TRUE:
                    raise Unsupported('join of optional items')
                if i:
                    parts.append(selfv)
                parts.append(x)
            return concat(parts)
        return gj(I.iterate(st, args[0]))
    if selfv.kind == 'app' and selfv.a[0] in ('textline', 'textlines', 'decimal'):
        if name in ('strip', 'rstrip', 'lstrip', 'replace', 'expandtabs') or name in ('upper', 'lower') and selfv.a[0] == 'decimal':
            return selfv
        if selfv.a[0] == 'textlines' and (name == 'splitlines' or name == 'split' and args and args[0] is const('\n')):
            return I.newlist(st, list(selfv.a[1]))
        if selfv.a[0] == 'textline' and name == 'split' and (not args or args[0] is NONE):
            return I.newlist(st, list(selfv.a[1]))
        if selfv.a[0] == 'textline' and name == 'startswith' and args[0].kind == 'const' and selfv.a[1][0].kind == 'const' \
                and ' ' not in args[0].a:
            return const(selfv.a[1][0].a.startswith(args[0].a))
    pa = []
    ok = selfv.kind == 'const'
    for a in args:
        if type(a) is Leaf and a.kind == 'const':
            pa.append(a.a)
        elif type(a) is Leaf and as_int(a) is not None:
            pa.append(as_int(a))
        elif type(a) is Leaf and a.kind == 'tup' and all(type(x) is Leaf and x.kind == 'const' for x in a.a):
            pa.append(tuple(x.a for x in a.a))
        else:
            ok = False
    if ok and name in STRM:
        try:
            return from_py(I, st, getattr(selfv.a, name)(*pa))
        except Exception as e:
            I.raise_named(st, type(e).__name__, str(e))
    if name in ('startswith', 'endswith', 'isdigit', 'isnumeric', 'isalpha', 'isspace'):
        return T.truth_atom(T.app('str.' + name, [selfv] + args, 'bool'))
    if name in ('split', 'rsplit', 'splitlines', 'partition'):
        return T.app('str.' + name, [selfv] + args, 'any')
    if name in STRM:
        if any(type(x) is Node for x in args):
            return lift(lambda *ls: T.app('str.' + name, ls, 'str'), [selfv] + args, {})
        return T.app('str.' + name, [selfv] + args, 'str')
    raise Unsupported('str.' + name)


NODEFAULT = T.app('no default', ())


def _defaultdict(I, st, a, k):
    d = I.call(st, I.classval(I.bcls('dict')), list(a[1:]), k)
    if a and a[0] is not NONE:
        I.write(st, d).fields['$factory'] = a[0]
    return d


def _deque(I, st, a, k):
    if len(a) > 1 or k:
        raise Unsupported('deque')
    return I.newlist_items(st, I.iterate(st, a[0]) if a else [])


# ------------------------------------------------------------------ indexing
def getitem(I, st, b, i):
    k = b.kind
    if k == 'ref':
        o = I.heapget(st, b.a)
        c, f = o.cls.lookup('__getitem__')
        if f is not None and not c.builtin:
            return I.call_func(st, f.value, [b, i], {})
        if o.entries is not None:
            if '$factory' in o.fields:
                r = dict_get(I, st, b, i, NODEFAULT)
                if r is not NODEFAULT:
                    if any(l is NODEFAULT for l in T.leafset(r)):
                        raise Unsupported('defaultdict')
                    return r
                r = I.call(st, o.fields['$factory'], [], {})
                dict_set(I, st, b, i, r)
                return r
            return dict_get(I, st, b, i, None)
        if o.items is not None and o.extra != 'iterator':
            return seq_index(I, st, o.items, i, lambda s, items: make_like(I, s, o, items))
        return I.raise_named(st, 'TypeError', 'object is not subscriptable')
    if k == 'tup':
        return seq_index(I, st, tuple((TRUE, x) for x in b.a), i, lambda s, items: T.tup([x for _, x in items]))
    if k == 'const' and isinstance(b.a, str):
        n = as_int(i)
        if n is not None:
            try:
                return const(b.a[n])
            except IndexError:
                I.raise_named(st, 'IndexError', 'string index')
        if i.kind == 'ref':
            o = I.heapget(st, i.a)
            if o.cls.name == 'slice':
                f = [None if o.fields[x] is NONE else as_int(o.fields[x]) for x in ('start', 'stop', 'step')]
                return const(b.a[slice(*f)])
    if k in ('app', 'builtin', 'class', 'module'):
        return T.app('item', (b if k == 'app' else T.app(str(getattr(b.a, 'name', b.a)), ()), I.freeze(st, i)))
    if k == 'err':
        return ERR
    I.raise_named(st, 'TypeError', 'not subscriptable')


def ndarray(I, st, xs):
    return I.new(st, I.bcls('object'), items=tuple((TRUE, x) for x in xs), extra='ndarray')


def array_of(I, st, v, nested=True):
    """array of nested sequences"""
    e = _elements(I, st, v)
    if e is None:
        return v
    return I.new(st, I.bcls('object'), items=tuple((g, array_of(I, st, x)) for g, x in e), extra='ndarray')


def array_map(I, st, f, a, b):
    xa, xb = _elements(I, st, a), _elements(I, st, b)
    if xa is None and xb is None:
        return f(st, a, b)
    if xa is not None and xb is not None and len(xa) != len(xb):
        I.raise_named(st, 'ValueError', 'shapes')
    n = len(xa if xa is not None else xb)
    out = []
    for i in range(n):
        g = xa[i][0] if xa is not None else xb[i][0]
        out.append((g, array_map(I, st, f, xa[i][1] if xa is not None else a, xb[i][1] if xb is not None else b)))
    return I.new(st, I.bcls('object'), items=tuple(out), extra='ndarray')


def matmul(I, st, a, b):
    def rows(v):
        e = _elements(I, st, v)
        if e is None:
            return None
        if any(g is not TRUE for g, _ in e):
            raise Unsupported('matrix of unknown shape')
        return [x for _, x in e]

    def dot(xs, ys):
        if len(xs) != len(ys):
            I.raise_named(st, 'ValueError', 'shapes')
        r = num(0)
        for x, y in zip(xs, ys):
            r = T.add(r, T.mul(x, y))
        return r
    xs, ys = rows(a), rows(b)
    if xs is None or ys is None:
        return I.binop(st, ast.Mult(), a, b)
    xr = [rows(x) for x in xs]
    yr = [rows(y) for y in ys]
    a2, b2 = bool(xr) and xr[0] is not None, bool(yr) and yr[0] is not None
    for m, two in ((xr, a2), (yr, b2)):
        if two and any(x is None or any(_elements(I, st, y) is not None for y in x) for x in m):
            raise Unsupported('product of arrays')
    if not a2 and not b2:
        return dot(xs, ys)
    if a2 and not b2:
        return ndarray(I, st, [dot(x, ys) for x in xr])
    cols = [list(c) for c in zip(*yr)]
    if not a2:
        return ndarray(I, st, [dot(xs, c) for c in cols])
    return ndarray(I, st, [ndarray(I, st, [dot(x, c) for c in cols]) for x in xr])


def _shape(I, st, v):
    e = _elements(I, st, v)
    if e is None:
        return []
    if any(g is not TRUE for g, _ in e):
        raise Unsupported('array of unknown shape')
    return [len(e)] + (_shape(I, st, e[0][1]) if e else [])


def array_attr(I, st, l, name):
    if name == 'T':
        sh = _shape(I, st, l)
        if len(sh) < 2:
            return l
        if len(sh) == 2:
            rows = [[x for _, x in _elements(I, st, r)] for _, r in _elements(I, st, l)]
            return ndarray(I, st, [ndarray(I, st, list(c)) for c in zip(*rows)])
    if name in ('shape', 'size', 'ndim'):
        sh = _shape(I, st, l)
        n = 1
        for x in sh:
            n *= x
        return T.tup([num(x) for x in sh]) if name == 'shape' else num(n) if name == 'size' else num(len(sh))
    if name in ('sum', 'min', 'max', 'mean', 'tolist', 'copy', 'astype', 'dot', 'any', 'all', 'flatten', 'ravel', 'transpose'):
        return I.bound(l, 'ndarray.' + name)
    raise Unsupported('attribute %s of an array' % name)


def array_method(I, st, l, m, args, kwargs):
    if m in ('sum', 'min', 'max', 'mean'):
        return call_builtin(I, st, 'numpy.' + m, [l] + list(args), kwargs)
    if m == 'tolist':
        def lst(v):
            e = _elements(I, st, v)
            return v if e is None else I.newlist_items(st, [(g, lst(x)) for g, x in e])
        return lst(l)
    if m in ('copy', 'astype'):
        return array_of(I, st, l)
    if m == 'transpose' and not args:
        return array_attr(I, st, l, 'T')
    if m == 'dot':
        return matmul(I, st, l, args[0])
    if m in ('flatten', 'ravel'):
        out = []

        def walk(v, g):
            e = _elements(I, st, v)
            if e is None:
                out.append((g, v))
            else:
                for h, x in e:
                    walk(x, and_(g, h))
        walk(l, TRUE)
        return I.new(st, I.bcls('object'), items=tuple(out), extra='ndarray')
    if m in ('any', 'all'):
        flat = array_method(I, st, l, 'flatten', [], {})
        return call_builtin(I, st, m, [flat], {})
    raise Unsupported('method %s of an array' % m)


def _filled(v):
    def f(I, st, a, k):
        sh = a[0] if a else k['shape']
        if k.get('dtype') is not None and T.show(k['dtype'], 2).find('float') < 0 and v is None:
            raise Unsupported('array')
        val = v if v is not None else a[1]
        dims = [as_int(x) for _, x in I.iterate(st, sh)] if type(sh) is Leaf and sh.kind in ('tup', 'ref') else [as_int(sh)]
        if any(d is None for d in dims):
            raise Unsupported('array of symbolic shape')

        def mk(d):
            return val if not d else ndarray(I, st, [mk(d[1:]) for _ in range(d[0])])
        return mk(dims)
    return f


def _eye(I, st, a, k):
    n = as_int(a[0])
    if n is None:
        raise Unsupported('array of symbolic shape')
    return ndarray(I, st, [ndarray(I, st, [num(1 if i == j else 0) for j in range(n)]) for i in range(n)])


def _det(I, st, a, k):
    rows = [[x for _, x in _elements(I, st, r)] for _, r in _elements(I, st, a[0])]
    if len(rows) != 2:
        raise Unsupported('determinant')
    return T.sub(T.mul(rows[0][0], rows[1][1]), T.mul(rows[0][1], rows[1][0]))


def _npisclose(I, st, a, k):
    if all(T.as_num_leaf(l) is not None for x in a for l in T.leafset(x)):
        d = dict(zip(('a', 'b', 'rtol', 'atol'), a))
        d.update(k)
        rel, ab = d.get('rtol', num(Fraction(1, 10 ** 5))), d.get('atol', num(Fraction(1, 10 ** 8)))
        return T.cmp_num('<=', absval(T.sub(a[0], a[1])), T.add(ab, T.mul(rel, absval(a[1]))))
    return T.app('isclose', a)


def percent(I, st, a, b):
    """text % values"""
    import re
    if a.kind == 'const':
        vals = list(b.a) if b.kind == 'tup' else [b]
        parts, pos, i = [], 0, 0
        for m in re.finditer(r'%(?:([-+0 #]*)(\d*)(\.\d+)?([sdifgeGEr%]))?', a.a):
            parts.append(const(a.a[pos:m.start()]))
            pos = m.end()
            fl, w, pr, c = m.groups()
            if c == '%':
                parts.append(const('%'))
                continue
            if c is None or c == 'r' or '-' in fl or '#' in fl or i >= len(vals) or (w and c == 's'):
                break
            v = vals[i]
            i += 1
            spec = fl + w + (pr or '')
            if c in 's':
                parts.append(fmt(I, st, v, pr or ''))
            elif c in 'di':
                parts.append(fmt(I, st, v, spec) if as_int(v) is not None else fmt(I, st, v, spec + 'd'))
            else:
                parts.append(fmt(I, st, v, spec + c))
        else:
            if i == len(vals):
                parts.append(const(a.a[pos:]))
                return concat([p for p in parts if p is not const('')] or [const('')])
    return T.app('str%', (a, I.freeze(st, b)), 'str')


def make_like(I, st, o, items):
    if o.extra == 'ndarray':
        return I.new(st, o.cls, items=tuple(items), extra='ndarray')
    return I.newlist_items(st, items)


def seq_index(I, st, items, i, mk):
    if i.kind == 'ref' and I.heapget(st, i.a).cls.name == 'slice':
        so = I.heapget(st, i.a)
        return I.split_all(st, [so.fields['start'], so.fields['stop'], so.fields['step']],
                           lambda s, ls: _slice(I, s, items, ls, mk))
    n = as_int(i)
    if n is None:
        if i.kind == 'tup' and mk is not None and len(i.a) == 2:
            row = I.subscript(st, I.new(st, I.bcls('object'), items=tuple(items), extra='ndarray'), i.a[0])
            if as_int(i.a[0]) is not None and type(row) is Leaf and row.kind == 'ref' and I.heapget(st, row.a).extra == 'ndarray':
                return I.subscript(st, row, i.a[1])
            raise Unsupported('index of an array')
        if i.kind == 'num' and i.a.is_const():
            I.raise_named(st, 'TypeError', 'list indices must be integers')
        if i.kind in ('num', 'app'):
            return sym_index(I, st, items, i)
        I.raise_named(st, 'TypeError', 'list indices must be integers or slices')
    guards = [g for g, _ in items]
    if all(g is TRUE for g in guards):
        if -len(items) <= n < len(items):
            return items[n][1]
        I.raise_named(st, 'IndexError', 'list index out of range')
    # optional items: gated choice
    seq = list(items) if n >= 0 else list(reversed(items))
    want = n if n >= 0 else -n - 1
    # counts[j] = condition that exactly j present so far
    cur = {0: TRUE}
    res = None
    found = FALSE
    for g, v in seq:
        hit = and_(cur.get(want, FALSE), g)
        if hit is not FALSE:
            res = v if res is None else ite(hit, v, res)
            found = or_(found, hit)
        nxt = {}
        for j, c in cur.items():
            a = and_(c, g)
            bq = and_(c, not_(g))
            if a is not FALSE:
                nxt[j + 1] = or_(nxt.get(j + 1, FALSE), a)
            if bq is not FALSE:
                nxt[j] = or_(nxt.get(j, FALSE), bq)
        cur = nxt
    I.raise_if(st, not_(found), 'IndexError', 'list index out of range')
    return restrict(res, and_(st.guard, found))


def sym_index(I, st, items, i):
    """index is a symbolic number: choose by equality"""
    if not all(g is TRUE for g, _ in items):
        raise Unsupported('symbolic index into optional items')
    n = len(items)
    found = FALSE
    res = None
    for k, (g, v) in enumerate(items):
        c = or_(T.cmp_num('==', i, num(k)), T.cmp_num('==', i, num(k - n)))
        found = or_(found, c)
        res = v if res is None else ite(c, v, res)
    I.raise_if(st, not_(found), 'IndexError', 'list index out of range')
    return res


def _slice(I, st, items, ls, mk):
    f = []
    for l in ls:
        if l is NONE:
            f.append(None)
        else:
            n = as_int(l)
            if n is None:
                raise Unsupported('slice with symbolic bounds')
            f.append(n)
    guards = [g for g, _ in items]
    if all(g is TRUE for g in guards) or f == [None, None, None] or f == [None, None, -1]:
        return mk(st, items[slice(*f)])

    def go(s, fl):
        its = [x for x, b in zip(items, fl) if b]
        its = [(TRUE, v) for _, v in its]
        return mk(s, tuple(its[slice(*f)]))
    return I.resolve_guards(st, guards, go)


def concrete_items(I, st, b, fn):
    """fn(st, list of values) with optional items resolved by case split"""
    o = I.heapget(st, b.a)
    gs = [g for g, _ in o.items]
    if all(g is TRUE for g in gs):
        return fn(st, [v for _, v in o.items])
    its = o.items

    def go(s, fl):
        return fn(s, [v for (_, v), q in zip(its, fl) if q])
    return I.resolve_guards(st, gs, go)


def put(I, st, b, vals):
    w = I.write(st, b)
    w.items = tuple((TRUE, v) for v in vals)


def pyindex(I, st, i, n, clamp=False):
    k = as_int(i)
    if k is None:
        raise Unsupported('symbolic list index')
    return k


def setitem(I, st, b, i, v):
    if b.kind == 'ref':
        o = I.heapget(st, b.a)
        c, f = o.cls.lookup('__setitem__')
        if f is not None and not c.builtin:
            I.call_func(st, f.value, [b, i, v], {})
            return NONE
        if o.entries is not None:
            dict_set(I, st, b, i, v)
            return NONE
        if o.items is not None and o.extra == 'ndarray' and i.kind == 'tup' and len(i.a) == 2:
            row = I.subscript(st, b, i.a[0])
            if as_int(i.a[0]) is None or not (type(row) is Leaf and row.kind == 'ref'):
                raise Unsupported('index of an array')
            return setitem(I, st, row, i.a[1], v)
        if o.items is not None:
            if o.extra == 'ndarray' and type(v) is Leaf and v.kind in ('ref', 'tup'):
                v = array_of(I, st, v)
            if i.kind == 'ref' and I.heapget(st, i.a).cls.name == 'slice':
                so = I.heapget(st, i.a)
                new = [x for g, x in I.iterate(st, v)]

                def go(s, ls):
                    f = [None if l is NONE else as_int(l) for l in ls]

                    def go2(s2, vals):
                        vals = list(vals)
                        vals[slice(*f)] = new
                        put(I, s2, b, vals)
                        return NONE
                    return concrete_items(I, s, b, go2)
                return I.split_all(st, [so.fields['start'], so.fields['stop'], so.fields['step']], go)

            def go3(s, vals):
                k = pyindex(I, s, i, len(vals))
                if not -len(vals) <= k < len(vals):
                    I.raise_named(s, 'IndexError', 'list assignment index out of range')
                vals = list(vals)
                vals[k] = v
                put(I, s, b, vals)
                return NONE
            return concrete_items(I, st, b, go3)
    if b.kind == 'app':
        I.effect(st, 'setitem', [b, i, v])
        return NONE
    I.raise_named(st, 'TypeError', 'item assignment')


def delitem(I, st, b, i):
    def one(s, ls):
        b, i = ls
        o = I.heapget(s, b.a)
        c, f = o.cls.lookup('__delitem__')
        if f is not None and not c.builtin:
            return I.call_func(s, f.value, [b, i], {})
        if o.entries is not None:
            dict_pop(I, s, b, i, None)
            return NONE

        def go(s2, vals):
            vals = list(vals)
            if i.kind == 'ref':
                so = I.heapget(s2, i.a)
                f2 = [None if so.fields[x] is NONE else as_int(so.fields[x]) for x in ('start', 'stop', 'step')]
                del vals[slice(*f2)]
            else:
                k = pyindex(I, s2, i, len(vals))
                if not -len(vals) <= k < len(vals):
                    I.raise_named(s2, 'IndexError', 'list index')
                del vals[k]
            put(I, s2, b, vals)
            return NONE
        return concrete_items(I, s, b, go)
    return I.split_all(st, [b, i], one)


# ------------------------------------------------------------------ dict / set
def keyof(I, st, k):
    if k.kind == 'ref':
        raise Unsupported('object used as a dict key')
    return k


def dict_get(I, st, b, k, default):
    o = I.heapget(st, b.a)
    k = keyof(I, st, k)
    symbolic = k.kind == 'app' or any(x.kind == 'app' for _, x, _ in o.entries) or (
        k.kind == 'num' and not k.a.is_const()) or any(x.kind == 'num' and not x.a.is_const() for _, x, _ in o.entries)
    res, found = None, FALSE
    for g, kk, v in o.entries:
        if kk is k:
            c = g
        elif symbolic:
            c = and_(g, I.truth(st, I.compare1(st, ast.Eq(), kk, k)))
        elif kk.kind == 'tup' and k.kind == 'tup':
            c = and_(g, I.truth(st, I.compare1(st, ast.Eq(), kk, k)))
        else:
            continue
        if c is FALSE:
            continue
        res = v if res is None else ite(c, v, res)
        found = or_(found, c)
    found = restrict(found, st.guard)
    if o.extra == 'opaque' and found is not TRUE:
        miss = T.app('dict.get', (T.app('dict%d' % b.a, ()), k))
        return miss if res is None else ite(found, res, miss)
    if default is not None:
        return default if res is None else restrict(ite(found, res, default), st.guard)
    if found is not TRUE:
        I.raise_if(st, not_(found), 'KeyError', T.show(k, 2))
    return restrict(res, st.guard)


def dict_set(I, st, b, k, v):
    k = keyof(I, st, k)
    w = I.write(st, b)
    out = []
    done = False
    for g, kk, x in w.entries:
        if kk is k:
            out.append((TRUE, k, v))
            done = True
        elif (kk.kind == 'app' or k.kind == 'app') and not (kk.kind == 'const' and k.kind == 'const'):
            c = I.truth(st, I.compare1(st, ast.Eq(), kk, k))
            out.append((g, kk, ite(c, v, x)))
            if c is TRUE:
                done = True
        else:
            out.append((g, kk, x))
    if not done:
        out.append((TRUE, k, v))
    w.entries = tuple(out)
    if isinstance(w.extra, tuple) and w.extra[0] == 'dictof':
        o = I.write(st, T.ref(w.extra[1]))
        o.fields[k.a] = v


def dict_pop(I, st, b, k, default):
    v = dict_get(I, st, b, k, default)
    w = I.write(st, b)
    w.entries = tuple(e for e in w.entries if e[1] is not k)
    return v


def dict_update(I, st, b, v):
    def one(s, l):
        if l.kind == 'ref':
            o = I.heapget(s, l.a)
            if o.entries is not None:
                for g, k, x in o.entries:
                    _gset(I, s, b, g, k, x)
                return NONE
            for g, pair in I.iterate(s, l):
                p = [x for _, x in I.iterate(s, pair)]
                _gset(I, s, b, g, p[0], p[1])
            return NONE
        if l.kind == 'app':
            dict_set(I, s, b, T.app('keysof', (l,)), l)
            return NONE
        raise Unsupported('dict.update')
    return I.split(st, v, one)


def _gset(I, s, b, g, k, x):
    if g is TRUE:
        I.setitem(s, b, k, x)
        return
    I.resolve_guards(s, [g], lambda q, fl: (I.setitem(q, b, k, x), NONE)[1] if fl[0] else NONE)


def set_add(I, st, b, v):
    def one(s, l):
        w = I.write(s, b)
        for i, (g, k, x) in enumerate(w.entries):
            if k is l:
                e = list(w.entries)
                e[i] = (TRUE, k, NONE)
                w.entries = tuple(e)
                return NONE
        dup = FALSE
        for g, k, x in w.entries:
            if (k.kind == 'num' and l.kind == 'num' and not (k.a.is_const() and l.a.is_const())) or 'app' in (k.kind, l.kind):
                dup = or_(dup, and_(g, I.truth(s, I.compare1(s, ast.Eq(), k, l))))
        w.entries = w.entries + ((restrict(not_(dup), s.guard), l, NONE),)
        return NONE
    I.split(st, v, one)


def set_op(I, st, op, a, b):
    A, B = I.heapget(st, a.a), I.heapget(st, b.a)
    if isinstance(op, ast.BitOr):
        r = I.new(st, A.cls, entries=A.entries)
        for g, k, x in B.entries:
            if A.cls.name == 'dict':
                _gset(I, st, r, g, k, x)
            else:
                set_add(I, st, r, k)
        return r
    keys = {k.id: g for g, k, _ in B.entries}
    out = []
    for g, k, x in A.entries:
        h = keys.get(k.id, FALSE)
        q = and_(g, h) if isinstance(op, ast.BitAnd) else and_(g, not_(h))
        if q is not FALSE:
            out.append((q, k, x))
    return I.new(st, A.cls, entries=tuple(out))


# ------------------------------------------------------------------ bound builtins
def list_extend(I, st, b, v):
    its = I.iterate(st, v)
    w = I.write(st, b)
    w.items = w.items + tuple(its)


def length(I, st, v):
    def one(s, l):
        if l.kind == 'ref':
            o = I.heapget(s, l.a)
            c, f = o.cls.lookup('__len__')
            if f is not None and not c.builtin:
                return I.call_func(s, f.value, [l], {})
            if o.extra == 'iterator':
                I.raise_named(s, 'TypeError', 'object has no len()')
            if o.items is not None:
                n = num(0)
                k = 0
                for g, _ in o.items:
                    if g is TRUE:
                        k += 1
                    else:
                        n = T.add(n, ite(g, num(1), num(0)))
                return T.add(n, num(k))
            if o.entries is not None:
                n = num(0)
                for g, _, _ in o.entries:
                    n = T.add(n, ite(g, num(1), num(0)))
                return n
            I.raise_named(s, 'TypeError', 'object has no len()')
        if l.kind == 'tup':
            return num(len(l.a))
        if l.kind == 'const' and isinstance(l.a, (str, bytes)):
            return num(len(l.a))
        if l.kind == 'app':
            if l.a[0] in ('textline', 'textlines', 'decimal'):
                return num(80)
            return T.numapp('len', [l], '0+')
        I.raise_named(s, 'TypeError', 'object has no len()')
    return I.split(st, v, one)


def call_bound(I, st, selfv, name, args, kwargs):
    ty, _, m = name.rpartition('.')
    if name == '__subclasses__':
        return I.newlist(st, [I.classval(c) for c in selfv.a.subclasses])
    if ty == 'str':
        return I.split_all(st, args, lambda s, ls: str_method(I, s, selfv, m, ls, kwargs)) if m not in ('format', 'join') \
            else str_method(I, st, selfv, m, args, kwargs)
    if ty == 'list':
        return list_method(I, st, selfv, m, args, kwargs)
    if ty in ('dict', 'set', 'frozenset'):
        return dict_method(I, st, selfv, ty, m, args, kwargs)
    if ty == 'tuple':
        if m == '__new__':
            return selfv
        if m == 'index' or m == 'count' or m == '__len__':
            if m == '__len__':
                return num(len(selfv.a))
            tmp = I.newlist(st, selfv.a)
            return list_method(I, st, tmp, m, args, kwargs)
    if ty == 'ndarray':
        return array_method(I, st, selfv, m, args, kwargs)
    if ty == 'namedtuple':
        if m == '_replace':
            items = list(selfv.a)
            names = [f for f, _ in selfv.b.fields]
            for k, v in kwargs.items():
                items[names.index(k)] = v
            return T.tup(items, selfv.b)
        if m == '_asdict':
            return I.newdict(st, [(const(f), x) for (f, _), x in zip(selfv.b.fields, selfv.a)])
    if ty in ('float', 'complex', 'int', 'bool'):
        if m == 'conjugate':
            return num(selfv.a.conj()) if selfv.kind == 'num' else selfv
        if m == 'is_integer':
            return const(as_int(selfv) is not None) if cst(selfv) is not None else T.truth_atom(T.app('isint', (selfv,), 'bool'))
        dm = {'__add__': ast.Add(), '__mul__': ast.Mult(), '__sub__': ast.Sub(), '__truediv__': ast.Div()}
        if m in dm:
            return I.binop(st, dm[m], selfv, args[0])
    if ty == 'object' or ty in ('BaseException', 'Exception') or name in ('object.__init__',):
        if m == '__init__':
            if args and ty == 'object':
                I.raise_named(st, 'TypeError', 'object.__init__() takes exactly one argument')
            if ty != 'object' and selfv.kind == 'ref':
                I.write(st, selfv).fields['args'] = T.tup(args)
            return NONE
        if m == '__new__':
            return I.new(st, args[0].a)
        if m == '__eq__':
            return const(selfv is args[0]) if type(args[0]) is Leaf else T.NOTIMPL
        if m == '__ne__':
            return not_(I.truth(st, I.compare1(st, ast.Eq(), selfv, args[0])))
        if m in ('__str__', '__repr__'):
            return T.app('repr', (I.freeze(st, selfv),), 'str')
        if m == '__hash__':
            return T.numapp('hash', [selfv])
        if m == '__setattr__':
            w = I.write(st, selfv)
            w.fields[args[0].a] = args[1]
            return NONE
        if m == '__getattribute__':
            return I.getattr1(st, selfv, args[0].a)
        if m == '__class__':
            return I.classval(I.heapget(st, selfv.a).cls)
        if m == '__dir__':
            raise Unsupported('dir')
        return NONE
    if ty == 'pool':
        return pool_method(I, st, m, args, kwargs)
    if ty == 'slice' and m == 'indices':
        o = I.heapget(st, selfv.a)

        def bounds(s, ls):
            f = [None if x is NONE else as_int(x) for x in ls[:3]]
            n = as_int(ls[3])
            if n is None or any(a is None and x is not NONE for a, x in zip(f, ls)):
                raise Unsupported('bounds of a slice')
            return T.tup([num(x) for x in slice(*f).indices(n)])
        return I.split_all(st, [o.fields['start'], o.fields['stop'], o.fields['step'], args[0]], bounds)
    h = EXT.get('method:' + name)
    if h is not None:
        return h(I, st, selfv, args, kwargs)
    raise Unsupported('method ' + name)


def pool_method(I, st, m, args, kwargs):
    if m in ('starmap', 'map', 'imap'):
        out = I.newlist(st, [])

        def body(s, v):
            a = [x for _, x in I.iterate(s, v)] if m == 'starmap' else [v]
            r = I.call(s, args[0], a, {})
            w = I.write(s, out)
            w.items = w.items + ((TRUE, r),)
        I.for_each(st, args[1], lambda s, v: _dead(body, s, v))
        return out
    return NONE


def _dead(f, s, v):
    from .interp import Dead
    try:
        f(s, v)
    except Dead:
        s.guard = FALSE


def list_method(I, st, b, m, args, kwargs):
    o = I.heapget(st, b.a)
    if m == 'append':
        w = I.write(st, b)
        w.items = w.items + ((TRUE, args[0]),)
        return NONE
    if m == 'appendleft':
        w = I.write(st, b)
        w.items = ((TRUE, args[0]),) + w.items
        return NONE
    if m == 'popleft':
        return list_method(I, st, b, 'pop', [num(0)], {})
    if m in ('extend', '__iadd__'):
        list_extend(I, st, b, args[0])
        return NONE if m == 'extend' else b
    if m == 'clear':
        w = I.write(st, b)
        w.items = ()
        return NONE
    if m in ('copy', '__copy__'):
        return I.newlist_items(st, o.items)
    if m == 'reverse':
        w = I.write(st, b)
        w.items = tuple(reversed(w.items))
        return NONE
    if m == '__len__':
        return length(I, st, b)
    if m == '__iter__':
        return b
    if m == '__getitem__':
        return I.split(st, args[0], lambda s, i: seq_index(I, s, I.heapget(s, b.a).items, i,
                                                           lambda s2, its: I.newlist_items(s2, its)))
    if m == '__init__':
        w = I.write(st, b)
        w.items = tuple(I.iterate(st, args[0])) if args else ()
        return NONE
    if m == 'pop':
        i = args[0] if args else num(-1)

        def one(s, l):
            def go(s2, vals):
                k = pyindex(I, s2, l, len(vals))
                if not -len(vals) <= k < len(vals):
                    I.raise_named(s2, 'IndexError', 'pop index out of range')
                vals = list(vals)
                r = vals.pop(k)
                put(I, s2, b, vals)
                return r
            return concrete_items(I, s, b, go)
        return I.split(st, i, one)
    if m == 'insert':
        def one(s, l):
            def go(s2, vals):
                k = pyindex(I, s2, l, len(vals))
                vals = list(vals)
                vals.insert(k, args[1])
                put(I, s2, b, vals)
                return NONE
            return concrete_items(I, s, b, go)
        return I.split(st, args[0], one)
    if m in ('index', 'remove', 'count'):
        def go(s, vals):
            if m == 'count':
                n = num(0)
                for v in vals:
                    n = T.add(n, ite(I.truth(s, I.compare1(s, ast.Eq(), v, args[0])), num(1), num(0)))
                return n
            res = []
            notyet = TRUE
            for j, v in enumerate(vals):
                c = TRUE if v is args[0] else I.truth(s, I.compare1(s, ast.Eq(), v, args[0]))
                hit = and_(notyet, c)
                if hit is not FALSE:
                    res.append((hit, j))
                notyet = and_(notyet, not_(c))
            I.raise_if(s, notyet, 'ValueError', 'not in list')
            r = num(res[-1][1])
            for g, j in reversed(res[:-1]):
                r = ite(g, num(j), r)
            if m == 'index':
                return r

            def rm(s2, l):
                k = as_int(l)
                put(I, s2, b, [v for q, v in enumerate(vals) if q != k])
                return NONE
            return I.split(s, r, rm)
        return concrete_items(I, st, b, go)
    if m == 'sort':
        r = sorted_(I, st, [b], kwargs)
        w = I.write(st, b)
        w.items = I.heapget(st, r.a).items
        return NONE
    if m in ('__contains__',):
        return I.contains(st, args[0], b)
    if m == '__eq__':
        return I.compare1(st, ast.Eq(), b, args[0])
    raise Unsupported('list.' + m)


def dict_method(I, st, b, ty, m, args, kwargs):
    o = I.heapget(st, b.a)
    if m == 'get':
        d = args[1] if len(args) > 1 else NONE
        return I.split(st, args[0], lambda s, k: dict_get(I, s, b, k, d))
    if m in ('__getitem__',):
        return I.split(st, args[0], lambda s, k: dict_get(I, s, b, k, None))
    if m == '__setitem__':
        I.split(st, args[0], lambda s, k: dict_set(I, s, b, k, args[1]) or NONE)
        return NONE
    if m == '__contains__':
        oo = I.heapget(st, b.a)

        def one(s, k):
            r = FALSE
            for g, kk, _ in I.heapget(s, b.a).entries:
                if kk is k:
                    return g
                if 'app' in (kk.kind, k.kind):
                    r = or_(r, and_(g, I.truth(s, I.compare1(s, ast.Eq(), kk, k))))
            return r
        return I.split(st, args[0], one)
    if m in ('__delitem__',):
        I.split(st, args[0], lambda s, k: dict_pop(I, s, b, k, None))
        return NONE
    if m == 'keys' or m == '__iter__':
        return I.newlist_items(st, [(g, k) for g, k, _ in o.entries])
    if m == 'values':
        return I.newlist_items(st, [(g, v) for g, _, v in o.entries])
    if m == 'items':
        return I.newlist_items(st, [(g, T.tup([k, v])) for g, k, v in o.entries])
    if m == 'update' and ty == 'dict' or m == '__init__':
        if m == '__init__':
            I.write(st, b).entries = ()
        for a in args:
            _raw_update(I, st, b, a)
        for k, v in kwargs.items():
            dict_set(I, st, b, const(k), v)
        return NONE
    if m == 'clear':
        I.write(st, b).entries = ()
        return NONE
    if m in ('copy', '__copy__'):
        return I.new(st, I.bcls(ty), entries=o.entries)
    if m == 'pop':
        return I.split(st, args[0], lambda s, k: dict_pop(I, s, b, k, args[1] if len(args) > 1 else None))
    if m == 'setdefault':
        def one(s, k):
            d = args[1] if len(args) > 1 else NONE
            g = FALSE
            for gg, kk, _ in I.heapget(s, b.a).entries:
                if kk is k:
                    g = gg
            v = dict_get(I, s, b, k, d)
            dict_set(I, s, b, k, v)
            return v
        return I.split(st, args[0], one)
    if m == '__len__':
        n = num(0)
        for g, _, _ in o.entries:
            n = T.add(n, ite(g, num(1), num(0)))
        return n
    if m == 'add':
        set_add(I, st, b, args[0])
        return NONE
    if m == 'update':
        for a in args:
            for g, v in I.iterate(st, a):
                set_add(I, st, b, v)
        return NONE
    if m in ('discard', 'remove'):
        w = I.write(st, b)
        w.entries = tuple(e for e in w.entries if e[1] is not args[0])
        return NONE
    if m in ('union', 'intersection', 'difference'):
        op = {'union': ast.BitOr(), 'intersection': ast.BitAnd(), 'difference': ast.Sub()}[m]
        c = construct(I, st, I.bcls('set'), [args[0]], {})
        return set_op(I, st, op, b, c)
    if m == '__eq__':
        return I.compare1(st, ast.Eq(), b, args[0])
    raise Unsupported('%s.%s' % (ty, m))


def _raw_update(I, st, b, a):
    def one(s, l):
        if l.kind == 'ref' and I.heapget(s, l.a).entries is not None:
            for g, k, x in I.heapget(s, l.a).entries:
                if g is TRUE:
                    dict_set(I, s, b, k, x)
                else:
                    I.resolve_guards(s, [g], lambda q, fl: (dict_set(I, q, b, k, x), NONE)[1] if fl[0] else NONE)
            return NONE
        if l.kind == 'app':
            dict_set(I, s, b, T.app('keysof', (l,)), l)
            I.write(s, b).extra = I.heapget(s, b.a).extra
            return NONE
        for g, pair in I.iterate(s, l):
            p = [x for _, x in I.iterate(s, pair)]
            dict_set(I, s, b, p[0], p[1])
        return NONE
    I.split(st, a, one)


# ------------------------------------------------------------------ constructors of builtin classes
def construct(I, st, c, args, kwargs):
    n = c.name
    if any(x.name == 'BaseException' for x in c.mro()):
        return I.new(st, c, {'args': T.tup([I.freeze(st, a) for a in args])})
    if n == 'list':
        if not args:
            return I.newlist(st, [])
        return I.newlist_items(st, I.iterate(st, args[0]))
    if n == 'tuple':
        if not args:
            return T.tup([])
        its = I.iterate(st, args[0])
        return I.resolve_guards(st, [g for g, _ in its],
                                lambda s, fl: T.tup([v for (_, v), f in zip(its, fl) if f]))
    if n == 'dict':
        v = I.newdict(st, [])
        for a in args:
            _raw_update(I, st, v, a)
        for k, x in kwargs.items():
            dict_set(I, st, v, const(k), x)
        return v
    if n in ('set', 'frozenset'):
        v = I.new(st, c, entries=())
        if args:
            for g, x in I.iterate(st, args[0]):
                if g is TRUE:
                    set_add(I, st, v, x)
                else:
                    I.resolve_guards(st, [g], lambda q, fl: (set_add(I, q, v, x), NONE)[1] if fl[0] else NONE)
        return v
    if n == 'object':
        return I.new(st, c)
    if n == 'float':
        return to_float(I, st, args[0]) if args else num(0)
    if n == 'int':
        return to_int(I, st, args[0]) if args else num(0)
    if n == 'bool':
        return I.truth(st, args[0]) if args else FALSE
    if n == 'str':
        return fmt(I, st, args[0]) if args else const('')
    if n == 'complex':
        a = args[0]
        if len(args) > 1:
            return T.add(a, T.mul(num(R.RI), args[1]))

        def one(s, l):
            x = T.as_num_leaf(l)
            if x is None:
                I.raise_named(s, 'TypeError', 'complex()')
            return x
        return I.split(st, a, one)
    if n == 'slice':
        f = [NONE, NONE, NONE]
        if len(args) == 1:
            f[1] = args[0]
        else:
            f[:len(args)] = args
        return I.new(st, c, {'start': f[0], 'stop': f[1], 'step': f[2]})
    if n == 'range':
        def go(s, ls):
            v = []
            for l in ls:
                k = as_int(l)
                if k is None:
                    if l.kind in ('num', 'app') and not (l.kind == 'num' and l.a.is_const()):
                        raise Unsupported('range of a symbolic count')
                    I.raise_named(s, 'TypeError', 'range')
                v.append(k)
            if len(range(*v)) > 20000:
                raise Unsupported('range too long')
            return I.new(s, c, items=tuple((TRUE, num(x)) for x in range(*v)))
        return I.split_all(st, args, go)
    if n == 'type':
        if len(args) != 1:
            raise Unsupported('type()')
        return I.split(st, args[0], lambda s, l: I.classval(class_of(I, s, l)))
    if n == 'enumerate':
        start = kwargs.get('start', args[1] if len(args) > 1 else num(0))
        its = I.iterate(st, args[0])
        out = []
        k = start
        for g, v in its:
            out.append((g, T.tup([k, v])))
            k = T.add(k, num(1) if g is TRUE else ite(g, num(1), num(0)))
        return I.new(st, I.bcls('object'), {'pos': num(0)}, items=tuple(out), extra='iterator')
    if n == 'zip':
        ls = [I.iterate(st, a) for a in args]
        if not ls:
            out = []
        elif all(g is TRUE for l in ls for g, _ in l):
            out = [(TRUE, T.tup([x for _, x in t])) for t in zip(*ls)]
        else:
            return I.resolve_guards(st, [g for l in ls for g, _ in l], lambda s, fl: _zip(I, s, ls, fl))
        return I.new(st, I.bcls('object'), {'pos': num(0)}, items=tuple(out), extra='iterator')
    if n == 'reversed':
        def one(s, l):
            if l.kind == 'ref':
                o = I.heapget(s, l.a)
                cc, f = o.cls.lookup('__reversed__')
                if f is not None and not cc.builtin:
                    return I.call_func(s, f.value, [l], {})
                cc, f = o.cls.lookup('__getitem__')
                if f is not None and not cc.builtin:
                    n_ = length(I, s, l)
                    ns = leaves(n_, s.guard)
                    if len(ns) != 1 or as_int(ns[0][1]) is None:
                        raise Unsupported('reversed')
                    vals = [I.call_func(s, f.value, [l, num(q)], {}) for q in reversed(range(as_int(ns[0][1])))]
                    return I.new(s, I.bcls('object'), {'pos': num(0)}, items=tuple((TRUE, v) for v in vals), extra='iterator')
            its = I.iterate(s, l)
            return I.new(s, I.bcls('object'), {'pos': num(0)}, items=tuple(reversed(its)), extra='iterator')
        return I.split(st, args[0], one)
    if n == 'map':
        out = I.new(st, I.bcls('object'), {'pos': num(0)}, items=(), extra='iterator')
        if len(args) == 2:
            def body(s, v):
                r = I.call(s, args[0], [v], {})
                w = I.write(s, out)
                w.items = w.items + ((TRUE, r),)
            I.for_each(st, args[1], lambda s, v: _dead(body, s, v))
            if st.guard is FALSE:
                from .interp import Dead
                raise Dead()
            return out
        z = construct(I, st, I.bcls('zip'), args[1:], {})
        its = I.iterate(st, z)
        res = []
        for g, t in its:
            if g is not TRUE:
                raise Unsupported('map')
            res.append((TRUE, I.call(st, args[0], list(t.a), {})))
        I.write(st, out).items = tuple(res)
        return out
    if n == 'filter':
        out = I.new(st, I.bcls('object'), {'pos': num(0)}, items=(), extra='iterator')

        def body(s, v):
            c2 = I.truth(s, v if args[0] is NONE else I.call(s, args[0], [v], {}))
            c2 = restrict(c2, s.guard)
            if c2 is FALSE:
                return
            w = I.write(s, out)
            w.items = w.items + ((c2, v),)
        I.for_each(st, args[1], lambda s, v: _dead(body, s, v))
        return out
    if n == 'bytes':
        return T.app('bytes', [I.freeze(st, a) for a in args])
    if n == 'super':
        raise Unsupported('super')
    if n in ('property', 'staticmethod', 'classmethod'):
        return args[0]
    return T.app('new:' + n, [I.freeze(st, a) for a in args])


def _zip(I, s, ls, fl):
    k = 0
    cols = []
    for l in ls:
        c = []
        for g, v in l:
            if fl[k]:
                c.append(v)
            k += 1
        cols.append(c)
    return I.new(s, I.bcls('object'), {'pos': num(0)}, items=tuple((TRUE, T.tup(t)) for t in zip(*cols)), extra='iterator')


def class_of(I, st, l):
    k = l.kind
    if k == 'ref':
        return I.heapget(st, l.a).cls
    if k == 'tup':
        return l.b or I.bcls('tuple')
    if k == 'const':
        if l is NONE:
            return _nonetype(I)
        return I.bcls(type(l.a).__name__)
    if k in ('inf', 'nan'):
        return I.bcls('float')
    if k == 'num':
        if l.a.has_I():
            return I.bcls('complex')
        if as_int(l) is not None:
            return I.bcls('int')
        return I.bcls('float')
    if k == 'class':
        return I.bcls('type')
    if k == 'app' and l.a[2] == 'str':
        return I.bcls('str')
    raise Unsupported('type of %s' % T.show(l, 2))


def _nonetype(I):
    if 'NoneType' not in I.P.builtins:
        I.P.builtins['NoneType'] = ClassInfo('NoneType', None, [I.bcls('object')], builtin=True)
    return I.P.builtins['NoneType']


def to_float(I, st, v):
    def one(s, l):
        k = l.kind
        if k in ('num', 'inf', 'nan', 'err'):
            if k == 'num' and l.a.has_I():
                I.raise_named(s, 'TypeError', "can't convert complex to float")
            return l
        if k == 'const':
            if isinstance(l.a, bool):
                return num(int(l.a))
            if isinstance(l.a, str):
                t = l.a.strip().lower()
                if t in ('inf', '+inf', 'infinity', '+infinity'):
                    return INF
                if t in ('-inf', '-infinity'):
                    return NINF
                if t in ('nan', '+nan', '-nan'):
                    return NAN
                try:
                    return num(Fraction(t.replace('_', '')))
                except ValueError:
                    I.raise_named(s, 'ValueError', 'could not convert string to float')
            I.raise_named(s, 'TypeError', 'float() argument')
        if k == 'app':
            if l.a[0] == 'decimal':
                return to_float(I, s, l.a[1][0])
            return T.numapp('float', [l])
        if k == 'ref':
            o = I.heapget(s, l.a)
            c, f = o.cls.lookup('__float__')
            if f is not None and not c.builtin:
                return I.call_func(s, f.value, [l], {})
        I.raise_named(s, 'TypeError', 'float() argument')
    return I.split(st, v, one)


def known_value(l):
    """float value of a leaf built from constants, pi and elementary functions only, else None"""
    if l.kind != 'num':
        return None

    def atom(a):
        a = R.ATOMS.info[a]
        if a.kind == 'pi':
            return math.pi
        if a.kind == 'app' and a.fn in FLOATFN and len(a.args) == 1:
            x = known_value(a.args[0])
            return None if x is None else FLOATFN[a.fn](x)
        return None
    ids = l.a.atoms()
    v = {a: atom(a) for a in ids}
    if None in v.values():
        return None

    def poly(p):
        t = 0.0
        for m, c in p:
            x = float(c)
            for a, e in m:
                x *= v[a] ** e
            t += x
        return t
    r = poly(l.a.num.items())
    for k, e in l.a.den:
        r /= poly(k) ** e
    return r


def to_int(I, st, v):
    def one(s, l):
        c = cst(l)
        if c is not None:
            return num(int(c))
        if l.kind == 'const' and isinstance(l.a, str):
            try:
                return num(int(l.a))
            except ValueError:
                I.raise_named(s, 'ValueError', 'int()')
        if l.kind == 'inf':
            I.raise_named(s, 'OverflowError', 'int(inf)')
        if l.kind in ('num', 'app'):
            x = known_value(l)
            if x is not None and abs(x - round(x)) > 1e-9:
                return num(int(x))
            return T.numapp('int', [l])
        I.raise_named(s, 'TypeError', 'int()')
    return I.split(st, v, one)


# ------------------------------------------------------------------ builtin functions
def minmax(I, st, args, kwargs, op):
    key = kwargs.get('key')
    default = kwargs.get('default')
    if len(args) == 1:
        its = I.iterate(st, args[0])
    else:
        its = [(TRUE, a) for a in args]
    empty = TRUE
    for g, _ in its:
        empty = and_(empty, not_(g))
    empty = restrict(empty, st.guard)
    if empty is not FALSE and default is None:
        I.raise_if(st, empty, 'ValueError', '%s of empty sequence' % op)
    best, bk, have = None, None, FALSE
    for g, v in its:
        k = v if key is None or key is NONE else I.call(st, key, [v], {})
        if best is None:
            best, bk, have = v, k, g
            continue
        c = I.truth(st, I.compare1(st, ast.Lt() if op == 'min' else ast.Gt(), k, bk))
        take = and_(g, or_(not_(have), c))
        best, bk = ite(take, v, best), ite(take, k, bk)
        have = or_(have, g)
    if best is None:
        return default
    if default is not None:
        return ite(have, best, default)
    return restrict(best, st.guard)


def sum_(I, st, args, kwargs):
    acc = args[1] if len(args) > 1 else kwargs.get('start', num(0))
    for g, v in I.iterate(st, args[0]):
        if g is TRUE:
            acc = I.binop(st, ast.Add(), acc, v)
        else:
            acc = ite(g, I.binop(st, ast.Add(), acc, v), acc)
    return acc


def anyall(I, st, args, isany):
    r = FALSE if isany else TRUE
    l = args[0]
    for g, v in I.iterate(st, l):
        t = I.truth(st, v)
        r = or_(r, and_(g, t)) if isany else and_(r, or_(not_(g), t))
    return restrict(r, st.guard)


def isinst(I, st, l, c):
    """boolean of isinstance for leaves"""
    if c.kind == 'tup':
        r = FALSE
        for x in c.a:
            r = or_(r, isinst(I, st, l, x))
        return r
    if c.kind == 'builtin':
        n = c.a.name.split('.')[-1]
        if n in ('Iterable', 'Sequence', 'Sized', 'Collection', 'Container', 'Mapping', 'MutableSequence', 'Iterator'):
            if l.kind == 'ref':
                o = I.heapget(st, l.a)
                cc, f = o.cls.lookup('__iter__')
                if n == 'Iterator':
                    return const(o.extra == 'iterator' or o.cls.lookup('__next__')[1] is not None)
                if n in ('Sequence', 'MutableSequence'):
                    return const(o.items is not None and o.extra is None)
                if n == 'Mapping':
                    return const(o.entries is not None and o.cls.issub(I.bcls('dict')))
                if n == 'Sized':
                    return const(o.extra != 'iterator' and (o.items is not None or o.entries is not None
                                                            or o.cls.lookup('__len__')[1] is not None))
                return const(f is not None or o.items is not None or o.entries is not None)
            if l.kind == 'tup':
                return const(n not in ('Mapping', 'MutableSequence', 'Iterator'))
            if l.kind == 'const' and isinstance(l.a, str):
                return const(n not in ('Mapping', 'MutableSequence', 'Iterator'))
            if l.kind == 'app':
                return T.truth_atom(T.app('isinstance', (l, const(n)), 'bool'))
            return FALSE
        if n in ('Number', 'Real', 'Complex', 'floating', 'float64'):
            return const(l.kind in ('num', 'inf', 'nan') or (l.kind == 'const' and isinstance(l.a, bool)))
        if n in ('integer', 'Integral', 'int64', 'int32'):
            return const(as_int(l) is not None)
        if n in ('Callable',):
            return const(l.kind in ('func', 'bound', 'builtin', 'class', 'partial'))
        if n == 'ndarray':
            return const(l.kind == 'ref' and I.heapget(st, l.a).extra == 'ndarray')
        return T.truth_atom(T.app('isinstance', (I.freeze(st, l), const(c.a.name)), 'bool'))
    if c.kind != 'class':
        raise Unsupported('isinstance of %s' % T.show(c, 2))
    k = c.a
    if l.kind == 'ref':
        o = I.heapget(st, l.a)
        if o.extra == 'opaque':
            return const(o.cls.issub(k))
        return const(o.cls.issub(k))
    if l.kind in ('num', 'inf', 'nan'):
        if k.name in ('object',):
            return TRUE
        if k.name == 'complex':
            return const(l.kind == 'num' and l.a.has_I())
        if k.name == 'float':
            return const(not (l.kind == 'num' and l.a.has_I()))
        if k.name == 'int':
            if l.kind == 'num' and not l.a.is_const():
                at = [R.ATOMS.info[a] for a in l.a.atoms()]
                return const(bool(at) and all(a.isint for a in at) and not l.a.den)
            return const(as_int(l) is not None)
        return FALSE
    if l.kind == 'const':
        if l is NONE:
            return const(k.name in ('object', 'NoneType'))
        if isinstance(l.a, bool):
            return const(k.name in ('bool', 'int', 'object'))
        return const(k.name in (type(l.a).__name__, 'object'))
    if l.kind == 'tup':
        if l.b is not None:
            return const(l.b.issub(k) or k.name in ('tuple', 'object'))
        return const(k.name in ('tuple', 'object'))
    if l.kind == 'app':
        if l.a[2] == 'str':
            return const(k.name in ('str', 'object'))
        if not k.builtin:
            return FALSE
        return T.truth_atom(T.app('isinstance', (l, const(k.name)), 'bool'))
    if l.kind == 'class':
        return const(k.name in ('type', 'object'))
    return const(k.name == 'object')


def sorted_(I, st, args, kwargs):
    its = I.iterate(st, args[0])
    if not all(g is TRUE for g, _ in its):
        return I.resolve_guards(st, [g for g, _ in its], lambda s, fl: _sort(
            I, s, [v for (_, v), f in zip(its, fl) if f], kwargs))
    return _sort(I, st, [v for _, v in its], kwargs)


def _sort(I, st, vals, kwargs):
    key = kwargs.get('key')
    rev = kwargs.get('reverse')
    rev = rev is not None and rev is TRUE
    ks = [v if key is None or key is NONE else I.call(st, key, [v], {}) for v in vals]
    out = []
    # stable insertion network on gated pairs
    arr = [T.tup([k, v]) for k, v in zip(ks, vals)]
    n = len(arr)
    if n > 8 and not all(cst(a.a[0]) is not None or a.a[0].kind == 'const' for a in arr if type(a.a[0]) is Leaf):
        raise Unsupported('sorting too many symbolic keys')
    for i in range(1, n):
        for j in range(i, 0, -1):
            a, b = arr[j - 1], arr[j]
            op = ast.Lt() if not rev else ast.Gt()
            c = I.truth(st, I.compare1(st, op, b.a[0], a.a[0]))
            arr[j - 1], arr[j] = ite(c, b, a), ite(c, a, b)
    return I.newlist(st, [a.a[1] for a in arr])


def copy_obj(I, st, v, deep, memo=None):
    memo = {} if memo is None else memo

    def one(s, l):
        if l.kind == 'tup':
            return T.tup([copy_obj(I, s, x, deep, memo) for x in l.a], l.b) if deep else l
        if l.kind != 'ref':
            return l
        if l.a in memo:
            return memo[l.a]
        o = I.heapget(s, l.a)
        c, f = o.cls.lookup('__deepcopy__' if deep else '__copy__')
        if f is not None and not c.builtin:
            return I.call_func(s, f.value, [l] + ([NONE] if deep else []), {})
        n = I.new(s, o.cls, dict(o.fields), o.items, o.entries, o.extra)
        memo[l.a] = n
        if deep:
            fl = {k: copy_obj(I, s, x, True, memo) for k, x in o.fields.items()}
            it = None if o.items is None else tuple((g, copy_obj(I, s, x, True, memo)) for g, x in o.items)
            en = None if o.entries is None else tuple((g, k, copy_obj(I, s, x, True, memo)) for g, k, x in o.entries)
            w = I.write(s, n)
            w.fields, w.items, w.entries = fl, it, en
        return n
    if type(v) is Leaf:
        return one(st, v)
    # copying never raises nor branches: copy every possible target in place
    return lift(lambda l: one(st, l), [v], {})


def call_builtin(I, st, name, args, kwargs):
    if name in I.stubs:
        return I.stubs[name](I, st, None, args, kwargs)
    h = EXT.get(name) or BUILTINS.get(name)
    if h is not None:
        return h(I, st, args, kwargs)
    head = name.split('.')[0]
    if head in ('math', 'numpy', 'cmath') and name.split('.')[-1] in FLOATFN and len(args) == 1:
        fn = name.split('.')[-1]
        if head == 'numpy' and type(args[0]) is Leaf and args[0].kind == 'ref':
            o = I.heapget(st, args[0].a)
            if o.items is not None:
                return I.new(st, I.bcls('object'), items=tuple((g, unary_float(I, st, fn, v)) for g, v in o.items), extra='ndarray')
        return unary_float(I, st, fn, args[0])
    parts = name.split('.')
    if parts[0] in I.P.builtins and len(parts) == 2:
        # unbound method of a builtin class
        if parts[0] == 'dict' and parts[1] == 'fromkeys':
            d = I.newdict(st, [])
            for g, k in I.iterate(st, args[0]):
                I.setitem(st, d, k, args[1] if len(args) > 1 else NONE)
            return d
        return call_bound(I, st, args[0], name, args[1:], kwargs)
    return opaque_call(I, st, name, args, kwargs)


PURE = {'re.split', 're.match', 're.sub', 're.search', 'os.path.join', 'os.path.expanduser',
        'os.path.basename', 'numpy.isclose', 'str.format', 'platform.system', 'os.getenv'}


def opaque_call(I, st, name, args, kwargs):
    fr = [I.freeze(st, a) for a in args] + [T.tup([const(k), I.freeze(st, v)]) for k, v in sorted(kwargs.items())]
    if any(type(x) is Node for x in fr):
        key = T.tup(fr)
    else:
        key = None
    if name in PURE:
        return lift(lambda *ls: T.app(name, ls), fr, {}) if key is not None else T.app(name, fr)
    I.counter[name] = I.counter.get(name, 0) + 1
    ev = T.app('effect:' + name, fr)
    st.effects = st.effects + ((TRUE, ev),)
    if getattr(I, 'try_depth', 0) > 0 and name not in NORAISE:
        c = T.truth_atom(T.app('raises:%s#%d' % (name, I.counter[name]), (), 'bool'))
        s2 = st.fork(and_(st.guard, c))
        if s2.guard is not FALSE:
            I.handlers[-1].append((s2, I.mkexc(s2, 'Exception', name)))
        st.guard = and_(st.guard, not_(c))
        if st.guard is FALSE:
            from .interp import Dead
            raise Dead()
    return T.app('%s#%d' % (name, I.counter[name]), ())


NORAISE = {'print', 'time.sleep', 'time.monotonic', 'time.time', 'warnings.warn'}


def ext_const(I, dotted):
    last = dotted.split('.')[-1]
    head = dotted.split('.')[0]
    if head in ('math', 'numpy', 'cmath'):
        if last == 'pi':
            return num(R.ratom(R.PI_ATOM))
        if last in ('inf', 'Inf', 'infty', 'PINF'):
            return INF
        if last == 'NINF':
            return NINF
        if last in ('nan', 'NaN'):
            return NAN
        if last == 'e':
            return num(Fraction(math.e))
        if last == 'tau':
            return T.mul(num(2), num(R.ratom(R.PI_ATOM)))
        if last == 'newaxis':
            return NONE
    if head == 'sys' and last in ('maxsize',):
        return num(2 ** 63 - 1)
    if dotted in ('typing.List', 'typing.NamedTuple', 'typing.Any', 'typing.Union', 'typing.Optional'):
        return I.builtin(dotted)
    return None


def _abs(I, st, a, k):
    return I.split(st, a[0], lambda s, l: I.call_method(s, l, '__abs__', [])) if not all(
        T.as_num_leaf(l) is not None for l in T.leafset(a[0])) and any(
        l.kind == 'ref' for l in T.leafset(a[0])) else _abs2(I, st, a[0])


def _abs2(I, st, v):
    bad = [l for l in T.leafset(v) if T.as_num_leaf(l) is None]
    if bad:
        return I.split(st, v, lambda s, l: absval(l) if T.as_num_leaf(l) is not None
                       else I.raise_named(s, 'TypeError', 'bad operand type for abs()'))
    return absval(v)


def _getattr(I, st, a, k):
    nm = a[1]
    if not (type(nm) is Leaf and nm.kind == 'const'):
        return I.split(st, nm, lambda s, l: _getattr(I, s, [a[0], l] + a[2:], k) if l.kind == 'const' else T.app('getattr', (l,)))
    return I.getattr(st, a[0], nm.a, a[2] if len(a) > 2 else None)


def _hasattr(I, st, a, k):
    nm = a[1].a
    mark = T.leaf('missing')
    v = I.getattr(st, a[0], nm, mark)
    return lift(lambda l: const(l is not mark), [v], {})


def _setattr(I, st, a, k):
    I.setattr(st, a[0], a[1].a, a[2])
    return NONE


def _next(I, st, a, k):
    def one(s, l):
        if l.kind == 'ref':
            o = I.heapget(s, l.a)
            if o.extra == 'iterator':
                p = leaves(o.fields['pos'], s.guard)
                if len(p) != 1:
                    raise Unsupported('iterator position')
                p = as_int(p[0][1])
                rest = o.items[p:]
                if all(g is TRUE for g, _ in rest):
                    if not rest:
                        if len(a) > 1:
                            return a[1]
                        I.raise_named(s, 'StopIteration')
                    I.write(s, l).fields['pos'] = num(p + 1)
                    return rest[0][1]
                # optional items: take the first present; position becomes approximate only
                # when nothing more is read, so refuse further reads
                found, res = FALSE, None
                for g, v in rest:
                    c = and_(not_(found), g)
                    if c is FALSE:
                        continue
                    res = v if res is None else ite(restrict(not_(found), TRUE), ite(g, v, res), res)
                    found = or_(found, g)
                # recompute precisely
                res = None
                for g, v in reversed(rest):
                    res = v if res is None else ite(g, v, res)
                I.write(s, l).fields['pos'] = T.app('pos', (), 'num')
                if len(a) > 1:
                    return restrict(ite(found, res, a[1]), s.guard)
                I.raise_if(s, not_(found), 'StopIteration')
                return restrict(res, s.guard)
            c, f = o.cls.lookup('__next__')
            if f is not None and not c.builtin:
                if len(a) > 1:
                    raise Unsupported('next with default')
                return I.call_func(s, f.value, [l], {})
        I.raise_named(s, 'TypeError', 'not an iterator')
    return I.split(st, a[0], one)


def _iter(I, st, a, k):
    def one(s, l):
        if l.kind == 'ref':
            o = I.heapget(s, l.a)
            if o.extra == 'iterator':
                return l
            c, f = o.cls.lookup('__iter__')
            if f is not None and not c.builtin:
                return I.call_func(s, f.value, [l], {})
        return I.new(s, I.bcls('object'), {'pos': num(0)}, items=tuple(I.iterate(s, l)), extra='iterator')
    return I.split(st, a[0], one)


def _issub(I, st, a, k):
    def one(s, ls):
        x, c = ls
        cs = c.a if c.kind == 'tup' else [c]
        return const(any(x.a.issub(y.a) for y in cs if y.kind == 'class'))
    return I.split_all(st, a, one)


def _round(I, st, a, k):
    def one(s, l):
        c = cst(l)
        if c is not None:
            n = as_int(a[1]) if len(a) > 1 else None
            return num(Fraction(round(c)) if n is None else round(c, n))
        return T.numapp('round', [l] + list(a[1:]))
    return I.split(st, a[0], one)


def _print(I, st, a, k):
    st.effects = st.effects + ((TRUE, T.app('effect:print', [I.freeze(st, x) for x in a])),)
    return NONE


def _re(fn):
    import re

    def go(I, st, a, k):
        def one(s, ls):
            p, rest = ls[0], ls[1:]
            if fn == 'split' and rest and rest[0].kind == 'app' and rest[0].a[0] == 'textline' and p.a.strip('+*') in ('\\s', '[ \\t]', ' '):
                return I.newlist(s, list(rest[0].a[1]))
            if all(x.kind == 'const' for x in ls) and not k:
                try:
                    r = getattr(re, fn)(*[x.a for x in ls])
                except Exception as e:
                    I.raise_named(s, 'TypeError', str(e))
                if r is None or isinstance(r, (str, list, tuple)):
                    return from_py(I, s, r)
                if isinstance(r, re.Match):
                    if 'match' not in I.P.builtins:
                        I.P.builtins['match'] = ClassInfo('match', None, [I.bcls('object')], builtin=True)
                        OBJ_ATTRS['match'] = {'group', 'groups'}
                    return I.new(s, I.bcls('match'), {'$m': T.tup([const(r.group(0))] + [const(x) for x in r.groups()])})
            return opaque_call(I, s, 're.' + fn, ls, k)
        return I.split_all(st, a, one)
    return go


def _group(I, st, me, a, k):
    g = I.heapget(st, me.a).fields['$m'].a
    i = [as_int(x) for x in a] or [0]
    if any(x is None or x >= len(g) for x in i):
        I.raise_named(st, 'IndexError', 'no such group')
    return g[i[0]] if len(i) == 1 else T.tup([g[x] for x in i])


def _globals(I, st, a, k):
    m = I.frames[-1].func.module
    return I.new(st, I.bcls('dict'), entries=tuple(
        (TRUE, const(n), I.binding(st, b)) for n, b in m.env.items() if b.kind in ('class', 'func')))


def _open(I, st, a, k):
    return opaque_call(I, st, 'open', a, k)


def _sorted(I, st, a, k):
    return sorted_(I, st, a, k)


def _isinstance(I, st, a, k):
    return I.split_all(st, a, lambda s, ls: isinst(I, s, ls[0], ls[1]))


def _divmod(I, st, a, k):
    return T.tup([floordiv(I, st, a[0], a[1], False), floordiv(I, st, a[0], a[1], True)])


BUILTINS = {
    'abs': _abs,
    'min': lambda I, st, a, k: minmax(I, st, a, k, 'min'),
    'max': lambda I, st, a, k: minmax(I, st, a, k, 'max'),
    'sum': sum_,
    'any': lambda I, st, a, k: anyall(I, st, a, True),
    'all': lambda I, st, a, k: anyall(I, st, a, False),
    'len': lambda I, st, a, k: length(I, st, a[0]),
    'isinstance': _isinstance,
    'issubclass': _issub,
    'sorted': _sorted,
    'print': _print,
    'hasattr': _hasattr,
    'getattr': _getattr,
    'setattr': _setattr,
    'iter': _iter,
    'next': _next,
    'round': _round,
    'repr': lambda I, st, a, k: T.app('repr', (I.freeze(st, a[0]),), 'str'),
    'format': lambda I, st, a, k: fmt(I, st, a[0], a[1].a if len(a) > 1 and a[1].kind == 'const' else ''),
    'callable': lambda I, st, a, k: lift(lambda l: const(l.kind in ('func', 'bound', 'builtin', 'class', 'partial')), [a[0]], {}),
    'id': lambda I, st, a, k: lift(lambda l: T.numapp('id', [l]), [a[0]], {}),
    'hash': lambda I, st, a, k: lift(lambda l: T.numapp('hash', [l]), [I.freeze(st, a[0])], {}),
    'globals': _globals,
    'divmod': _divmod,
    'pow': lambda I, st, a, k: power(I, st, a[0], a[1]),
    'open': _open,
    'vars': lambda I, st, a, k: I.getattr(st, a[0], '__dict__'),
    'ord': lambda I, st, a, k: num(ord(a[0].a)),
    'chr': lambda I, st, a, k: const(chr(as_int(a[0]))),
}


# ------------------------------------------------------------------ external libraries
def _isfinite(I, st, a, k):
    return lift(lambda l: const(l.kind not in ('inf', 'nan')), [a[0]], {})


def _isinf(I, st, a, k):
    return lift(lambda l: const(l.kind == 'inf'), [a[0]], {})


def _isnan(I, st, a, k):
    return lift(lambda l: const(l.kind == 'nan'), [a[0]], {})


def _linspace(I, st, a, k):
    names = ['start', 'stop', 'num', 'endpoint', 'retstep']
    d = dict(zip(names, a))
    d.update(k)
    endpoint = d.get('endpoint', TRUE)
    endpoint = endpoint is TRUE or (type(endpoint) is Leaf and endpoint.kind == 'num' and not endpoint.a.is_zero())

    def go(s, l):
        n = as_int(l)
        if n is None:
            if cst(l) is not None or l.kind not in ('num', 'app'):
                I.raise_named(s, 'TypeError', 'linspace')
            raise Unsupported('linspace with a symbolic count')
        if n < 0:
            I.raise_named(s, 'ValueError', 'linspace')
        x, y = d['start'], d['stop']
        out = []
        div = (n - 1) if endpoint else n
        for i in range(n):
            if div <= 0:
                out.append(x)
            else:
                out.append(T.add(x, T.mul(T.sub(y, x), num(Fraction(i, div)))))
        return I.new(s, I.bcls('object'), items=tuple((TRUE, v) for v in out), extra='ndarray')
    return I.split(st, d.get('num', num(50)), go)


def _histogram(I, st, a, k):
    vals = I.iterate(st, a[0])
    bins = a[1] if len(a) > 1 else k.get('bins', num(10))
    rg = a[2] if len(a) > 2 else k.get('range', NONE)
    if rg is NONE:
        lst = I.newlist_items(st, vals)
        rg = T.tup([minmax(I, st, [lst], {}, 'min'), minmax(I, st, [lst], {}, 'max')])

    def go(s, l):
        n = as_int(l)
        if n is None:
            raise Unsupported('histogram with a symbolic number of bins')
        if n < 1:
            I.raise_named(s, 'ValueError', 'bins')
        lo, hi = [x for _, x in I.iterate(s, rg)]
        I.raise_if(s, T.cmp_num('>', lo, hi), 'ValueError', 'max must be larger than min in range parameter.')
        same = T.cmp_num('==', lo, hi)
        h = num(Fraction(1, 2))
        lo, hi = ite(same, T.sub(lo, h), lo), ite(same, T.add(hi, h), hi)
        edges = [T.add(lo, T.mul(T.sub(hi, lo), num(Fraction(i, n)))) for i in range(n + 1)]
        counts = []
        for i in range(n):
            c = num(0)
            for g, v in vals:
                inside = and_(g, and_(T.cmp_num('>=', v, edges[i]), T.cmp_num('<=' if i == n - 1 else '<', v, edges[i + 1])))
                c = T.add(c, ite(inside, num(1), num(0)))
            counts.append(c)
        mk = lambda xs: I.new(s, I.bcls('object'), items=tuple((TRUE, x) for x in xs), extra='ndarray')
        return T.tup([mk(counts), mk(edges)])
    return I.split(st, bins, go)


def _arange(I, st, a, k):
    v = [cst(x) for x in a]
    if any(x is None for x in v):
        raise Unsupported('arange')
    if len(v) == 1:
        v = [Fraction(0)] + v
    step = v[2] if len(v) > 2 else Fraction(1)
    out = []
    x = v[0]
    while (x < v[1] if step > 0 else x > v[1]) and len(out) < 5000:
        out.append((TRUE, num(x)))
        x += step
    return I.new(st, I.bcls('object'), items=tuple(out), extra='ndarray')


def _array(I, st, a, k):
    def one(s, l):
        if l.kind in ('ref', 'tup'):
            return array_of(I, s, l)
        return l
    return I.split(st, a[0], one)


def _elements(I, st, v):
    """items of an array-like, None for a number"""
    if type(v) is Leaf:
        if v.kind == 'tup':
            return [(TRUE, x) for x in v.a]
        if v.kind == 'ref':
            return list(I.iterate(st, v))
    return None


def _npabs(I, st, a, k):
    def one(v):
        e = _elements(I, st, v)
        if e is None:
            return _abs2(I, st, v)
        return I.new(st, I.bcls('object'), items=tuple((g, one(x)) for g, x in e), extra='ndarray')
    return one(a[0])


def _npreduce(fold):
    def f(I, st, a, k):
        axis = a[1] if len(a) > 1 else k.get('axis', NONE)
        rows = _elements(I, st, a[0])
        if rows is None:
            if type(a[0]) is Leaf:
                return a[0]
            raise Unsupported('array of unknown shape')
        parts = [(g, _elements(I, st, x)) for g, x in rows]
        if all(x is None for _, x in parts):
            return fold(I, st, rows)
        if any(x is None for _, x in parts):
            raise Unsupported('ragged array')
        if axis is NONE:
            return fold(I, st, [(and_(g, h), y) for g, x in parts for h, y in x])
        n = len(parts[0][1])
        if as_int(axis) != 0 or any(len(x) != n for _, x in parts):
            raise Unsupported('reduction along an axis')
        return I.new(st, I.bcls('object'), items=tuple((TRUE, fold(I, st, [(g, x[j][1]) for g, x in parts])) for j in range(n)),
                     extra='ndarray')
    return f


def _fold(op):
    return lambda I, st, its: minmax(I, st, [I.newlist_items(st, its)], {}, op)


def _foldsum(I, st, its):
    return sum_(I, st, [I.newlist_items(st, its)], {})


def _foldmean(I, st, its):
    n = num(0)
    for g, _ in its:
        n = T.add(n, num(1) if g is TRUE else ite(g, num(1), num(0)))
    return T.div(_foldsum(I, st, its), n)


def _nproundf(I, st, a, k):
    e = _elements(I, st, a[0])
    if e is not None:
        return I.new(st, I.bcls('object'), items=tuple((g, _round(I, st, [x] + list(a[1:]), k)) for g, x in e), extra='ndarray')
    return _round(I, st, list(a), k)


def array_op(I, st, op, a, b):
    def items(x):
        if x.kind == 'ref' and I.heapget(st, x.a).items is not None:
            return I.heapget(st, x.a).items
        return None
    xa, xb = items(a), items(b)
    if isinstance(op, ast.MatMult):
        return matmul(I, st, a, b)
    if xa is not None and xb is not None:
        if len(xa) != len(xb):
            I.raise_named(st, 'ValueError', 'shapes')
        r = [(g, I.binop(st, op, x, y)) for (g, x), (_, y) in zip(xa, xb)]
    elif xa is not None:
        r = [(g, I.binop(st, op, x, b)) for g, x in xa]
    else:
        r = [(g, I.binop(st, op, a, y)) for g, y in xb]
    return I.new(st, I.bcls('object'), items=tuple(r), extra='ndarray')


def _random(I, st, a, k):
    I.counter['random'] = I.counter.get('random', 0) + 1
    at = R.ATOMS.get(('random', I.counter['random'], id(I)), kind='var', name='rand%d' % I.counter['random'], sign='0+',
                     lo=Fraction(0), hi=Fraction(1))
    I.randoms = getattr(I, 'randoms', [])
    v = num(R.ratom(at))
    I.randoms.append(v)
    return v


def _uniform(I, st, a, k):
    lo = a[0] if a else k.get('low', num(0))
    hi = a[1] if len(a) > 1 else k.get('high', num(1))
    return T.add(lo, T.mul(T.sub(hi, lo), _random(I, st, [], {})))


def _warn(I, st, a, k):
    cat = a[1] if len(a) > 1 else k.get('category', NONE)
    st.effects = st.effects + ((TRUE, T.app('effect:warn', [cat if type(cat) is Leaf else NONE, a[0] if a and type(a[0]) is Leaf else NONE])),)
    return NONE


def _reduce(I, st, a, k):
    its = I.iterate(st, a[1])
    acc = a[2] if len(a) > 2 else k.get('initial')
    for g, v in its:
        if acc is None:
            if g is not TRUE:
                raise Unsupported('reduce')
            acc = v
            continue
        if g is TRUE:
            acc = I.call(st, a[0], [acc, v], {})
        else:
            def f(s, fl, acc=acc, v=v):
                return I.call(s, a[0], [acc, v], {}) if fl[0] else acc
            acc = I.resolve_guards(st, [g], f)
    if acc is None:
        I.raise_named(st, 'TypeError', 'reduce() of empty iterable')
    return acc


def _chain(I, st, a, k):
    out = []
    for x in a:
        out.extend(I.iterate(st, x))
    return I.new(st, I.bcls('object'), {'pos': num(0)}, items=tuple(out), extra='iterator')


def _chain_from(I, st, a, k):
    out = []
    for g, x in I.iterate(st, a[0]):
        out.extend((and_(g, gg), v) for gg, v in I.iterate(st, x))
    return I.new(st, I.bcls('object'), {'pos': num(0)}, items=tuple(out), extra='iterator')


def _accumulate(I, st, a, k):
    out = []
    acc = k.get('initial')
    fn = a[1] if len(a) > 1 else k.get('func')
    if acc is not None:
        out.append((TRUE, acc))
    for g, v in I.iterate(st, a[0]):
        if g is not TRUE:
            raise Unsupported('accumulate')
        acc = v if acc is None else (I.binop(st, ast.Add(), acc, v) if fn is None else I.call(st, fn, [acc, v], {}))
        out.append((TRUE, acc))
    return I.new(st, I.bcls('object'), {'pos': num(0)}, items=tuple(out), extra='iterator')


def _islice(I, st, a, k):
    its = I.iterate(st, a[0])
    f = [None if x is NONE else as_int(x) for x in a[1:]]
    if not all(g is TRUE for g, _ in its):
        raise Unsupported('islice')
    return I.new(st, I.bcls('object'), {'pos': num(0)}, items=tuple(its[slice(*f)]), extra='iterator')


def _product(I, st, a, k):
    import itertools
    ls = [I.iterate(st, x) for x in a]
    rep = as_int(k['repeat']) if 'repeat' in k else 1
    out = []
    for t in itertools.product(*(ls * rep)):
        g = TRUE
        for q, _ in t:
            g = and_(g, q)
        out.append((g, T.tup([v for _, v in t])))
    return I.new(st, I.bcls('object'), {'pos': num(0)}, items=tuple(out), extra='iterator')


def _selections(name):
    def f(I, st, a, k):
        import itertools
        ls = I.iterate(st, a[0])
        r = as_int(a[1] if len(a) > 1 else k.get('r', num(len(ls))))
        out = []
        if name != 'combinations' and any(restrict(g, st.guard) is not TRUE for g, _ in ls):
            raise Unsupported('selections of optional items')
        for t in getattr(itertools, name)(ls, r):
            g = TRUE
            for q, _ in t:
                g = and_(g, q)
            if restrict(g, st.guard) is not FALSE:
                out.append((g, T.tup([v for _, v in t])))
        return I.new(st, I.bcls('object'), {'pos': num(0)}, items=tuple(out), extra='iterator')
    return f


def _partial(I, st, a, k):
    from .interp import Partial
    return T.pyobj('partial', _keep(I, Partial(a[0], a[1:], k)))


def _keep(I, o):
    I.kept = getattr(I, 'kept', [])
    I.kept.append(o)
    return o


def _attrgetter(I, st, a, k):
    from .interp import Partial
    names = [x.a for x in a]
    return T.pyobj('partial', _keep(I, Partial(I.builtin('$attrget'), [T.tup(a)], {})))


def _attrget(I, st, a, k):
    names = [x.a for x in a[0].a]
    vals = []
    for n in names:
        v = a[1]
        for part in n.split('.'):
            v = I.getattr(st, v, part)
        vals.append(v)
    return vals[0] if len(vals) == 1 else T.tup(vals)


def _itemgetter(I, st, a, k):
    from .interp import Partial
    return T.pyobj('partial', _keep(I, Partial(I.builtin('$itemget'), [T.tup(a)], {})))


def _itemget(I, st, a, k):
    vals = [I.subscript(st, a[1], i) for i in a[0].a]
    return vals[0] if len(vals) == 1 else T.tup(vals)


def _zip_longest(I, st, a, k):
    ls = [I.iterate(st, x) for x in a]
    fill = k.get('fillvalue', NONE)
    if any(g is not TRUE for l in ls for g, _ in l):
        raise Unsupported('zip_longest')
    n = max(len(l) for l in ls)
    return I.newlist(st, [T.tup([l[i][1] if i < len(l) else fill for l in ls]) for i in range(n)])


def _opfn(op):
    return lambda I, st, a, k: I.binop(st, op, a[0], a[1])


def _cmpfn(op):
    return lambda I, st, a, k: I.compare1(st, op, a[0], a[1])


def _isclose(I, st, a, k):
    if all(T.as_num_leaf(l) is not None for x in a for l in T.leafset(x)):
        rel = k.get('rel_tol', num(Fraction(1, 10 ** 9)))
        ab = k.get('abs_tol', num(0))
        d = absval(T.sub(a[0], a[1]))
        m = minmax(I, st, [absval(a[0]), absval(a[1])], {}, 'max')
        return T.cmp_num('<=', d, minmax(I, st, [T.mul(rel, m), ab], {}, 'max'))
    return T.app('isclose', a)


def _hypot(I, st, a, k):
    return fsqrt(I, st, T.add(T.mul(a[0], a[0]), T.mul(a[1], a[1])))


def _pool(I, st, a, k):
    I.effect(st, 'multiprocessing.Pool', [])
    v = I.new(st, pool_class(I), {})
    return v


def pool_class(I):
    if 'pool' not in I.P.builtins:
        I.P.builtins['pool'] = ClassInfo('pool', None, [I.bcls('object')], builtin=True)
        OBJ_ATTRS['pool'] = {'starmap', 'map', 'imap', 'close', 'join', 'terminate'}
    return I.P.builtins['pool']


def _floor(I, st, a, k, f=math.floor):
    def one(l):
        c = cst(l)
        return num(f(c)) if c is not None else T.numapp(f.__name__, [l])
    return lift(one, [a[0]], {})


def _npsum(I, st, a, k):
    return sum_(I, st, a[:1], {})


def _opq_cos(I, st, a, k):
    return T.app('x', a)


def _pathexists(I, st, a, k):
    return T.truth_atom(T.app('os.path.exists', [I.freeze(st, x) for x in a], 'bool'))


def _mathprod(I, st, a, k):
    acc = k.get('start', num(1))
    for g, v in I.iterate(st, a[0]):
        acc = I.binop(st, ast.Mult(), acc, v) if g is TRUE else ite(g, I.binop(st, ast.Mult(), acc, v), acc)
    return acc


def _copysign(I, st, a, k):
    s = T.cmp_num('>=', a[1], num(0))
    x = absval(a[0])
    return ite(s, x, T.neg(x))


def _sign(I, st, a, k):
    return T.sgn(a[0])


def _where(I, st, a, k):
    if len(a) == 3 and all(l.kind == 'const' for l in T.leafset(a[0])):
        return ite(a[0], a[1], a[2])
    c = _elements(I, st, a[0])
    if c is not None and len(a) == 3:
        pick = lambda v, i: v if _elements(I, st, v) is None else _elements(I, st, v)[i][1]
        return I.new(st, I.bcls('object'), extra='ndarray', items=tuple(
            (g, ite(I.truth(st, x), pick(a[1], i), pick(a[2], i))) for i, (g, x) in enumerate(c)))
    raise Unsupported('numpy.where')


EXT = {
    'math.sqrt': lambda I, st, a, k: fsqrt(I, st, a[0]),
    'numpy.sqrt': lambda I, st, a, k: fsqrt(I, st, a[0]),
    'cmath.sqrt': lambda I, st, a, k: lift(lambda l: sqrt_leaf(l, True), [a[0]], T.opmemo('csqrt')),
    'math.fabs': lambda I, st, a, k: _abs2(I, st, a[0]),
    'numpy.abs': _npabs, 'numpy.absolute': _npabs, 'numpy.fabs': _npabs,
    'math.pow': lambda I, st, a, k: power(I, st, a[0], a[1]),
    'numpy.power': lambda I, st, a, k: power(I, st, a[0], a[1]),
    'math.hypot': _hypot,
    'math.isfinite': _isfinite, 'numpy.isfinite': _isfinite,
    'math.isinf': _isinf, 'numpy.isinf': _isinf,
    'math.isnan': _isnan, 'numpy.isnan': _isnan,
    'math.isclose': _isclose,
    'math.floor': _floor, 'numpy.floor': _floor,
    'math.ceil': lambda I, st, a, k: _floor(I, st, a, k, math.ceil),
    'math.prod': _mathprod,
    'math.copysign': _copysign,
    'numpy.sign': _sign,
    'numpy.where': _where,
    'numpy.linspace': _linspace,
    'numpy.histogram': _histogram,
    'numpy.arange': _arange,
    'numpy.zeros': _filled(num(0)), 'numpy.ones': _filled(num(1)), 'numpy.full': _filled(None),
    'numpy.eye': _eye, 'numpy.identity': _eye, 'numpy.linalg.det': _det, 'numpy.isclose': _npisclose,
    'numpy.dot': lambda I, st, a, k: I.split_all(st, a, lambda s, ls: matmul(I, s, *ls)),
    'numpy.matmul': lambda I, st, a, k: I.split_all(st, a, lambda s, ls: matmul(I, s, *ls)),
    'numpy.prod': _mathprod, 'numpy.hypot': _hypot,
    'operator.itemgetter': _itemgetter, '$itemget': _itemget, 'itertools.zip_longest': _zip_longest,
    'collections.defaultdict': _defaultdict, 'collections.deque': _deque,
    'collections.OrderedDict': lambda I, st, a, k: I.call(st, I.classval(I.bcls('dict')), list(a), k),
    'numpy.array': _array, 'numpy.asarray': _array,
    'numpy.sum': _npreduce(_foldsum), 'numpy.mean': _npreduce(_foldmean), 'numpy.average': _npreduce(_foldmean),
    'numpy.min': _npreduce(_fold('min')), 'numpy.amin': _npreduce(_fold('min')),
    'numpy.max': _npreduce(_fold('max')), 'numpy.amax': _npreduce(_fold('max')),
    'numpy.round': _nproundf, 'numpy.around': _nproundf, 'numpy.rint': _nproundf,
    'numpy.minimum': lambda I, st, a, k: minmax(I, st, a, {}, 'min'),
    'numpy.maximum': lambda I, st, a, k: minmax(I, st, a, {}, 'max'),
    'numpy.random.random': _random, 'random.random': _random, 'numpy.random.rand': _random,
    'numpy.random.random_sample': _random,
    'numpy.random.uniform': _uniform, 'random.uniform': _uniform,
    'numpy.float64': lambda I, st, a, k: to_float(I, st, a[0]),
    'warnings.warn': _warn,
    'copy.copy': lambda I, st, a, k: copy_obj(I, st, a[0], False),
    'copy.deepcopy': lambda I, st, a, k: copy_obj(I, st, a[0], True),
    'functools.reduce': _reduce, 'functools.partial': _partial,
    'itertools.chain': _chain, 'itertools.chain.from_iterable': _chain_from, 'itertools.accumulate': _accumulate,
    'itertools.combinations': _selections('combinations'), 'itertools.permutations': _selections('permutations'),
    'itertools.islice': _islice, 'itertools.product': _product,
    'operator.attrgetter': _attrgetter, '$attrget': _attrget,
    'operator.add': _opfn(ast.Add()), 'operator.mul': _opfn(ast.Mult()), 'operator.sub': _opfn(ast.Sub()),
    'operator.truediv': _opfn(ast.Div()),
    'operator.lt': _cmpfn(ast.Lt()), 'operator.gt': _cmpfn(ast.Gt()), 'operator.le': _cmpfn(ast.LtE()),
    'operator.ge': _cmpfn(ast.GtE()), 'operator.eq': _cmpfn(ast.Eq()), 'operator.ne': _cmpfn(ast.NotEq()),
    're.match': _re('match'), 're.search': _re('search'), 're.fullmatch': _re('fullmatch'), 're.split': _re('split'),
    're.sub': _re('sub'), 're.findall': _re('findall'), 'method:match.group': _group,
    'method:match.groups': lambda I, st, me, a, k: T.tup([(a[0] if a and x is NONE else x) for x in I.heapget(st, me.a).fields['$m'].a[1:]]),
    'multiprocessing.Pool': _pool, 'multiprocessing.pool.Pool': _pool,
    'os.path.exists': _pathexists, 'os.path.isfile': _pathexists,
}


def enter(I, st, v):
    def one(s, l):
        if l.kind == 'ref':
            o = I.heapget(s, l.a)
            c, f = o.cls.lookup('__enter__')
            if f is not None:
                return I.call_func(s, f.value, [l], {})
        return l
    return I.split(st, v, one)


def exit_(I, st, v, exc=None):
    """leave a context manager; the condition under which it swallows the exception"""
    def one(s, l):
        if l.kind == 'ref':
            o = I.heapget(s, l.a)
            c, f = o.cls.lookup('__exit__')
            if f is not None:
                a = [NONE, NONE, NONE]
                if exc is not None:
                    a = [lift(lambda e: I.classval(I.obj(s, e).cls), [exc], {}), exc, NONE]
                r = I.truth(s, I.call_func(s, f.value, [l] + a, {}))
                return r if exc is not None else FALSE
        return FALSE
    return I.split(st, v, one)


def loop_fallback(I, s, st):
    return None
