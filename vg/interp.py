"""Gated value-graph abstract interpreter for the Python subset of the repository.

One abstract pass per call context: both arms of every branch are evaluated on
forked abstract states and merged at the join into gated values (terms.ite);
nothing of the repository is executed, no path is enumerated, no solver is
called.  Calls are resolved through the class table (MRO, properties, static
and class methods, closures, decorators) and evaluated in place.
"""
import ast
import sys
from fractions import Fraction

from . import terms as T
from .terms import (TRUE, FALSE, NONE, INF, NINF, NAN, ERR, Leaf, Node, const, num, ite, and_, or_, not_, restrict,
                    leaves, lift, Unsupported)
from .program import Program, ClassInfo, FuncInfo, Module, External, Binding, AnchorError
from . import rat as R
from .feas import feasible

sys.setrecursionlimit(200000)
UNBOUND = T.leaf('unbound')
MAXDEPTH = 90
MAXLOOP = 400


class Dead(Exception):
    """no abstract state continues past this point"""


class Obj:
    __slots__ = ('cls', 'fields', 'items', 'entries', 'extra')

    def __init__(self, cls, fields=None, items=None, entries=None, extra=None):
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.items = items
        self.entries = entries
        self.extra = extra

    def copy(self):
        return Obj(self.cls, dict(self.fields), self.items, self.entries, self.extra)


class State:
    __slots__ = ('guard', 'heap', 'effects')

    def __init__(self, guard=TRUE, heap=None, effects=()):
        self.guard = guard
        self.heap = heap if heap is not None else {}
        self.effects = effects

    def fork(self, guard):
        return State(guard, dict(self.heap), self.effects)

    def become(self, o):
        self.guard, self.heap, self.effects = o.guard, o.heap, o.effects


def merge_vals(ga, a, gb, b, g):
    if a is b:
        return a
    c = restrict(ga, g)
    return restrict(ite(c, a, b), g)


def merge_items(ga, xs, gb, ys, g):
    if xs is ys or xs == ys:
        return xs
    n = 0
    out = []
    lim = min(len(xs), len(ys))
    while n < lim and xs[n][0] is ys[n][0]:
        # same guard: pair positions only if rest lengths agree or values agree
        if xs[n][1] is ys[n][1] or len(xs) == len(ys):
            out.append((xs[n][0], merge_vals(ga, xs[n][1], gb, ys[n][1], g)))
            n += 1
        else:
            break
    for gg, v in xs[n:]:
        q = restrict(and_(ga, gg), g)
        if q is not FALSE:
            out.append((q, v))
    for gg, v in ys[n:]:
        q = restrict(and_(gb, gg), g)
        if q is not FALSE:
            out.append((q, v))
    return tuple(out)


def merge_entries(ga, xs, gb, ys, g):
    if xs is ys or xs == ys:
        return xs
    out = []
    yd = {k.id: (gg, k, v) for gg, k, v in ys}
    for gg, k, v in xs:
        if k.id in yd:
            gy, _, vy = yd.pop(k.id)
            present = restrict(or_(and_(ga, gg), and_(gb, gy)), g)
            ca = and_(ga, gg)
            out.append((present, k, restrict(ite(restrict(ca, g), v, vy), g)))
        else:
            q = restrict(and_(ga, gg), g)
            if q is not FALSE:
                out.append((q, k, v))
    for gg, k, v in ys:
        if k.id in yd:
            q = restrict(and_(gb, gg), g)
            if q is not FALSE:
                out.append((q, k, v))
    return tuple(out)


def merge2(a, b):
    g = or_(a.guard, b.guard)
    heap = {}
    ha, hb = a.heap, b.heap
    for oid, oa in ha.items():
        ob = hb.get(oid)
        if ob is None or ob is oa:
            heap[oid] = oa
            continue
        if oa.cls is not ob.cls:
            raise Unsupported('object changes class')
        f = {}
        for k, va in oa.fields.items():
            vb = ob.fields.get(k, UNBOUND)
            f[k] = merge_vals(a.guard, va, b.guard, vb, g)
        for k, vb in ob.fields.items():
            if k not in oa.fields:
                f[k] = merge_vals(a.guard, UNBOUND, b.guard, vb, g)
        items = oa.items
        if oa.items is not ob.items:
            items = merge_items(a.guard, oa.items, b.guard, ob.items, g)
        ent = oa.entries
        if oa.entries is not ob.entries:
            ent = merge_entries(a.guard, oa.entries, b.guard, ob.entries, g)
        heap[oid] = Obj(oa.cls, f, items, ent, oa.extra)
    for oid, ob in hb.items():
        if oid not in heap:
            heap[oid] = ob
    eff = a.effects if a.effects is b.effects else merge_items(a.guard, a.effects, b.guard, b.effects, g)
    return State(g, heap, eff)


def merge_states(sts):
    sts = [s for s in sts if s.guard is not FALSE]
    if not sts:
        return None
    m = sts[0]
    for s in sts[1:]:
        m = merge2(m, s)
    return m


class Bound:
    def __init__(self, selfv, func):
        self.selfv, self.func = selfv, func
        self.name = 'bound ' + getattr(func, 'name', str(func))


class Builtin:
    def __init__(self, name):
        self.name = name


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs, self.name = fn, args, kwargs, 'partial'


class SuperObj:
    def __init__(self, cls, selfv):
        self.cls, self.selfv, self.name = cls, selfv, 'super'


class Frame:
    def __init__(self, func, env):
        self.func = func
        self.env = env
        self.returns = []
        self.loops = []
        self.yields = None
        self.globals_ = set()
        self.nonlocals = {}


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.continues = []


class Interp:
    widen = False       # loops without static bound: any last iteration

    def __init__(self, program):
        self.P = program
        self.noid = 0
        self.frames = []
        self.handlers = [[]]
        self.funcvals = {}
        self.trace = []
        self.called = {}
        self.stubs = {}
        self.extvals = {}         # values of names of external modules
        self.modenv = {}          # module -> environment, when its body has been run
        self.missing = {}         # external module -> condition under which it is not installed
        self.counter = {}
        self.exprcache = {}
        self._builtin_vals = {}
        self._classvals = {}
        self._bounds = {}
        self.shared = {}
        self.defaults = {}            # FuncInfo -> (values, keyword only values), evaluated at the first call
        self.overridden = set()
        from . import models
        self.models = models
        self.events_on = True

    # ------------------------------------------------------------ objects
    def new(self, st, cls, fields=None, items=None, entries=None, extra=None):
        self.noid += 1
        st.heap[self.noid] = Obj(cls, fields, items, entries, extra)
        return T.ref(self.noid)

    def bcls(self, name):
        return self.P.builtins[name]

    def newlist(self, st, values, cls='list'):
        return self.new(st, self.bcls(cls), items=tuple((TRUE, v) for v in values))

    def newlist_items(self, st, items, cls='list'):
        return self.new(st, self.bcls(cls), items=tuple(items))

    def newdict(self, st, pairs):
        return self.new(st, self.bcls('dict'), entries=tuple((TRUE, k, v) for k, v in pairs))

    def obj(self, st, leaf_):
        return self.heapget(st, leaf_.a)

    def write(self, st, leaf_):
        o = self.heapget(st, leaf_.a).copy()
        st.heap[leaf_.a] = o
        return o

    def fresh(self, name):
        self.counter[name] = self.counter.get(name, 0) + 1
        return '%s#%d' % (name, self.counter[name])

    def classval(self, c):
        v = self._classvals.get(id(c))
        if v is None:
            v = T.pyobj('class', c)
            self._classvals[id(c)] = v
        return v

    def builtin(self, name):
        b = self._builtin_vals.get(name)
        if b is None:
            b = T.pyobj('builtin', Builtin(name))
            self._builtin_vals[name] = b
        return b

    def bound(self, selfv, fn):
        k = (selfv.id, id(fn) if not isinstance(fn, str) else fn)
        b = self._bounds.get(k)
        if b is None:
            b = T.pyobj('bound', Bound(selfv, fn))
            self._bounds[k] = b
        return b

    # ------------------------------------------------------------ control
    def raise_exc(self, st, exc):
        self.handlers[-1].append((State(st.guard, st.heap, st.effects), exc))
        st.guard = FALSE
        raise Dead()

    def mkexc(self, st, clsname, *args):
        return self.new(st, self.bcls(clsname), {'args': T.tup([const(a) if isinstance(a, str) else a for a in args])})

    def raise_named(self, st, clsname, msg=''):
        self.raise_exc(st, self.mkexc(st, clsname, msg))

    def raise_if(self, st, cond, clsname, msg=''):
        g = and_(st.guard, cond)
        if g is FALSE or not feasible(g):
            return
        s = st.fork(g)
        self.handlers[-1].append((s, self.mkexc(s, clsname, msg)))
        st.guard = and_(st.guard, not_(cond))
        if st.guard is FALSE:
            raise Dead()

    def fork_eval(self, st, cases):
        """cases: [(cond, fn(st)->V)], conds disjoint.  Merges states and values."""
        live = []
        todo = [(and_(st.guard, c), fn) for c, fn in cases]
        todo = [(g, fn) for g, fn in todo if g is not FALSE]
        if len(todo) > 1:
            ok = [(g, fn) for g, fn in todo if feasible(g)]
            if len(ok) == 1:
                return ok[0][1](st)
            todo = ok or todo
        if len(todo) == 1:
            st.guard = todo[0][0]
            return todo[0][1](st)
        for g, fn in todo:
            s = st.fork(g)
            try:
                v = fn(s)
            except Dead:
                continue
            if s.guard is not FALSE:
                live.append((s, v))
        if not live:
            st.guard = FALSE
            raise Dead()
        m, v = live[0]
        for s, w in live[1:]:
            g = or_(m.guard, s.guard)
            v = merge_vals(m.guard, v, s.guard, w, g) if (v is not None or w is not None) else None
            m = merge2(m, s)
        st.become(m)
        return v

    def split(self, st, v, fn):
        """fn(st, leaf) on every leaf of v live under the state guard"""
        if type(v) is Leaf and v.kind != 'tup':
            return fn(st, v)
        ls = leaves(v, st.guard)
        if len(ls) == 1:
            return fn(st, ls[0][1])
        return self.fork_eval(st, [(g, (lambda s, l=l: fn(s, l))) for g, l in ls])

    def split_all(self, st, vs, fn):
        """fn(st, [leaves])"""
        vs = list(vs)

        def rec(s, i, acc):
            if i == len(vs):
                return fn(s, acc)
            return self.split(s, vs[i], lambda s2, l: rec(s2, i + 1, acc + [l]))
        return rec(st, 0, [])

    def resolve_guards(self, st, guards, fn):
        """case-split on guards so that each is True/False under the state; fn(st, [bool])"""
        def rec(s, i, acc):
            if i == len(guards):
                return fn(s, acc)
            g = restrict(guards[i], s.guard)
            t = and_(s.guard, g)
            f = and_(s.guard, not_(g))
            if f is FALSE:
                return rec(s, i + 1, acc + [True])
            if t is FALSE:
                return rec(s, i + 1, acc + [False])
            return self.fork_eval(s, [(g, lambda q: rec(q, i + 1, acc + [True])),
                                      (not_(g), lambda q: rec(q, i + 1, acc + [False]))])
        return rec(st, 0, [])

    # ------------------------------------------------------------ truth
    def truth(self, st, v):
        m = {}

        def one(l):
            k = l.kind
            if k == 'num':
                return not_(T.truthcmp('==', T.sgn(l))) if not l.a.has_I() else const(not l.a.is_zero())
            if k in ('inf', 'nan'):
                return TRUE
            if k == 'err':
                return FALSE
            if k == 'const':
                return const(bool(l.a))
            if k == 'tup':
                return const(len(l.a) > 0)
            if k == 'ref':
                raise _NeedState()
            if k == 'app':
                return T.truth_atom(l)
            return TRUE
        try:
            return lift(one, [v], m)
        except _NeedState:
            pass
        return self.split(st, v, lambda s, l: self._truth_ref(s, l) if l.kind == 'ref' else one(l))

    def _truth_ref(self, st, l):
        o = self.obj(st, l)
        c, b = o.cls.lookup('__bool__')
        if b is not None and not c.builtin:
            return self.truth(st, self.call_method(st, l, '__bool__', []))
        c, b = o.cls.lookup('__len__')
        if b is not None and not (c.builtin):
            return self.truth(st, self.call_method(st, l, '__len__', []))
        if o.items is not None and o.cls.name in ('list', 'iterator', 'deque'):
            r = FALSE
            for g, _ in o.items:
                r = or_(r, g)
            return r
        if o.entries is not None:
            r = FALSE
            for g, _, _ in o.entries:
                r = or_(r, g)
            return r
        return TRUE

    # ------------------------------------------------------------ names
    def lookup_name(self, st, name, node=None):
        f = self.frames[-1]
        env = f.env
        if name not in f.globals_:
            while env is not None:
                o = st.heap[env]
                if name in o.fields:
                    v = restrict(o.fields[name], st.guard)
                    if v is UNBOUND:
                        if env == f.env:
                            self.raise_named(st, 'UnboundLocalError', name)
                    elif type(v) is Node and any(l is UNBOUND for l in T.leafset(v)):
                        c = lift(lambda l: TRUE if l is UNBOUND else FALSE, [v], {})
                        self.raise_if(st, c, 'UnboundLocalError', name)
                        return restrict(v, st.guard)
                    else:
                        return v
                env = o.extra
        return self.global_name(st, f.func.module, name)

    def global_name(self, st, module, name):
        if module is not None and module.name in self.modenv:
            o = self.heapget(st, self.modenv[module.name])
            v = o.fields.get(name)
            if v is not None and restrict(v, st.guard) is not UNBOUND:
                return restrict(v, st.guard)
        b = module.env.get(name) if module is not None else None
        if b is None:
            if name in ('__name__',):
                return const(module.name)
            if name == '__file__':
                return const(module.path)
            c = self.P.builtins.get(name)
            if c is not None:
                return self.classval(c)
            if name in self.models.BUILTINS or name in self.models.KNOWN_BUILTINS:
                return self.builtin(name)
            if name == 'NotImplemented':
                return T.NOTIMPL
            if name == '__debug__':
                return TRUE
            self.raise_named(st, 'NameError', name)
        return self.binding(st, b)

    def binding(self, st, b):
        if b.kind == 'class':
            return self.classval(b.value)
        if b.kind in ('func',):
            return self.func_value(st, b.value)
        if b.kind == 'module':
            return T.pyobj('module', b.value)
        if b.kind == 'ext':
            return self.ext_value(b.value)
        if b.kind == 'expr':
            v = self.exprcache.get(id(b))
            if v is None:
                v = self.eval_in_module(st, b)
                self.exprcache[id(b)] = v
            return v
        if b.kind == 'opaque':
            return T.app('global:%s:%d' % (b.module.relpath, b.node.lineno), ())
        raise Unsupported('binding ' + b.kind)

    def eval_in_module(self, st, b):
        env = self.new(st, self.bcls('object'), {}, extra=None).a
        fi = FuncInfo('<module>', ast.parse('lambda: 0', mode='eval').body, b.module, None)
        fr = Frame(fi, env)
        if b.cls is not None:
            # class-level expression: earlier names of the class body are visible
            for k, x in b.cls.ns.items():
                if x is b:
                    break
                if x.kind == 'expr':
                    st.heap[env].fields[k] = self.binding(st, x)
                elif x.kind in ('method', 'static', 'func') and k not in st.heap[env].fields:
                    st.heap[env].fields[k] = self.func_value(st, x.value)
        self.frames.append(fr)
        try:
            v = self.eval(b.node, st)
        finally:
            self.frames.pop()
        # objects created here live in every state: remember them
        if any(l.kind == 'ref' for l in T.leafset(v)):
            self._share(st, v)
        return v

    def _share(self, st, v):
        """module-level mutable objects: keep a template to seed states lacking it"""
        todo = [l for l in T.leafset(v) if l.kind == 'ref']
        while todo:
            l = todo.pop()
            if l.a in self.shared:
                continue
            o = st.heap[l.a]
            self.shared[l.a] = o
            for x in o.fields.values():
                todo += [y for y in T.leafset(x) if y.kind == 'ref']
            for it in (o.items or ()):
                todo += [y for y in T.leafset(it[1]) if y.kind == 'ref']
            for e in (o.entries or ()):
                todo += [y for y in T.leafset(e[2]) if y.kind == 'ref']

    def ext_value(self, dotted):
        if dotted in self.extvals:
            return self.extvals[dotted]
        c = self.models.ext_const(self, dotted)
        if c is not None:
            return c
        return self.builtin(dotted)

    def func_value(self, st, f):
        """function object with its decorators applied"""
        v = self.funcvals.get(id(f))
        if v is not None:
            return v
        v = T.pyobj('func', f)
        for d in reversed(f.decorators):
            dn = ast.unparse(d)
            if dn in ('property', 'staticmethod', 'classmethod') or dn.endswith(('.setter', '.getter', '.deleter',
                                                                               'cached_property', 'abstractmethod')):
                continue
            if dn.split('(')[0].split('.')[-1] in ('lru_cache', 'cache', 'wraps', 'overload', 'total_ordering'):
                continue
            env = self.new(st, self.bcls('object'), {}).a
            fr = Frame(FuncInfo('<decorator>', ast.parse('lambda: 0', mode='eval').body, f.module), env)
            self.frames.append(fr)
            try:
                dv = self.eval(d, st)
                v = self.call(st, dv, [v], {})
                for l in T.leafset(v):
                    if l.kind == 'func' and l.a.closure is not None:
                        e = l.a.closure
                        while e is not None:
                            self.shared[e] = st.heap[e]
                            e = st.heap[e].extra
            finally:
                self.frames.pop()
        self.funcvals[id(f)] = v
        return v

    # ------------------------------------------------------------ attributes
    def getattr(self, st, v, name, default=None):
        if type(v) is Leaf:
            return self.getattr1(st, v, name, default)
        return self.split(st, v, lambda s, l: self.getattr1(s, l, name, default))

    def heapget(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            o = self.shared[oid]
            st.heap[oid] = o
        return o

    def getattr1(self, st, l, name, default=None):
        k = l.kind
        if k == 'ref':
            o = self.heapget(st, l.a)
            c, b = o.cls.lookup(name)
            if b is not None and b.kind == 'property':
                key = (c.name, name)
                if key in self.stubs:
                    return self.stubs[key](self, st, l, [], {})
                return self.call_func(st, b.value, [l], {})
            v = o.fields.get(name)
            if v is not None:
                v = restrict(v, st.guard)
                if v is UNBOUND:
                    v = None
                elif type(v) is Node and any(x is UNBOUND for x in T.leafset(v)):
                    cnd = lift(lambda x: TRUE if x is UNBOUND else FALSE, [v], {})
                    return self.fork_eval(st, [
                        (cnd, lambda s: self.getattr_class(s, l, o, c, b, name, default)),
                        (not_(cnd), lambda s: restrict(v, s.guard))])
            if v is not None:
                return v
            return self.getattr_class(st, l, o, c, b, name, default)
        if k == 'class':
            if l.a.odd and not name.startswith('__'):
                raise Unsupported('class made by ' + l.a.odd)
            if name in self.overridden:
                v = self.class_override(st, l.a, name)
                if v is not None:
                    return v
            c, b = l.a.lookup(name)
            if b is not None:
                if b.kind == 'classmethod':
                    return self.bound(l, b.value)
                if b.kind in ('static', 'method', 'property'):
                    return self.func_value(st, b.value)
                return self.binding(st, b)
            if name in ('__name__', '__qualname__'):
                return const(l.a.name)
            if name == '__module__':
                return const(l.a.module.name if l.a.module else 'builtins')
            if name == '__subclasses__':
                return self.bound(l, '__subclasses__')
            if name == '__mro__':
                return T.tup([self.classval(x) for x in l.a.mro()])
            if name == '__bases__':
                return T.tup([self.classval(x) for x in l.a.bases])
            if name == '__doc__':
                return NONE
            if l.a.builtin or any(x.builtin and x.name != 'object' for x in l.a.mro()) or name in ('__init__', '__new__', '__eq__'):
                base = next((x for x in l.a.mro() if x.builtin), l.a)
                return self.builtin('%s.%s' % (base.name, name))
            return self.attr_error(st, l, name, default)
        if k == 'module':
            if isinstance(l.a, Module):
                b = l.a.env.get(name)
                if b is None:
                    if name == '__name__':
                        return const(l.a.name)
                    return self.attr_error(st, l, name, default)
                return self.binding(st, b)
            return self.ext_value(l.a.name + '.' + name)
        if k == 'builtin':
            return self.ext_value(l.a.name + '.' + name)
        if k == 'super':
            return self.super_attr(st, l.a, name, default)
        if k == 'tup':
            if l.b is not None:
                for i, (fn, _) in enumerate(l.b.fields):
                    if fn == name:
                        return l.a[i]
                c, b = l.b.lookup(name)
                if b is not None:
                    if b.kind == 'property':
                        return self.call_func(st, b.value, [l], {})
                    if b.kind == 'method':
                        return self.bound(l, b.value)
                    return self.binding(st, b)
                if name == '__class__':
                    return self.classval(l.b)
                if name in ('_replace', '_asdict', '_fields', '_make'):
                    if name == '_fields':
                        return T.tup([const(f) for f, _ in l.b.fields])
                    return self.bound(l, 'namedtuple.' + name)
            return self.prim_attr(st, l, 'tuple', name, default)
        if k in ('num', 'inf', 'nan'):
            if name in ('real', 'imag'):
                if k != 'num':
                    return l if name == 'real' else num(0)
                return self.models.real_imag(self, l, name)
            return self.prim_attr(st, l, 'complex' if k == 'num' and l.a.has_I() else 'float', name, default)
        if k == 'const':
            if isinstance(l.a, str):
                return self.prim_attr(st, l, 'str', name, default)
            if isinstance(l.a, bool):
                return self.prim_attr(st, l, 'bool', name, default)
            if l is NONE:
                return self.attr_error(st, l, name, default)
        if k == 'func':
            if name in ('__name__', '__qualname__'):
                return const(l.a.name)
            return T.app('attr.' + name, (l,))
        if k == 'bound':
            if name == '__name__':
                return const(getattr(l.a.func, 'name', str(l.a.func)))
            if name == '__self__':
                return l.a.selfv
        if k == 'app':
            if l.a[2] == 'str' and hasattr(str, name):
                return self.prim_attr(st, l, 'str', name, default)
            if l.a[2] in ('any', 'str', 'obj'):
                return T.app('attr.' + name, (l,))
            if name in ('real', 'imag'):
                n = T.as_num_leaf(l)
                return self.models.real_imag(self, n, name)
        if k == 'err':
            return ERR
        return self.attr_error(st, l, name, default)

    def prim_attr(self, st, l, ty, name, default):
        c = self.bcls(ty)
        if name == '__class__':
            return self.classval(c)
        if name == '__len__' and ty == 'tuple':
            return self.bound(l, 'tuple.__len__')
        if hasattr(_PYTYPES[ty], name):
            return self.bound(l, ty + '.' + name)
        return self.attr_error(st, l, name, default)

    def attr_error(self, st, l, name, default):
        if default is not None:
            return default
        self.raise_named(st, 'AttributeError', '%s has no attribute %s' % (T.show(l, 2), name))

    def class_override(self, st, cls, name):
        """value assigned to a class attribute at run time, or None"""
        for k in cls.mro():
            o = st.heap.get('class:%s:%d' % (k.name, id(k)))
            if o is not None and name in o.fields:
                v = restrict(o.fields[name], st.guard)
                if v is UNBOUND:
                    continue
                if type(v) is Node and any(x is UNBOUND for x in T.leafset(v)):
                    c, b = cls.lookup(name)
                    if b is None:
                        return None
                    base = self.binding(st, b)
                    isun = lift(lambda x: TRUE if x is UNBOUND else FALSE, [v], {})
                    return restrict(ite(isun, base, v), st.guard)
                return v
            if name in k.ns:
                return None
        return None

    def getattr_class(self, st, l, o, c, b, name, default):
        if name in self.overridden:
            v = self.class_override(st, o.cls, name)
            if v is not None:
                return v
        if b is not None:
            if b.kind == 'method':
                fv = self.func_value(st, b.value)
                if fv.kind == 'func' and fv.a is b.value:
                    return self.bound(l, b.value)
                return T.pyobj('partial', Partial(fv, [l], {}))
            if b.kind == 'static':
                return self.func_value(st, b.value)
            if b.kind == 'classmethod':
                return self.bound(self.classval(o.cls), b.value)
            return self.binding(st, b)
        if name == '__class__':
            return self.classval(o.cls)
        if name == '__dict__':
            return self.new(st, self.bcls('dict'),
                            entries=tuple((TRUE, const(k), v) for k, v in o.fields.items()), extra=('dictof', l.a))
        if name == '__doc__':
            return NONE
        if name in ('appendleft', 'popleft') and o.cls.name == 'list':
            return self.bound(l, 'list.' + name)
        for base in o.cls.mro():
            if base.builtin and base.name in _PYTYPES and hasattr(_PYTYPES[base.name], name):
                return self.bound(l, base.name + '.' + name)
            if base.builtin and base.name in self.models.OBJ_ATTRS and name in self.models.OBJ_ATTRS[base.name]:
                return self.bound(l, base.name + '.' + name)
        if o.extra == 'opaque':
            return T.app('attr.' + name, (l,))
        if o.extra == 'ndarray':
            return self.models.array_attr(self, st, l, name)
        gc, gb = o.cls.lookup('__getattr__')
        if gb is not None and not gc.builtin:
            return self.call_func(st, gb.value, [l, const(name)], {})
        return self.attr_error(st, l, name, default)

    def super_attr(self, st, s, name, default=None):
        selfv = s.selfv
        cls = selfv.a if selfv.kind == 'class' else self.obj(st, selfv).cls if selfv.kind == 'ref' else selfv.b
        mro = cls.mro()
        i = mro.index(s.cls) if s.cls in mro else -1
        for c in mro[i + 1:]:
            if name in c.ns:
                b = c.ns[name]
                if b.kind == 'property':
                    return self.call_func(st, b.value, [selfv], {})
                if b.kind == 'method':
                    fv = self.func_value(st, b.value)
                    if fv.kind == 'func' and fv.a is b.value:
                        return self.bound(selfv, b.value)
                    return T.pyobj('partial', Partial(fv, [selfv], {}))
                if b.kind == 'static':
                    return self.func_value(st, b.value)
                if b.kind == 'classmethod':
                    return self.bound(selfv if selfv.kind == 'class' else self.classval(cls), b.value)
                return self.binding(st, b)
            if c.builtin and c.name in _PYTYPES and hasattr(_PYTYPES[c.name], name) and (c.name != 'object' or True):
                return self.bound(selfv, c.name + '.' + name)
        return self.attr_error(st, selfv, name, default)

    def setattr(self, st, v, name, val):
        def one(s, l):
            if l.kind == 'ref':
                o = self.heapget(s, l.a)
                c, b = o.cls.lookup(name)
                if b is not None and b.kind == 'property':
                    if b.extra is None:
                        self.raise_named(s, 'AttributeError', "can't set attribute " + name)
                    self.call_func(s, b.extra, [l, val], {})
                    return NONE
                c, b = o.cls.lookup('__setattr__')
                if b is not None and not c.builtin:
                    self.call_func(s, b.value, [l, const(name), val], {})
                    return NONE
                o = self.write(s, l)
                o.fields[name] = val
                return NONE
            if l.kind == 'class':
                k = 'class:%s:%d' % (l.a.name, id(l.a))
                o = s.heap.get(k)
                o = Obj(self.bcls('object'), {}) if o is None else o.copy()
                o.fields[name] = val
                s.heap[k] = o
                self.overridden.add(name)
                return NONE
            if l.kind in ('module', 'builtin', 'app'):
                self.effect(s, 'setattr:' + name, [l, val])
                return NONE
            self.raise_named(s, 'AttributeError', 'cannot set ' + name)
        self.split(st, v, one)

    def effect(self, st, name, args):
        ev = T.app('effect:' + name, [self.freeze(st, a) for a in args])
        st.effects = st.effects + ((TRUE, ev),)
        return ev

    def freeze(self, st, v, depth=4, seen=()):
        """structural (heap-free) term of a value"""
        def f(l):
            if l.kind == 'tup':
                return T.tup([self.freeze(st, x, depth, seen) for x in l.a], l.b)
            if l.kind != 'ref':
                return l
            if l.a in seen or depth == 0:
                return T.app('obj:' + st.heap[l.a].cls.name, ())
            o = self.heapget(st, l.a)
            sn = seen + (l.a,)
            parts = []
            if o.items is not None:
                parts.append(T.tup([T.tup([g, self.freeze(st, x, depth - 1, sn)]) for g, x in o.items]))
            if o.entries is not None:
                parts.append(T.tup([T.tup([g, k, self.freeze(st, x, depth - 1, sn)]) for g, k, x in o.entries]))
            for k in sorted(o.fields):
                parts.append(T.tup([const(k), self.freeze(st, o.fields[k], depth - 1, sn)]))
            return T.tup([const('obj:' + o.cls.name)] + parts)
        if type(v) is Leaf:
            return f(v)
        return lift(f, [v], {})

    # ------------------------------------------------------------ calls
    def call_method(self, st, v, name, args, kwargs=None):
        def one(s, l):
            fv = self.getattr1(s, l, name)
            return self.call(s, fv, args, kwargs or {})
        return self.split(st, v, one)

    def call(self, st, fv, args, kwargs):
        return self.split(st, fv, lambda s, l: self.call1(s, l, args, kwargs))

    def call1(self, st, l, args, kwargs):
        k = l.kind
        if k == 'func':
            return self.call_func(st, l.a, args, kwargs)
        if k == 'bound':
            b = l.a
            if isinstance(b.func, FuncInfo):
                return self.call_func(st, b.func, [b.selfv] + list(args), kwargs)
            return self.models.call_bound(self, st, b.selfv, b.func, list(args), kwargs)
        if k == 'partial':
            kw = dict(l.a.kwargs)
            kw.update(kwargs)
            return self.call(st, l.a.fn, list(l.a.args) + list(args), kw)
        if k == 'class':
            return self.instantiate(st, l.a, args, kwargs)
        if k == 'builtin':
            return self.models.call_builtin(self, st, l.a.name, list(args), kwargs)
        if k == 'ref':
            o = self.heapget(st, l.a)
            c, b = o.cls.lookup('__call__')
            if b is not None:
                return self.call_func(st, b.value, [l] + list(args), kwargs)
            self.raise_named(st, 'TypeError', 'object not callable')
        if k == 'app':
            return self.models.opaque_call(self, st, 'call', [l] + list(args), kwargs)
        if k == 'err':
            return ERR
        self.raise_named(st, 'TypeError', 'not callable: ' + T.show(l, 2))

    def instantiate(self, st, c, args, kwargs):
        if c.builtin:
            return self.models.construct(self, st, c, list(args), kwargs)
        if c.odd:
            raise Unsupported('class made by ' + c.odd)
        if c.fields is not None:
            names = [f for f, _ in c.fields]
            vals = dict(zip(names, args))
            if len(args) > len(names):
                self.raise_named(st, 'TypeError', 'too many arguments')
            for k, v in kwargs.items():
                if k not in names or k in vals:
                    self.raise_named(st, 'TypeError', 'bad argument ' + k)
                vals[k] = v
            out = []
            for f, d in c.fields:
                if f in vals:
                    out.append(vals[f])
                elif d is not None:
                    out.append(self.eval_in_module(st, Binding('expr', d, c.module)))
                else:
                    self.raise_named(st, 'TypeError', 'missing argument ' + f)
            return T.tup(out, c)
        _, nb = c.lookup('__new__')
        if nb is not None and not nb.cls.builtin and not getattr(self, '_in_new', None) is c:
            r = self.call_func(st, nb.value, [self.classval(c)] + list(args), kwargs)

            def init(s, l):
                if l.kind == 'ref' and self.heapget(s, l.a).cls.issub(c):
                    _, b = c.lookup('__init__')
                    if b is not None and not b.cls.builtin:
                        self.call_func(s, b.value, [l] + list(args), kwargs)
                return l
            return self.split(st, r, init)
        base = next((x for x in c.mro() if x.builtin and x.name != 'object'), None)
        fields, items, entries = {}, None, None
        if base is not None:
            if base.name in ('dict', 'set'):
                entries = ()
            elif base.name == 'list':
                items = ()
            elif any(x.name == 'BaseException' for x in base.mro()):
                fields['args'] = T.tup(args)
        v = self.new(st, c, fields, items, entries)
        key = (c.name, '__init__')
        cc, b = c.lookup('__init__')
        if b is not None and not cc.builtin:
            self.call_func(st, b.value, [v] + list(args), kwargs)
        elif any(x.data is not None for x in c.mro()):
            self.dataclass_init(st, c, v, args, kwargs)
        elif (args or kwargs) and base is None:
            self.raise_named(st, 'TypeError', c.name + '() takes no arguments')
        return v

    def dataclass_fields(self, c):
        out = {}
        for x in reversed(c.mro()):
            for f, d in x.data or ():
                out[f] = (d, x)
        return out

    def dataclass_init(self, st, c, v, args, kwargs):
        fs = self.dataclass_fields(c)
        vals = dict(zip(fs, args))
        if len(args) > len(fs):
            self.raise_named(st, 'TypeError', 'too many arguments')
        for k, x in kwargs.items():
            if k not in fs or k in vals:
                self.raise_named(st, 'TypeError', 'bad argument ' + k)
            vals[k] = x
        for f, (d, x) in fs.items():
            if f not in vals:
                if isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] == 'field':
                    kw = {k.arg: k.value for k in d.keywords}
                    if 'default' in kw:
                        d = kw['default']
                    elif 'default_factory' in kw:
                        vals[f] = self.call(st, self.eval_in_module(st, Binding('expr', kw['default_factory'], x.module)), [], {})
                        continue
                    else:
                        d = None
                if d is None:
                    self.raise_named(st, 'TypeError', 'missing argument ' + f)
                vals[f] = self.eval_in_module(st, Binding('expr', d, x.module))
        for f in fs:
            self.write(st, v).fields[f] = vals[f]
        _, b = c.lookup('__post_init__')
        if b is not None:
            self.call_func(st, b.value, [v], {})

    def call_func(self, st, f, args, kwargs):
        if f.cls is not None and (f.cls.name, f.name) in self.stubs:
            return self.stubs[(f.cls.name, f.name)](self, st, args[0] if args else None, list(args[1:]), kwargs)
        if len(self.frames) > MAXDEPTH:
            raise Unsupported('call depth exceeded in ' + f.qual)
        if not f.name.startswith('<'):
            self.called[f.qual] = f.loc
        node = f.node
        a = node.args
        if f.closure is not None and f.closure not in st.heap:
            e = f.closure
            while e is not None:
                o = self.heapget(st, e)
                e = o.extra
        fields = {}
        self.bind(st, f, a, args, kwargs, fields)
        env = self.new(st, self.bcls('object'), fields, extra=f.closure).a
        fr = Frame(f, env)
        if isinstance(node, ast.Lambda):
            self.frames.append(fr)
            try:
                return self.eval(node.body, st)
            finally:
                self.frames.pop()
        for n in self.func_locals(f):
            fields.setdefault(n, UNBOUND)
        if f.is_gen:
            fr.yields = self.newlist(st, [])
        self.frames.append(fr)
        try:
            self.exec_block(node.body, st)
        finally:
            self.frames.pop()
        rets = fr.returns
        if st.guard is not FALSE:
            rets = rets + [(State(st.guard, st.heap, st.effects), NONE)]
        rets = [(s, v) for s, v in rets if s.guard is not FALSE]
        if not rets:
            st.guard = FALSE
            raise Dead()
        m, v = rets[0]
        for s, w in rets[1:]:
            g = or_(m.guard, s.guard)
            v = merge_vals(m.guard, v, s.guard, w, g)
            m = merge2(m, s)
        st.become(m)
        if f.is_gen:
            o = self.obj(st, fr.yields)
            return self.new(st, self.bcls('object'), {'pos': num(0)}, items=o.items, extra='iterator')
        return v

    def func_locals(self, f):
        if f.locals is None:
            names = set()
            glob = set()
            st = list(f.node.body)
            while st:
                n = st.pop()
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
                    continue
                if isinstance(n, ast.Lambda):
                    continue
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    # targets are local to the comprehension; walrus leaks
                    for w in ast.walk(n):
                        if isinstance(w, ast.NamedExpr):
                            names.add(w.target.id)
                    continue
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob.update(n.names)
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        names.add((al.asname or al.name).split('.')[0])
                if isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
                st.extend(ast.iter_child_nodes(n))
            f.locals = sorted(names - glob - {'*'})
        return f.locals

    def bind(self, st, f, a, args, kwargs, fields):
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        args = list(args)
        kwargs = dict(kwargs)
        n = len(pos)
        if len(args) > n:
            if a.vararg is None:
                self.raise_named(st, 'TypeError', '%s() takes %d positional arguments but %d were given' % (f.qual, n, len(args)))
            fields[a.vararg.arg] = T.tup(args[n:])
        elif a.vararg is not None:
            fields[a.vararg.arg] = T.tup([])
        for p, v in zip(pos, args):
            fields[p] = v
        if f not in self.defaults:
            self.eval_defaults(st, f, a)
        dl, dk = self.defaults[f]
        extra = []
        for k, v in kwargs.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in fields:
                    self.raise_named(st, 'TypeError', 'multiple values for ' + k)
                fields[k] = v
            else:
                extra.append((k, v))
        if extra:
            if a.kwarg is None:
                self.raise_named(st, 'TypeError', '%s() got an unexpected keyword argument %s' % (f.qual, extra[0][0]))
        if a.kwarg is not None:
            fields[a.kwarg.arg] = self.newdict(st, [(const(k), v) for k, v in extra])
        nd = len(dl)
        for i, p in enumerate(pos):
            if p not in fields:
                j = i - (n - nd)
                if j < 0:
                    self.raise_named(st, 'TypeError', '%s() missing argument %s' % (f.qual, p))
                fields[p] = dl[j]
        for x in a.kwonlyargs:
            if x.arg not in fields:
                if x.arg not in dk:
                    self.raise_named(st, 'TypeError', 'missing argument ' + x.arg)
                fields[x.arg] = dk[x.arg]

    def eval_defaults(self, st, f, a):
        env = f.closure
        if env is None:
            env = self.new(st, self.bcls('object'), {}).a
        fr = Frame(FuncInfo('<defaults>', ast.parse('lambda: 0', mode='eval').body, f.module), env)
        self.frames.append(fr)
        try:
            dl = [self.eval(d, st) for d in a.defaults]
            dk = {x.arg: self.eval(d, st) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        finally:
            self.frames.pop()
        self.defaults[f] = (dl, dk)
        for v in list(dl) + list(dk.values()):
            self._share(st, v)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st.guard is FALSE:
                return
            try:
                self.exec_stmt(s, st)
            except Dead:
                st.guard = FALSE
                return
            except T.TypeErr as e:
                raise Unsupported('numeric operation on %s at %s:%d' % (
                    T.show(e.args[0], 3) if e.args else '?', self.frames[-1].func.module.relpath, s.lineno))
            except Unsupported as e:
                if not getattr(e, 'located', False):
                    e.located = True
                    e.args = ('%s [at %s:%d in %s]' % (e.args[0], self.frames[-1].func.module.relpath, s.lineno,
                                                       self.frames[-1].func.qual),)
                raise

    def exec_stmt(self, s, st):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        m(s, st)

    def mark(self, s, st, what):
        f = self.frames[-1].func
        self.trace.append((st.guard, f.module.relpath, s.lineno, f.qual, what))

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st)

    def x_Pass(self, s, st):
        pass

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)

    def x_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup_name(st, t.id)
            v = self.augop(st, s.op, old, self.eval(s.value, st))
            self.assign(t, v, st)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            old = self.getattr(st, b, t.attr)
            v = self.augop(st, s.op, old, self.eval(s.value, st))
            self.setattr(st, b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            i = self.eval_index(t.slice, st)
            old = self.subscript(st, b, i)
            v = self.augop(st, s.op, old, self.eval(s.value, st))
            self.setitem(st, b, i, v)
        else:
            raise Unsupported('augmented target')

    def augop(self, st, op, a, b):
        def one(s, l):
            if l.kind == 'ref':
                o = self.heapget(s, l.a)
                if o.items is not None and isinstance(op, ast.Add) and o.cls.issub(self.bcls('list')):
                    self.models.list_extend(self, s, l, b)
                    return l
                nm = '__i%s__' % _OPNAME[type(op)]
                c, bb = o.cls.lookup(nm)
                if bb is not None:
                    return self.call_func(s, bb.value, [l, b], {})
            return self.binop(s, op, l, b)
        if any(l.kind == 'ref' for l in T.leafset(a)):
            return self.split(st, a, one)
        return self.binop(st, op, a, b)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            f = self.frames[-1]
            if t.id in f.globals_:
                env = self.modenv.get(f.func.module.name)
                if env is None:
                    raise Unsupported('global assignment')
            else:
                env = f.nonlocals.get(t.id, f.env)
            o = st.heap[env].copy()
            o.fields[t.id] = v
            st.heap[env] = o
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            self.setattr(st, b, t.attr, v)
            self.mark(t, st, 'set .' + t.attr)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            i = self.eval_index(t.slice, st)
            self.setitem(st, b, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Unsupported('assignment target')

    def unpack(self, t, v, st):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]

        def one(s, l):
            if l.kind == 'app':
                return T.tup([T.app('item', (l, num(i))) for i in range(n)])
            its = self.iterate(s, l)

            def done(s2, flags):
                vals = [x for (g, x), fl in zip(its, flags) if fl]
                if star:
                    i = star[0]
                    k = n - 1
                    if len(vals) < k:
                        self.raise_named(s2, 'ValueError', 'not enough values to unpack')
                    tail = n - 1 - i
                    mid = vals[i:len(vals) - tail]
                    return T.tup(vals[:i] + [self.newlist(s2, mid)] + vals[len(vals) - tail:])
                if len(vals) != n:
                    self.raise_named(s2, 'ValueError', 'unpack %d values into %d' % (len(vals), n))
                return T.tup(vals)
            return self.resolve_guards(s, [g for g, _ in its], done)
        if type(v) is Leaf and v.kind == 'tup' and len(v.a) == n and not star:
            r = v
        else:
            r = self.split(st, v, one)
        if not (type(r) is Leaf and r.kind == 'tup'):
            raise Unsupported('unpack')
        for e, x in zip(t.elts, r.a):
            self.assign(e, x, st)

    def x_Return(self, s, st):
        v = NONE if s.value is None else self.eval(s.value, st)
        f = self.frames[-1]
        self.mark(s, st, 'return')
        f.returns.append((State(st.guard, st.heap, st.effects), v))
        st.guard = FALSE
        raise Dead()

    def x_Raise(self, s, st):
        if s.exc is None:
            cur = getattr(self, 'current_exc', None)
            if cur is None:
                self.raise_named(st, 'RuntimeError', 'no active exception')
            self.raise_exc(st, cur)
        v = self.eval(s.exc, st)

        def one(s2, l):
            if l.kind == 'class' and any(c.name == 'BaseException' for c in l.a.mro()):
                l = self.instantiate(s2, l.a, [], {})
            if l.kind == 'ref' and any(c.name == 'BaseException' for c in self.obj(s2, l).cls.mro()):
                self.mark(s, s2, 'raise')
                self.raise_exc(s2, l)
            if l.kind == 'app':
                self.raise_exc(s2, self.mkexc(s2, 'Exception', l))
            self.mark(s, s2, 'raise of a non-exception')
            self.raise_named(s2, 'TypeError', 'exceptions must derive from BaseException')
        self.split(st, v, one)

    def x_Assert(self, s, st):
        c = self.truth(st, self.eval(s.test, st))
        self.raise_if(st, not_(c), 'AssertionError', '')

    def x_Global(self, s, st):
        self.frames[-1].globals_.update(s.names)

    def x_Nonlocal(self, s, st):
        f = self.frames[-1]
        for n in s.names:
            env = st.heap[f.env].extra
            while env is not None:
                o = self.heapget(st, env)
                if n in o.fields:
                    f.nonlocals[n] = env
                    break
                env = o.extra

    def importable(self, st, name):
        c = self.missing.get(name.split('.')[0], FALSE)
        if c is not FALSE:
            self.raise_if(st, c, 'ModuleNotFoundError', name)
            st.guard = and_(st.guard, not_(c))
            if st.guard is FALSE:
                raise Dead()

    def x_Import(self, s, st):
        for a in s.names:
            self.importable(st, a.name)
            mod = self.P.load(a.name)
            if a.asname:
                self._bindname(st, a.asname, T.pyobj('module', mod))
            else:
                top = a.name.split('.')[0]
                self._bindname(st, top, T.pyobj('module', self.P.modules.get(top) or self.ext_module(top)))

    def ext_module(self, name):
        self._exts = getattr(self, '_exts', {})
        if name not in self._exts:
            self._exts[name] = External(name)
        return self._exts[name]

    def _bindname(self, st, name, v):
        env = self.frames[-1].env
        o = st.heap[env].copy()
        o.fields[name] = v
        st.heap[env] = o

    def x_ImportFrom(self, s, st):
        if s.module and not s.level:
            self.importable(st, s.module)
        env = {}
        self.P._importfrom(self.frames[-1].func.module, s, env)
        for k, b in env.items():
            self._bindname(st, k, self.binding(st, b))

    def x_FunctionDef(self, s, st):
        f = FuncInfo(s.name, s, self.frames[-1].func.module, None, closure=self.frames[-1].env)
        v = T.pyobj('func', f)
        self.keep = getattr(self, 'keep', [])
        self.keep.append(f)
        for d in reversed(s.decorator_list):
            if ast.unparse(d).split('(')[0].split('.')[-1] in ('wraps', 'lru_cache', 'cache'):
                continue
            v = self.call(st, self.eval(d, st), [v], {})
        self._bindname(st, s.name, v)

    def x_ClassDef(self, s, st):
        raise Unsupported('local class')

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self._bindname(st, t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                i = self.eval_index(t.slice, st)
                self.models.delitem(self, st, b, i)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)

                def one(s2, l):
                    if l.kind == 'ref':
                        o = self.write(s2, l)
                        o.fields[t.attr] = UNBOUND
                    return NONE
                self.split(st, b, one)

    def x_If(self, s, st):
        c = restrict(self.truth(st, self.eval(s.test, st)), st.guard)
        g1 = and_(st.guard, c)
        g0 = and_(st.guard, not_(c))
        if g0 is FALSE:
            return self.exec_block(s.body, st)
        if g1 is FALSE:
            return self.exec_block(s.orelse, st)
        s1 = st.fork(g1)
        s0 = st.fork(g0)
        self.exec_block(s.body, s1)
        self.exec_block(s.orelse, s0)
        m = merge_states([s1, s0])
        if m is None:
            st.guard = FALSE
            return
        st.become(m)

    def x_Match(self, s, st):
        subj = self.eval(s.subject, st)
        done = []
        for case in s.cases:
            if st.guard is FALSE:
                break
            c, binds = self.match_pattern(case.pattern, subj, st)
            g = and_(st.guard, c)
            if g is FALSE:
                continue
            s1 = st.fork(g)
            for n, v in binds:
                self._bindname(s1, n, v)
            if case.guard is not None:
                cc = self.truth(s1, self.eval(case.guard, s1))
                g2 = and_(g, cc)
                if g2 is FALSE:
                    continue
                s1.guard = g2
                c = and_(c, cc)
            st.guard = and_(st.guard, not_(c))
            self.exec_block(case.body, s1)
            done.append(s1)
        m = merge_states(done + [State(st.guard, st.heap, st.effects)])
        if m is None:
            st.guard = FALSE
            return
        st.become(m)

    def match_pattern(self, p, subj, st):
        if isinstance(p, ast.MatchValue):
            return self.truth(st, self.compare1(st, ast.Eq(), subj, self.eval(p.value, st))), []
        if isinstance(p, ast.MatchSingleton):
            return self.truth(st, self.compare1(st, ast.Is(), subj, const(p.value))), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, subj)] if p.name else [])
            c, b = self.match_pattern(p.pattern, subj, st)
            return c, b + [(p.name, subj)]
        if isinstance(p, ast.MatchOr):
            c = FALSE
            for q in p.patterns:
                cc, b = self.match_pattern(q, subj, st)
                c = or_(c, cc)
            return c, []
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(st, self.models.call_builtin(self, st, 'isinstance', [subj, self.eval(p.cls, st)], {})), []
        if isinstance(p, ast.MatchClass) and not p.patterns:
            c = self.truth(st, self.models.call_builtin(self, st, 'isinstance', [subj, self.eval(p.cls, st)], {}))
            if c is not TRUE:
                raise Unsupported('match pattern')
            b = []
            for nm, q in zip(p.kwd_attrs, p.kwd_patterns):
                cc, bb = self.match_pattern(q, self.getattr(st, subj, nm), st)
                c, b = and_(c, cc), b + bb
            return c, b
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns) and type(subj) is Leaf \
                and (subj.kind == 'tup' or subj.kind == 'ref' and self.heapget(st, subj.a).cls.name == 'list'):
            xs = list(self.iterate(st, subj))
            if all(g is TRUE for g, _ in xs):
                if len(xs) != len(p.patterns):
                    return FALSE, []
                c, b = TRUE, []
                for q, (_, x) in zip(p.patterns, xs):
                    cc, bb = self.match_pattern(q, x, st)
                    c, b = and_(c, cc), b + bb
                return c, b
        raise Unsupported('match pattern')

    def x_For(self, s, st):
        it = self.eval(s.iter, st)
        ctx = LoopCtx()
        f = self.frames[-1]

        def body(st2, v):
            # returns the list of states continuing with the next iteration
            try:
                self.assign(s.target, v, st2)
            except Dead:
                st2.guard = FALSE
                return
            f.loops.append(ctx)
            ctx.continues = []
            self.exec_block(s.body, st2)
            f.loops.pop()
            m = merge_states([State(st2.guard, st2.heap, st2.effects)] + ctx.continues)
            ctx.continues = []
            if m is None:
                st2.guard = FALSE
            else:
                st2.become(m)

        try:
            self.for_each(st, it, body)
        except Dead:
            st.guard = FALSE
        if s.orelse and st.guard is not FALSE:
            self.exec_block(s.orelse, st)
        m = merge_states([State(st.guard, st.heap, st.effects)] + ctx.breaks)
        if m is None:
            st.guard = FALSE
            return
        st.become(m)

    def for_each(self, st, it, body):
        """run body(st, value) over the iterable; body may kill the state"""
        ls = leaves(it, st.guard)
        if len(ls) > 1:
            outs = []
            for g, l in ls:
                s2 = st.fork(g)
                try:
                    self.for_each(s2, l, body)
                except Dead:
                    continue
                outs.append(s2)
            m = merge_states(outs)
            if m is None:
                st.guard = FALSE
            else:
                st.become(m)
            return
        l = ls[0][1]
        if l.kind == 'ref':
            o = self.heapget(st, l.a)
            if o.items is not None and o.cls.name == 'list' and o.extra != 'iterator':
                # live list iteration
                i = 0
                while st.guard is not FALSE:
                    items = self.obj(st, l).items
                    if i >= len(items):
                        break
                    g, v = items[i]
                    g = restrict(g, st.guard)
                    self._guarded_body(st, g, v, body)
                    i += 1
                    if i > 20000:
                        raise Unsupported('loop too long')
                return
            if o.extra == 'iterator':
                while st.guard is not FALSE:
                    o = self.obj(st, l)
                    ls2 = leaves(o.fields['pos'], st.guard)
                    if len(ls2) > 1:
                        raise Unsupported('iterator position is data dependent')
                    p = int(ls2[0][1].a.const())
                    if p >= len(o.items):
                        break
                    g, v = o.items[p]
                    w = self.write(st, l)
                    w.fields['pos'] = num(p + 1)
                    self._guarded_body(st, restrict(g, st.guard), v, body)
                return
            c, b = o.cls.lookup('__iter__')
            if b is not None and not c.builtin:
                itv = self.call_method(st, l, '__iter__', [])
                if itv is l or any(x.kind == 'ref' and self._has_next(st, x) for x in T.leafset(itv)):
                    n = 0
                    exits = []
                    while st.guard is not FALSE:
                        self.handlers.append([])
                        try:
                            v = self.call_method(st, itv, '__next__', [])
                        except Dead:
                            st.guard = FALSE
                            v = None
                        hs = self.handlers.pop()
                        for s2, e in hs:
                            ec = {self.obj(s2, x).cls.name for x in T.leafset(e)}
                            if ec == {'StopIteration'}:
                                exits.append(s2)
                            else:
                                self.handlers[-1].append((s2, e))
                        if v is not None and st.guard is not FALSE:
                            body(st, v)
                        n += 1
                        if n > MAXLOOP * 10:
                            raise Unsupported('iterator protocol does not terminate')
                    m = merge_states(exits + [State(st.guard, st.heap, st.effects)])
                    if m is None:
                        st.guard = FALSE
                    else:
                        st.become(m)
                    return
                return self.for_each(st, itv, body)
            c, b = o.cls.lookup('__getitem__')
            if b is not None and not c.builtin and o.items is None and o.entries is None:
                raise Unsupported('sequence protocol iteration')
        for g, v in self.iterate(st, l):
            if st.guard is FALSE:
                break
            self._guarded_body(st, restrict(g, st.guard), v, body)

    def _has_next(self, st, x):
        o = self.heapget(st, x.a)
        c, b = o.cls.lookup('__next__')
        return b is not None and not c.builtin

    def _guarded_body(self, st, g, v, body):
        if g is TRUE:
            body(st, v)
            return
        g1 = and_(st.guard, g)
        g0 = and_(st.guard, not_(g))
        if g1 is FALSE:
            return
        if g0 is FALSE:
            body(st, v)
            return
        s1 = st.fork(g1)
        body(s1, v)
        s0 = st.fork(g0)
        m = merge_states([s1, s0])
        st.become(m)

    def x_While(self, s, st):
        ctx = LoopCtx()
        f = self.frames[-1]
        exits = []
        n = 0
        dead_in = None
        while st.guard is not FALSE:
            try:
                c = self.truth(st, self.eval(s.test, st))
            except Dead:
                st.guard = FALSE
                break
            c = restrict(c, st.guard)
            g0 = and_(st.guard, not_(c))
            if g0 is not FALSE:
                exits.append(st.fork(g0))
                st.guard = and_(st.guard, c)
                if st.guard is FALSE:
                    break
            before = dict(st.heap)
            gb = st.guard
            f.loops.append(ctx)
            ctx.continues = []
            self.exec_block(s.body, st)
            f.loops.pop()
            m = merge_states([State(st.guard, st.heap, st.effects)] + ctx.continues)
            ctx.continues = []
            if m is None:
                st.guard = FALSE
            else:
                st.become(m)
            n += 1
            if self.widen and st.guard is not FALSE and (exits or ctx.breaks) and self._symbolic_carry(s, before, st, f):
                exits.append(self.last_iteration(s, before, st, f, ctx))
                break
            if st.guard is not FALSE and (ctx.breaks or exits):
                # generic last iteration: nothing but dead locals is carried over
                if self._no_carry(s, before, st, f):
                    st.guard = FALSE
                    break
            if n > MAXLOOP or (n > 24 and exits and not _concrete(st.guard)):
                r = self.models.loop_fallback(self, s, st)
                raise Unsupported('while loop without a static bound')
        if s.orelse:
            m = merge_states(exits)
            exits = []
            if m is not None:
                self.exec_block(s.orelse, m)
                exits = [m]
        m = merge_states(exits + ctx.breaks)
        if m is None:
            st.guard = FALSE
            return
        st.become(m)

    def _symbolic_carry(self, s, before, st, f):
        b, o = before.get(f.env), st.heap.get(f.env)
        if b is None or b is o:
            return False
        first = _first_use(s, f.func.node)
        r = False
        for k, v in o.fields.items():
            if b.fields.get(k) is not v and first.get(k) != 'store':
                if type(v) is not Node and v.kind == 'num' and v.a.is_const():
                    return False        # something is counted
                if type(v) is Node and any(l.kind not in ('num', 'inf') and l is not TRUE and l is not FALSE for l in T.leafset(v)):
                    return False
                if type(v) is Leaf and v.kind != 'num' and v is not TRUE and v is not FALSE:
                    return False
                if type(v) is Node or v.kind == 'num':
                    r = True
        return r

    def last_iteration(self, s, before, st, f, ctx):
        """the last iteration of a loop without static bound, from any values of the locals that it carries over"""
        first = _first_use(s, f.func.node)
        for oid, o in st.heap.items():
            b = before.get(oid)
            if b is None or b is o:
                continue
            if oid != f.env:
                for k, v in o.fields.items():
                    if b.fields.get(k) is not v and k not in ('_lastRayToBeTraced', '_lastRayTrace'):
                        raise Unsupported('while loop that modifies objects')
                if b.items is not o.items or b.entries is not o.entries:
                    raise Unsupported('while loop that modifies objects')
        stored = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        env = self.heapget(st, f.env).copy()
        for k in sorted(stored):
            v = env.fields.get(k)
            if v is None or first.get(k) == 'store':
                continue
            ls = T.leafset(v)
            self.counter['widen'] = self.counter.get('widen', 0) + 1
            nm = 'loop%d_%s' % (self.counter['widen'], k)
            if all(l is TRUE or l is FALSE for l in ls):
                env.fields[k] = T.truth_atom(T.app(nm, (), 'bool'))
            elif all(l.kind == 'num' for l in ls):
                env.fields[k] = T.var(nm)
            else:
                raise Unsupported('while loop that carries over other values than numbers')
        st.heap[f.env] = env
        early = _stale_exit(s)
        for last in ((False, True) if early else (True,)):
            c = restrict(self.truth(st, self.eval(s.test, st)), st.guard)
            st.guard = and_(st.guard, c)
            nb, nr = len(ctx.breaks), len(f.returns)
            f.loops.append(ctx)
            ctx.continues = []
            self.exec_block(s.body, st)
            f.loops.pop()
            m = merge_states([State(st.guard, st.heap, st.effects)] + ctx.continues)
            ctx.continues = []
            if not last:
                # locals that the body sets have no value of this loop before it
                del ctx.breaks[nb:]
                del f.returns[nr:]
            if m is None:
                st.guard = FALSE
                return State(FALSE, st.heap, st.effects)
            st.become(m)
        c = restrict(self.truth(st, self.eval(s.test, st)), st.guard)
        q = st.fork(and_(st.guard, not_(c)))
        st.guard = FALSE
        return q

    def _no_carry(self, s, before, st, f):
        first = _first_use(s, f.func.node)
        for oid, o in st.heap.items():
            b = before.get(oid)
            if b is None or b is o:
                continue
            if oid != f.env:
                return False
            for k, v in o.fields.items():
                if b.fields.get(k) is not v and first.get(k) != 'store':
                    return False
        return True

    def x_Break(self, s, st):
        self.frames[-1].loops[-1].breaks.append(State(st.guard, st.heap, st.effects))
        st.guard = FALSE
        raise Dead()

    def x_Continue(self, s, st):
        self.frames[-1].loops[-1].continues.append(State(st.guard, st.heap, st.effects))
        st.guard = FALSE
        raise Dead()

    def x_With(self, s, st):
        it = s.items[0]
        body = s.body
        if len(s.items) > 1:
            rest = ast.copy_location(ast.With(s.items[1:], s.body), s)
            body = [rest]
        ce = it.context_expr
        if isinstance(ce, ast.Call) and isinstance(ce.func, (ast.Name, ast.Attribute)):
            fn = self.eval(ce.func, st)
            if fn.kind == 'builtin' and fn.a.name == 'contextlib.suppress':
                h = ast.ExceptHandler(ast.Tuple(ce.args, ast.Load()), None, [ast.copy_location(ast.Pass(), s)])
                t = ast.Try(body, [h], [], [])
                for n in (h, h.type, t):
                    ast.copy_location(n, s)
                return self.x_Try(t, st)
        v = self.eval(ce, st)
        for l in T.leafset(v):
            if l.kind == 'app' and str(l.a[0]).startswith('contextlib.'):
                raise Unsupported('with ' + str(l.a[0]))
        e = self.models.enter(self, st, v)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, e, st)
        if not any(l.kind == 'ref' for l in T.leafset(v)):
            return self.exec_block(body, st)
        f = self.frames[-1]
        nret = len(f.returns)
        loop = f.loops[-1] if f.loops else None
        nb = len(loop.breaks) if loop else 0
        nc = len(loop.continues) if loop else 0
        self.handlers.append([])
        try:
            self.exec_block(body, st)
        except Dead:
            st.guard = FALSE
        finally:
            raised = self.handlers.pop()
        outs = [State(st.guard, st.heap, st.effects)]
        if st.guard is not FALSE:
            self.models.exit_(self, outs[0], v)
        for s2, exc in raised:
            c = self.models.exit_(self, s2, v, exc)
            if s2.guard is FALSE:
                continue
            if c is not FALSE:
                q = s2.fork(and_(s2.guard, c))
                outs.append(q)
                s2.guard = and_(s2.guard, not_(c))
            if s2.guard is not FALSE:
                self.handlers[-1].append((s2, exc))
        for lst, k in ([(f.returns, nret)] + ([(loop.breaks, nb), (loop.continues, nc)] if loop else [])):
            for i in range(k, len(lst)):
                s2 = lst[i][0] if isinstance(lst[i], tuple) else lst[i]
                self.models.exit_(self, s2, v)
        m = merge_states(outs)
        if m is None:
            st.guard = FALSE
            raise Dead()
        st.become(m)

    def x_Try(self, s, st):
        f = self.frames[-1]
        self.handlers.append([])
        self.try_depth = getattr(self, 'try_depth', 0) + (1 if s.handlers else 0)
        nret = len(f.returns)
        loop = f.loops[-1] if f.loops else None
        nb = len(loop.breaks) if loop else 0
        nc = len(loop.continues) if loop else 0
        try:
            self.exec_block(s.body, st)
        finally:
            raised = self.handlers.pop()
            self.try_depth -= (1 if s.handlers else 0)
        if s.finalbody:
            self.handlers.append([])
        if st.guard is not FALSE and s.orelse:
            self.exec_block(s.orelse, st)
        outs = [State(st.guard, st.heap, st.effects)]
        for s2, e in raised:
            self.handle(s, s2, e, outs)
        if s.finalbody:
            pend = self.handlers.pop()
            for s2, e in pend:
                self.exec_block(s.finalbody, s2)
                if s2.guard is not FALSE:
                    self.handlers[-1].append((s2, e))
            for lst, k in ([(f.returns, nret)] + ([(loop.breaks, nb), (loop.continues, nc)] if loop else [])):
                for i in range(k, len(lst)):
                    s2 = lst[i][0] if isinstance(lst[i], tuple) else lst[i]
                    self.exec_block(s.finalbody, s2)
        m = merge_states(outs)
        if m is None:
            st.guard = FALSE
            return
        st.become(m)
        if s.finalbody:
            self.exec_block(s.finalbody, st)

    x_TryStar = x_Try

    def handle(self, s, s2, e, outs):
        for g, l in leaves(e, s2.guard):
            q = s2.fork(and_(s2.guard, g))
            cls = self.obj(q, l).cls
            for h in s.handlers:
                ok = True
                if h.type is not None:
                    t = self.eval(h.type, q)
                    cl = [x.a for x in (t.a if t.kind == 'tup' else [t]) if x.kind == 'class']
                    unknown = [x for x in (t.a if t.kind == 'tup' else [t]) if x.kind != 'class']
                    ok = any(cls.issub(c) for c in cl)
                    if not ok and unknown and cls.name in ('OpaqueError',):
                        ok = True
                if ok:
                    if h.name:
                        self._bindname(q, h.name, l)
                    old = getattr(self, 'current_exc', None)
                    self.current_exc = l
                    self.exec_block(h.body, q)
                    self.current_exc = old
                    outs.append(q)
                    break
            else:
                self.handlers[-1].append((q, l))

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        if isinstance(e.value, float) and not (e.value != e.value or abs(e.value) == float('inf')):
            return num(Fraction(repr(e.value)))
        return const(e.value)

    def e_Name(self, e, st):
        return self.lookup_name(st, e.id, e)

    def e_Attribute(self, e, st):
        return self.getattr(st, self.eval(e.value, st), e.attr)

    def e_Tuple(self, e, st):
        return T.tup(self.eval_elts(e.elts, st))

    def e_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            items = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    items.extend(self.iterate(st, self.eval(x.value, st)))
                else:
                    items.append((TRUE, self.eval(x, st)))
            return self.newlist_items(st, items)
        return self.newlist(st, [self.eval(x, st) for x in e.elts])

    def eval_elts(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                for g, v in self.iterate(st, self.eval(x.value, st)):
                    if restrict(g, st.guard) is not TRUE:
                        raise Unsupported('starred element of unknown length')
                    out.append(v)
            else:
                out.append(self.eval(x, st))
        return out

    def e_Set(self, e, st):
        vals = self.eval_elts(e.elts, st)
        ent = []
        for v in vals:
            if not any(k is v for _, k, _ in ent):
                ent.append((TRUE, v, NONE))
        return self.new(st, self.bcls('set'), entries=tuple(ent))

    def e_Dict(self, e, st):
        v = self.newdict(st, [])
        for k, x in zip(e.keys, e.values):
            if k is None:
                self.models.dict_update(self, st, v, self.eval(x, st))
            else:
                self.setitem(st, v, self.eval(k, st), self.eval(x, st))
        return v

    def e_Starred(self, e, st):
        raise Unsupported('starred')

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, st)
                spec = ''
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec, st)
                    spec = sp.a if type(sp) is Leaf and sp.kind == 'const' else '?'
                parts.append(self.models.fmt(self, st, x, spec, v.conversion))
        return self.models.concat(parts)

    def e_FormattedValue(self, e, st):
        return self.models.fmt(self, st, self.eval(e.value, st), '', e.conversion)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Lambda(self, e, st):
        f = FuncInfo('<lambda>', e, self.frames[-1].func.module, None, closure=self.frames[-1].env)
        self.keep = getattr(self, 'keep', [])
        self.keep.append(f)
        return T.pyobj('func', f)

    def e_IfExp(self, e, st):
        c = restrict(self.truth(st, self.eval(e.test, st)), st.guard)
        return self.fork_eval(st, [(c, lambda s: self.eval(e.body, s)), (not_(c), lambda s: self.eval(e.orelse, s))])

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def rec(s, i):
            v = self.eval(e.values[i], s)
            if i == len(e.values) - 1:
                return v
            t = restrict(self.truth(s, v), s.guard)
            stop = not_(t) if isand else t
            if and_(s.guard, not_(stop)) is FALSE:
                return v
            if and_(s.guard, stop) is FALSE:
                return rec(s, i + 1)
            if not any(isinstance(n, (ast.Call, ast.Attribute, ast.Subscript, ast.NamedExpr, ast.BinOp, ast.Compare))
                       for x in e.values[i + 1:] for n in ast.walk(x)):
                return ite(stop, v, rec(s, i + 1))
            return self.fork_eval(s, [(stop, lambda q: v), (not_(stop), lambda q: rec(q, i + 1))])
        return rec(st, 0)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(st, v))
        if isinstance(e.op, ast.USub):
            return self.numop(st, T.neg, [v], '__neg__')
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def numop(self, st, fn, vs, dunder):
        if all(_numeric(v) for v in vs):
            return fn(*vs)

        def one(s, ls):
            if ls[0].kind == 'ref' and len(ls) == 1:
                return self.call_method(s, ls[0], dunder, [])
            try:
                return fn(*ls)
            except T.TypeErr:
                self.raise_named(s, 'TypeError', 'bad operand')
        return self.split_all(st, vs, one)

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(st, e.op, a, b)

    def binop(self, st, op, a, b):
        if _numeric(a) and _numeric(b):
            r = self.num_binop(st, op, a, b)
            if r is not None:
                return r
        return self.split_all(st, [a, b], lambda s, ls: self.binop1(s, op, ls[0], ls[1]))

    def num_binop(self, st, op, a, b):
        if isinstance(op, ast.Add):
            return T.add(a, b)
        if isinstance(op, ast.Sub):
            return T.sub(a, b)
        if isinstance(op, ast.Mult):
            return T.mul(a, b)
        if isinstance(op, ast.Div):
            z = lift(lambda x: TRUE if (x.kind == 'const' and x.a is False) or (x.kind == 'num' and x.a.is_zero()) else FALSE, [b], {})
            if z is not FALSE:
                self.raise_if(st, z, 'ZeroDivisionError', 'division by zero')
                b = restrict(b, st.guard)
                a = restrict(a, st.guard)
            return T.div(a, b)
        if isinstance(op, ast.Pow):
            return self.models.power(self, st, a, b)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            return self.models.floordiv(self, st, a, b, isinstance(op, ast.Mod))
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if _boolean(a) and _boolean(b):
                if isinstance(op, ast.BitAnd):
                    return and_(a, b)
                if isinstance(op, ast.BitOr):
                    return or_(a, b)
                return ite(a, not_(b), b)
        return None

    def binop1(self, st, op, a, b):
        if a.kind == 'err' or b.kind == 'err':
            return ERR
        nm = _OPNAME[type(op)]
        if a.kind == 'ref' or b.kind == 'ref':
            r = self.obj_binop(st, op, nm, a, b)
            if r is not None:
                return r
        if a.kind == 'tup' and b.kind == 'tup' and isinstance(op, ast.Add):
            return T.tup(a.a + b.a)
        if isinstance(op, ast.Mult):
            x, y = (a, b) if a.kind == 'tup' or (a.kind == 'const' and isinstance(a.a, str)) else (b, a)
            if x.kind in ('tup', 'const') and y.kind == 'num' and y.a.is_const():
                if x.kind == 'tup':
                    return T.tup(x.a * int(y.a.const()))
                if isinstance(x.a, str):
                    return const(x.a * int(y.a.const()))
        sa = a.kind == 'const' and isinstance(a.a, str) or (a.kind == 'app' and a.a[2] == 'str')
        sb = b.kind == 'const' and isinstance(b.a, str) or (b.kind == 'app' and b.a[2] == 'str')
        if isinstance(op, ast.Add) and (sa or sb):
            if (sa and sb) or a.kind == 'app' or b.kind == 'app':
                return self.models.concat([a, b])
            self.raise_named(st, 'TypeError', 'str +')
        if isinstance(op, ast.Mod) and sa:
            return self.models.percent(self, st, a, b)
        na, nb = T.as_num_leaf(a), T.as_num_leaf(b)
        if na is not None and nb is not None:
            r = self.num_binop(st, op, na, nb)
            if r is not None:
                return r
        if a.kind == 'app' or b.kind == 'app':
            return T.app('op:' + nm, (a, b))
        self.raise_named(st, 'TypeError', 'unsupported operand types for %s' % nm)

    def obj_binop(self, st, op, nm, a, b):
        if a.kind == 'ref':
            o = self.heapget(st, a.a)
            c, f = o.cls.lookup('__%s__' % nm)
            if f is not None and not c.builtin:
                r = self.call_func(st, f.value, [a, b], {})
                if not any(l is T.NOTIMPL for l in T.leafset(r)):
                    return r
            if o.items is not None and o.cls.issub(self.bcls('list')):
                if isinstance(op, ast.Add) and b.kind == 'ref' and self.heapget(st, b.a).items is not None:
                    return self.newlist_items(st, o.items + self.heapget(st, b.a).items)
                if isinstance(op, ast.Mult) and b.kind == 'num' and b.a.is_const():
                    return self.newlist_items(st, o.items * int(b.a.const()))
                if isinstance(op, ast.Add):
                    self.raise_named(st, 'TypeError', 'can only concatenate list')
            if o.extra == 'ndarray':
                return self.models.array_op(self, st, op, a, b)
            if o.entries is not None and o.cls.name in ('set', 'dict', 'frozenset'):
                return self.models.set_op(self, st, op, a, b)
        if b.kind == 'ref':
            o = self.heapget(st, b.a)
            if o.extra == 'ndarray':
                return self.models.array_op(self, st, op, a, b)
            c, f = o.cls.lookup('__r%s__' % nm)
            if f is not None and not c.builtin:
                return self.call_func(st, f.value, [b, a], {})
        return None

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = None
        for op, rhs in zip(e.ops, e.comparators):
            if res is not None:
                if and_(st.guard, res) is FALSE:
                    return res
            right = self.eval(rhs, st)
            c = self.compare1(st, op, left, right)
            res = c if res is None else ite(res, c, FALSE)
            left = right
        return res

    def compare1(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            def same(x, y):
                if x.kind == 'app' and y.kind == 'app' and x is not y:
                    return T.eq_atom(x, y)
                if x.kind == 'app' or y.kind == 'app':
                    z = x if x.kind == 'app' else y
                    if z is not x or z is not y:
                        other = y if z is x else x
                        if other is NONE and z.a[2] == 'any':
                            return T.truth_atom(T.app('isNone', (z,), 'bool'))
                return const(x is y)
            r = lift(same, [a, b], {})
            return r if isinstance(op, ast.Is) else not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, a, b)
            return r if isinstance(op, ast.In) else not_(r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if _numeric(a) and _numeric(b):
                r = T.cmp_num('==', a, b)
            else:
                r = self.split_all(st, [a, b], lambda s, ls: self.eq1(s, ls[0], ls[1], isinstance(op, ast.NotEq)))
                if isinstance(op, ast.NotEq):
                    return r
            return r if isinstance(op, ast.Eq) else not_(r)
        o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
        if _numeric(a) and _numeric(b):
            try:
                return T.cmp_num(o, a, b)
            except T.TypeErr:
                pass

        def one(s, ls):
            x, y = ls
            if any(z.kind == 'ref' and self.heapget(s, z.a).extra == 'ndarray' for z in ls):
                return self.models.array_map(self, s, lambda s2, p, q: self.compare1(s2, op, p, q), x, y)
            nm = {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}[o]
            if x.kind == 'ref':
                c, f = self.heapget(s, x.a).cls.lookup('__%s__' % nm)
                if f is not None and not c.builtin:
                    return self.call_func(s, f.value, [x, y], {})
            if x.kind == 'tup' and y.kind == 'tup':
                return self.tuple_cmp(s, o, x.a, y.a)
            if x.kind == 'const' and y.kind == 'const' and isinstance(x.a, str) and isinstance(y.a, str):
                return const({'<': x.a < y.a, '<=': x.a <= y.a, '>': x.a > y.a, '>=': x.a >= y.a}[o])
            try:
                return T.cmp_num(o, x, y)
            except T.TypeErr:
                if x.kind == 'app' or y.kind == 'app':
                    return T.truth_atom(T.app('cmp' + o, (x, y), 'bool'))
                self.raise_named(s, 'TypeError', "'%s' not supported" % o)
        return self.split_all(st, [a, b], one)

    def tuple_cmp(self, st, o, xs, ys):
        if not xs or not ys:
            n, m = len(xs), len(ys)
            return const({'<': n < m, '<=': n <= m, '>': n > m, '>=': n >= m}[o])
        eq = self.truth(st, self.compare1(st, ast.Eq(), xs[0], ys[0]))
        strict = {'<': ast.Lt(), '<=': ast.Lt(), '>': ast.Gt(), '>=': ast.Gt()}[o]
        lt = self.compare1(st, strict, xs[0], ys[0])
        return ite(eq, self.tuple_cmp(st, o, xs[1:], ys[1:]), lt)

    def eq1(self, st, x, y, ne=False):
        """boolean of x==y (or x!=y when ne) for leaves"""
        r = self._eq1(st, x, y, ne)
        if isinstance(r, tuple):
            return r[0]
        return not_(r) if ne else r

    def _eq1(self, st, x, y, ne):
        if x.kind == 'ref' or y.kind == 'ref':
            for p, q in ((x, y), (y, x)):
                if p.kind == 'ref':
                    o = self.heapget(st, p.a)
                    if ne:
                        c, f = o.cls.lookup('__ne__')
                        if f is not None and not c.builtin:
                            return (self.truth(st, self.call_func(st, f.value, [p, q], {})),)
                    c, f = o.cls.lookup('__eq__')
                    if f is not None and not c.builtin:
                        r = self.call_func(st, f.value, [p, q], {})
                        if not any(l is T.NOTIMPL for l in T.leafset(r)):
                            return self.truth(st, r)
            if x is y:
                return TRUE
            if x.kind == 'ref' and y.kind == 'ref':
                a, b = self.heapget(st, x.a), self.heapget(st, y.a)
                if a.cls is b.cls and any(z.data is not None for z in a.cls.mro()):
                    r = TRUE
                    for f in self.dataclass_fields(a.cls):
                        r = and_(r, self.truth(st, self.compare1(st, ast.Eq(), a.fields[f], b.fields[f])))
                    return r
                if a.extra == 'ndarray' or b.extra == 'ndarray':
                    raise Unsupported('array comparison')
                if a.items is not None and b.items is not None and a.cls is b.cls and a.extra != 'iterator':
                    return self.seq_eq(st, a.items, b.items)
                if a.entries is not None and b.entries is not None:
                    return self.dict_eq(st, a.entries, b.entries)
            return FALSE
        if x.kind == 'tup' and y.kind == 'tup':
            if len(x.a) != len(y.a):
                return FALSE
            r = TRUE
            for p, q in zip(x.a, y.a):
                r = and_(r, self.truth(st, self.compare1(st, ast.Eq(), p, q)))
            return r
        if x is y:
            return const(x.kind != 'nan')
        nx, ny = T.as_num_leaf(x), T.as_num_leaf(y)
        if nx is not None and ny is not None and not (x.kind == 'app' and y.kind == 'app'):
            return T.cmp_num('==', nx, ny)
        if x.kind == 'app' or y.kind == 'app':
            if x.kind == 'app' and y.kind == 'app':
                return T.eq_atom(x, y)
            z, w = (x, y) if x.kind == 'app' else (y, x)
            if z.a[2] == 'str' and not (w.kind == 'const' and isinstance(w.a, str)):
                return FALSE
            if not self.models.could_equal(x, y):
                return FALSE
            return T.eq_atom(x, y)
        return FALSE

    def seq_eq(self, st, xs, ys):
        if all(g is TRUE for g, _ in xs) and all(g is TRUE for g, _ in ys):
            if len(xs) != len(ys):
                return FALSE
            r = TRUE
            for (_, p), (_, q) in zip(xs, ys):
                r = and_(r, self.truth(st, self.compare1(st, ast.Eq(), p, q)))
            return r

        def go(s, fl):
            a = [v for (g, v), f in zip(list(xs) + list(ys), fl) if f]
            na = sum(fl[:len(xs)])
            l, r = a[:na], a[na:]
            return self.seq_eq(s, [(TRUE, v) for v in l], [(TRUE, v) for v in r])
        return self.resolve_guards(st, [g for g, _ in xs] + [g for g, _ in ys], go)

    def dict_eq(self, st, xs, ys):
        xd = {k.id: (g, v) for g, k, v in xs}
        yd = {k.id: (g, v) for g, k, v in ys}
        r = TRUE
        for k in set(xd) | set(yd):
            gx, vx = xd.get(k, (FALSE, None))
            gy, vy = yd.get(k, (FALSE, None))
            if gx is FALSE or gy is FALSE:
                r = and_(r, not_(or_(gx, gy)))
            else:
                same = TRUE if vx is vy else self.truth(st, self.compare1(st, ast.Eq(), vx, vy))
                r = and_(r, or_(and_(and_(gx, gy), same), and_(not_(gx), not_(gy))))
        return r

    def contains(self, st, a, b):
        def one(s, ls):
            x, y = ls
            if y.kind == 'const' and isinstance(y.a, str):
                if x.kind == 'const' and isinstance(x.a, str):
                    return const(x.a in y.a)
                return T.truth_atom(T.app('in', (x, y), 'bool'))
            if y.kind == 'ref':
                o = self.heapget(s, y.a)
                c, f = o.cls.lookup('__contains__')
                if f is not None and not c.builtin:
                    return self.truth(s, self.call_func(s, f.value, [y, x], {}))
                if o.entries is not None:
                    r = FALSE
                    unk = False
                    for g, k, _ in o.entries:
                        if k is x:
                            return g
                        if k.kind == 'app' or x.kind == 'app' or k.kind == 'num':
                            r = or_(r, and_(g, self.truth(s, self.compare1(s, ast.Eq(), x, k))))
                    if o.extra == 'opaque':
                        return T.truth_atom(T.app('in', (x, y), 'bool'))
                    return r
            if y.kind == 'app':
                return T.truth_atom(T.app('in', (self.freeze(s, x), y), 'bool'))
            r = FALSE
            for g, v in self.iterate(s, y):
                if v is x:
                    r = or_(r, g)
                else:
                    r = or_(r, and_(g, self.truth(s, self.compare1(s, ast.Eq(), v, x))))
            return r
        return self.split_all(st, [a, b], one)

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        i = self.eval_index(e.slice, st)
        return self.subscript(st, b, i)

    def eval_index(self, sl, st):
        if isinstance(sl, ast.Slice):
            f = [NONE if x is None else self.eval(x, st) for x in (sl.lower, sl.upper, sl.step)]
            return self.new(st, self.bcls('slice'), {'start': f[0], 'stop': f[1], 'step': f[2]})
        return self.eval(sl, st)

    def subscript(self, st, b, i):
        return self.split_all(st, [b, i], lambda s, ls: self.models.getitem(self, s, ls[0], ls[1]))

    def setitem(self, st, b, i, v):
        self.split_all(st, [b, i], lambda s, ls: self.models.setitem(self, s, ls[0], ls[1], v) or NONE)

    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.make_super(e, st)
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'vars') and not e.args:
            raise Unsupported('locals()')
        fv = self.eval(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                for g, v in self.iterate(st, self.eval(a.value, st)):
                    if restrict(g, st.guard) is not TRUE:
                        raise Unsupported('*args of unknown length')
                    args.append(v)
            else:
                args.append(self.eval(a, st))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, st)
                for g, kk, v in self.obj(st, leaves(d, st.guard)[0][1]).entries:
                    if restrict(g, st.guard) is not TRUE:
                        raise Unsupported('**kwargs')
                    kw[kk.a] = v
            else:
                kw[k.arg] = self.eval(k.value, st)
        self.cur_call = (self.frames[-1].func, e)
        return self.call(st, fv, args, kw)

    def make_super(self, e, st):
        f = self.frames[-1].func
        fr = self.frames[-1]
        if e.args:
            c = self.eval(e.args[0], st)
            selfv = self.eval(e.args[1], st)
            if c.kind != 'class':
                raise Unsupported('super')
            cls = c.a
        else:
            cls = f.cls
            k = len(self.frames) - 1
            while cls is None and k > 0:
                k -= 1
                cls = self.frames[k].func.cls
            a0 = f.node.args.args[0].arg
            selfv = self.lookup_name(st, a0)
        ls = leaves(selfv, st.guard)
        if len(ls) != 1:
            raise Unsupported('super of several objects')
        key = ('super', id(cls), ls[0][1].id)
        self._supers = getattr(self, '_supers', {})
        if key not in self._supers:
            self._supers[key] = T.pyobj('super', SuperObj(cls, ls[0][1]))
        return self._supers[key]

    def comp(self, e, st, emit):
        env = self.new(st, self.bcls('object'), {}, extra=self.frames[-1].env).a
        outer = self.frames[-1]
        f = FuncInfo('<comp>', ast.parse('lambda: 0', mode='eval').body, outer.func.module, None, closure=outer.env)
        f.cls = None
        fr = Frame(f, env)
        fr.func.cls_outer = outer.func

        def rec(s, i):
            if i == len(e.generators):
                emit(s)
                return
            g = e.generators[i]
            if i == 0:
                self.frames.pop()
                try:
                    it = self.eval(g.iter, s)
                finally:
                    self.frames.append(fr)
            else:
                it = self.eval(g.iter, s)

            def body(s2, v):
                try:
                    self.assign(g.target, v, s2)
                    conds(s2, 0)
                except Dead:
                    s2.guard = FALSE

            def conds(s2, j):
                if j == len(g.ifs):
                    rec(s2, i + 1)
                    return
                c = restrict(self.truth(s2, self.eval(g.ifs[j], s2)), s2.guard)
                g1, g0 = and_(s2.guard, c), and_(s2.guard, not_(c))
                if g1 is FALSE:
                    return
                if g0 is FALSE:
                    return conds(s2, j + 1)
                a = s2.fork(g1)
                try:
                    conds(a, j + 1)
                except Dead:
                    a.guard = FALSE
                b = s2.fork(g0)
                m = merge_states([a, b])
                s2.become(m)
            self.for_each(s, it, body)
        self.frames.append(fr)
        try:
            rec(st, 0)
        finally:
            self.frames.pop()
        if st.guard is FALSE:
            raise Dead()

    def e_ListComp(self, e, st):
        out = self.newlist(st, [])

        def emit(s):
            v = self.eval(e.elt, s)
            o = self.write(s, out)
            o.items = o.items + ((TRUE, v),)
        self.comp(e, st, emit)
        return out

    def e_GeneratorExp(self, e, st):
        out = self.new(st, self.bcls('object'), {'pos': num(0)}, items=(), extra='iterator')

        def emit(s):
            v = self.eval(e.elt, s)
            o = self.write(s, out)
            o.items = o.items + ((TRUE, v),)
        self.comp(e, st, emit)
        return out

    def e_SetComp(self, e, st):
        out = self.new(st, self.bcls('set'), entries=())

        def emit(s):
            v = self.eval(e.elt, s)
            self.models.set_add(self, s, out, v)
        self.comp(e, st, emit)
        return out

    def e_DictComp(self, e, st):
        out = self.newdict(st, [])

        def emit(s):
            self.setitem(s, out, self.eval(e.key, s), self.eval(e.value, s))
        self.comp(e, st, emit)
        return out

    def e_Yield(self, e, st):
        v = NONE if e.value is None else self.eval(e.value, st)
        y = self.frames[-1].yields
        o = self.write(st, y)
        o.items = o.items + ((TRUE, v),)
        return NONE

    def e_YieldFrom(self, e, st):
        its = self.iterate(st, self.eval(e.value, st))
        y = self.frames[-1].yields
        o = self.write(st, y)
        o.items = o.items + tuple(its)
        return NONE

    # ------------------------------------------------------------ iteration (eager)
    def iterate(self, st, v):
        """[(guard, value)] of any iterable; consumes iterators"""
        ls = leaves(v, st.guard)
        if len(ls) > 1:
            out = []
            outs = []
            for g, l in ls:
                out.extend((and_(g, gg), x) for gg, x in self.iterate(st, l))
            return [(restrict(g, st.guard), x) for g, x in out]
        l = ls[0][1]
        k = l.kind
        if k == 'tup':
            return [(TRUE, x) for x in l.a]
        if k == 'const' and isinstance(l.a, str):
            return [(TRUE, const(c)) for c in l.a]
        if k == 'ref':
            o = self.heapget(st, l.a)
            if o.extra == 'iterator':
                p = o.fields['pos']
                ps = leaves(p, st.guard)
                if len(ps) > 1:
                    raise Unsupported('iterator position')
                p = int(ps[0][1].a.const())
                w = self.write(st, l)
                w.fields['pos'] = num(len(o.items))
                return list(o.items[p:])
            c, b = o.cls.lookup('__iter__')
            if b is not None and not c.builtin:
                acc = self.newlist(st, [])

                def body(s2, x):
                    w = self.write(s2, acc)
                    w.items = w.items + ((TRUE, x),)
                self.for_each(st, l, body)
                if st.guard is FALSE:
                    raise Dead()
                return list(self.obj(st, acc).items)
            if o.items is not None:
                return list(o.items)
            if o.entries is not None:
                return [(g, kk) for g, kk, _ in o.entries]
            c, b = o.cls.lookup('__getitem__')
            if b is not None and not c.builtin:
                raise Unsupported('sequence protocol iteration')
            self.raise_named(st, 'TypeError', 'object is not iterable')
        if k == 'app':
            raise Unsupported('iteration over an unknown value %s' % T.show(l, 3))
        self.raise_named(st, 'TypeError', 'not iterable: ' + T.show(l, 2))


class _NeedState(Exception):
    pass


_PYTYPES = {'list': list, 'dict': dict, 'tuple': tuple, 'str': str, 'set': set, 'int': int, 'float': float,
            'complex': complex, 'bool': bool, 'object': object, 'frozenset': frozenset, 'slice': slice}

_OPNAME = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Pow: 'pow', ast.Mod: 'mod',
           ast.FloorDiv: 'floordiv', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.LShift: 'lshift',
           ast.RShift: 'rshift', ast.MatMult: 'matmul'}

_nummemo = {}


def _numeric(v):
    if type(v) is Leaf:
        return v.kind in ('num', 'inf', 'nan', 'err') or (v.kind == 'const' and isinstance(v.a, bool))
    r = _nummemo.get(v.id)
    if r is None:
        r = all(_numeric(l) for l in T.leafset(v))
        _nummemo[v.id] = r
    return r


def _boolean(v):
    return all(l.kind == 'const' and isinstance(l.a, bool) for l in T.leafset(v))


def _concrete(g):
    return g is TRUE


_fumemo = {}


def _ends(b):
    return isinstance(b, list) and bool(b) and isinstance(b[-1], (ast.Break, ast.Continue, ast.Return, ast.Raise))


def _stale_exit(loop):
    """can the loop be left where a local that it always sets is not set yet in the same iteration"""
    first = _first_use(loop)
    set_at, exits = {}, []
    for b in loop.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and first.get(n.id) == 'store':
                p = (n.lineno, n.col_offset)
                set_at[n.id] = min(set_at.get(n.id, p), p)
            elif isinstance(n, (ast.Break, ast.Return)):
                exits.append(n)
    for e in exits:
        names = None if isinstance(e, ast.Break) else {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
        if any(p > (e.lineno, e.col_offset) and (names is None or k in names) for k, p in set_at.items()):
            return True
    return False


def _first_use(loop, fnode=None):
    """for each local name of the loop: 'store' when no value of an earlier iteration is read in the loop (or after it)"""
    if id(loop) in _fumemo:
        return _fumemo[id(loop)]
    first, stored = {}, set()

    def load(k, st):
        if k not in st:
            first[k] = 'load'

    def store(k, st):
        st.add(k)
        stored.add(k)

    def walk(n, st):
        if isinstance(n, ast.Assign):
            walk(n.value, st)
            for t in n.targets:
                walk(t, st)
        elif isinstance(n, ast.AugAssign):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    load(x.id, st)
                    stored.add(x.id)
            walk(n.value, st)
        elif isinstance(n, ast.NamedExpr):
            walk(n.value, st)
            store(n.target.id, st)
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                load(n.id, st)
            else:
                store(n.id, st)
        elif isinstance(n, (ast.If, ast.IfExp)):
            walk(n.test, st)
            a, b = set(st), set(st)
            for x in (n.body if isinstance(n, ast.If) else [n.body]):
                walk(x, a)
            for x in (n.orelse if isinstance(n, ast.If) else [n.orelse]):
                walk(x, b)
            st |= (b if _ends(n.body) else a if _ends(n.orelse) else a & b)
        elif isinstance(n, (ast.For, ast.While)):
            walk(n.iter if isinstance(n, ast.For) else n.test, st)
            a = set(st)
            if isinstance(n, ast.For):
                walk(n.target, a)
            for x in n.body:
                walk(x, a)
            for x in n.orelse:
                walk(x, set(st))
        elif isinstance(n, ast.BoolOp):
            walk(n.values[0], st)
            for x in n.values[1:]:
                walk(x, set(st))
        elif isinstance(n, (ast.Try, ast.Match)):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    load(x.id, st)
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    load(x.id, st)
                    stored.add(x.id)
        else:
            for c in ast.iter_child_nodes(n):
                walk(c, st)
    end = set()
    walk(loop.test, end)
    for s in loop.body:
        walk(s, end)
    outside = None
    for k in stored:
        if k in first or k in end:
            first.setdefault(k, 'store')
            continue
        if fnode is not None and outside is None:
            inside = {id(x) for x in ast.walk(loop)}
            outside = {x.id for x in ast.walk(fnode) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside}
        first[k] = 'load' if outside is None or k in outside else 'store'
    _fumemo[id(loop)] = first
    return first
