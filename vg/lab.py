"""Building blocks for the laws: symbolic objects, calls, obligations."""
import ast
import time
from fractions import Fraction

from . import terms as T
from . import refute as Q
from .interp import Interp, State, Frame, Dead, UNBOUND
from .program import FuncInfo, AnchorError
from .terms import TRUE, FALSE, NONE, INF, and_, or_, not_, restrict, lift, Leaf, Node, Unsupported


class Undecided(Exception):
    pass


class Obligation:
    __slots__ = ('law', 'label', 'status', 'entry', 'detail', 'used')

    def __init__(self, law, label, status, entry, detail=None, used=0):
        self.law, self.label, self.status, self.entry, self.detail, self.used = law, label, status, entry, detail, used


class Attempt:
    def __init__(self, value, guard, raised, before):
        self.value, self.guard, self.raised, self.before = value, guard, raised, before

    def raises(self, I, *classes):
        """guard under which an exception of one of the classes is raised"""
        r = FALSE
        for s, e in self.raised:
            if not classes or any(c.name in classes for c in s.heap[e.a].cls.mro()):
                r = or_(r, s.guard)
        return r


class Lab:
    def __init__(self, program, law='?', seed=1, tries=60):
        self.P = program
        self.I = Interp(program)
        self.st = State()
        self.law = law
        self.seed = seed
        self.tries = tries
        self.obs = []
        self.n = 0
        env = self.I.new(self.st, self.I.bcls('object'), {}).a
        self.I.frames.append(Frame(FuncInfo('<law>', ast.parse('lambda: 0', mode='eval').body, program.module('')), env))
        self.entry = None
        self.lenient = False

    def close(self):
        if not self.lenient:
            self.no_raise('raises nothing on valid input', self.I.handlers[0])

    # ------------------------------------------------------------ values
    def v(self, x):
        """python value -> term"""
        if isinstance(x, (Leaf, Node)):
            return x
        if isinstance(x, (list,)):
            return self.I.newlist(self.st, [self.v(y) for y in x])
        if isinstance(x, tuple):
            return T.tup([self.v(y) for y in x])
        return T.const(x)

    def var(self, name, sign=None, isint=False):
        return T.var(name, sign, isint)

    def sym(self, name):
        return T.app('in:' + name, (), 'sym')

    def cls(self, name):
        return self.I.classval(self.P.cls(name))

    def bcls(self, name):
        return self.I.classval(self.I.bcls(name))

    def fn(self, module, name):
        b = self.P.module(module).env.get(name)
        if b is None:
            raise AnchorError('%s.%s' % (module, name))
        return self.I.binding(self.st, b)

    def new(self, clsname, *args, **kw):
        c = self.P.cls(clsname)
        return self.I.call(self.st, self.I.classval(c), [self.v(a) for a in args], {k: self.v(x) for k, x in kw.items()})

    def call(self, v, meth, *args, **kw):
        self.note(v, meth)
        return self.I.call_method(self.st, v, meth, [self.v(a) for a in args], {k: self.v(x) for k, x in kw.items()})

    def apply(self, f, *args, **kw):
        return self.I.call(self.st, f, [self.v(a) for a in args], {k: self.v(x) for k, x in kw.items()})

    def get(self, v, name):
        self.note(v, name)
        return self.I.getattr(self.st, v, name)

    def set(self, v, name, x):
        self.I.setattr(self.st, v, name, self.v(x))

    def raw(self, v, name, default=None):
        """field as stored (no property)"""
        if type(v) is Leaf and v.kind == 'ref':
            return self.I.obj(self.st, v).fields.get(name, default)
        raise Unsupported('raw field of a gated reference')

    def mul(self, a, b):
        self.note(a, '__mul__')
        return self.I.binop(self.st, ast.Mult(), a, b)

    def add(self, a, b):
        return self.I.binop(self.st, ast.Add(), a, b)

    def op(self, o, a, b):
        return self.I.binop(self.st, {'+': ast.Add(), '-': ast.Sub(), '*': ast.Mult(), '/': ast.Div(), '%': ast.Mod(),
                                      '**': ast.Pow()}[o], self.v(a), self.v(b))

    def cmp(self, o, a, b):
        return self.I.truth(self.st, self.I.compare1(self.st, {'==': ast.Eq(), '<': ast.Lt(), '<=': ast.LtE(),
                                                              '>': ast.Gt(), '>=': ast.GtE(), '!=': ast.NotEq(),
                                                              'in': ast.In(), 'is': ast.Is()}[o],
                                                             self.v(a), self.v(b)))

    def idx(self, v, i):
        return self.I.subscript(self.st, v, self.v(i))

    def length(self, v):
        return self.I.models.BUILTINS['len'](self.I, self.st, [v], {})

    def seq(self, v):
        """elements of a list/tuple with decided length"""
        out = []

        def one(s, l):
            return l
        if type(v) is not Leaf:
            raise Unsupported('gated sequence')
        if v.kind == 'tup':
            return list(v.a)
        o = self.I.obj(self.st, v)
        if o.items is None:
            it = self.I.iterate(self.st, v)
            return [x for _, x in it]
        for g, x in o.items:
            g = restrict(g, self.st.guard)
            if g is FALSE:
                continue
            if g is not TRUE:
                raise Unsupported('gated list element')
            out.append(x)
        return out

    def builtin(self, name, *args, **kw):
        return self.I.models.BUILTINS[name](self.I, self.st, [self.v(a) for a in args], {k: self.v(x) for k, x in kw.items()})

    def seq_gated(self, v):
        """[(guard, element)] of anything that can be iterated"""
        return [(restrict(g, self.st.guard), x) for g, x in self.I.iterate(self.st, self.v(v))]

    def items(self, v):
        """[(guard, value)]"""
        o = self.I.obj(self.st, v)
        return [(restrict(g, self.st.guard), x) for g, x in o.items]

    def note(self, v, name):
        """remember the construct the law is looking at"""
        try:
            if type(v) is Leaf and v.kind == 'ref':
                c, b = self.I.obj(self.st, v).cls.lookup(name)
                if b is not None and isinstance(b.value, FuncInfo):
                    self.entry = '%s (%s)' % (b.value.qual, b.value.loc)
        except Exception:
            pass

    # ------------------------------------------------------------ control
    def assume(self, cond):
        self.st.guard = and_(self.st.guard, cond)
        if self.st.guard is FALSE:
            raise Undecided('assumption excludes every state')

    def fork(self):
        """a sibling abstract state (alternative history); use with .using(state)"""
        return self.st.fork(self.st.guard)

    def attempt(self, fn, *args, **kw):
        before = self.st.guard
        self.I.handlers.append([])
        depth = len(self.I.frames)
        try:
            v = fn(*args, **kw)
            g = self.st.guard
        except Dead:
            v, g = None, FALSE
            self.st.guard = FALSE
        finally:
            del self.I.frames[depth:]
            raised = self.I.handlers.pop()
        return Attempt(v, g, raised, before)

    def trial(self, fn, *args, **kw):
        """attempt on a forked state; the current state is unchanged"""
        s0 = self.st
        self.st = s0.fork(s0.guard)
        try:
            a = self.attempt(fn, *args, **kw)
            a.after = self.st
        finally:
            self.st = s0
        return a

    def in_state(self, st, fn, *args, **kw):
        s0 = self.st
        self.st = st
        try:
            return fn(*args, **kw)
        finally:
            self.st = s0

    def raises(self, label, a, classes, when=TRUE, only=True):
        """in trial a: an exception of `classes` is raised exactly (or: at least) when `when` holds"""
        cl = (classes,) if isinstance(classes, str) else tuple(classes)
        r = a.raises(self.I, *cl)
        g = self.st.guard
        self.st.guard = a.before
        try:
            if only:
                return self.eq(label, r, and_(a.before, when), TRUE)
            return self.eq(label, r, TRUE, when)
        finally:
            self.st.guard = g

    def quiet(self, label, a):
        """in trial a: nothing is raised"""
        return self.no_raise(label, a.raised)

    def no_raise(self, label, raised):
        if not raised:
            return self.ob(label, 'proved')
        res = 'proved'
        for s, e in raised:
            o = s.heap[e.a]
            nm = o.cls.name
            self.n += 1
            r = Q.decide(FALSE, TRUE, s.guard, seed=self.seed * 7919 + self.n, tries=self.tries)
            if r.status == 'refuted':
                d = self.explain(r, FALSE, TRUE)
                d['lhs'] = 'raises %s%s' % (nm, T.show(o.fields.get('args', NONE), 3)[:200])
                d['rhs'] = 'no exception'
                return self.ob(label, 'violated', d, r.used)
            if r.status == 'open':
                res = 'open'
        return self.ob(label, res)

    # ------------------------------------------------------------ observation
    def image(self, v, depth=6, skip=(), st=None, seen=None):
        """heap-free structural image of the object graph below v (aliasing kept)"""
        st = st or self.st
        seen = {} if seen is None else seen

        def f(l):
            if l.kind == 'tup':
                return T.tup([self.image(x, depth, skip, st, seen) for x in l.a], l.b)
            if l.kind != 'ref':
                return l
            if l.a in seen:
                return T.app('back', (T.num(seen[l.a]),), 'sym')
            seen[l.a] = len(seen)
            o = st.heap.get(l.a) or self.I.shared[l.a]
            parts = [T.const('obj:' + o.cls.name)]
            if o.items is not None:
                parts.append(T.tup([T.tup([g, self.image(x, depth, skip, st, seen)]) for g, x in o.items]))
            if o.entries is not None:
                parts.append(T.tup([T.tup([g, self.image(k, depth, skip, st, seen), self.image(x, depth, skip, st, seen)])
                                    for g, k, x in o.entries]))
            for k in sorted(o.fields):
                if k not in skip:
                    parts.append(T.tup([T.const(k), self.image(o.fields[k], depth, skip, st, seen)]))
            return T.tup(parts)
        if type(v) is Leaf:
            return f(v)
        return lift(f, [v], {})

    # ------------------------------------------------------------ obligations
    def ob(self, label, status, detail=None, used=0):
        self.obs.append(Obligation(self.law, label, status, self.entry, detail, used))
        return status

    def eq(self, label, x, y, when=TRUE, st=None, weak=False):
        x, y = self.v(x), self.v(y)
        g = and_((st or self.st).guard, when)
        if g is FALSE:
            return self.ob(label, 'vacuous')
        self.n += 1
        r = Q.decide(x, y, g, seed=self.seed * 7919 + self.n, tries=self.tries, allow_weak=weak)
        detail = None
        if r.status == 'refuted':
            detail = self.explain(r, x, y)
        return self.ob(label, 'violated' if r.status == 'refuted' else r.status, detail, r.used)

    def holds(self, label, cond, when=TRUE, weak=False):
        return self.eq(label, cond, TRUE, when, weak=weak)

    def never(self, label, cond, weak=False):
        """cond (a guard that already includes the path condition) is unsatisfiable"""
        if cond is FALSE:
            return self.ob(label, 'proved')
        self.n += 1
        r = Q.decide(FALSE, TRUE, cond, seed=self.seed * 7919 + self.n, tries=self.tries, allow_weak=weak)
        detail = self.explain(r, FALSE, cond) if r.status == 'refuted' else None
        return self.ob(label, 'violated' if r.status == 'refuted' else r.status, detail, r.used)

    def iff(self, label, a, b, when=TRUE, weak=False):
        return self.eq(label, a, b, when, weak=weak)

    def same_image(self, label, a, b, when=TRUE, weak=False):
        return self.eq(label, a, b, when, weak=weak)

    def fact(self, label, ok, detail=None):
        """a structural fact decided on the source"""
        return self.ob(label, 'proved' if ok else 'violated', detail)

    def explain(self, r, x, y):
        names = []
        from .rat import ATOMS
        for a, q in sorted(r.witness.items()):
            names.append('%s=%s' % (ATOMS.info[a].name, q if q.denominator < 10 ** 6 else float(q)))
        lines = []
        seen = set()
        try:
            for g, path, line, qual, what in self.I.trace:
                k = (path, line)
                if k in seen or what.startswith('set .') and '.__init__' in qual:
                    continue
                gv = r.val.eval(g)
                if gv[0] == 'c' and gv[2] is True:
                    seen.add(k)
                    lines.append('%s:%d %s (%s)' % (path, line, qual, what))
        except Q.Skip:
            pass
        return {'where': names, 'lhs': Q.showval(r.lhs)[:400], 'rhs': Q.showval(r.rhs)[:400],
                'lines': lines[-40:]}




def _files(L):
    from . import fsmodel
    return fsmodel.install(L.I, L.st)


Lab.files = _files


def _builtin_open(L, path, mode):
    return L.I.stubs['open'](L.I, L.st, None, [L.v(path), L.v(mode)], {})


Lab.builtin_open = _builtin_open


def _run(L, src, **kw):
    """analyse a client fragment (a function body that uses the names given) and return its value"""
    import textwrap
    args = ', '.join(kw)
    tree = ast.parse('def client(%s):\n%s' % (args, textwrap.indent(textwrap.dedent(src).strip(), '    ')))
    f = FuncInfo('client', tree.body[0], L.P.module(''))
    return L.I.call_func(L.st, f, [L.v(x) for x in kw.values()], {})


Lab.run = _run


def _system(L):
    """abstract files, clock, network, environment variables and warning filters"""
    from . import sysmodel
    L.files()
    sysmodel.install(L.I, L.st)


Lab.system = _system


def _import_package(L):
    from . import sysmodel
    return sysmodel.run_module(L.I, L.st, L.P.module(''))


Lab.import_package = _import_package


def _matplotlib(L):
    """abstract matplotlib: returns the list of the figures that will be created"""
    from . import mplmodel
    return mplmodel.install(L.I, L.st)


Lab.matplotlib = _matplotlib
