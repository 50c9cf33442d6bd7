"""Behaviour-preserving rewrites of the whole package, on which every check must stay quiet.

python3 tools/refactor.py NAME OUTDIR [REPO]   writes a copy of the repository, rewritten, to OUTDIR
python3 tools/refactor.py --list
"""
import ast
import copy
import os
import shutil
import sys

FNS = (ast.FunctionDef,)
SKIPFILES = ('__main__.py', 'lensViewer.py')


def name(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


def assign(i, v):
    return ast.Assign(targets=[name(i, ast.Store())], value=v)


def own(fn):
    """nodes of a function that are not inside a nested scope"""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def everything(fn):
    return list(ast.walk(fn))


def is_gen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))


def doc_split(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[:1], body[1:]
    return [], body


class Base(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def fresh(self, p='t'):
        self.k += 1
        return '_%s%d' % (p, self.k)


class Blocks(Base):
    """transformers of statement lists: override block(stmts, infn)"""
    def visit(self, n):
        self.generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                nb = self.block(b, n)
                setattr(n, f, nb)
        return n

    def block(self, b, parent):
        out = []
        for s in b:
            r = self.stmt(s, parent)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def stmt(self, s, parent):
        return s


class Rename(Base):
    """locals get other names"""
    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
        for a in (fn.args.vararg, fn.args.kwarg):
            if a:
                params.add(a.arg)
        banned = set()
        for n in everything(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                banned |= set(n.names)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
                banned.add(n.name)
                for a in getattr(getattr(n, 'args', None), 'args', []):
                    banned.add(a.arg)
            if isinstance(n, ast.Lambda):
                for a in n.args.args:
                    banned.add(a.arg)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    banned.add((a.asname or a.name).split('.')[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                banned.add(n.name)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'exec', 'eval', 'vars'):
                return fn
        stored = {n.id for n in own(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params - banned
        for n in everything(fn):
            if isinstance(n, ast.Name) and n.id in stored:
                n.id = 'v_' + n.id
        return fn


class ReturnVar(Blocks):
    def stmt(self, s, parent):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = self.fresh('result')
            return [assign(t, s.value), ast.Return(name(t))]
        return s


class FlipIf(Blocks):
    def stmt(self, s, parent):
        if isinstance(s, ast.If) and s.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        return s

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class EarlyReturn(Blocks):
    """if c: return A; rest  ->  if c: return A  else: rest"""
    def block(self, b, parent):
        if not isinstance(parent, FNS):
            return b
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b):
                return b[:i] + [ast.If(s.test, s.body, self.block(b[i + 1:], parent))]
        return b


class DropElse(Blocks):
    """if c: return A else: B -> if c: return A; B"""
    def stmt(self, s, parent):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
            return [ast.If(s.test, s.body, [])] + s.orelse
        return s


class ForWhile(Blocks):
    def stmt(self, s, parent):
        if isinstance(s, ast.For) and not s.orelse:
            it, i = self.fresh('items'), self.fresh('i')
            return [assign(it, ast.Call(name('list'), [s.iter], [])), assign(i, ast.Constant(0)),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name('len'), [name(it)], [])]),
                              [ast.Assign([s.target], ast.Subscript(name(it), name(i), ast.Load())),
                               ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))] + s.body, [])]
        return s


class ForIndex(Blocks):
    """for x in xs -> for i in range(len(list(xs)))"""
    def stmt(self, s, parent):
        if isinstance(s, ast.For) and not s.orelse:
            it, i = self.fresh('items'), self.fresh('i')
            return [assign(it, ast.Call(name('list'), [s.iter], [])),
                    ast.For(name(i, ast.Store()), ast.Call(name('range'), [ast.Call(name('len'), [name(it)], [])], []),
                            [ast.Assign([s.target], ast.Subscript(name(it), name(i), ast.Load()))] + s.body, [])]
        return s


class CompLoop(Blocks):
    """x = [e for a in b if c] -> a loop"""
    def stmt(self, s, parent):
        if not isinstance(s, (ast.Assign, ast.Return)) or not isinstance(s.value, ast.ListComp):
            return s
        c = s.value
        t = self.fresh('acc')
        body = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [c.elt], []))]
        names = set()
        for g in reversed(c.generators):
            for q in reversed(g.ifs):
                body = [ast.If(q, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
            names |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in names:
                    return ast.Name(id='_c_' + n.id, ctx=n.ctx)
                return n
        body = [R().visit(x) for x in body]
        s.value = name(t)
        return [assign(t, ast.List([], ast.Load()))] + body + [s]


class CompGen(Base):
    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(name('list'), [ast.GeneratorExp(n.elt, n.generators)], [])


class CompMap(Base):
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and isinstance(n.generators[0].target, ast.Name):
            g = n.generators[0]
            a = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
            it = g.iter
            for q in g.ifs:
                it = ast.Call(name('filter'), [ast.Lambda(a, q), it], [])
            return ast.Call(name('list'), [ast.Call(name('map'), [ast.Lambda(a, n.elt), it], [])], [])
        return n


class Extract(Base):
    """each method's body moves to a helper"""
    tail = False

    def visit_ClassDef(self, c):
        self.generic_visit(c)
        out = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and self.ok(f):
                out.extend(self.split(c, f))
            else:
                out.append(f)
        c.body = out
        return c

    def ok(self, f):
        if f.args.vararg or f.args.kwarg or f.args.kwonlyargs or is_gen(f):
            return False
        if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in f.decorator_list):
            return False
        if not f.args.args or f.args.args[0].arg != 'self':
            return False
        return True

    def split(self, c, f):
        doc, body = doc_split(f.body)
        if not body:
            return [f]
        h = '_%s_%s_%s' % (c.name.lower(), f.name.strip('_'), 'set' if any(
            isinstance(d, ast.Attribute) and d.attr == 'setter' for d in f.decorator_list) else 'impl')
        a = [x.arg for x in f.args.args]
        g = ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in a], None, [], [], None, []), body, [], None)
        f.body = doc + [ast.Return(ast.Call(ast.Attribute(name('self'), h, ast.Load()), [name(x) for x in a[1:]], []))]
        return [f, g]


class ExtractTail(Extract):
    """the last half of each straight-line method moves to a helper that takes the locals it needs"""
    def split(self, c, f):
        doc, body = doc_split(f.body)
        if len(body) < 3 or f.decorator_list:
            return [f]
        k = len(body) // 2
        head, tail = body[:k], body[k:]
        for s in head:
            for n in ast.walk(s):
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
                    return [f]
        for s in tail:
            for n in ast.walk(s):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    return [f]
        params = [x.arg for x in f.args.args]
        certain = []
        for s in head:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in certain:
                            certain.append(n.id)
        stored = {n.id for s in head for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        used = {n.id for s in tail for n in ast.walk(s) if isinstance(n, ast.Name)}
        if (stored - set(certain) - set(params)) & used:
            return [f]
        need = [x for x in params[1:] if x in used] + [x for x in certain if x in used and x not in params]
        h = '_%s_%s_rest' % (c.name.lower(), f.name.strip('_'))
        g = ast.FunctionDef(h, ast.arguments([], [ast.arg('self')] + [ast.arg(x) for x in need], None, [], [], None, []), tail, [], None)
        f.body = doc + head + [ast.Return(ast.Call(ast.Attribute(name('self'), h, ast.Load()), [name(x) for x in need], []))]
        return [f, g]


class Hoist(Blocks):
    """operands get names: y = a(b) + c -> t1 = a(b); t2 = c; y = t1 + t2"""
    def stmt(self, s, parent):
        if isinstance(parent, (ast.ClassDef, ast.Module)):
            return s
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.BinOp):
            pre = []
            v = s.value
            for f in ('left', 'right'):
                e = getattr(v, f)
                if not isinstance(e, (ast.Name, ast.Constant)):
                    t = self.fresh()
                    pre.append(assign(t, e))
                    setattr(v, f, name(t))
            # names are read later than the hoisted calls: harmless for locals
            return pre + [s]
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call) and not (
                isinstance(s.value.func, ast.Name) and s.value.func.id == 'super'):
            pre = []
            c = s.value
            if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                return s
            for i, a in enumerate(c.args):
                if not isinstance(a, (ast.Name, ast.Constant, ast.GeneratorExp)):
                    t = self.fresh()
                    pre.append(assign(t, a))
                    c.args[i] = name(t)
            for k in c.keywords:
                if not isinstance(k.value, (ast.Name, ast.Constant)):
                    t = self.fresh()
                    pre.append(assign(t, k.value))
                    k.value = name(t)
            return pre + [s]
        if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
            t = self.fresh('cond')
            pre = [assign(t, s.test)]
            s.test = name(t)
            return pre + [s]
        return s


class Compare(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1:
            return n
        o = n.ops[0]
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}.get(type(o))
        if sw:
            return ast.Compare(n.comparators[0], [sw()], [n.left])
        if isinstance(o, ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
        if isinstance(o, ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
        return n


class NestIf(Blocks):
    def stmt(self, s, parent):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            b = s.body
            for t in reversed(s.test.values):
                b = [ast.If(t, b, [])]
            return b[0]
        return s

    def visit_BoolOp(self, n):
        return n


class DeMorgan(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class IfExpStmt(Blocks):
    def stmt(self, s, parent):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
            v = s.value
            return ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            v = s.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return s


class StmtIfExp(Blocks):
    """if c: x = a else: x = b -> x = a if c else b"""
    def stmt(self, s, parent):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value is not None and b.value is not None:
                return ast.Return(ast.IfExp(s.test, a.value, b.value))
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) \
                    and len(a.targets) == len(b.targets) == 1:
                return ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))
        return s


class AugPlain(Base):
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op, n.value))
        return n


class Arith(Base):
    """the same formula, written otherwise"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(
                n.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        if isinstance(n.op, ast.Sub) and not isinstance(n.left, (ast.Set, ast.Call, ast.SetComp)) and not isinstance(n.right, (ast.Set, ast.Call)):
            # a - b -> -(b) + a only for plain numbers
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, (int, float)):
                return ast.BinOp(ast.UnaryOp(ast.USub(), n.right), ast.Add(), n.left)
        if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and n.right.value == 2:
            return ast.BinOp(n.left, ast.Mult(), ast.Constant(0.5))
        return n


class FString(Base):
    def visit_JoinedStr(self, n):
        fmt, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace('{', '{{').replace('}', '}}')
            else:
                spec = ''
                if v.format_spec is not None:
                    if not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        return n
                    spec = ':' + ''.join(x.value for x in v.format_spec.values)
                if v.conversion != -1:
                    spec = '!' + chr(v.conversion) + spec
                fmt += '{' + spec + '}'
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), args, [])


class IsInst(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and isinstance(n.args[1], ast.Name):
            return ast.Call(name('issubclass'), [ast.Call(name('type'), [n.args[0]], []), n.args[1]], [])
        return n


class SelfAlias(Base):
    """methods call their object `this`"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if not f.args.args or f.args.args[0].arg != 'self':
            return f
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super' and False for n in ast.walk(f)):
            return f
        f.args.args[0].arg = 'this'
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id == 'self':
                n.id = 'this'
        return f


class PropCall(Base):
    """@property def x -> def x; x = property(x)"""
    def visit_ClassDef(self, c):
        self.generic_visit(c)
        out = []
        for f in c.body:
            out.append(f)
            if isinstance(f, ast.FunctionDef) and len(f.decorator_list) == 1 and isinstance(f.decorator_list[0], ast.Name) \
                    and f.decorator_list[0].id == 'property':
                has_setter = any(isinstance(g, ast.FunctionDef) and g.name == f.name and g is not f for g in c.body)
                f.decorator_list = []
                out.append(assign(f.name, ast.Call(name('property'), [name(f.name)], [])))
        c.body = out
        return c


class Consts(Base):
    """numbers become module constants"""
    def visit_Module(self, m):
        self.vals = {}
        self.generic_visit(m)
        i = 0
        while i < len(m.body) and (isinstance(m.body[i], ast.ImportFrom) and m.body[i].module == '__future__' or
                                   isinstance(m.body[i], ast.Expr) and isinstance(m.body[i].value, ast.Constant)):
            i += 1
        m.body[i:i] = [assign(n, ast.Constant(v)) for v, n in self.vals.items()]
        return m

    def visit_FunctionDef(self, f):
        for i, s in enumerate(f.body):
            f.body[i] = self.visit(s)
        return f

    def visit_JoinedStr(self, n):
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, float) and not isinstance(n.value, bool):
            return name(self.vals.setdefault(n.value, '_CONST_%d' % len(self.vals)))
        return n


class Reorder(Blocks):
    """neighbouring assignments of names and plain attributes from names and constants change places"""
    def block(self, b, parent):
        out = list(b)
        i = 0
        while i + 1 < len(out):
            p, q = out[i], out[i + 1]
            if self.plain(p) and self.plain(q) and not self.touch(p, q):
                out[i], out[i + 1] = q, p
                i += 2
            else:
                i += 1
        return out

    def plain(self, s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) \
            and all(isinstance(n, (ast.Name, ast.Constant, ast.Load, ast.Store, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop,
                                   ast.List, ast.Tuple, ast.Dict, ast.Attribute)) for n in ast.walk(s)) \
            and (isinstance(s.targets[0], ast.Name) or isinstance(s.targets[0].value, ast.Name)) \
            and not any(isinstance(n, ast.Attribute) for n in ast.walk(s.value))

    def touch(self, p, q):
        def key(t):
            return t.id if isinstance(t, ast.Name) else (t.value.id, t.attr)
        if key(p.targets[0]) == key(q.targets[0]):
            return True
        for a, b in ((p, q), (q, p)):
            t = a.targets[0]
            if isinstance(t, ast.Name) and any(isinstance(n, ast.Name) and n.id == t.id for n in ast.walk(b)):
                return True
            if isinstance(t, ast.Attribute) and any(isinstance(n, ast.Attribute) and n is not b.targets[0] for n in ast.walk(b)):
                return True
        # setters may read what the other sets: leave validated properties alone
        return any(isinstance(x.targets[0], ast.Attribute) and x.targets[0].attr in ('frontIndex',) for x in (p, q))


class KwCalls(Base):
    """keyword arguments are given in the opposite order"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if len(n.keywords) > 1 and all(k.arg for k in n.keywords) and all(
                isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.Load, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop))
                for k in n.keywords for x in ast.walk(k.value)):
            n.keywords = n.keywords[::-1]
        return n


class Tuples(Blocks):
    """a = x; b = y (locals from names) -> a, b = x, y"""
    def block(self, b, parent):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if i + 1 < len(b) and not isinstance(parent, (ast.ClassDef, ast.Module)) and self.simple(s) and self.simple(b[i + 1]):
                t = b[i + 1]
                d = ast.dump(s.targets[0]).replace('Store', 'Load')
                if s.targets[0].attr != t.targets[0].attr if isinstance(s.targets[0], ast.Attribute) and isinstance(t.targets[0], ast.Attribute) \
                        else True:
                    if not any(ast.dump(n) == d for n in ast.walk(t.value)) and not (
                            isinstance(s.targets[0], ast.Attribute) and any(isinstance(n, (ast.Attribute, ast.Call)) for n in ast.walk(t.value))):
                        if not (isinstance(s.targets[0], ast.Name) and any(isinstance(n, ast.Name) and n.id == s.targets[0].id for n in ast.walk(t))):
                            out.append(ast.Assign([ast.Tuple([s.targets[0], t.targets[0]], ast.Store())],
                                                  ast.Tuple([s.value, t.value], ast.Load())))
                            i += 2
                            continue
            out.append(s)
            i += 1
        return out

    def simple(self, s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and (isinstance(s.targets[0], ast.Name) or (
            isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name)))


class Untuple(Blocks):
    def stmt(self, s, parent):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) \
                and len(s.value.elts) == len(s.targets[0].elts):
            ts = [self.fresh() for _ in s.value.elts]
            return [assign(t, v) for t, v in zip(ts, s.value.elts)] + [ast.Assign([x], name(t)) for t, x in zip(ts, s.targets[0].elts)]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple):
            t = self.fresh()
            if all(not isinstance(x, ast.Starred) for x in s.targets[0].elts):
                return [assign(t, ast.Call(name('tuple'), [s.value], []))] + [
                    ast.Assign([x], ast.Subscript(name(t), ast.Constant(i), ast.Load())) for i, x in enumerate(s.targets[0].elts)]
        return s


class SumLoop(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        # len(x) == 0 -> not len(x)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value == 0 \
                and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == 'len':
            return ast.UnaryOp(ast.Not(), n.left)
        return n


class TryWrap(Base):
    """bodies run inside try/finally"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if is_gen(f):
            return f
        doc, body = doc_split(f.body)
        if body and not any(isinstance(n, ast.Nonlocal) for n in ast.walk(f)):
            f.body = doc + [ast.Try(body, [], [], [ast.Pass()])]
        return f


class Nested(Base):
    """bodies move to a local function"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if is_gen(f) or any(isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(f)):
            return f
        doc, body = doc_split(f.body)
        stored = {n.id for n in own(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        params = {a.arg for a in f.args.args + f.args.kwonlyargs}
        if stored & params or not body:
            return f
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals') for n in ast.walk(f)):
            return f
        f.body = doc + [ast.FunctionDef('_body', ast.arguments([], [], None, [], [], None, []), body, [], None),
                        ast.Return(ast.Call(name('_body'), [], []))]
        return f


class WhileBreak(Blocks):
    """while c: B -> while True: if not c: break; B"""
    def stmt(self, s, parent):
        if isinstance(s, ast.While) and not s.orelse and not (isinstance(s.test, ast.Constant)):
            return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body, [])
        return s


class AppendPlus(Base):
    """local lists: x.append(e) -> x += [e]"""
    def visit_Expr(self, n):
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, ast.Name) \
                and len(c.args) == 1 and c.func.value.id in ALISTS:
            return ast.AugAssign(ast.Name(c.func.value.id, ast.Store()), ast.Add(), ast.List([c.args[0]], ast.Load()))
        return n

    def visit_FunctionDef(self, f):
        global ALISTS
        ALISTS = {t.id for n in own(f) if isinstance(n, ast.Assign) and isinstance(n.value, ast.List) for t in n.targets if isinstance(t, ast.Name)}
        self.generic_visit(f)
        return f


class FirstLast(Base):
    """x[-1] -> x[len(x) - 1] on names and attributes"""
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.slice, ast.UnaryOp) and isinstance(n.slice.op, ast.USub) and isinstance(n.slice.operand, ast.Constant) and n.slice.operand.value == 1 \
                and isinstance(n.value, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            n.slice = ast.BinOp(ast.Call(name('len'), [copy.deepcopy(n.value)], []), ast.Sub(), ast.Constant(1))
        return n


class Walrus(Blocks):
    """t = e; if t...: -> if (t := e)..."""
    def block(self, b, parent):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if i + 1 < len(b) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                    and isinstance(b[i + 1], ast.If) and isinstance(b[i + 1].test, ast.Compare) and isinstance(b[i + 1].test.left, ast.Name) \
                    and b[i + 1].test.left.id == s.targets[0].id and not isinstance(parent, (ast.ClassDef, ast.Module)):
                b[i + 1].test.left = ast.NamedExpr(name(s.targets[0].id, ast.Store()), s.value)
                out.append(b[i + 1])
                i += 2
                continue
            out.append(s)
            i += 1
        return out


ALL = {c.__name__: c for c in list(globals().values()) if isinstance(c, type) and issubclass(c, Base) and c not in (Base, Blocks)}


def rewrite(src, cls):
    t = ast.parse(src)
    t = cls().visit(t)
    ast.fix_missing_locations(t)
    return ast.unparse(t) + '\n'


def main():
    if sys.argv[1] == '--list':
        print(' '.join(ALL))
        return
    names, out = sys.argv[1].split('+'), sys.argv[2]
    repo = sys.argv[3] if len(sys.argv) > 3 else '/repo'
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(repo, out, symlinks=True)
    n = 0
    for f in sorted(os.listdir(out + '/raytracing')):
        if f.endswith('.py') and f not in SKIPFILES:
            p = out + '/raytracing/' + f
            src = open(p, encoding='utf-8').read()
            new = src
            for nm in names:
                new = rewrite(new, ALL[nm])
            if new != src:
                n += 1
                open(p, 'w', encoding='utf-8').write(new)
    print('%s: %d files rewritten' % ('+'.join(names), n))


if __name__ == '__main__':
    main()
