"""Do the names, attributes, arguments and exceptions of a package exist?  A flow-insensitive analysis of its source."""
import ast
import builtins
import importlib
import os
import string
import symtable
import sys

STDLIB = set(getattr(sys, 'stdlib_module_names', ()))
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)


class Mod:
    def __init__(self, name, path, rel):
        self.name, self.path, self.rel = name, path, rel
        self.src = open(path, encoding='utf-8').read()
        self.tree = ast.parse(self.src)
        self.names = {}        # name -> ('class', Cls) ('func', node) ('module', dotted) ('other',)
        self.open = False      # a star import of a module that cannot be read


class Cls:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.bases = []
        self.unknown = False   # a base, decorator or metaclass that is not known
        self.members = {}      # name -> ('method', node) ('property', has setter) ('attr',)
        self.assigned = set()  # attributes set through self
        self.dynamic = False
        self.kind = None
        self.subs = []

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def is_known(self):
        return not any(c.unknown for c in self.mro())

    def lookup(self, n):
        for c in self.mro():
            if n in c.members:
                return c, c.members[n]
        return None, None

    def allsubs(self):
        out = []
        for s in self.subs:
            out.append(s)
            out += s.allsubs()
        return out


def binds(body):
    """names bound by statements of one scope (any branch)"""
    out = set()

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

    def rec(n):
        if isinstance(n, FUNC + (ast.ClassDef,)):
            out.add(n.name)
            for d in n.decorator_list:
                rec(d)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    target(w.target)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != '*':
                    out.add(a.asname or a.name.split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        if isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            rec(c)
    for s in body:
        rec(s)
    return out


class Package:
    def __init__(self, root, skip=()):
        self.root = root
        self.mods = {}
        self.problems = []
        self.counts = {'names': 0, 'attributes of self': 0, 'calls': 0, 'raises': 0, 'formats': 0, 'module attributes': 0, 'functions': 0}
        base = os.path.join(root, 'raytracing')
        for f in sorted(os.listdir(base)):
            if f.endswith('.py') and f[:-3] not in skip:
                n = 'raytracing' if f == '__init__.py' else 'raytracing.' + f[:-3]
                self.mods[n] = Mod(n, os.path.join(base, f), 'raytracing/' + f)
        self.skip = {'raytracing.' + s for s in skip}
        self.ext = {}
        self.external_assigned = set()
        for m in self.mods.values():
            self.direct(m)
        for _ in range(12):
            if not any([self.stars(m) for m in self.mods.values()]):
                break
        self.classes = [c for m in self.mods.values() for c in m.own]
        for c in self.classes:
            self.class_members(c)
        for c in self.classes:
            for b in c.bases:
                b.subs.append(c)

    # ---- modules
    def relname(self, m, level, name):
        if level == 0:
            return name or ''
        return 'raytracing' + ('.' + name if name else '')

    def direct(self, m):
        m.own = []
        m.starred = []
        for n in binds(m.tree.body):
            m.names[n] = ('other',)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for g in n.names:
                    m.names.setdefault(g, ('other',))

        def rec(body):
            for s in body:
                if isinstance(s, ast.ClassDef):
                    c = Cls(s.name, s, m)
                    m.own.append(c)
                    m.names[s.name] = ('class', c) if self.once(m, s.name) else ('other',)
                elif isinstance(s, FUNC):
                    m.names[s.name] = ('func', s, m) if self.once(m, s.name) and not s.decorator_list else ('other',)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname or '.' not in a.name:
                            m.names[a.asname or a.name] = ('module', a.name)
                        else:
                            m.names[a.name.split('.')[0]] = ('module', a.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    src = self.relname(m, s.level, s.module)
                    for a in s.names:
                        if a.name == '*':
                            m.starred.append(src)
                        elif src + '.' + a.name in self.mods:
                            m.names[a.asname or a.name] = ('module', src + '.' + a.name)
                        else:
                            m.names[a.asname or a.name] = ('from', src, a.name, s.lineno)
                else:
                    for f in ('body', 'orelse', 'finalbody'):
                        b = getattr(s, f, None)
                        if isinstance(b, list):
                            rec(b)
                    for h in getattr(s, 'handlers', []):
                        rec(h.body)
        rec(m.tree.body)

    def once(self, m, name):
        """bound by one statement of the module only"""
        if not hasattr(m, '_count'):
            m._count = {}
            for n in self.top(m):
                k = n.name if isinstance(n, FUNC + (ast.ClassDef,)) else n.id if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) else None
                if k:
                    m._count[k] = m._count.get(k, 0) + 1
        return m._count.get(name) == 1

    def top(self, m):
        if not hasattr(m, '_top'):
            m._top = set()

            def rec(n, inside):
                for c in ast.iter_child_nodes(n):
                    if not inside:
                        m._top.add(c)
                    rec(c, inside or isinstance(c, FUNC + (ast.ClassDef, ast.Lambda)))
            rec(m.tree, False)
        return m._top

    def stars(self, m):
        new = False
        for src in m.starred:
            if src in self.mods:
                o = self.mods[src]
                if o.open and not m.open:
                    m.open = new = True
                names = self.public(o)
                for k in names:
                    if k not in m.names and k in o.names:
                        m.names[k] = o.names[k] if o.names[k][0] in ('class', 'func', 'module') else ('other',)
                        new = True
            elif src in self.skip:
                if not m.open:
                    m.open = new = True
            else:
                ks = self.external(src)
                if ks is None:
                    if not m.open:
                        m.open = new = True
                else:
                    for k in ks:
                        if not k.startswith('_') and k not in m.names:
                            m.names[k] = ('other',)
                            new = True
        return new

    def public(self, o):
        for s in o.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in s.targets):
                try:
                    return list(ast.literal_eval(s.value))
                except ValueError:
                    return list(o.names)
        return [k for k in o.names if not k.startswith('_')]

    def external(self, name):
        """names of a module of the standard library, or None"""
        if name not in self.ext:
            r = None
            if name.split('.')[0] in STDLIB and name.split('.')[0] not in ('tkinter', 'antigravity', 'this', 'idlelib', 'turtle'):
                try:
                    r = set(dir(importlib.import_module(name)))
                except Exception:
                    r = None
            self.ext[name] = r
        return self.ext[name]

    # ---- classes
    def resolve(self, m, e):
        if isinstance(e, ast.Name):
            r = m.names.get(e.id)
            if r is None:
                return ('builtin', e.id) if hasattr(builtins, e.id) else None
            if r[0] == 'from':
                o = self.mods.get(r[1])
                if o is not None:
                    return o.names.get(r[2])
                return ('external', r[1], r[2])
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve(m, e.value)
            if b and b[0] == 'module':
                if b[1] in self.mods:
                    return self.mods[b[1]].names.get(e.attr)
                return ('external', b[1], e.attr)
        return None

    def class_members(self, c):
        m = c.mod
        if c.node.keywords:
            c.unknown = True
        for d in c.node.decorator_list:
            r = self.resolve(m, d.func if isinstance(d, ast.Call) else d)
            if not (r and r[0] == 'external' and r[1:] == ('dataclasses', 'dataclass')):
                c.unknown = True
            else:
                c.kind = 'dataclass'
        for b in c.node.bases:
            r = self.resolve(m, b)
            if r and r[0] == 'class':
                c.bases.append(r[1])
            elif r and r[0] == 'external' and r[1:] == ('typing', 'NamedTuple'):
                c.kind = 'namedtuple'
                for k in dir(tuple) + ['_replace', '_asdict', '_fields', '_make', '_field_defaults']:
                    c.members.setdefault(k, ('attr',))
            elif r and r[0] == 'builtin' and isinstance(getattr(builtins, r[1]), type):
                if r[1] != 'object':
                    c.kind = 'builtin'
                for k in dir(getattr(builtins, r[1])):
                    c.members.setdefault(k, ('attr',))
            else:
                c.unknown = True
        for k in dir(object):
            c.members.setdefault(k, ('attr',))
        for k in ('__dict__', '__module__', '__weakref__', '__name__', '__qualname__'):
            c.members.setdefault(k, ('attr',))

        def rec(body):
            for s in body:
                if isinstance(s, FUNC):
                    ds = [ast.unparse(d) for d in s.decorator_list]
                    if not ds:
                        c.members[s.name] = ('method', s)
                    elif ds == ['property']:
                        c.members[s.name] = ('property', False)
                    elif len(ds) == 1 and ds[0].endswith('.setter'):
                        c.members[s.name] = ('property', True)
                    elif len(ds) == 1 and ds[0].endswith(('.getter', '.deleter')):
                        pass
                    elif ds == ['staticmethod']:
                        c.members[s.name] = ('static', s)
                    elif ds == ['classmethod']:
                        c.members[s.name] = ('classm', s)
                    else:
                        c.members[s.name] = ('attr',)
                    if s.name in ('__getattr__', '__getattribute__', '__setattr__'):
                        c.dynamic = True
                else:
                    for n in binds([s]):
                        c.members[n] = ('attr',)
                    for f in ('body', 'orelse', 'finalbody'):
                        b = getattr(s, f, None)
                        if isinstance(b, list) and not isinstance(s, ast.ClassDef):
                            rec(b)
        rec(c.node.body)
        for f in ast.walk(c.node):
            if not isinstance(f, FUNC):
                continue
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls'):
                    c.assigned.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'vars', 'exec'):
                    c.dynamic = True
                if isinstance(n, ast.Attribute) and n.attr == '__setattr__':
                    c.dynamic = True
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr == '__dict__' and n.attr in ('update', 'setdefault'):
                    c.dynamic = True
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == '__dict__':
                    c.dynamic = True
                if isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.ctx, ast.Store):
                    c.dynamic = True
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr == '__dict__':
                    c.dynamic = True
        if any(isinstance(n, ast.Name) and n.id == '__slots__' for n in ast.walk(c.node)):
            c.dynamic = True

    # ---- checks
    def report(self, m, node, where, text):
        self.problems.append((m.rel, getattr(node, 'lineno', 0), where, text))

    def run(self):
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    self.external_assigned.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.external_assigned.add(n.args[1].value)
        for m in self.mods.values():
            self.imports(m)
            self.scopes(m)
            Walk(self, m).visit(m.tree)
        return self.problems

    def imports(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                src = self.relname(m, n.level, n.module)
                for a in n.names:
                    if a.name == '*':
                        continue
                    self.counts['names'] += 1
                    if src in self.mods:
                        o = self.mods[src]
                        if a.name not in o.names and not o.open and src + '.' + a.name not in self.mods and src + '.' + a.name not in self.skip \
                                and not a.name.startswith('__') and not os.path.exists(os.path.join(self.root, *(src + '.' + a.name).split('.'))):
                            self.report(m, n, '', 'module %s has no %s to import' % (src, a.name))
                    else:
                        ks = self.external(src)
                        if ks is not None and a.name not in ks and self.external(src + '.' + a.name) is None and not self.guarded(m, n):
                            self.report(m, n, '', 'module %s has no %s to import' % (src, a.name))

    def guarded(self, m, node):
        """inside of a try with handlers"""
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try) and n.handlers and any(x is node for s in n.body for x in ast.walk(s)):
                return True
        return False

    def scopes(self, m):
        tab = symtable.symtable(m.src, m.path, 'exec')
        lines = {}
        comp = set()
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                comp |= {x for x in ast.walk(n) if isinstance(x, ast.Name) and x.id in own}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n not in comp:
                lines.setdefault(n.id, []).append(n)
        handled = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try) and any(h.type is None or 'Error' in ast.unparse(h.type) or 'Exception' in ast.unparse(h.type) for h in n.handlers):
                for s in n.body:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Name):
                            handled.add(x)
        ann = set()
        if any(isinstance(s, ast.ImportFrom) and s.module == '__future__' and any(a.name == 'annotations' for a in s.names) for s in m.tree.body):
            for n in ast.walk(m.tree):
                for a in ('annotation', 'returns'):
                    x = getattr(n, a, None)
                    if isinstance(x, ast.AST):
                        ann |= set(ast.walk(x))

        def rec(t, path):
            for s in t.get_symbols():
                nm = s.get_name()
                if not s.is_referenced():
                    continue
                glob = s.is_global() if t.get_type() != 'module' else True
                if t.get_type() == 'class' and s.is_local():
                    continue
                if not glob or s.is_imported():
                    continue
                self.counts['names'] += 1
                if nm in m.names or hasattr(builtins, nm) or nm in ('__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__class__', '__builtins__', '__annotations__'):
                    continue
                if m.open:
                    continue
                uses = [x for x in lines.get(nm, []) if x not in handled and x not in ann and
                        (t.get_type() == 'module' or t.get_lineno() <= x.lineno)]
                if uses:
                    self.report(m, uses[0], '.'.join(path), 'name %s is not defined' % nm)
            for c in t.get_children():
                rec(c, path + [c.get_name()])
        rec(tab, [])


class Walk(ast.NodeVisitor):
    def __init__(self, pkg, m):
        self.k, self.m = pkg, m
        self.path = []
        self.cls = None
        self.selfname = None
        self.local = [set()]
        self.tries = 0
        self.guards = []

    def where(self):
        return '.'.join(self.path)

    def bad(self, node, text):
        self.k.report(self.m, node, self.where(), text)

    def visit_ClassDef(self, n):
        old = self.cls, self.selfname
        self.cls = next((c for c in self.m.own if c.node is n), None)
        self.selfname = None
        self.path.append(n.name)
        self.generic_visit(n)
        self.path.pop()
        self.cls, self.selfname = old

    def visit_FunctionDef(self, n):
        self.k.counts['functions'] += 1
        old = self.selfname
        ds = [ast.unparse(d) for d in n.decorator_list]
        if self.cls is not None and n in self.cls.node.body:
            self.selfname = n.args.args[0].arg if n.args.args and not any(d in ('staticmethod', 'classmethod') for d in ds) else None
            stored = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            if self.selfname in stored:
                self.selfname = None
        self.path.append(n.name)
        g = {a for s in ast.walk(n) if isinstance(s, ast.Global) for a in s.names}
        names = {x.arg for x in ast.walk(n.args) if isinstance(x, ast.arg)} | binds(n.body)
        for x in ast.walk(n):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
                names |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)} | {y.arg for y in ast.walk(x) if isinstance(y, ast.arg)}
        self.local.append(names - g)
        self.unbound(n)
        self.generic_visit(n)
        self.local.pop()
        self.path.pop()
        self.selfname = old

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Try(self, n):
        if n.handlers:
            self.tries += 1
        for s in n.body:
            self.visit(s)
        if n.handlers:
            self.tries -= 1
        for s in n.handlers + n.orelse + n.finalbody:
            self.visit(s)

    def unbound(self, f):
        """locals used where no path has bound them"""
        loc = binds(f.body) - {a for s in ast.walk(f) if isinstance(s, (ast.Global, ast.Nonlocal)) for a in s.names}
        args = {x.arg for x in ast.walk(f.args) if isinstance(x, ast.arg)}
        loc -= args
        if not loc:
            return
        seen = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                seen.setdefault(n.id, []).append(n)
        inner = {x for n in ast.walk(f) if n is not f and isinstance(n, FUNC + (ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for x in ast.walk(n)}
        for nm in sorted(loc):
            loads = [n for n in seen.get(nm, []) if isinstance(n.ctx, ast.Load) and n not in inner]
            if not loads:
                continue
            if reach_before_bind(f, nm, set(loads)):
                self.bad(loads[0], 'local %s is used where nothing has been assigned to it yet' % nm)

    # ---- names of modules, attributes of self
    def is_local(self, nm):
        return any(nm in s for s in self.local)

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if self.tries:
            return
        v = n.value
        k = self.k
        if isinstance(v, ast.Name) and not self.is_local(v.id):
            r = self.m.names.get(v.id)
            if r and r[0] == 'module' and isinstance(n.ctx, ast.Load):
                k.counts['module attributes'] += 1
                if r[1] in k.mods:
                    o = k.mods[r[1]]
                    if not o.open and n.attr not in o.names and not n.attr.startswith('__') and r[1] + '.' + n.attr not in k.mods:
                        self.bad(n, 'module %s has no %s' % (r[1], n.attr))
                else:
                    ks = k.external(r[1])
                    if ks is not None and n.attr not in ks and k.external(r[1] + '.' + n.attr) is None:
                        self.bad(n, 'module %s has no %s' % (r[1], n.attr))
        if isinstance(v, ast.Name) and v.id == self.selfname and self.cls is not None and self.cls.is_known():
            c = self.cls
            fam = c.mro() + c.allsubs()
            for s in c.allsubs():
                fam += s.mro()
            if any(x.unknown or x.dynamic for x in fam):
                return
            if n.attr in self.guards:
                return
            k.counts['attributes of self'] += 1
            if isinstance(n.ctx, ast.Load):
                if not any(n.attr in x.members or n.attr in x.assigned for x in fam) and n.attr not in k.external_assigned:
                    self.bad(n, 'class %s has no attribute %s' % (c.name, n.attr))
            else:
                o, w = c.lookup(n.attr)
                if w and w[0] == 'property' and not w[1] and isinstance(n.ctx, ast.Store):
                    self.bad(n, 'property %s of class %s has no setter' % (n.attr, o.name))

    def visit_Raise(self, n):
        self.k.counts['raises'] += 1
        e = n.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(n.exc, (ast.Constant, ast.JoinedStr, ast.List, ast.Dict, ast.Tuple, ast.BinOp)):
            self.bad(n, 'what is raised is not an exception: %s' % ast.unparse(n.exc)[:60])
        elif isinstance(e, ast.Name) and not self.is_local(e.id):
            r = self.k.resolve(self.m, e)
            if r and r[0] == 'builtin':
                o = getattr(builtins, r[1])
                if not (isinstance(o, type) and issubclass(o, BaseException)):
                    self.bad(n, 'what is raised is not an exception: %s' % r[1])
            elif r and r[0] == 'class' and r[1].is_known():
                if not any('with_traceback' in x.members for x in r[1].mro()):
                    self.bad(n, 'what is raised is not an exception: class %s' % r[1].name)
        self.generic_visit(n)

    # ---- calls
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id in ('hasattr', 'getattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            pass
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
            self.fmt(n, f.value.value)
        if self.tries:
            return
        if isinstance(f, ast.Name) and not self.is_local(f.id):
            r = self.k.resolve(self.m, f)
            if r and r[0] == 'func':
                self.match(n, r[1], 0, f.id)
            elif r and r[0] == 'class':
                self.ctor(n, r[1])
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == self.selfname and self.cls is not None:
            c = self.cls
            o, w = c.lookup(f.attr)
            if w and c.is_known() and not any(f.attr in x.assigned or x.dynamic for x in c.mro()):
                if w[0] in ('method', 'classm'):
                    self.match(n, w[1], 1, '%s.%s' % (o.name, f.attr))
                elif w[0] == 'static':
                    self.match(n, w[1], 0, '%s.%s' % (o.name, f.attr))
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and self.cls is not None:
            c = self.cls
            if c.is_known():
                for b in c.mro()[1:]:
                    if f.attr in b.members:
                        w = b.members[f.attr]
                        if w[0] == 'method':
                            self.match(n, w[1], 1, '%s.%s' % (b.name, f.attr))
                        break
        elif isinstance(f, ast.Attribute):
            r = self.k.resolve(self.m, f) if not (isinstance(f.value, ast.Name) and self.is_local(f.value.id)) else None
            if r and r[0] == 'func':
                self.match(n, r[1], 0, f.attr)
            elif r and r[0] == 'class':
                self.ctor(n, r[1])

    def ctor(self, n, c):
        if not c.is_known() or c.kind or any(x.kind for x in c.mro()):
            return
        o, w = c.lookup('__init__')
        o2, w2 = c.lookup('__new__')
        if w2 and w2[0] != 'attr':
            return
        if w and w[0] == 'method':
            self.match(n, w[1], 1, c.name)
        elif w and w[0] == 'attr' and o is not None:
            # object.__init__
            if not any('__init__' in x.members and x.members['__init__'][0] != 'attr' for x in c.mro()):
                self.k.counts['calls'] += 1
                if n.args or n.keywords:
                    self.bad(n, '%s() takes no arguments' % c.name)

    def match(self, n, d, skip, name):
        self.k.counts['calls'] += 1
        a = d.args
        pos = [x.arg for x in a.posonlyargs + a.args][skip:]
        npos = len(n.args)
        star = any(isinstance(x, ast.Starred) for x in n.args)
        kws = [x.arg for x in n.keywords]
        dstar = None in kws
        if star:
            npos = sum(not isinstance(x, ast.Starred) for x in n.args)
        if npos > len(pos) and not a.vararg:
            return self.bad(n, '%s() takes %d positional arguments, %d given' % (name, len(pos), npos))
        konly = [x.arg for x in a.kwonlyargs]
        ponly = [x.arg for x in a.posonlyargs][skip:]
        for k in kws:
            if k is None:
                continue
            if k in ponly or (k not in pos and k not in konly and not a.kwarg):
                if not a.kwarg:
                    return self.bad(n, '%s() has no parameter %s' % (name, k))
            elif k in pos[:npos] and not star:
                return self.bad(n, '%s() gets %s twice' % (name, k))
        if star or dstar:
            return
        need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
        need = need[:]
        missing = [p for p in need[npos:] if p not in kws]
        missing += [x.arg for x, dflt in zip(a.kwonlyargs, a.kw_defaults) if dflt is None and x.arg not in kws]
        if missing:
            self.bad(n, '%s() misses %s' % (name, ', '.join(missing)))

    def fmt(self, n, text):
        self.k.counts['formats'] += 1
        if any(isinstance(x, ast.Starred) for x in n.args) or any(x.arg is None for x in n.keywords):
            return
        try:
            fields = list(string.Formatter().parse(text))
        except ValueError as e:
            return self.bad(n, 'format string: %s' % e)
        auto = 0
        kws = {x.arg for x in n.keywords}

        def one(field, spec):
            nonlocal auto
            if field is None:
                return
            nm = field.split('.')[0].split('[')[0]
            if nm == '':
                nm, auto = str(auto), auto + 1
            if nm.isdigit():
                if int(nm) >= len(n.args):
                    self.bad(n, 'format string refers to argument %s of %d' % (nm, len(n.args)))
            elif nm not in kws:
                self.bad(n, 'format string refers to %s' % nm)
            if spec:
                for _, f2, s2, _ in string.Formatter().parse(spec):
                    one(f2, s2)
        for _, field, spec, conv in fields:
            if conv and conv not in 'rsa':
                self.bad(n, 'format string: conversion %s' % conv)
            one(field, spec)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple):
            self.k.counts['formats'] += 1
            if any(isinstance(x, ast.Starred) for x in n.right.elts):
                return
            import re
            specs = re.findall(r'%(\(\w+\))?[#0\- +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', n.left.value)
            if any(s[0] for s in specs):
                return
            want = sum((s[3] != '%') + (s[1] == '*') + (s[2] == '*') for s in specs)
            if want != len(n.right.elts):
                self.bad(n, 'format string has %d places for %d values' % (want, len(n.right.elts)))


def reach_before_bind(f, nm, loads):
    """some use of nm can only be reached before any statement that binds it (no path binds it before)"""
    never = set(loads)

    def bound_in(node):
        return nm in binds([node])

    # may-assigned analysis: state = may nm be bound here
    def expr(e, st):
        if e is None:
            return st
        for x in ast.walk(e):
            if isinstance(x, ast.NamedExpr) and x.target.id == nm:
                st = True
        for x in ast.walk(e):
            if x in loads and st:
                never.discard(x)
        return st

    def block(b, st):
        for s in b:
            st = stmt(s, st)
        return st

    def stmt(s, st):
        if isinstance(s, FUNC + (ast.ClassDef,)):
            return st or s.name == nm
        if isinstance(s, (ast.If,)):
            st = expr(s.test, st)
            a, b = block(s.body, st), block(s.orelse, st)
            return a or b
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            st = expr(s.test if isinstance(s, ast.While) else s.iter, st)
            inside = st or any(bound_in(x) for x in s.body) or (not isinstance(s, ast.While) and bound_in(s.target))
            if isinstance(s, ast.While):
                expr(s.test, inside)
            block(s.body, inside)
            return block(s.orelse, inside)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            a = block(s.body, st)
            m = st or any(bound_in(x) for x in s.body)
            outs = block(s.orelse, a)
            for h in s.handlers:
                expr(h.type, m)
                r = block(h.body, m or h.name == nm)
                outs = outs or r
            return block(s.finalbody, outs or m or any(bound_in(x) for h in s.handlers for x in h.body))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = expr(i.context_expr, st)
                if i.optional_vars is not None and bound_in(i.optional_vars):
                    st = True
            return block(s.body, st)
        if isinstance(s, ast.Match):
            st = expr(s.subject, st)
            out = st
            for c in s.cases:
                i = st or nm in binds([c.pattern])
                expr(c.guard, i)
                out = block(c.body, i) or out
            return out
        if isinstance(s, ast.AugAssign):
            st = expr(s.value, st)
            if isinstance(s.target, ast.Name) and s.target.id == nm:
                return True
            return expr(s.target, st)
        for x in ast.iter_child_nodes(s):
            st = expr(x, st)
        return st or bound_in(s)
    block(f.body, False)
    return bool(never)
