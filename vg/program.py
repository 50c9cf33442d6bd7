"""Whole-program tables: modules, classes (MRO), functions, star imports."""
import ast
import builtins
import os


class ClassInfo:
    def __init__(self, name, module=None, bases=(), node=None, builtin=False):
        self.name = name
        self.module = module
        self.bases = list(bases)
        self.node = node
        self.builtin = builtin
        self.ns = {}              # name -> raw binding
        self.fields = None        # NamedTuple fields [(name, default expr|None)]
        self.data = None          # dataclass fields [(name, default expr|None)]
        self.odd = None           # a kind of class that is not modelled
        self.subclasses = []
        self.closure = None
        self._mro = None
        self.qual = (module.name + '.' if module else '') + name

    def mro(self):
        if self._mro is None:
            self._mro = [self] + _c3([b.mro() for b in self.bases] + [list(self.bases)])
        return self._mro

    def issub(self, other):
        return other in self.mro()

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c, c.ns[name]
        return None, None

    def __repr__(self):
        return 'class ' + self.name


def _c3(seqs):
    seqs = [list(s) for s in seqs if s]
    out = []
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise TypeError('inconsistent MRO')
        out.append(h)
        seqs = [[x for x in s if x is not h] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


class FuncInfo:
    def __init__(self, name, node, module, cls=None, closure=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.closure = closure        # env oid or None
        self.decorators = []
        self.is_gen = _is_gen(node)
        self.locals = None

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    @property
    def loc(self):
        return '%s:%d' % (self.module.relpath, self.node.lineno)

    def __repr__(self):
        return 'func ' + self.qual


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


class Binding:
    """lazily evaluated module/class level binding"""
    __slots__ = ('kind', 'node', 'module', 'cls', 'value', 'extra')

    def __init__(self, kind, node=None, module=None, cls=None, value=None, extra=None):
        self.kind, self.node, self.module, self.cls, self.value, self.extra = kind, node, module, cls, value, extra


class Module:
    def __init__(self, name, path, relpath):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.env = {}
        self.tree = None
        self.source = ''
        self.order = []


class External:
    """module not in the repository"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ext ' + self.name


class Program:
    PKG = 'raytracing'

    def __init__(self, root):
        self.root = root
        self.pkgdir = os.path.join(root, self.PKG)
        self.modules = {}
        self.classes = []           # all ClassInfo in definition order
        self.functions = []
        self.builtins = {}
        self._make_builtins()
        self.load(self.PKG)
        for f in sorted(os.listdir(self.pkgdir)):
            if f.endswith('.py') and f not in ('__main__.py', '__init__.py', 'lensViewer.py'):
                self.load(self.PKG + '.' + f[:-3])

    # ------------------------------------------------------------- builtins
    def _make_builtins(self):
        for n, o in vars(builtins).items():
            if isinstance(o, type):
                self.builtins[n] = self._bclass(o)

    def _bclass(self, o):
        n = o.__name__
        if n in self.builtins:
            return self.builtins[n]
        c = ClassInfo(n, None, [self._bclass(b) for b in o.__bases__], builtin=True)
        self.builtins[n] = c
        return c

    # ------------------------------------------------------------- modules
    def relative(self, cur, level, name):
        parts = cur.split('.')
        is_pkg = cur == self.PKG
        base = parts if is_pkg else parts[:-1]
        if level > 1:
            base = base[:len(base) - (level - 1)]
        return '.'.join(base + ([name] if name else []))

    def find(self, name):
        parts = name.split('.')
        if parts[0] != self.PKG:
            return None
        p = os.path.join(self.root, *parts)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        path = self.find(name)
        if path is None:
            return External(name)
        m = Module(name, path, os.path.relpath(path, self.root))
        self.modules[name] = m
        with open(path, encoding='utf-8') as f:
            m.source = f.read()
        m.tree = ast.parse(m.source, path)
        self._exec(m, m.tree.body)
        if '.' in name:
            parent, short = name.rsplit('.', 1)
            self.modules[parent].env.setdefault(short, Binding('module', value=m))
        return m

    def _exec(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    mod = self.load(a.name)
                    if a.asname:
                        m.env[a.asname] = Binding('module', value=mod)
                    else:
                        top = a.name.split('.')[0]
                        m.env[top] = Binding('module', value=self.modules.get(top) or External(top))
            elif isinstance(s, ast.ImportFrom):
                self._importfrom(m, s, m.env)
            elif isinstance(s, ast.FunctionDef):
                m.env[s.name] = self.func_binding(s, m, None)
            elif isinstance(s, ast.ClassDef):
                m.env[s.name] = Binding('class', value=self.class_info(s, m))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    self._assign(m, t, s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                m.env[s.target.id] = Binding('expr', s.value, m)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                m.env[s.target.id] = Binding('opaque', s, m)
            elif isinstance(s, ast.If):
                self._exec(m, s.body)
                self._exec(m, s.orelse)
            elif isinstance(s, ast.Try):
                for h in s.handlers:
                    self._exec(m, h.body)
                self._exec(m, s.body)
                self._exec(m, s.orelse)
                self._exec(m, s.finalbody)
            elif isinstance(s, (ast.For, ast.While, ast.With)):
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        m.env.setdefault(n.id, Binding('opaque', s, m))

    def _assign(self, m, t, value):
        if isinstance(t, ast.Name):
            # alias of a class/function already known keeps identity
            if isinstance(value, ast.Name) and value.id in m.env and m.env[value.id].kind in ('class', 'func', 'module'):
                m.env[t.id] = m.env[value.id]
            else:
                m.env[t.id] = Binding('expr', value, m)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Name):
                    if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                        m.env[e.id] = Binding('expr', value.elts[i], m)
                    else:
                        m.env[e.id] = Binding('opaque', value, m)

    def _importfrom(self, m, s, env):
        target = self.relative(m.name, s.level, s.module) if s.level else s.module
        mod = self.load(target)
        for a in s.names:
            if a.name == '*':
                if isinstance(mod, Module):
                    if '__all__' in mod.env and mod.env['__all__'].kind == 'expr':
                        try:
                            names = list(ast.literal_eval(mod.env['__all__'].node))
                        except Exception:
                            names = [n for n in mod.env if not n.startswith('_')]
                    else:
                        names = [n for n in mod.env if not n.startswith('_')]
                    for n in names:
                        if n in mod.env:
                            env[n] = mod.env[n]
                else:
                    for n in star_names(mod.name):
                        env[n] = Binding('ext', value=mod.name + '.' + n)
                continue
            asn = a.asname or a.name
            if isinstance(mod, Module):
                if a.name in mod.env:
                    env[asn] = mod.env[a.name]
                else:
                    sub = self.load(mod.name + '.' + a.name)
                    env[asn] = Binding('module', value=sub)
            else:
                env[asn] = Binding('ext', value=mod.name + '.' + a.name)

    # ------------------------------------------------------------- definitions
    def func_binding(self, node, m, cls):
        f = FuncInfo(node.name, node, m, cls)
        f.decorators = node.decorator_list
        self.functions.append(f)
        return Binding('func', node, m, cls, value=f)

    def class_info(self, node, m):
        bases = []
        named = False
        for b in node.bases:
            r = self.resolve_class(b, m)
            if r is None:
                nm = ast.unparse(b)
                if nm.split('.')[-1] == 'NamedTuple':
                    named = True
                    continue
                r = ClassInfo(nm, None, [self.builtins['object']], builtin=True)
            bases.append(r)
        if not bases:
            bases = [self.builtins['object']]
        c = ClassInfo(node.name, m, bases, node)
        if named:
            c.fields = []
        for b in bases:
            if b.odd:
                c.odd = b.odd
            if b.builtin and b.name.split('.')[-1] in ('Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum', 'TypedDict'):
                c.odd = b.name
        for d in node.decorator_list:
            dn = ast.unparse(d)
            if dn.split('(')[0] in ('dataclass', 'dataclasses.dataclass'):
                c.data = []
                if isinstance(d, ast.Call) and any(k.arg not in ('frozen', 'repr', 'slots', 'kw_only') for k in d.keywords):
                    c.odd = dn
            elif dn.split('(')[0].split('.')[-1] != 'total_ordering':
                c.odd = dn
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                b = self.func_binding(s, m, c)
                prev = c.ns.get(s.name)
                kind = 'method'
                for d in s.decorator_list:
                    dn = ast.unparse(d)
                    if dn == 'property' or dn.endswith('.cached_property') or dn == 'cached_property':
                        kind = 'property'
                    elif dn == 'staticmethod':
                        kind = 'static'
                    elif dn == 'classmethod':
                        kind = 'classmethod'
                    elif dn.endswith('.setter'):
                        kind = 'setter'
                    elif dn.endswith('.deleter') or dn.endswith('.getter'):
                        kind = 'ignore'
                if kind == 'setter':
                    if prev is not None:
                        nb = Binding('property', prev.node, m, c, value=prev.value, extra=b.value)
                        c.ns[s.name] = nb
                    continue
                if kind == 'ignore':
                    continue
                c.ns[s.name] = Binding(kind, s, m, c, value=b.value)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        # alias  x = y of a method in the class body
                        if isinstance(s.value, ast.Name) and s.value.id in c.ns:
                            c.ns[t.id] = c.ns[s.value.id]
                        elif self.descriptor(s.value, m, c) is not None:
                            c.ns[t.id] = self.descriptor(s.value, m, c)
                        else:
                            c.ns[t.id] = Binding('expr', s.value, m, c)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if c.fields is not None:
                    c.fields.append((s.target.id, s.value))
                elif c.data is not None:
                    c.data.append((s.target.id, s.value))
                    if s.value is not None and not (isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split('.')[-1] == 'field'):
                        c.ns[s.target.id] = Binding('expr', s.value, m, c)
                elif s.value is not None:
                    c.ns[s.target.id] = Binding('expr', s.value, m, c)
            elif isinstance(s, ast.ClassDef):
                c.ns[s.name] = Binding('class', value=self.class_info(s, m))
        for b in bases:
            b.subclasses.append(c)
        self.classes.append(c)
        return c

    def descriptor(self, e, m, c):
        """property(f), property(f, g), staticmethod(f), classmethod(f), x.setter(f) and functions in a class body"""
        def func(a):
            if isinstance(a, ast.Name) and a.id in c.ns and c.ns[a.id].kind in ('method', 'static', 'func'):
                return c.ns[a.id].value
            if isinstance(a, ast.Lambda):
                d = ast.FunctionDef('<lambda>', a.args, [ast.copy_location(ast.Return(a.body), a)], [], None)
                ast.copy_location(d, a)
                if hasattr(ast.FunctionDef, 'type_params') or 'type_params' in ast.FunctionDef._fields:
                    d.type_params = []
                return self.func_binding(d, m, c).value
            return None
        if isinstance(e, ast.Lambda):
            return Binding('method', e, m, c, value=func(e))
        if not isinstance(e, ast.Call):
            return None
        kw = {k.arg: k.value for k in e.keywords}
        if isinstance(e.func, ast.Name) and e.func.id == 'property' and e.func.id not in m.env:
            a = list(e.args)
            g = a[0] if a else kw.get('fget')
            h = a[1] if len(a) > 1 else kw.get('fset')
            g = func(g) if g is not None else None
            if g is None:
                return None
            if h is not None and not (isinstance(h, ast.Constant) and h.value is None):
                h = func(h)
                return Binding('property', e, m, c, value=g, extra=h) if h is not None else None
            return Binding('property', e, m, c, value=g)
        if isinstance(e.func, ast.Name) and e.func.id in ('staticmethod', 'classmethod') and len(e.args) == 1:
            f = func(e.args[0])
            return f and Binding('static' if e.func.id == 'staticmethod' else 'classmethod', e, m, c, value=f)
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'setter' and isinstance(e.func.value, ast.Name) and len(e.args) == 1:
            prev = c.ns.get(e.func.value.id)
            f = func(e.args[0])
            if prev is not None and prev.kind == 'property' and f is not None:
                return Binding('property', prev.node, m, c, value=prev.value, extra=f)
        return None

    def resolve_class(self, e, m):
        if isinstance(e, ast.Name):
            b = m.env.get(e.id)
            if b is None:
                return self.builtins.get(e.id)
            if b.kind == 'class':
                return b.value
            if b.kind == 'expr' and b.node is not e:
                return self.resolve_class(b.node, b.module)
            return None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            b = m.env.get(e.value.id)
            if b is not None and b.kind == 'module' and isinstance(b.value, Module):
                b2 = b.value.env.get(e.attr)
                if b2 is not None and b2.kind == 'class':
                    return b2.value
        return None

    # ------------------------------------------------------------- queries
    def module(self, short):
        return self.modules[self.PKG + '.' + short if short else self.PKG]

    def cls(self, name):
        """public class by the name a user of the package sees"""
        b = self.modules[self.PKG].env.get(name)
        if b is not None and b.kind == 'class':
            return b.value
        for c in reversed(self.classes):
            if c.name == name:
                return c
        raise AnchorError('class %s not found' % name)


class AnchorError(Exception):
    pass


_STAR = {}


def star_names(name):
    """public names of a standard-library module used through `import *`"""
    if name not in _STAR:
        import importlib
        try:
            if name.split('.')[0] in ('math', 'cmath', 'struct', 'os', 'typing', 'itertools', 'functools', 're'):
                mod = importlib.import_module(name)
                _STAR[name] = list(getattr(mod, '__all__', [n for n in vars(mod) if not n.startswith('_')]))
            else:
                _STAR[name] = []
        except ImportError:
            _STAR[name] = []
    return _STAR[name]
