"""Abstract file system: what is written to a path is what is read from it later.

`install(I, st)` makes open, json, pickle and the os functions of the
repository act on an abstract store (path term -> content) that is part of the abstract
state, so that it is forked and merged with it.
"""
import ast

from . import models as M
from . import terms as T
from .program import ClassInfo
from .terms import TRUE, FALSE, NONE, const, num, ite, and_, not_, Unsupported


def cls(I, name, attrs):
    b = I.P.builtins
    if name not in b:
        b[name] = ClassInfo(name, None, [I.bcls('object')], builtin=True)
    M.OBJ_ATTRS[name] = set(attrs)
    return b[name]


def jsonable(I, st, v):
    """deep copy as the JSON text would give it back"""
    def one(s, l):
        if l.kind in ('num', 'none') or l is NONE or l is TRUE or l is FALSE:
            return l
        if l.kind == 'const' and isinstance(l.a, (str, bool, int, float, type(None))):
            return l
        if l.kind == 'tup':
            return I.newlist(s, [jsonable(I, s, x) for x in l.a])
        if l.kind == 'app':
            return l
        if l.kind == 'ref':
            o = I.heapget(s, l.a)
            if o.cls.issub(I.bcls('dict')):
                n = I.newdict(s, [])
                I.write(s, n).entries = tuple((g, k, jsonable(I, s, x)) for g, k, x in o.entries)
                return n
            if o.items is not None and o.extra != 'ndarray' and o.cls.issub(I.bcls('list')):
                n = I.newlist(s, [])
                I.write(s, n).items = tuple((g, jsonable(I, s, x)) for g, x in o.items)
                return n
        I.raise_named(s, 'TypeError', 'Object is not JSON serializable')
    return I.split(st, v, one)


def install(I, st, home='/home/u'):
    fcls = cls(I, 'file', {'read', 'readlines', 'readline', 'write', 'close', '__enter__', '__exit__', 'flush', 'name'})
    pcls = cls(I, 'pickler', {'dump'})
    ucls = cls(I, 'unpickler', {'load'})
    I.fs = I.newdict(st, [])
    I.fs_fail = FALSE     # condition under which a file cannot be opened for writing or removed
    S = I.stubs

    def arg(a, k, i, name, default=None):
        return a[i] if len(a) > i else k.get(name, default)

    def exists(s, path):
        return I.truth(s, M.dict_get(I, s, I.fs, path, const(False)) if False else has(s, path))

    def has(s, path):
        o = I.heapget(s, I.fs.a)
        kk = M.keyof(I, s, path)
        c = FALSE
        for g, k, _ in o.entries:
            if k is kk:
                c = T.or_(c, g)
            elif k.kind == 'app' or kk.kind == 'app':
                raise Unsupported('file path that is not constant')
        return T.restrict(c, s.guard)

    def put(s, path, v):
        M.dict_set(I, s, I.fs, path, v)

    def get(s, path):
        return M.dict_get(I, s, I.fs, path, None)

    def open_(I_, s, _s, a, k):
        path, mode = a[0], arg(a, k, 1, 'mode', const('r'))
        m = mode.a

        def one(q, p):
            if I.fs_fail is not FALSE and ('w' in m or 'a' in m or 'x' in m or '+' in m):
                I.raise_if(q, I.fs_fail, 'PermissionError', 'Permission denied')
                q.guard = and_(q.guard, not_(I.fs_fail))
                if q.guard is FALSE:
                    from .interp import Dead
                    raise Dead()
            if 'w' in m or 'x' in m:
                put(q, p, const(b'' if 'b' in m else ''))
            elif 'a' in m:
                if has(q, p) is not TRUE:
                    put(q, p, ite(has(q, p), get(q, p), const('')))
            else:
                I.raise_if(q, not_(has(q, p)), 'FileNotFoundError', 'No such file')
                q.guard = and_(q.guard, has(q, p))
                if q.guard is FALSE:
                    from .interp import Dead
                    raise Dead()
            f = {'name': p, '$mode': mode}
            if 'r' in m and 'b' not in m:
                c = get(q, p)
                if type(c) is T.Leaf and c.kind == 'tup' and c.a and c.a[0] is const('$text'):
                    enc = arg(a, k, 3, 'encoding', const('utf-8'))
                    f['$bad'] = not_(I.truth(q, I.compare1(q, ast.Eq(), M.str_method(I, q, enc, 'lower', [], {}), c.a[1])))
                    f['pos'] = num(0)
                    return I.new(q, fcls, f, items=tuple((TRUE, x) for x in c.a[2].a), extra='iterator')
            return I.new(q, fcls, f)
        return I.split(s, path, one)

    def decoded(s, me):
        b = I.heapget(s, me.a).fields.get('$bad', FALSE)
        I.raise_if(s, b, 'UnicodeError', 'cannot decode')

    def readline(I_, s, me, a, k):
        decoded(s, me)
        o = I.heapget(s, me.a)
        if o.items is None:
            raise Unsupported('readline')
        ls = T.leaves(o.fields['pos'], s.guard)
        if len(ls) > 1:
            raise Unsupported('file position')
        p = int(ls[0][1].a.const())
        if p >= len(o.items):
            return const('')
        I.write(s, me).fields['pos'] = num(p + 1)
        return o.items[p][1]
    M.EXT['method:file.readline'] = readline

    def path_of(s, f):
        return I.heapget(s, f.a).fields['name']

    def store(s, f, v):
        I.split(s, f, lambda q, l: (put(q, path_of(q, l), v), NONE)[1])
        return NONE

    def fetch(s, f):
        return I.split(s, f, lambda q, l: get(q, path_of(q, l)))

    def wrap(s, tag, v):
        return T.tup([const('$' + tag), v])

    def unwrap(s, tag, v, exc):
        def one(q, l):
            if l.kind == 'tup' and l.a and l.a[0] is const('$' + tag):
                return l.a[1]
            I.raise_named(q, exc, 'not a %s file' % tag)
        return I.split(s, v, one)

    cj = lambda s, v: jsonable(I, s, v)
    cp = lambda s, v: M.copy_obj(I, s, v, True)
    S['open'] = open_
    S['json.dump'] = lambda I_, s, _, a, k: store(s, a[1], wrap(s, 'json', cj(s, a[0])))
    S['json.load'] = lambda I_, s, _, a, k: cj(s, unwrap(s, 'json', fetch(s, a[0]), 'ValueError'))
    S['json.dumps'] = lambda I_, s, _, a, k: wrap(s, 'json', cj(s, a[0]))
    S['json.loads'] = lambda I_, s, _, a, k: cj(s, unwrap(s, 'json', a[0], 'ValueError'))
    S['pickle.dump'] = lambda I_, s, _, a, k: store(s, a[1], wrap(s, 'pickle', cp(s, a[0])))
    S['pickle.load'] = lambda I_, s, _, a, k: cp(s, unwrap(s, 'pickle', fetch(s, a[0]), 'EOFError'))
    S['pickle.dumps'] = lambda I_, s, _, a, k: wrap(s, 'pickle', cp(s, a[0]))
    S['pickle.loads'] = lambda I_, s, _, a, k: cp(s, unwrap(s, 'pickle', a[0], 'EOFError'))
    S['pickle.Pickler'] = lambda I_, s, _, a, k: I.new(s, pcls, {'f': a[0]})
    S['pickle.Unpickler'] = lambda I_, s, _, a, k: I.new(s, ucls, {'f': a[0]})
    fld = lambda s, l, n: I.heapget(s, l.a).fields[n]
    M.EXT['method:pickler.dump'] = lambda I_, s, me, a, k: store(s, fld(s, me, 'f'), wrap(s, 'pickle', cp(s, a[0])))
    M.EXT['method:unpickler.load'] = lambda I_, s, me, a, k: cp(s, unwrap(s, 'pickle', fetch(s, fld(s, me, 'f')), 'EOFError'))

    def read(I_, s, me, a, k):
        decoded(s, me)
        o = I.heapget(s, me.a)
        if o.items is not None:
            return T.app('textlines', [x for _, x in o.items], 'str')
        return fetch(s, me)
    M.EXT['method:file.read'] = read

    def write(I_, s, me, a, k):
        old = fetch(s, me)
        v = a[0] if old is const('') or old is const(b'') else I.binop(s, ast.Add(), old, a[0])
        return store(s, me, v)

    def readlines(I_, s, me, a, k):
        decoded(s, me)
        o = I.heapget(s, me.a)
        if o.items is not None:
            p = int(o.fields['pos'].a.const())
            I.write(s, me).fields['pos'] = num(len(o.items))
            return I.newlist(s, [x for _, x in o.items[p:]])

        def one(q, l):
            if l.kind == 'const' and isinstance(l.a, str):
                return I.newlist(q, [const(x) for x in l.a.splitlines(True)])
            raise Unsupported('readlines of a symbolic file')
        return I.split(s, fetch(s, me), one)
    M.EXT['method:file.write'] = write
    M.EXT['method:file.readlines'] = readlines
    for m in ('close', '__exit__', 'flush'):
        M.EXT['method:file.' + m] = lambda I_, s, me, a, k: NONE
    M.EXT['method:file.__enter__'] = lambda I_, s, me, a, k: me

    def remove(I_, s, _, a, k):
        if I.fs_fail is not FALSE:
            I.raise_if(s, I.fs_fail, 'PermissionError', 'Permission denied')
            s.guard = and_(s.guard, not_(I.fs_fail))
            if s.guard is FALSE:
                from .interp import Dead
                raise Dead()
        I.raise_if(s, not_(has(s, a[0])), 'FileNotFoundError', 'No such file')
        s.guard = and_(s.guard, has(s, a[0]))
        if s.guard is FALSE:
            from .interp import Dead
            raise Dead()
        M.dict_pop(I, s, I.fs, a[0], None)
        return NONE
    S['os.remove'] = S['os.unlink'] = remove
    S['os.path.exists'] = S['os.path.isfile'] = lambda I_, s, _, a, k: I.split(s, a[0], lambda q, l: has(q, l))
    S['os.path.getsize'] = lambda I_, s, _, a, k: num(100)
    S['time.sleep'] = lambda I_, s, _, a, k: NONE
    S['os.mkdir'] = S['os.makedirs'] = lambda I_, s, _, a, k: NONE
    S['platform.system'] = lambda I_, s, _, a, k: const('Linux')

    def strings(f):
        def g(I_, s, _, a, k):
            if all(x.kind == 'const' for x in a):
                return const(f(*[x.a for x in a]))
            return T.app(f.__name__, a)
        return g
    import os.path
    S['os.path.join'] = strings(os.path.join)
    S['os.path.basename'] = strings(os.path.basename)
    S['os.path.dirname'] = strings(os.path.dirname)
    S['os.path.splitext'] = lambda I_, s, _, a, k: T.tup([const(x) for x in os.path.splitext(a[0].a)])
    S['os.path.expanduser'] = lambda I_, s, _, a, k: const(a[0].a.replace('~', home, 1))
    return I.fs


def text(lines):
    """content of a text file whose tokens may be symbolic: a list of lists of terms"""
    return T.tup([T.app('textline', toks, 'str') for toks in lines])


def put_text(I, st, path, lines, encoding='utf-8'):
    M.dict_set(I, st, I.fs, const(path), T.tup([const('$text'), const(encoding), text(lines)]))


def decimal(x):
    """decimal notation of a number"""
    return T.app('decimal', (x,), 'str')
