"""Preferences are kept."""
import itertools
from . import law
from .common import *
from vg.models import dict_set
from vg.interp import Dead

KEYS = ('mode', 'lastVersionCheck', 'other')
FILES = ['missing', 'empty dict', 'some', 'other', 'list', 'pairs', 'number', 'string', 'garbage', 'empty', 'binary']


def boolean(L, name):
    return T.truth_atom(L.sym(name))


def content(L, kind, keys=KEYS):
    """JSON content of a file of that kind: {key: (guard, value)}"""
    if kind == 'empty dict':
        return {}
    if kind == 'some':
        return {k: (boolean(L, 'has ' + k), L.sym('saved ' + k)) for k in keys}
    if kind == 'other':
        return {'other': (TRUE, L.sym('saved other'))}
    return None


def dict_of(L, d):
    r = L.I.newdict(L.st, [])
    L.I.write(L.st, r).entries = tuple((g, T.const(k), v) for k, (g, v) in d.items())
    return r


def setup(L, kind):
    """abstract home with a preference file of that kind; (path, saved content)"""
    L.files()
    p = L.new('Preferences')
    path = L.get(p, 'path')
    L.I.write(L.st, L.I.fs).entries = ()
    d = content(L, kind)
    if d is not None:
        v = T.tup([T.const('$json'), dict_of(L, d)])
    elif kind == 'missing':
        return path, {}
    else:
        v = {'list': lambda: T.tup([T.const('$json'), L.v([L.v('mode'), L.v(1)])]),
             'pairs': lambda: T.tup([T.const('$json'), L.v([L.v([L.v('mode'), L.v('silent')])])]),
             'number': lambda: T.tup([T.const('$json'), L.v(12)]),
             'string': lambda: T.tup([T.const('$json'), L.v('expert')]),
             'garbage': lambda: L.v('{"mode": '), 'empty': lambda: L.v(''), 'binary': lambda: L.v(b'\xff\x00')}[kind]()
    dict_set(L.I, L.st, L.I.fs, path, v)
    return path, d or {}


def entries(L, p):
    """{key: (guard, value)} in memory"""
    o = L.I.obj(L.st, p)
    r = {}
    for g, k, v in o.entries:
        if k.kind == 'const':
            if k.a in r:
                g0, v0 = r[k.a]
                v = ite(g, v, v0)
                g = T.or_(g, g0)
            r[k.a] = (g, v)
    return r


def has(L, p, k):
    return L.I.truth(L.st, L.run('return k in p', k=k, p=p))


def gives(L, label, p, want, keys=KEYS):
    """p answers as a dict {key: (guard, value)} would"""
    for k in keys:
        g, v = want.get(k, (FALSE, NONE))
        a = L.trial(lambda: L.idx(p, k))
        L.raises('%s: no %s, KeyError' % (label, k), a, 'KeyError', not_(g))
        if g is not FALSE:
            L.in_state(a.after, lambda: L.eq('%s: value of %s' % (label, k), a.value, v, g)) if a.value is not None else \
                L.fact('%s: value of %s' % (label, k), False)
        L.eq('%s: get(%s)' % (label, k), L.trial(lambda: L.run('return p.get(k)', p=p, k=k)).value, ite(g, v, NONE))
        L.iff('%s: %s is in' % (label, k), L.I.truth(L.st, L.trial(lambda: L.run('return k in p', k=k, p=p)).value), g)


def everywhere(L, label, ps, want):
    """existing and new Preferences objects give the same"""
    for i, p in enumerate(ps):
        gives(L, '%s, object %d' % (label, i + 1), p, want)
    s = L.fork()

    def fresh():
        q = L.new('Preferences')
        gives(L, label + ', new object', q, want)
        L.run('for k in p:\n    pass', p=q)
        for k in KEYS:
            g, v = want.get(k, (FALSE, NONE))
            L.iff('%s, new object: %s is in' % (label, k), has(L, q, k), g)
    L.in_state(s, fresh)


def arbitrary(L, p, name):
    """p has been used for a long time: anything may be in its memory"""
    d = {k: (boolean(L, '%s has %s' % (name, k)), L.sym('%s %s' % (name, k))) for k in KEYS}
    L.I.write(L.st, p).entries = tuple((g, T.const(k), v) for k, (g, v) in d.items())


def two(L, kind):
    path, d = setup(L, kind)
    a, b = L.new('Preferences'), L.new('Preferences')
    return path, d, a, b


GOOD = ['missing', 'empty dict', 'some', 'other']


@law('C25', GOOD)
def what_is_saved_is_read(L, kind):
    """with anything in memory, an object gives what is in the file, and reading changes nothing"""
    path, d, a, b = two(L, kind)
    arbitrary(L, a, 'a')
    s = L.fork()
    everywhere(L, 'read', [a, b], d)
    L.in_state(s, lambda: everywhere(L, 'read again', [b, a], d))


OPS = ['set', 'delete', 'pop', 'reset', 'update', 'update keyword', 'constructor', 'constructor dict', 'setdefault-like', 'setdefault', 'pop default', 'pop something']


@law('C25', [(k, o) for k in GOOD for o in OPS])
def one_change(L, kind, op):
    """with anything in memory and in the file: every object sees a change made through any of them, and nothing else changes"""
    path, d, a, b = two(L, kind)
    arbitrary(L, a, 'a')
    arbitrary(L, b, 'b')
    v, w = L.sym('new'), L.sym('new2')
    want = dict(d)
    if op == 'set':
        L.run('p["mode"] = v', p=a, v=v)
        want['mode'] = (TRUE, v)
    elif op in ('delete', 'pop'):
        g, old = d.get('mode', (FALSE, NONE))
        if g is FALSE:
            t = L.trial(lambda: L.run('del p["mode"]' if op == 'delete' else 'p.pop("mode")', p=a))
            L.raises('nothing to remove', t, 'KeyError')
            return
        L.assume(g)
        r = L.run('del p["mode"]' if op == 'delete' else 'return p.pop("mode")', p=a)
        if op == 'pop':
            L.eq('value removed', r, old)
        want['mode'] = (FALSE, NONE)
    elif op == 'reset':
        L.call(a, 'resetPreferences')
        want = {}
        L.eq('empty', L.length(a), N(0))
    elif op == 'update':
        L.call(a, 'update', dict_of(L, {'mode': (TRUE, v), 'other': (TRUE, w)}))
        want.update(mode=(TRUE, v), other=(TRUE, w))
    elif op == 'update keyword':
        L.call(a, 'update', mode=v)
        want['mode'] = (TRUE, v)
    elif op == 'constructor':
        c = L.new('Preferences', mode=v)
        want['mode'] = (TRUE, v)
        gives(L, 'made with a value', c, want)
    elif op == 'constructor dict':
        c = L.new('Preferences', dict_of(L, {'other': (TRUE, w)}), mode=v)
        want.update(mode=(TRUE, v), other=(TRUE, w))
        gives(L, 'made with values', c, want)
    elif op == 'setdefault':
        g, old = d.get('mode', (FALSE, NONE))
        r = L.run('return p.setdefault("mode", v)', p=a, v=v)
        L.eq('what setdefault() gives', r, ite(g, old, v))
        want['mode'] = (TRUE, ite(g, old, v))
    elif op in ('pop default', 'pop something'):
        g, old = d.get('mode', (FALSE, NONE))
        none = v if op == 'pop something' else NONE
        L.eq('what is popped', L.run('return p.pop("mode", v)', p=a, v=none), ite(g, old, none))
        want['mode'] = (FALSE, NONE)
    else:
        L.run('if "mode" not in p.keys():\n    p["mode"] = v', p=L.new('Preferences'), v=v)
        g, old = d.get('mode', (FALSE, NONE))
        want['mode'] = (TRUE, ite(g, old, v))
    everywhere(L, op, [b, a], want)


@law('C25', FILES)
def set_and_read_back(L, kind):
    """whatever was in the file, what is set afterwards is given by every object"""
    path, d = setup(L, kind)
    a = L.new('Preferences')
    b = L.new('Preferences')
    v = L.sym('new')
    L.run('p["mode"] = v', p=a, v=v)
    want = dict(d)
    want['mode'] = (TRUE, v)
    everywhere(L, 'after a file that was ' + kind, [a, b], want)


@law('C25', FILES)
def any_file_is_accepted(L, kind):
    """an odd or missing file is not an error, and the preferences are those that can be read from it"""
    path, d = setup(L, kind)
    a = L.new('Preferences')
    for k in KEYS:
        g, v = d.get(k, (FALSE, NONE))
        L.iff('%s: %s is in' % (kind, k), has(L, a, k), g)
    gives(L, kind, a, d)
    L.call(a, 'readFromDisk')
    gives(L, kind + ', read again', a, d)
    L.call(a, 'resetPreferences')
    everywhere(L, 'reset', [a], {})


@law('C25', [(k, b) for k in GOOD for b in ('set', 'nested', 'object', 'function', 'update', 'constructor')])
def what_cannot_be_saved_is_refused(L, kind, bad):
    """a TypeError, and no change in memory nor in the file"""
    path, d, a, b = two(L, kind)
    v = {'set': 'set()', 'nested': '{"a": [set()]}', 'object': 'object()', 'function': 'set()', 'update': 'set()', 'constructor': 'set()'}[bad]
    x = L.run('return ' + v)
    if bad == 'object':
        x = L.new('Matrix')
    if bad == 'function':
        x = L.fn('utils', 'isAlmostZero')
    if bad == 'update':
        t = L.attempt(lambda: L.call(a, 'update', mode=x))
    elif bad == 'constructor':
        t = L.attempt(lambda: L.new('Preferences', mode=x))
    else:
        t = L.attempt(lambda: L.run('p["mode"] = v', p=a, v=x))
    L.raises('refused', t, 'TypeError')
    if L.st.guard is FALSE:       # go on after the exception, in the state it left
        if not t.raised:
            return
        L.st = t.raised[-1][0]
    everywhere(L, 'after the refusal', [a, b], d)


@law('C25', GOOD)
def file_that_cannot_be_written(L, kind):
    """no error, and the object keeps what was set as long as it lives"""
    path, d = setup(L, kind)
    L.I.fs_fail = TRUE
    a = L.new('Preferences')
    gives(L, 'cannot write', a, d)
    v, w = L.sym('new'), L.sym('new2')
    L.run('p["mode"] = v', p=a, v=v)
    want = dict(d)
    want['mode'] = (TRUE, v)
    L.iff('is in', has(L, a, 'mode'), TRUE)
    gives(L, 'set without disk', a, want)
    gives(L, 'set without disk, again', a, want)
    L.run('p["other"] = v', p=a, v=w)
    want['other'] = (TRUE, w)
    gives(L, 'two set without disk', a, want)
    gives(L, 'nobody else has it', L.new('Preferences'), d)
    L.I.fs_fail = FALSE
    L.run('p["lastVersionCheck"] = v', p=a, v=w)
    want['lastVersionCheck'] = (TRUE, w)
    everywhere(L, 'disk is back', [a], want)


@law('C25', GOOD)
def written_again_after_a_failure(L, kind):
    """once the disk is back, objects follow the file again"""
    path, d, a, b = two(L, kind)
    v, w, x = L.sym('v'), L.sym('w'), L.sym('x')
    L.I.fs_fail = TRUE
    L.run('p["mode"] = v', p=a, v=v)
    L.I.fs_fail = FALSE
    L.run('p["mode"] = v', p=a, v=w)
    want = dict(d)
    want['mode'] = (TRUE, w)
    everywhere(L, 'written at last', [a, b], want)
    L.run('p["mode"] = v', p=b, v=x)
    want['mode'] = (TRUE, x)
    everywhere(L, 'then by another', [a, b], want)


def script(L, n, kind, ops):
    path, d = setup(L, kind)
    ps = [L.new('Preferences'), L.new('Preferences')]
    want = dict(d)
    for i, (op, who) in enumerate(ops):
        p, v = ps[who], L.sym('v%d' % i)
        if op in ('a', 'b'):
            k = 'mode' if op == 'a' else 'other'
            L.run('p[k] = v', p=p, v=v, k=k)
            want[k] = (TRUE, v)
        elif op == 'read':
            L.run('try:\n    p["mode"]\nexcept KeyError:\n    pass', p=p)
        elif op == 'new':
            ps[who] = L.new('Preferences')
        elif op == 'del':
            L.run('try:\n    del p["mode"]\nexcept KeyError:\n    pass', p=p)
            want['mode'] = (FALSE, NONE)
        else:
            L.call(p, 'resetPreferences')
            want = {}
    everywhere(L, ' '.join('%s%d' % o for o in ops), ps, want)


ACTIONS = [(o, w) for o in ('a', 'b', 'del', 'read', 'reset', 'new') for w in (0, 1)]


@law('C25', [(o, w) for o, w in ACTIONS])
def histories_of_two_objects(L, op, who):
    """all histories of three operations on two objects that start with this one"""
    base = L.st
    first = (op, who)
    for rest in itertools.product(ACTIONS, repeat=2):
        L.st = base.fork(base.guard)
        script(L, 3, 'missing', (first,) + rest)


@law('C25', variants=(), thorough=[(a, b) for a in ACTIONS for b in ACTIONS])
def long_histories(L, a, b):
    """all histories of four operations on two objects"""
    base = L.st
    for rest in itertools.product(ACTIONS, repeat=2):
        L.st = base.fork(base.guard)
        script(L, 4, 'other', (a, b) + rest)


@law('C25')
def several_users(L):
    """objects share what is saved, not their dictionaries"""
    setup(L, 'missing')
    a, b = L.new('Preferences'), L.new('Preferences')
    L.fact('different objects', a is not b)
    v = L.v([L.v(1), L.v(2)])
    L.run('p["other"] = v', p=a, v=v)
    L.call(v, 'append', 3)
    L.eq('the value as it was when it was set', L.run('return p["other"] == [1, 2]', p=b), TRUE)
    L.eq('for the one that set it too', L.run('return p["other"] == [1, 2]', p=a), TRUE)


SYSTEMS = {'Linux': '.config', 'Darwin': 'Library/Preferences'}


@law('C25', [(k, d) for k in list(SYSTEMS) + ['other'] for d in ('there', 'missing', 'impossible')])
def where_they_are(L, system, folder):
    """in the folder of the user for preferences, whatever the current folder; where there is none, in the current one; never an error"""
    L.files()
    S = L.I.stubs
    home = T.const('/home/me')
    S['platform.system'] = lambda I, st, me, a, k: T.const(system if system != 'other' else 'Plan9')
    S['os.path.expanduser'] = lambda I, st, me, a, k: T.const(a[0].a.replace('~', home.a, 1))
    made = []
    old = S['os.path.exists']

    def exists(I, st, me, a, k):
        if a[0].kind == 'const' and not str(a[0].a).endswith('.json'):
            return T.const(folder == 'there' or a[0].a in made)
        return old(I, st, me, a, k)

    def mkdir(I, st, me, a, k):
        if folder == 'impossible':
            I.raise_named(st, 'PermissionError', 'Permission denied')
        made.append(a[0].a)
        return NONE
    S['os.path.exists'] = S['os.path.isdir'] = exists
    S['os.mkdir'] = S['os.makedirs'] = mkdir
    t = L.attempt(lambda: L.new('Preferences'))
    L.quiet('never an error', t)
    path = L.get(t.value, 'path').a
    L.note(t.value, '__init__')
    if system in SYSTEMS and (folder == 'there' or system == 'Linux' and folder == 'missing'):
        L.fact('in the folder of the user for preferences', path.startswith(home.a + '/' + SYSTEMS[system] + '/'), path)
        if folder == 'missing':
            L.fact('which is created', made == [home.a + '/' + SYSTEMS[system]], '%s' % made)
    L.fact('always the same file', path.split('/')[-1] == 'ca.dcclab.python.raytracing.json', path)
    other = L.attempt(lambda: L.new('Preferences'))
    L.quiet('again', other)
    L.fact('the same for all objects', L.get(other.value, 'path').a == path, path)
