"""Warning modes: what is shown, and what is remembered."""
import ast
import itertools
from . import law
from .common import *
from .c25_preferences import dict_of
from vg import sysmodel
from vg.models import dict_set
from vg.program import Module

MODES = ('beginner', 'expert', 'silent')
#            BeginnerHint, ExpertNote, UserWarning, DeprecationWarning, a UserWarning of the user
SHOWN = {'beginner': ('always', 'default', 'default', 'default'),
         'expert': ('ignore', 'once', 'once', 'once'),
         'silent': ('ignore', 'ignore', 'ignore', 'ignore')}
OTHERS = ('RuntimeWarning', 'FutureWarning', 'ImportWarning', 'Warning')


def categories(L):
    return [L.P.cls('BeginnerHint'), L.P.cls('ExpertNote'), L.I.bcls('UserWarning'), L.I.bcls('DeprecationWarning')]


def mode(L, m, **kw):
    f = L.fn('utils', m + 'Mode')
    L.entry = '%sMode (raytracing/utils.py)' % m
    return L.apply(f, **kw)


def check_mode(L, label, m):
    for c, want in zip(categories(L), SHOWN[m]):
        got = sysmodel.action(L.I, L.st, c)
        L.eq('%s: %s' % (label, c.name), got, L.v(want))


def filters_before(L, kind):
    W = {'user error': ('UserWarning', 'error'), 'all ignored': ('Warning', 'ignore'), 'all errors': ('Warning', 'error'),
         'all always': ('Warning', 'always')}
    if kind in W:
        c, a = W[kind]
        L.I.write(L.st, L.I.filters).items = ((TRUE, T.tup([T.const(a), L.bcls(c), TRUE])),)
    elif kind == 'anything':
        L.I.write(L.st, L.I.filters).items = tuple(
            (TRUE, T.tup([L.sym('action of ' + c.name), L.I.classval(c), TRUE]))
            for c in categories(L) + [L.I.bcls(o) for o in OTHERS])


BEFORE = ['none', 'user error', 'all ignored', 'all errors', 'all always', 'anything']


@law('C26', [(m, b) for m in MODES for b in BEFORE])
def the_mode_decides(L, m, before):
    """whatever the filters were, the mode decides what happens to each kind of message"""
    L.system()
    filters_before(L, before)
    mode(L, m)
    check_mode(L, m, m)


@law('C26', [(n,) for n in (2, 3)], thorough=[(5,)])
def last_mode_wins(L, n):
    """all sequences of modes"""
    base = L.st
    L.system()
    base = L.st
    for seq in itertools.product(MODES, repeat=n):
        L.st = base.fork(base.guard)
        for m in seq:
            mode(L, m)
        check_mode(L, ' '.join(seq), seq[-1])


@law('C26', [(m,) for m in ('beginner', 'expert')])
def other_warnings_untouched(L, m):
    """warnings that raytracing does not give keep their filters"""
    L.system()
    filters_before(L, 'anything')
    mode(L, m)
    for o in OTHERS[:-1]:
        L.eq(o, sysmodel.action(L.I, L.st, L.I.bcls(o)), L.sym('action of ' + o))


KINDS = {'nothing': {}, 'other things': {'lastVersionCheck': 'x', 'other': 'y'}, 'a mode': {'mode': 'm', 'other': 'y'}}


@law('C26', [(m, k, s) for m in MODES for k in KINDS for s in ('not', 'no', 'yes', 'positional')])
def remembered_when_asked(L, m, k, saved):
    """the preferences get the mode if and only if it is asked, and keep everything else"""
    L.system()
    p = L.new('Preferences')
    want = {}
    for key, name in KINDS[k].items():
        L.run('p[k] = v', p=p, k=key, v=L.sym(name))
        want[key] = L.sym(name)
    f = L.fn('utils', m + 'Mode')
    if saved == 'positional':
        L.apply(f, True)
    else:
        mode(L, m, **({} if saved == 'not' else {'saveToPrefs': saved == 'yes'}))
    if saved in ('yes', 'positional'):
        want['mode'] = L.v(m)
    check_mode(L, m, m)
    for q, name in ((p, 'same object'), (L.new('Preferences'), 'new object')):
        for key in ('mode', 'lastVersionCheck', 'other'):
            L.eq('%s: %s' % (name, key), L.run('try:\n    return p[k]\nexcept KeyError:\n    return "nothing"', p=q, k=key),
                 want.get(key, L.v('nothing')))


def page(L, content):
    """what the server answers"""
    def f(x):
        if isinstance(x, dict):
            d = L.I.newdict(L.st, [])
            L.I.write(L.st, d).entries = tuple((TRUE, L.v(k), f(y)) for k, y in x.items())
            return d
        if isinstance(x, list):
            return L.v([f(y) for y in x])
        return L.v(x)
    dict_set(L.I, L.st, L.I.fs, L.v('$url'), content if not isinstance(content, (dict, list)) else T.tup([L.v('$json'), f(content)]))


@law('C26', [(m, k) for m in MODES for k in ('with the network', 'without')])
def remembered_mode_is_used(L, m, k):
    """a new session starts in the mode that was saved last"""
    L.system()
    mode(L, 'silent', saveToPrefs=True)
    mode(L, m, saveToPrefs=True)
    for other in MODES:
        mode(L, other)
    if k == 'without':
        L.I.net['error'] = 'URLError'
    else:
        page(L, {'releases': {'1.0': 1}})
    filters_before(L, 'anything')
    L.import_package()
    check_mode(L, 'next session', m)
    L.eq('still saved', L.run('return p["mode"]', p=L.new('Preferences')), L.v(m))


@law('C26', [(m,) for m in MODES + ('none', 'unknown', 'number', 'list')])
def expert_variable(L, m):
    """RAYTRACING_EXPERT gives the expert mode, whatever is saved"""
    L.system()
    L.I.net['error'] = 'URLError'
    if m != 'none':
        v = {'number': L.v(3), 'list': L.v([L.v(1)])}.get(m, L.v(m))
        L.run('p["mode"] = v', p=L.new('Preferences'), v=v)
    L.run('e["RAYTRACING_EXPERT"] = "1"', e=L.I.environ)
    L.import_package()
    check_mode(L, 'RAYTRACING_EXPERT', 'expert')


@law('C26', [(m,) for m in ('none', 'unknown', 'number', 'list', 'null')])
def beginner_by_default(L, m):
    """without a valid saved mode, the messages are those for beginners"""
    L.system()
    L.I.net['error'] = 'URLError'
    if m != 'none':
        v = {'number': L.v(3), 'list': L.v([L.v(1)]), 'null': NONE}.get(m, L.v(m))
        L.run('p["mode"] = v', p=L.new('Preferences'), v=v)
    L.import_package()
    check_mode(L, 'default', 'beginner')


@law('C26')
def categories_of_messages(L):
    """every message that raytracing gives belongs to a category that the modes control"""
    cats = categories(L)
    seen = 0
    for name, m in sorted(L.P.modules.items()):
        if not isinstance(m, Module) or not m.tree or name.endswith('lensViewer'):
            continue
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name))):
                continue
            t = ast.unparse(n.func)
            if t not in ('warnings.warn', 'warn', 'warnings.warn_explicit'):
                continue
            e = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'category'), None)
            seen += 1
            where = '%s:%d' % (m.relpath, n.lineno)
            if e is None:
                L.fact('message without category is a UserWarning', True)
                continue
            c = L.P.resolve_class(e, m)
            if c is None and isinstance(e, ast.Name):
                L.fact('category of a message chosen at run time', True)
                continue
            ok = c is not None and any(c.issub(x) for x in cats[2:])
            L.fact('%s: category %s is controlled by the modes' % (where, ast.unparse(e)), ok, 'warnings.warn(..., %s) at %s' % (ast.unparse(e), where))
    L.fact('there are messages', seen > 0)


@law('C26')
def hints_and_notes_are_warnings(L):
    """BeginnerHint and ExpertNote are different kinds of UserWarning"""
    a, b, u, d = categories(L)
    L.fact('BeginnerHint', a.issub(u) and not a.issub(b))
    L.fact('ExpertNote', b.issub(u) and not b.issub(a))
    L.fact('none is an error', not any(c.issub(L.I.bcls('DeprecationWarning')) for c in (a, b)))


@law('C26')
def text_of_messages(L):
    """a message is shown with its category and the name of the file"""
    L.system()
    f = L.fn('utils', 'warningLineFormat')
    for c in categories(L):
        for path in ('/a/b/test.py', 'test.py', '../x/test.py'):
            L.eq('%s in %s' % (c.name, path), L.apply(f, 'The message', L.I.classval(c), path, 12),
                 L.v('%s [in test.py]: The message\n' % c.name))
            L.eq('%s in %s with line' % (c.name, path), L.apply(f, 'The message', L.I.classval(c), path, 12, 'x = 1'),
                 L.v('%s [in test.py]: The message\n' % c.name))


def warned(L, st):
    return [a for g, a in st.effects if a.kind == 'app' and a.a[0] == 'effect:warn']


@law('C26', [(n, kw) for n in (0, 1, 2) for kw in (0, 1)])
def deprecated_functions_still_work(L, n, kw):
    """what is deprecated warns each time, and gives the same result"""
    L.system()
    args = [L.sym('arg%d' % i) for i in range(n)]
    src = '''
        @deprecated("no longer")
        def f(*args, **kwargs):
            return [args, kwargs.get("k")]
        return [f, f(%s), f(%s)]
    ''' % (('*a' + (', k=x' if kw else ''),) * 2)
    before = len(L.st.effects)
    r = L.run(src, deprecated=L.fn('utils', 'deprecated'), a=T.tup(args), x=L.sym('x'))
    w = [a for a in warned(L, L.st)]
    L.fact('one message per call', len(w) == 2, '%d messages' % len(w))
    for a in w:
        c = a.a[1][0]
        L.fact('DeprecationWarning', c.kind == 'class' and c.a.issub(L.I.bcls('DeprecationWarning')))
    for i in (1, 2):
        v = L.idx(r, i)
        L.eq('arguments', L.idx(v, 0), T.tup(args))
        L.eq('keyword', L.idx(v, 1), L.sym('x') if kw else NONE)
