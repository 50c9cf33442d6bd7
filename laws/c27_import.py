"""Importing raytracing always works."""
import itertools
from . import law
from .common import *
from .c25_preferences import FILES, setup as _setup, content, dict_of, has
from .c26_warning_modes import page, check_mode, MODES
from vg import sysmodel
from vg.models import dict_set

ERRORS = ['URLError', 'HTTPError', 'SSLError', 'TimeoutError', 'ConnectionResetError', 'ValueError', 'OSError', 'Exception']
PAGES = {'garbage': '<html>', 'empty': '', 'binary': b'\xff', 'list': [1, 2], 'no releases': {'info': 1}, 'releases list': {'releases': ['1.0']},
         'no release': {'releases': {}}, 'releases null': {'releases': None}}


def put_file(L, kind):
    path = L.get(L.new('Preferences'), 'path')
    L.I.write(L.st, L.I.fs).entries = ()
    d = content(L, kind)
    if d is not None:
        v = T.tup([T.const('$json'), dict_of(L, d)])
    elif kind == 'missing':
        return
    else:
        v = {'list': lambda: T.tup([T.const('$json'), L.v([L.v('mode'), L.v(1)])]),
             'pairs': lambda: T.tup([T.const('$json'), L.v([L.v([L.v('mode'), L.v('silent')])])]),
             'number': lambda: T.tup([T.const('$json'), L.v(12)]),
             'string': lambda: T.tup([T.const('$json'), L.v('expert')]),
             'garbage': lambda: L.v('{"mode": '), 'empty': lambda: L.v(''), 'binary': lambda: L.v(b'\xff\x00')}[kind]()
    dict_set(L.I, L.st, L.I.fs, path, v)


def network(L, kind):
    if kind == 'down':
        L.I.net['error'] = 'URLError'
    else:
        page(L, {'releases': {'1.0': 1, '99.0': 1}})


def asked(L, st=None):
    """how many times the network was used"""
    return sum(1 for g, a in (st or L.st).effects if a.kind == 'app' and a.a[0] == 'effect:urlopen')


@law('C27', [(k, w, n) for k in FILES for w in ('writable', 'read only') for n in ('up', 'down')])
def any_preferences_file(L, kind, disk, net):
    """whatever is in the file, writable or not, with or without the network"""
    L.system()
    put_file(L, kind)
    network(L, net)
    if disk == 'read only':
        L.I.fs_fail = TRUE
    a = L.attempt(L.import_package)
    L.quiet('the import raises nothing', a)
    if kind not in ('some',):
        check_mode(L, 'mode', 'beginner')


@law('C27', [(k, d) for k in ('readable', 'odd') for d in ('writable', 'read only')])
def expert_variable_on_any_disk(L, kind, disk):
    """RAYTRACING_EXPERT works even if nothing can be saved"""
    L.system()
    put_file(L, 'other' if kind == 'readable' else 'garbage')
    network(L, 'down')
    L.run('e["RAYTRACING_EXPERT"] = "1"', e=L.I.environ)
    if disk == 'read only':
        L.I.fs_fail = TRUE
    a = L.attempt(L.import_package)
    L.quiet('the import raises nothing', a)
    check_mode(L, 'RAYTRACING_EXPERT', 'expert')


VALUES = {'a string': lambda L: L.sym('text'), 'empty': lambda L: L.v(''), 'number': lambda L: L.v(12), 'decimal': lambda L: L.var('x'),
          'null': lambda L: NONE, 'true': lambda L: TRUE, 'list': lambda L: L.v([L.v(1)]), 'dict': lambda L: L.I.newdict(L.st, []),
          'date': lambda L: L.v('2024-02-30'), 'no fraction': lambda L: L.v('2024-02-20T10:20:30'), 'good': lambda L: L.v('2024-02-20T10:20:30.123')}


@law('C27', [(k, v) for k in ('lastVersionCheck', 'mode', 'both') for v in VALUES])
def any_saved_value(L, key, kind):
    """whatever was saved by another version"""
    L.system()
    d = {}
    for k in (('lastVersionCheck', 'mode') if key == 'both' else (key,)):
        x = VALUES[kind](L)
        if kind == 'a string':
            x = T.app('in:text of ' + k, (), 'str')
        d[k] = (TRUE, x)
    d['other'] = (TRUE, L.sym('other'))
    path = L.get(L.new('Preferences'), 'path')
    dict_set(L.I, L.st, L.I.fs, path, T.tup([T.const('$json'), dict_of(L, d)]))
    network(L, 'down')
    a = L.attempt(L.import_package)
    L.quiet('the import raises nothing', a)
    q = L.new('Preferences')
    L.eq('the others are kept', L.run('return p["other"]', p=q), L.sym('other'))
    if kind not in ('a string', 'good'):
        L.iff('the time of the check is saved', has(L, q, 'lastVersionCheck'), TRUE)


def check(L, current):
    L.entry = 'checkLatestVersion (raytracing/utils.py)'
    return L.attempt(lambda: L.apply(L.fn('utils', 'checkLatestVersion'), currentVersion=current))


@law('C27', [(e,) for e in ERRORS])
def network_errors(L, e):
    """no network error goes through"""
    L.system()
    L.I.net['error'] = e
    a = check(L, '1.0')
    L.quiet('raises nothing', a)
    L.eq('no newer version known', a.value, L.v(False))
    a = L.attempt(L.import_package)
    L.quiet('the import raises nothing', a)


@law('C27', [(k,) for k in PAGES])
def odd_answers(L, k):
    """nor any answer of the server"""
    L.system()
    page(L, PAGES[k]) if isinstance(PAGES[k], (dict, list)) else dict_set(L.I, L.st, L.I.fs, L.v('$url'), L.v(PAGES[k]))
    a = check(L, '1.0')
    L.quiet('raises nothing', a)
    if k != 'releases list':
        L.eq('no newer version known', a.value, L.v(False))
    a = L.attempt(L.import_package)
    L.quiet('the import raises nothing', a)


@law('C27', [(m,) for m in ('packaging', 'urllib', 'json')])
def missing_modules(L, m):
    """nor a module that is not installed"""
    L.system()
    page(L, {'releases': {'1.0': 1}})
    L.I.missing[m] = TRUE
    a = check(L, '1.0')
    L.quiet('raises nothing', a)
    if m == 'packaging':
        L.eq('no newer version known', a.value, L.v(False))
    a = L.attempt(L.import_package)
    L.quiet('the import raises nothing', a)


@law('C27')
def one_version(L):
    """any version, when only one is listed"""
    L.system()
    x = T.app('in:version', (), 'str')
    rel = L.I.newdict(L.st, [])
    L.I.write(L.st, rel).entries = ((TRUE, x, L.v(1)),)
    top = L.I.newdict(L.st, [])
    L.I.write(L.st, top).entries = ((TRUE, T.const('releases'), rel),)
    dict_set(L.I, L.st, L.I.fs, L.v('$url'), T.tup([T.const('$json'), top]))
    cur = T.app('in:current', (), 'str')
    a = check(L, cur)
    L.quiet('raises nothing', a)
    L.iff('announced', L.I.truth(L.st, a.value), T.cmp_num('<', T.numapp('version', [cur]), T.numapp('version', [x])))


VERSIONS = ['0.9', '1.3.9', '1.3.12', '1.10.0', '2.0']


@law('C27', [(n,) for n in (2, 3)], thorough=[(4,), (5,)])
def newer_version(L, n):
    """a newer version is announced if and only if there is one, in whatever order they are listed"""
    L.system()
    base = L.st
    for names in itertools.permutations(VERSIONS, n):
        for cur in ('1.3.9', '1.3.11', '1.3.12', '2.0', '3.1'):
            L.st = base.fork(base.guard)
            page(L, {'releases': {x: 1 for x in names}})
            a = check(L, cur)
            L.quiet('raises nothing', a)
            key = lambda v: [int(x) for x in v.split('.')]
            L.iff('%s with %s' % (cur, ', '.join(names)), L.I.truth(L.st, a.value), T.const(any(key(x) > key(cur) for x in names)))


@law('C27')
def bad_version_listed(L):
    """a version number that cannot be read is not an error"""
    L.system()
    for names in (['1.0', None], [None, '1.0'], [None]):
        rel = L.I.newdict(L.st, [])
        L.I.write(L.st, rel).entries = tuple((TRUE, L.v(x) if x else T.app('in:bad version', (), 'str'), L.v(1)) for x in names)
        top = L.I.newdict(L.st, [])
        L.I.write(L.st, top).entries = ((TRUE, T.const('releases'), rel),)
        dict_set(L.I, L.st, L.I.fs, L.v('$url'), T.tup([T.const('$json'), top]))
        L.quiet('raises nothing', check(L, '0.5'))


H = 3600
AGES = [0, 1, 60, H, 6 * H, 12 * H, 23 * H, 24 * H - 1, 24 * H + 1, 25 * H, 30 * H, 36 * H, 47 * H, 48 * H - 1, 48 * H + 1, 71 * H, 72 * H + 1,
        7 * 24 * H, 365 * 24 * H]


@law('C27', [(n, m) for n in ('up', 'down') for m in ('expert', 'none')])
def asked_once_a_day(L, net, saved):
    """after an import that asked for the latest version, whatever the answer, imports do not ask again for a day, and then do"""
    L.system()
    if saved != 'none':
        L.run('p["mode"] = v', p=L.new('Preferences'), v=saved)
    network(L, net)
    t0 = L.I.clock
    L.assume(not_(T.truth_atom(T.app('in:whole second', (t0,), 'sym'))))
    n = asked(L)
    L.import_package()
    L.fact('asked the first time', asked(L) == n + 1, '%d requests' % (asked(L) - n))
    base = L.st
    for age in AGES:
        L.st = base.fork(base.guard)
        L.I.clock = T.add(t0, N(age))
        n = asked(L)
        L.import_package()
        k = asked(L) - n
        L.fact('after %g hours: %s' % (age / H, 'asks' if age > 24 * H else 'does not ask'), k == (1 if age > 24 * H else 0), '%d requests' % k)
        if age > 24 * H:
            L.assume(not_(T.truth_atom(T.app('in:whole second', (L.I.clock,), 'sym'))))
            n = asked(L)
            L.import_package()
            L.fact('after %g hours, twice: asks once' % (age / H), asked(L) == n, '%d requests' % (asked(L) - n))
        L.I.clock = t0


@law('C27')
def version_is_the_one_compared(L):
    """the version compared is the one of the package"""
    L.system()
    network(L, 'up')
    seen = []
    L.I.stubs['packaging.version.Version'] = lambda I, s, _, a, k: (seen.append(a[0]), T.numapp('version', [a[0]]))[1]
    L.import_package()
    m = L.P.module('')
    v = L.I.global_name(L.st, m, '__version__')
    L.fact('__version__ is compared', any(x is v for x in seen), 'compared: %s' % [T.show(x, 2) for x in seen][:5])
