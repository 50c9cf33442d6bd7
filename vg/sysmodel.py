"""Abstract environment of an import: warning filters, clock, network, environment variables."""
import ast
from fractions import Fraction

from . import models as M
from . import terms as T
from .program import ClassInfo, Module, FuncInfo
from .terms import TRUE, FALSE, NONE, const, num, and_, not_

PRELUDE = '''
class timedelta:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self._s = days*86400 + seconds + microseconds/1000000 + milliseconds/1000 + minutes*60 + hours*3600 + weeks*604800

    @property
    def days(self):
        return self._s // 86400

    @property
    def seconds(self):
        return self._s - (self._s // 86400)*86400

    def total_seconds(self):
        return self._s

    def __lt__(self, o):
        return self._s < o._s

    def __le__(self, o):
        return self._s <= o._s

    def __gt__(self, o):
        return self._s > o._s

    def __ge__(self, o):
        return self._s >= o._s

    def __eq__(self, o):
        return self._s == o._s

    def __add__(self, o):
        return timedelta(seconds=self._s + o._s)

    def __neg__(self):
        return timedelta(seconds=-self._s)

    def __abs__(self):
        return timedelta(seconds=abs(self._s))


class datetime:
    def __init__(self, t):
        self._t = t

    @staticmethod
    def now(tz=None):
        return datetime(clock())

    @staticmethod
    def today():
        return datetime(clock())

    @staticmethod
    def strptime(text, format):
        return datetime(parse(text, format))

    @staticmethod
    def fromisoformat(text):
        return datetime(parse(text, None))

    @staticmethod
    def fromtimestamp(t):
        return datetime(t)

    def timestamp(self):
        return self._t

    def isoformat(self, sep="T", timespec="auto"):
        return iso(self._t, sep, timespec)

    def strftime(self, format):
        return formatted(self._t, format)

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return datetime(self._t - o._s)
        return timedelta(seconds=self._t - o._t)

    def __add__(self, o):
        return datetime(self._t + o._s)

    def __lt__(self, o):
        return self._t < o._t

    def __le__(self, o):
        return self._t <= o._t

    def __gt__(self, o):
        return self._t > o._t

    def __ge__(self, o):
        return self._t >= o._t
'''

MICRO = '%Y-%m-%dT%H:%M:%S.%f'


def prelude(I):
    m = Module('<model>', '<model>', '<model>')
    m.tree = ast.parse(PRELUDE)
    I.P._exec(m, m.tree.body)
    for n in ('clock', 'parse', 'iso', 'formatted'):
        from .program import Binding
        m.env[n] = Binding('ext', value='<model>.' + n)
    return m


def flag(name, *a):
    return T.truth_atom(T.app('in:' + name, a, 'sym'))


def install(I, st):
    S = I.stubs
    m = prelude(I)
    for n in ('datetime', 'timedelta'):
        I.extvals['datetime.' + n] = I.classval(m.env[n].value)
    I.clock = T.var('now', '+')
    S['<model>.clock'] = lambda I_, s, _, a, k: I.clock

    def whole(t):
        """isoformat() leaves out the fraction of a second when there is none"""
        return T.truth_atom(T.app('in:whole second', (t,), 'sym'))

    def iso(I_, s, _, a, k):
        t, sep, spec = a
        if sep is const('T') and spec is const('auto'):
            return T.app('iso', (t,), 'str')
        return T.app('iso', (t, sep, spec), 'str')

    def formatted(I_, s, _, a, k):
        return T.app('strftime', tuple(a), 'str')

    def parse(I_, s, _, a, k):
        text, fmt = a

        def one(q, l):
            if l.kind == 'app' and l.a[0] == 'iso':
                x = l.a[1]
                if fmt is const(MICRO) and len(x) == 1:
                    refuse(q, whole(x[0]))
                elif fmt is not NONE:
                    refuse(q, TRUE)
                return x[0]
            if l.kind == 'app' and l.a[0] == 'strftime':
                refuse(q, FALSE if l.a[1][1] is fmt else TRUE)
                return l.a[1][0]
            if l.kind == 'app':
                refuse(q, flag('not a date', l))
                return T.numapp('date', [l])
            if l.kind == 'const' and isinstance(l.a, str):
                import datetime as dt
                try:
                    d = dt.datetime.strptime(l.a, fmt.a) if fmt is not NONE else dt.datetime.fromisoformat(l.a)
                except ValueError:
                    refuse(q, TRUE)
                return num(int((d - dt.datetime(1970, 1, 1)).total_seconds()))
            I.raise_named(q, 'TypeError', 'strptime() argument 1 must be str')

        def refuse(q, c):
            I.raise_if(q, c, 'ValueError', 'does not match format')
            q.guard = and_(q.guard, not_(c))
            if q.guard is FALSE:
                from .interp import Dead
                raise Dead()
        return I.split(st_of(s), text, one)

    def st_of(s):
        return s
    S['<model>.parse'], S['<model>.iso'], S['<model>.formatted'] = parse, iso, formatted

    # environment variables
    I.environ = I.newdict(st, [])
    I.extvals['os.environ'] = I.environ
    S['os.getenv'] = lambda I_, s, _, a, k: I.call_method(s, I.environ, 'get', list(a), k)

    # network: one page whose content is chosen by the law, or an error
    I.net = {'error': None, 'asked': 0}

    def urlopen(I_, s, _, a, k):
        I.net['asked'] += 1
        s.effects = s.effects + ((TRUE, T.app('effect:urlopen', ())),)
        e = I.net['error']
        if e is not None:
            I.raise_named(s, e, 'network')
        return I.new(s, I.bcls('file'), {'name': const('$url')})
    S['urllib.request.urlopen'] = urlopen
    S['urllib.request.Request'] = lambda I_, s, _, a, k: T.app('request', (), 'sym')
    for n, b in (('URLError', 'OSError'), ('HTTPError', 'OSError'), ('SSLError', 'OSError'), ('InvalidVersion', 'ValueError'),
                 ('JSONDecodeError', 'ValueError')):
        I.P.builtins.setdefault(n, ClassInfo(n, None, [I.bcls(b)], builtin=True))
    for n in ('urllib.error.URLError', 'urllib.error.HTTPError', 'ssl.SSLError', 'packaging.version.InvalidVersion', 'json.JSONDecodeError',
              'json.decoder.JSONDecodeError'):
        I.extvals[n] = I.classval(I.bcls(n.split('.')[-1]))

    def version(I_, s, _, a, k):
        def one(q, l):
            if l.kind == 'const' and not isinstance(l.a, str) or l.kind not in ('const', 'app'):
                I.raise_named(q, 'TypeError', 'expected string')
            if l.kind == 'app' and l.a[0] == 'in:bad version':
                I.raise_named(q, 'InvalidVersion', 'invalid')
            if l.kind == 'const':
                try:
                    p = [int(x) for x in l.a.split('.')]
                except ValueError:
                    I.raise_named(q, 'InvalidVersion', 'invalid')
                return num(sum(Fraction(x, 10000 ** i) for i, x in enumerate(p)))
            return T.numapp('version', [l])
        return I.split(s, a[0], one)
    S['packaging.version.Version'] = S['packaging.version.parse'] = version
    warnings_model(I, st)


def warnings_model(I, st):
    S = I.stubs
    I.filters = I.newlist(st, [])

    def add(s, action, category, append, plain):
        o = I.heapget(s, I.filters.a)
        e = T.tup([action, category, plain])
        rest = [x for g, x in o.items if x is not e]
        if any(g is not TRUE for g, _ in o.items):
            raise T.Unsupported('conditional warning filter')
        items = rest + [e] if append else [e] + rest
        if append and len(rest) != len(o.items):
            items = [x for _, x in o.items]
        I.write(s, I.filters).items = tuple((TRUE, x) for x in items)
        return NONE

    def arg(a, k, i, name, default):
        return a[i] if len(a) > i else k.get(name, default)

    W = I.classval(I.bcls('Warning'))

    def filterwarnings(I_, s, _, a, k):
        plain = all(arg(a, k, i, n, d) is d for i, n, d in ((1, 'message', const('')), (3, 'module', const('')), (4, 'lineno', num(0))))
        return add(s, arg(a, k, 0, 'action', None), arg(a, k, 2, 'category', W), arg(a, k, 5, 'append', FALSE) is TRUE, const(plain))

    def simplefilter(I_, s, _, a, k):
        plain = arg(a, k, 2, 'lineno', num(0)) is num(0)
        return add(s, arg(a, k, 0, 'action', None), arg(a, k, 1, 'category', W), arg(a, k, 3, 'append', FALSE) is TRUE, const(plain))

    def resetwarnings(I_, s, _, a, k):
        I.write(s, I.filters).items = ()
        return NONE
    S['warnings.filterwarnings'], S['warnings.simplefilter'], S['warnings.resetwarnings'] = filterwarnings, simplefilter, resetwarnings


def action(I, st, category, default=const('default')):
    """what happens to a warning of that category"""
    for g, e in I.heapget(st, I.filters.a).items:
        act, cat, plain = e.a
        if plain is TRUE and cat.kind == 'class' and category.issub(cat.a):
            return act
    return default


def run_module(I, st, m):
    """the statements of a module after its definitions and imports, in order"""
    from .interp import Frame
    f = FuncInfo('<import of %s>' % m.name, ast.parse('def f(): pass').body[0], m)
    env = I.new(st, I.bcls('object'), {}).a
    I.modenv[m.name] = env
    fr = Frame(f, env)
    I.frames.append(fr)
    try:
        I.exec_block([x for x in m.tree.body if not isinstance(x, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef))], st)
    finally:
        I.frames.pop()
