"""Deciding equality of gated terms.

proved  : under the care guard both terms have the same normal form.
refuted : random interpretation (Gulwani & Necula) of the two *terms* assigns
          the indeterminates values under which the guard is true and the
          terms denote different values.  Values are drawn so that every
          decision atom of the difference can be driven to each of its signs.
open    : neither (counted, never reported as a violation).
"""
import cmath
import math
import random
import time
from fractions import Fraction

from . import rat as R
from . import terms as T
from .feas import feasible
from .rat import ATOMS
from .terms import Leaf, Node, TRUE, FALSE, and_, lift, restrict

F0 = Fraction(0)


class Skip(Exception):
    """valuation unusable (ambiguous rounding, domain violated ...)"""


SETS = [
    [Fraction(x) for x in (-3, -2, -1, 1, 2, 3)],
    [Fraction(a, b) for a in range(-9, 10) for b in (1, 2, 3, 4, 5) if a],
    [Fraction(a, b) for a in (-50, -20, -11, -7, 7, 10, 13, 25, 40, 50) for b in (1, 10)],
]


class Valuation:
    def __init__(self, rng, base=None):
        self.rng = rng
        self.v = dict(base or {})
        self.truth = {}
        self.hash = {}
        self.clear()
        self.mode = rng.randrange(3)

    def clear(self):
        self.memo = {}
        self.amemo = {}
        self.inexact = False
        self.weak = False

    # ---------------------------------------------------------- atoms
    def pick(self, a):
        r = self.rng
        x = r.choice(SETS[self.mode if r.random() < .7 else r.randrange(3)])
        s = a.sign
        if r.random() < .08 and s in (None, '0+', '0-'):
            x = F0
        if s in ('+', '0+'):
            x = abs(x)
        elif s in ('-', '0-'):
            x = -abs(x)
        elif s == '0':
            x = F0
        if a.isint:
            x = Fraction(math.ceil(x))
        if a.lo is not None and x < a.lo or a.hi is not None and x > a.hi:
            lo = a.lo if a.lo is not None else a.hi - 10
            hi = a.hi if a.hi is not None else a.lo + 10
            x = lo + (hi - lo) * Fraction(r.randrange(1, 40), 40)
            if a.isint:
                x = Fraction(round(x))
        return x

    def ok_domain(self, a, x):
        s = a.sign
        if s == '+' and x <= 0 or s == '0+' and x < 0 or s == '-' and x >= 0 or s == '0-' and x > 0:
            return False
        if s == '!0' and x == 0 or s == '0' and x != 0:
            return False
        if a.isint and x.denominator != 1:
            return False
        if a.lo is not None and x < a.lo or a.hi is not None and x > a.hi:
            return False
        return True

    def atom(self, aid):
        """(re, im) of an atom"""
        r = self.amemo.get(aid)
        if r is None:
            a = ATOMS.info[aid]
            if a.kind == 'I':
                r = (F0, Fraction(1))
            elif a.kind == 'pi':
                self.inexact = True
                r = (Fraction(math.pi), F0)
            elif a.kind == 'var':
                if aid not in self.v:
                    self.v[aid] = self.pick(a)
                r = (self.v[aid], F0)
            else:
                r = self.app(a)
            self.amemo[aid] = r
        return r

    def app(self, a):
        fn = a.fn
        vals = [self.eval(x) for x in a.args]
        if fn is None or len(vals) == 1 and a.args and type(a.args[0]) is Leaf and a.args[0].kind == 'app':
            x = a.args[0] if a.args else None
            if x is not None and not self.is_input(x):
                self.weak = True
            return (self.hashnum(('opaque', a.key if fn is None else fn, tuple(vals)), a), F0)
        if any(v in ('err', 'nan') for v in vals):
            raise Skip()
        if all(v[0] == 'n' for v in vals):
            try:
                z = self.numfn(fn, [(v[1], v[2]) for v in vals])
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Skip()
            if z is not None:
                return z
        self.weak = True
        return (self.hashnum((fn, tuple(vals)), a), F0)

    def is_input(self, l):
        return l.a[0].startswith('in:')

    def hashnum(self, key, a):
        x = self.hash.get(key)
        if x is None:
            x = self.hash[key] = self.pick(a)
        return x

    def numfn(self, fn, zs):
        x, xi = zs[0]
        if fn == 'sqrt':
            if xi != 0 or x < 0:
                raise Skip()
            return (self.isqrt(x), F0)
        if fn == 'csqrt':
            if xi == 0:
                return (self.isqrt(x), F0) if x >= 0 else (F0, self.isqrt(-x))
            self.inexact = True
            c = cmath.sqrt(complex(x, xi))
            return (Fraction(c.real), Fraction(c.imag))
        if fn == 'real':
            return (x, F0)
        if fn == 'imag':
            return (xi, F0)
        if any(z[1] != 0 for z in zs):
            raise Skip()
        if fn == 'floordiv':
            return (Fraction(x // zs[1][0]), F0)
        if fn == 'mod':
            return (x % zs[1][0], F0)
        if fn == 'int':
            return (Fraction(int(x)), F0)
        if fn in ('floor', 'ceil'):
            return (Fraction(getattr(math, fn)(x)), F0)
        if fn == 'round':
            return (Fraction(round(x, int(zs[1][0]))) if len(zs) > 1 else Fraction(round(x)), F0)
        self.inexact = True
        if fn == 'pow':
            return (Fraction(float(x) ** float(zs[1][0])), F0)
        f = getattr(math, {'abs': 'fabs'}.get(fn, fn), None)
        if f is None:
            return None
        return (Fraction(f(*[float(z[0]) for z in zs])), F0)

    def isqrt(self, x):
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator:
            return Fraction(n, d)
        self.inexact = True
        # 40 significant digits
        k = 10 ** 60
        return Fraction(math.isqrt(x.numerator * x.denominator * k * k), x.denominator * k)

    # ---------------------------------------------------------- polys
    def poly(self, p):
        re, im = F0, F0
        for m, c in p.items():
            xr, xi = c, F0
            for aid, e in m:
                ar, ai = self.atom(aid)
                if ai == 0:
                    k = ar ** e
                    xr *= k
                    xi *= k
                else:
                    for _ in range(e):
                        xr, xi = xr * ar - xi * ai, xr * ai + xi * ar
            re += xr
            im += xi
        return re, im

    def mag(self, p):
        m = 0.0
        for mo, c in p.items():
            x = abs(float(c))
            for aid, e in mo:
                ar, ai = self.atom(aid)
                x *= max(abs(float(ar)), abs(float(ai))) ** e
            m = max(m, x)
        return m

    def rat(self, r):
        re, im = self.poly(r.num)
        for f, e in r.den:
            dr, di = self.poly(dict(f))
            n = dr * dr + di * di
            if n == 0:
                return 'err'
            if self.inexact and float(n) < 1e-18:
                raise Skip()
            for _ in range(e):
                re, im = (re * dr + im * di) / n, (im * dr - re * di) / n
        return ('n', re, im)

    def sign(self, p):
        self_ine = self.inexact
        self.inexact = False
        re, im = self.poly(p)
        ine = self.inexact or any(ATOMS.info[a].kind != 'var' and ATOMS.info[a].kind != 'I' for a in R.patoms(p))
        self.inexact = self_ine or self.inexact
        if im != 0:
            raise Skip()
        if ine and re != 0 and abs(float(re)) < 1e-9 * max(self.mag(p), 1e-30):
            raise Skip()
        return 0 if re < 0 else 1 if re == 0 else 2

    # ---------------------------------------------------------- values
    def decide(self, at):
        if at.kind == 'sgn':
            return self.sign(at.data)
        return 0 if self.pred(at.data) else 1

    def pred(self, t):
        fn, args, _ = t.a
        vals = tuple(self.eval(x) for x in args)
        if fn == '==' and len(vals) == 2:
            a, b = vals
            c = same(a, b, self.inexact)
            if c is not None:
                return c
        k = (fn, vals)
        x = self.truth.get(k)
        if x is None:
            x = self.truth[k] = self.rng.random() < .5
        if not fn.startswith('in:') and not all(type(a) is Leaf and (a.kind != 'app' or self.is_input(a)) for a in args):
            self.weak = True
        return x

    def eval(self, v):
        r = self.memo.get(v.id)
        if r is not None:
            return r
        w = v
        while type(w) is Node:
            w = w.br[self.decide(w.atom)]
        r = self.leafval(w)
        self.memo[v.id] = r
        return r

    def leafval(self, l):
        k = l.kind
        if k == 'num':
            return self.rat(l.a)
        if k == 'inf':
            return ('inf', l.a)
        if k in ('nan', 'err'):
            return k
        if k == 'const':
            return ('c', l.id, l.a)
        if k == 'tup':
            return ('t', l.b.name if l.b is not None else None, tuple(self.eval(x) for x in l.a))
        if k == 'app':
            fn, args, ty = l.a
            return ('in' if fn.startswith('in:') else 'app', fn, tuple(self.eval(x) for x in args))
        return (k, l.id)


def same(a, b, inexact, tol=1e-7):
    """True / False / None (not comparable)"""
    if a == b:
        return True
    if isinstance(a, str) or isinstance(b, str):
        return False if not (is_opaque(a) or is_opaque(b)) else None
    if a[0] == 'app' or b[0] == 'app':
        return None
    if a[0] == 'c' and isinstance(a[2], bool) and b[0] == 'n':
        a = ('n', Fraction(int(a[2])), F0)
    if b[0] == 'c' and isinstance(b[2], bool) and a[0] == 'n':
        b = ('n', Fraction(int(b[2])), F0)
    if a[0] == 'n' and b[0] == 'n':
        d = math.hypot(float(a[1] - b[1]), float(a[2] - b[2]))
        s = max(abs(float(a[1])), abs(float(a[2])), abs(float(b[1])), abs(float(b[2])))
        return d <= tol * s
    if a[0] == 't' and b[0] == 't':
        if len(a[2]) != len(b[2]):
            return False
        res = True
        for x, y in zip(a[2], b[2]):
            c = same(x, y, inexact, tol)
            if c is False:
                return False
            if c is None:
                res = None
        return res
    return False


def is_opaque(v):
    return not isinstance(v, str) and v[0] == 'app'


def _neq(x, y):
    if x is y:
        return FALSE
    kx, ky = x.kind, y.kind
    if kx == 'const' and isinstance(x.a, bool) and ky == 'num':
        x = T.num(int(x.a))
    if ky == 'const' and isinstance(y.a, bool) and kx == 'num':
        y = T.num(int(y.a))
    if x.kind == 'num' and y.kind == 'num':
        return FALSE if (x.a - y.a).is_zero() else T.cmp_num('!=', x, y)
    if kx == 'tup' and ky == 'tup' and len(x.a) == len(y.a):
        r = FALSE
        for p, q in zip(x.a, y.a):
            r = T.or_(r, lift(_neq, [p, q], T.opmemo('neq')))
        return r
    return TRUE


def difference(x, y, g):
    d = lift(_neq, [x, y], T.opmemo('neq'))
    return and_(g, d)


def sample_path(d, rng):
    """random root-to-TRUE path of a boolean decision diagram"""
    path = []
    while type(d) is Node:
        live = [i for i, b in enumerate(d.br) if b is not FALSE]
        # identical branches: keep any (prefer strict signs)
        i = rng.choice(live)
        if d.atom.kind == 'sgn' and i == 1 and len(live) > 1 and rng.random() < .4:
            i = rng.choice([j for j in live if j != 1])
        same_ = [j for j in live if d.br[j] is d.br[i]]
        path.append((d.atom, frozenset(same_)))
        d = d.br[i]
    return path


def flat_vars(p):
    return [a for a in R.patoms(p)]


def solve_linear(val, p, aid, target):
    """value of var aid making poly p equal target, or None"""
    c0 = {}
    c1 = {}
    for m, c in p.items():
        d = dict(m)
        e = d.pop(aid, 0)
        if e > 1:
            return None
        (c1 if e else c0)[tuple(sorted(d.items()))] = c
    k = val.poly(c1)
    b = val.poly(c0)
    if k[0] == 0 or k[1] != 0 or b[1] != 0:
        return None
    return (target - b[0]) / k[0]


def guide(val, path, rng, rounds=60):
    """repair the valuation until it satisfies the path"""
    sg = [(a, s) for a, s in path if a.kind == 'sgn' and len(s) < 3]
    for a, s in path:
        if a.kind == 'truth' and len(s) == 1:
            fn, args, _ = a.data.a
            try:
                vals = tuple(val.eval(x) for x in args)
            except Skip:
                return False
            if fn == '==' and len(vals) == 2 and same(vals[0], vals[1], False) is not None:
                continue
            val.truth[(fn, vals)] = (0 in s)
    for _ in range(rounds):
        bad = None
        sat = True
        order = list(sg)
        # equalities first: they are the hard ones
        for a, s in order:
            try:
                if val.sign(a.data) not in s:
                    sat = False
                    bad = (a, s)
                    if rng.random() < .6:
                        break
            except Skip:
                continue
        if sat:
            return True
        a, s = bad
        p = a.data
        vs = [x for x in R.patoms(p) if ATOMS.info[x].kind == 'var']
        if not vs:
            # reach variables inside applications
            vs = deep_vars(p)
            if not vs:
                return False
            x = rng.choice(vs)
            val.v[x] = val.pick(ATOMS.info[x])
            val.clear()
            continue
        rng.shuffle(vs)
        want = rng.choice(sorted(s))
        done = False
        for x in vs:
            if want == 1:
                t = F0
            else:
                t = Fraction(rng.choice((1, 1, 2, 3, 5, 10, 30, 100)), rng.choice((1, 2, 4, 10, 100)))
                if want == 0:
                    t = -t
            try:
                n = solve_linear(val, p, x, t)
            except Skip:
                n = None
            if n is not None and val.ok_domain(ATOMS.info[x], n) and abs(n) < 10 ** 7 and n.denominator < 10 ** 30:
                val.v[x] = n
                val.clear()
                done = True
                break
        if not done:
            x = rng.choice(vs)
            val.v[x] = val.pick(ATOMS.info[x])
            val.clear()
    return False


def deep_vars(p, seen=None):
    seen = seen if seen is not None else set()
    out = []

    def atom(aid):
        if aid in seen:
            return
        seen.add(aid)
        a = ATOMS.info[aid]
        if a.kind == 'var':
            out.append(aid)
        else:
            for x in a.args:
                term(x)

    def term(v):
        st = [v]
        done = set()
        while st:
            w = st.pop()
            if w.id in done:
                continue
            done.add(w.id)
            if type(w) is Node:
                st.extend(w.br)
                if w.atom.kind == 'sgn':
                    for y in R.patoms(w.atom.data):
                        atom(y)
                else:
                    st.append(w.atom.data)
            elif w.kind == 'num':
                for y in w.a.atoms():
                    atom(y)
            elif w.kind == 'tup':
                st.extend(w.a)
            elif w.kind == 'app':
                st.extend(w.a[1])
    for y in R.patoms(p):
        atom(y)
    return out


class Result:
    def __init__(self, status, witness=None, lhs=None, rhs=None, tried=0, used=0, weak=False, val=None):
        self.status, self.witness, self.lhs, self.rhs = status, witness, lhs, rhs
        self.tried, self.used, self.weak, self.val = tried, used, weak, val


def decide(x, y, g, seed=1, tries=60, allow_weak=False, prefer=None, seconds=4):
    d = difference(x, y, g)
    if d is FALSE or not feasible(d, 6000, True):
        return Result('proved')
    rng = random.Random(seed)
    used = 0
    t_end = time.time() + seconds
    for t in range(tries):
        if time.time() > t_end:
            break
        val = Valuation(rng, prefer)
        try:
            if t % 6 != 5:
                guide(val, sample_path(d, rng), rng)
            val.clear()
            gv = val.eval(g)
            if not (gv[0] == 'c' and gv[2] is True):
                continue
            a = val.eval(x)
            b = val.eval(y)
        except Skip:
            continue
        used += 1
        c = same(a, b, val.inexact)
        if c is False and (allow_weak or not val.weak):
            return Result('refuted', dict(val.v), a, b, t + 1, used, val.weak, val)
    return Result('open', tried=tries, used=used)


def showval(v):
    if isinstance(v, str):
        return v
    if v[0] == 'n':
        def f(q):
            return str(q) if q.denominator < 1000 and abs(q.numerator) < 10 ** 9 else '%.10g' % float(q)
        return f(v[1]) if v[2] == 0 else '(%s + %sj)' % (f(v[1]), f(v[2]))
    if v[0] == 'inf':
        return '+inf' if v[1] > 0 else '-inf'
    if v[0] == 'c':
        return repr(v[2])
    if v[0] == 't':
        return '(%s)' % ', '.join(showval(x) for x in v[2])
    if v[0] in ('app', 'in'):
        return '%s(%s)' % (v[1], ', '.join(showval(x) for x in v[2])) if v[2] else v[1]
    return '<%s>' % v[0]
