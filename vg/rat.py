"""Rational-function normal form over atoms (exact, Fraction coefficients).

A polynomial is a dict {monomial: Fraction}; a monomial is a sorted tuple of
(atom_id, exponent).  A Rat is num / prod(factor**exp).  Equality of two Rats
is decided by cross-multiplication (num of the difference is the zero poly),
so no search is ever made.
"""
from fractions import Fraction
from functools import lru_cache

ZERO = Fraction(0)
ONE = Fraction(1)


class Atoms:
    """Registry of indeterminates."""
    def __init__(self):
        self.info = []          # id -> Atom
        self.by_key = {}

    def get(self, key, **kw):
        a = self.by_key.get(key)
        if a is None:
            a = Atom(len(self.info), key, **kw)
            self.info.append(a)
            self.by_key[key] = a
        return a


class Atom:
    __slots__ = ('id', 'key', 'kind', 'name', 'args', 'sign', 'square', 'isint', 'fn', 'lo', 'hi')

    def __init__(self, id, key, kind='var', name='', args=(), sign=None, square=None, isint=False, fn=None,
                 lo=None, hi=None):
        self.id = id
        self.key = key
        self.kind = kind        # 'var' | 'app' | 'I' | 'pi'
        self.name = name
        self.args = args
        self.sign = sign        # None | '+' | '0+' | '-' | '!0'
        self.square = square    # Rat equal to atom**2, or None
        self.isint = isint
        self.fn = fn
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return self.name or str(self.key)


ATOMS = Atoms()
I_ATOM = ATOMS.get(('I',), kind='I', name='1j')
PI_ATOM = ATOMS.get(('pi',), kind='pi', name='pi', sign='+')


def pmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, ZERO) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = pmono(m1, m2)
            v = r.get(m, ZERO) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return preduceI(r)


def preduceI(p):
    iid = I_ATOM.id
    if not any(m and any(a == iid and e >= 2 for a, e in m) for m in p):
        return p
    r = {}
    for m, c in p.items():
        out = []
        for a, e in m:
            if a == iid:
                if (e // 2) % 2:
                    c = -c
                e = e % 2
                if e == 0:
                    continue
            out.append((a, e))
        m = tuple(out)
        v = r.get(m, ZERO) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k != 1 else p


def pconst(c):
    c = Fraction(c)
    return {(): c} if c != 0 else {}


def patoms(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def pkey(p):
    return tuple(sorted(p.items()))


def pcontent(p):
    """(rational content with the sign of the leading term, primitive poly)"""
    if not p:
        return ONE, p
    from math import gcd
    g = 0
    l = 1
    for c in p.values():
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    k = Fraction(g, l)
    lead = max(p)
    if p[lead] < 0:
        k = -k
    if k == 1:
        return ONE, p
    inv = 1 / k
    return k, {m: c * inv for m, c in p.items()}


def pmonogcd(p):
    it = iter(p)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(first):
            e = d.get(a, 0)
            if e < first[a]:
                if e == 0:
                    del first[a]
                else:
                    first[a] = e
        if not first:
            break
    return tuple(sorted(first.items()))


def pdivmono(p, mono):
    r = {}
    md = dict(mono)
    for m, c in p.items():
        out = []
        for a, e in m:
            e -= md.get(a, 0)
            if e:
                out.append((a, e))
        r[tuple(out)] = c
    return r


def pdiv_exact(p, d):
    """p/d if exact, else None."""
    if not p:
        return {}
    pa, da = patoms(p), patoms(d)
    if not da <= pa:
        return None
    order = sorted(pa)
    idx = {a: i for i, a in enumerate(order)}
    n = len(order)

    def vec(m):
        v = [0] * n
        for a, e in m:
            v[idx[a]] = e
        return tuple(v)
    P = {vec(m): c for m, c in p.items()}
    D = {vec(m): c for m, c in d.items()}
    ld = max(D)
    lc = D[ld]
    Q = {}
    steps = 0
    while P:
        lp = max(P)
        q = tuple(x - y for x, y in zip(lp, ld))
        if min(q) < 0:
            return None
        k = P[lp] / lc
        Q[q] = k
        for m, c in D.items():
            mm = tuple(x + y for x, y in zip(m, q))
            v = P.get(mm, ZERO) - k * c
            if v == 0:
                P.pop(mm, None)
            else:
                P[mm] = v
        steps += 1
        if steps > 400:
            return None
    out = {}
    for v, c in Q.items():
        out[tuple((order[i], e) for i, e in enumerate(v) if e)] = c
    return out


class Rat:
    __slots__ = ('num', 'den', '_key', '_hash')

    def __init__(self, num, den=()):
        # den: tuple of (polykey, exp) sorted
        self.num = num
        self.den = den
        self._key = None
        self._hash = None

    # ---- keys
    def key(self):
        if self._key is None:
            self._key = (pkey(self.num), self.den)
        return self._key

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.key())
        return self._hash

    def __eq__(self, o):
        return isinstance(o, Rat) and self.key() == o.key()

    # ---- predicates
    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and () in self.num))

    def const(self):
        return self.num.get((), ZERO)

    def is_zero(self):
        return not self.num

    def atoms(self):
        s = patoms(self.num)
        for k, _ in self.den:
            for m, _c in k:
                for a, _e in m:
                    s.add(a)
        return s

    # ---- arithmetic
    def __add__(self, o):
        if not self.den and not o.den:
            return mk(padd(self.num, o.num), ())
        if self.den == o.den:
            return mk(padd(self.num, o.num), self.den)
        d1, d2 = dict(self.den), dict(o.den)
        allf = dict(d1)
        for f, e in d2.items():
            allf[f] = max(allf.get(f, 0), e)
        n1, n2 = self.num, o.num
        for f, e in allf.items():
            k1 = e - d1.get(f, 0)
            k2 = e - d2.get(f, 0)
            fp = dict(f)
            for _ in range(k1):
                n1 = pmul(n1, fp)
            for _ in range(k2):
                n2 = pmul(n2, fp)
        return mk(padd(n1, n2), tuple(sorted(allf.items())))

    def __neg__(self):
        return Rat(pscale(self.num, -1), self.den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.den and not o.den:
            return mk(pmul(self.num, o.num), ())
        d = dict(self.den)
        for f, e in o.den:
            d[f] = d.get(f, 0) + e
        return mk(pmul(self.num, o.num), tuple(sorted(d.items())))

    def inv(self):
        if not self.num:
            raise ZeroDivisionError
        num = pconst(1)
        for f, e in self.den:
            for _ in range(e):
                num = pmul(num, dict(f))
        # denominators: monomial atoms + primitive rest
        k, p = pcontent(self.num)
        den = {}
        mono = pmonogcd(p)
        if mono:
            p = pdivmono(p, mono)
            for a, e in mono:
                if a == I_ATOM.id:
                    # 1/I = -I
                    num = pmul(num, {((I_ATOM.id, 1),): Fraction(-1)})
                    continue
                den[pkey({((a, 1),): ONE})] = e
            k2, p = pcontent(p)
            k = k * k2
        num = pscale(num, 1 / k)
        if not (len(p) == 1 and () in p):
            # rationalise i
            if I_ATOM.id in patoms(p):
                cp = pconj(p)
                num = pmul(num, cp)
                p = pmul(p, cp)
                k, p = pcontent(p)
                num = pscale(num, 1 / k)
            den[pkey(p)] = den.get(pkey(p), 0) + 1
        else:
            num = pscale(num, 1 / p[()])
        return mk(num, tuple(sorted(den.items())))

    def __truediv__(self, o):
        return self * o.inv()

    def pow(self, n):
        if n < 0:
            return self.inv().pow(-n)
        r = rconst(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def conj(self):
        num = pconj(self.num)
        return mk(num, self.den)     # den is i-free by construction

    def has_I(self):
        return I_ATOM.id in patoms(self.num)

    def real_imag(self):
        """(real, imag) parts, assuming all other atoms real"""
        re, im = {}, {}
        for m, c in self.num.items():
            md = [(a, e) for a, e in m if a != I_ATOM.id]
            if len(md) != len(m):
                im[tuple(md)] = c
            else:
                re[m] = c
        return mk(re, self.den), mk(im, self.den)

    def __repr__(self):
        return rstr(self)


def pconj(p):
    r = {}
    for m, c in p.items():
        if any(a == I_ATOM.id and e % 2 for a, e in m):
            c = -c
        r[m] = c
    return r


def _limit(c):
    if c.denominator.bit_length() > 600 or c.numerator.bit_length() > 900:
        # exactness is given up only for concrete catalogue data: 60 digits kept
        s = 10 ** 80
        return Fraction(round(c * s), s)
    return c


def mk(num, den):
    # square reductions
    bad = None
    for m in num:
        for a, e in m:
            if e >= 2 and ATOMS.info[a].square is not None:
                bad = a
                break
        if bad is not None:
            break
    if bad is not None:
        sq = ATOMS.info[bad].square
        acc = rconst(0)
        for m, c in num.items():
            e = dict(m).get(bad, 0)
            rest = tuple((a, x) for a, x in m if a != bad)
            if e % 2:
                rest = pmono(rest, ((bad, 1),))
            t = Rat({rest: c}, ())
            if e // 2:
                t = t * sq.pow(e // 2)
            acc = acc + t
        if den:
            acc = acc * Rat(pconst(1), den)
        return acc
    if not num:
        return R0
    if den:
        out = []
        changed = False
        for f, e in den:
            fp = dict(f)
            while e > 0:
                q = pdiv_exact(num, fp)
                if q is None:
                    break
                num = q
                e -= 1
                changed = True
            if e:
                out.append((f, e))
        den = tuple(out)
    if len(num) == 1 and () in num:
        c = num[()]
        c2 = _limit(c)
        if c2 is not c:
            num = {(): c2}
    return Rat(num, den)


def rconst(c):
    return Rat(pconst(c), ())


R0 = Rat({}, ())
R1 = Rat({(): ONE}, ())


def ratom(a):
    return Rat({((a.id, 1),): ONE}, ())


RI = ratom(I_ATOM)


def pstr(p):
    if not p:
        return '0'
    parts = []
    for m, c in sorted(p.items(), reverse=True):
        s = '*'.join((repr(ATOMS.info[a]) + ('' if e == 1 else '**%d' % e)) for a, e in m)
        cf = c
        cs = str(cf) if cf.denominator < 10 ** 6 else '%.6g' % float(cf)
        if not s:
            parts.append(cs)
        elif cf == 1:
            parts.append(s)
        elif cf == -1:
            parts.append('-' + s)
        else:
            parts.append(cs + '*' + s)
    return ' + '.join(parts).replace('+ -', '- ')


def rstr(r):
    s = pstr(r.num)
    if r.den:
        d = '*'.join('(%s)%s' % (pstr(dict(f)), '' if e == 1 else '**%d' % e) for f, e in r.den)
        return '(%s)/%s' % (s, d)
    return s


_premmemo = {}


def prem(p, d, rev=False):
    """remainder of the multivariate division of p by d (lex order)"""
    if not p:
        return {}
    k = (pkey(p), pkey(d), rev)
    r = _premmemo.get(k)
    if r is None:
        r = _premmemo[k] = _prem(p, d, rev)
    return r


def _prem(p, d, rev):
    order = sorted(patoms(p) | patoms(d), reverse=rev)
    idx = {a: i for i, a in enumerate(order)}
    n = len(order)

    def vec(m):
        v = [0] * n
        for a, e in m:
            v[idx[a]] = e
        return tuple(v)
    D = {vec(m): c for m, c in d.items()}
    ld = max(D)
    P = {vec(m): c for m, c in p.items()}
    if not any(all(x >= y for x, y in zip(m, ld)) for m in P):
        return p
    lc = D[ld]
    out = {}
    steps = 0
    while P:
        lp = max(P)
        q = tuple(x - y for x, y in zip(lp, ld))
        if min(q) < 0:
            out[lp] = P.pop(lp)
            continue
        k = P[lp] / lc
        for m, c in D.items():
            mm = tuple(x + y for x, y in zip(m, q))
            v = P.get(mm, ZERO) - k * c
            if v == 0:
                P.pop(mm, None)
            else:
                P[mm] = v
        steps += 1
        if steps > 300:
            return p
    return {tuple(sorted((order[i], e) for i, e in enumerate(v) if e)): c for v, c in out.items()}
