"""Exact decisions about one-variable rational functions on an interval (Sturm sequences, no sampling)."""
from fractions import Fraction

from . import rat as R


def poly1(p, aid):
    """dict polynomial -> coefficient list, lowest first, or None when another indeterminate occurs"""
    out = {}
    for m, c in (p.items() if isinstance(p, dict) else p):
        e = 0
        for a, k in m:
            if a != aid:
                return None
            e = k
        out[e] = out.get(e, Fraction(0)) + c
    n = max(out, default=-1) + 1
    return trim([out.get(i, Fraction(0)) for i in range(n)])


def trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def mul(p, q):
    if not p or not q:
        return []
    r = [Fraction(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] += a * b
    return trim(r)


def add(p, q, k=1):
    n = max(len(p), len(q))
    return trim([(p[i] if i < len(p) else 0) + k * (q[i] if i < len(q) else 0) for i in range(n)])


def der(p):
    return trim([i * c for i, c in enumerate(p)][1:])


def ev(p, x):
    r = Fraction(0)
    for c in reversed(p):
        r = r * x + c
    return r


def rem(p, q):
    p = list(p)
    while len(p) >= len(q):
        k = p[-1] / q[-1]
        d = len(p) - len(q)
        for i, c in enumerate(q):
            p[i + d] -= k * c
        p.pop()
        p = trim(p)
        if not p:
            break
    return p


def roots_in(p, a, b):
    """number of distinct real roots of p in the closed interval [a, b]"""
    p = trim(p)
    if not p:
        return -1
    n = 1 if ev(p, a) == 0 else 0
    s = [p, der(p)]
    while s[-1]:
        m = max(abs(c) for c in s[-1])
        s[-1] = [c / m for c in s[-1]]
        s.append([-c for c in rem(s[-2], s[-1])])
    s = [q for q in s if q]

    def var(x):
        v = [y for y in (ev(q, x) for q in s) if y != 0]
        return sum(1 for i in range(len(v) - 1) if (v[i] > 0) != (v[i + 1] > 0))
    return n + var(a) - var(b)


def fraction_of(leaf, aid):
    """(p, q) of a numeric leaf that is a rational function of the indeterminate aid, else None"""
    if leaf.kind != 'num':
        return None
    p = poly1(leaf.a.num, aid)
    q = [Fraction(1)]
    if p is None:
        return None
    for k, e in leaf.a.den:
        d = poly1(k, aid)
        if d is None:
            return None
        for _ in range(e):
            q = mul(q, d)
    return p, q


def sign_on(pq, a, b):
    """'+', '-' or None: sign of p/q over [a, b], None when it vanishes, has a pole or changes"""
    p, q = pq
    if not p or roots_in(p, a, b) or roots_in(q, a, b):
        return None
    return '+' if (ev(p, a) > 0) == (ev(q, a) > 0) else '-'


def minus(pq, c):
    p, q = pq
    return add(p, mul([Fraction(c)], q), -1), q


def slope(pq):
    p, q = pq
    return add(mul(der(p), q), mul(p, der(q)), -1), mul(q, q)


def at(pq, x):
    return ev(pq[0], Fraction(x)) / ev(pq[1], Fraction(x))


def same(f, g):
    """the same rational function"""
    return mul(f[0], g[1]) == mul(g[0], f[1])
