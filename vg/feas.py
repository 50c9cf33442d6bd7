"""Reduction of path guards: is some root-to-TRUE path of a guard consistent?

A sound over-approximation: a path is dropped only when its own sign decisions
contradict each other, using polynomial remainders modulo the equalities of the
path, signs of monomials and sums of sign-definite terms.
"""
from . import rat as R
from . import terms as T
from .terms import Leaf, Node, TRUE, FALSE

SG = T.SIGNS
ALL = frozenset((0, 1, 2))


class Ctx:
    __slots__ = ('eqs', 'signs', 'strict')

    def __init__(self, eqs=(), signs=None, strict=()):
        self.eqs, self.signs, self.strict = eqs, signs or {}, strict


def smul(a, b):
    r = set()
    for x in a:
        for y in b:
            r.add(1 if x == 1 or y == 1 else (2 if x == y else 0))
    return r


def varsigns(ctx, aid):
    k = R.pkey({((aid, 1),): R.ONE})
    s = ctx.signs.get(k)
    base = set(SG.get(R.ATOMS.info[aid].sign, (0, 1, 2)))
    return base & s if s is not None else base


def monosign(ctx, m, c):
    s = {0 if c < 0 else 2}
    for aid, e in m:
        f = varsigns(ctx, aid)
        if e % 2 == 0:
            f = {2} if 1 not in f else ({1} if f == {1} else {1, 2})
        s = smul(s, f)
    return s


def sumsign(ctx, p):
    un = set()
    strict = set()
    for m, c in p.items():
        s = monosign(ctx, m, c)
        if s == {1}:
            continue
        un |= s
        if len(s) == 1:
            strict |= s
        if 0 in un and 2 in un:
            return ALL
    if not un:
        return {1}
    if un <= {1, 2}:
        return {2} if 2 in strict else {1, 2}
    if un <= {0, 1}:
        return {0} if 0 in strict else {0, 1}
    return ALL


def reduce(ctx, p, rev=False):
    for _ in range(6):
        q = p
        for e in ctx.eqs:
            q = R.prem(q, e, rev)
            if not q:
                return q
        if q == p:
            return q
        p = q
    return p


def signset(ctx, p):
    q = reduce(ctx, p)
    if not q:
        return {1}
    s = signset1(ctx, q)
    if len(s) > 1 and ctx.eqs:
        r = reduce(ctx, p, True)
        if not r:
            return {1}
        if r != q:
            s = set(s) & set(signset1(ctx, r))
        if len(s) > 1 and p != q and p != r:
            s = set(s) & set(signset1(ctx, p))
    return s


def signset1(ctx, p):
    k, p = R.pcontent(p)
    res = {2 if k > 0 else 0}
    mono = R.pmonogcd(p)
    if mono:
        p = R.pdivmono(p, mono)
        for aid, e in mono:
            f = varsigns(ctx, aid)
            if e % 2 == 0:
                f = {2} if 1 not in f else ({1} if f == {1} else {1, 2})
            res = smul(res, f)
        k, p = R.pcontent(p)
        if k < 0:
            res = smul(res, {0})
    if len(p) == 1 and () in p:
        if p[()] < 0:
            res = smul(res, {0})
        return res
    s = sumsign(ctx, p)
    r = ctx.signs.get(R.pkey(p))
    if r is not None:
        s = set(s) & r
    if len(s) == 3 or len(s) == 2:
        # p = (known positive) + (definite remainder)?
        for q, t in ctx.strict:
            for sg in (1, -1):
                d = R.padd(p, q, -sg)
                ds = sumsign(ctx, d) if len(d) <= len(p) else ALL
                if ds == ALL:
                    continue
                # p = sg*q + d
                qs = t if sg == 1 else smul(t, {0})
                u = set(qs) | set(ds)
                if u <= {1, 2}:
                    s = set(s) & ({2} if qs == {2} or ds == {2} else {1, 2})
                elif u <= {0, 1}:
                    s = set(s) & ({0} if qs == {0} or ds == {0} else {0, 1})
            if len(s) <= 1:
                break
    return smul(res, s)


def assume(ctx, p, signs):
    """context with sign(p) in signs, or None if contradictory"""
    have = signset(ctx, p)
    now = set(signs) & set(have)
    if not now:
        return None
    if now == have:
        return ctx
    q = reduce(ctx, p)
    k, q = R.pcontent(q)
    if k < 0:
        now = {2 - x for x in now}
    n = Ctx(ctx.eqs, dict(ctx.signs), ctx.strict)
    n.signs[R.pkey(q)] = frozenset(now)
    if now == {1}:
        n.eqs = ctx.eqs + (q,)
        # everything assumed so far must survive the new equality
        for e in ctx.eqs:
            pass
        for w, t in ctx.strict:
            if not (signset(n, w) & set(t)):
                return None
        for key, t in ctx.signs.items():
            w = dict(key)
            if w != q and not (signset(n, w) & set(t)):
                return None
    else:
        n.strict = ctx.strict + ((q, frozenset(now)),)
        if len(q) == 1:
            for key, t in ctx.signs.items():
                w = dict(key)
                if w != q and not (signset(n, w) & set(t)):
                    return None
    return n


def linear_ok(ctx, cap=300):
    """are the sign decisions consistent when every monomial is taken as a free unknown of known sign?

    Fourier-Motzkin elimination; False only when they contradict each other."""
    rows = []           # (coefficients by monomial, strict): sum > 0 or >= 0
    monos = set()

    def put(p, signs):
        signs = frozenset(signs)
        neg = {m: -c for m, c in p.items()}
        if signs == {2}:
            rows.append((dict(p), True))
        elif signs == {0}:
            rows.append((neg, True))
        elif signs == {1, 2}:
            rows.append((dict(p), False))
        elif signs == {0, 1}:
            rows.append((neg, False))
        elif signs == {1}:
            rows.append((dict(p), False))
            rows.append((neg, False))
        else:
            return
        monos.update(p)
    for key, t in ctx.signs.items():
        put(dict(key), t)
    for e in ctx.eqs:
        put(e, {1})
    monos.discard(())
    if len(monos) < 2 or len(rows) < 2:
        return True
    for m in sorted(monos):
        put({m: R.ONE}, monosign(ctx, m, R.ONE))

    def norm(row):
        p, strict = row
        p = {m: c for m, c in p.items() if c}
        v = [abs(c) for m, c in sorted(p.items()) if m != ()]
        if not v:
            return p, strict
        return {m: c / v[0] for m, c in p.items()}, strict
    left = set(monos)
    rows = [norm(r) for r in rows]
    while left:
        best = None
        for m in left:
            up = sum(1 for p, _ in rows if p.get(m, 0) > 0)
            dn = sum(1 for p, _ in rows if p.get(m, 0) < 0)
            k = up * dn - up - dn
            if best is None or k < best[0] or k == best[0] and m < best[1]:
                best = (k, m)
        m = best[1]
        left.discard(m)
        up = [r for r in rows if r[0].get(m, 0) > 0]
        dn = [r for r in rows if r[0].get(m, 0) < 0]
        new = {}
        for r in rows:
            if not r[0].get(m, 0):
                new.setdefault((frozenset(r[0].items()), r[1]), r)
        for p, a in up:
            for q, b in dn:
                cp, cq = p[m], -q[m]
                d = {}
                for k, c in p.items():
                    d[k] = d.get(k, 0) + c * cq
                for k, c in q.items():
                    d[k] = d.get(k, 0) + c * cp
                d.pop(m, None)
                r = norm((d, a or b))
                if all(k == () for k in r[0]):
                    c = r[0].get((), 0)
                    if c < 0 or (c == 0 and r[1]):
                        return False
                    continue
                new.setdefault((frozenset(r[0].items()), r[1]), r)
        rows = list(new.values())
        if len(rows) > cap:
            return True
        for p, a in rows:
            if all(k == () for k in p):
                c = p.get((), 0)
                if c < 0 or (c == 0 and a):
                    return False
    return True


class Budget(Exception):
    pass


_memo = {}


def feasible(g, budget=1500, linear=False):
    if g is TRUE:
        return True
    if g is FALSE:
        return False
    r = _memo.get((g.id, linear))
    if r is None:
        left = [budget, linear]
        try:
            r = search(g, Ctx(), left)
        except Budget:
            r = True
        _memo[(g.id, linear)] = r
    return r


def search(g, ctx, left):
    if type(g) is Leaf:
        return g is TRUE and (not left[1] or linear_ok(ctx))
    left[0] -= 1
    if left[0] < 0:
        raise Budget()
    at = g.atom
    groups = {}
    for i, b in enumerate(g.br):
        if b is not FALSE:
            groups.setdefault(b.id, (b, []))[1].append(i)
    if at.kind != 'sgn':
        return any(search(b, ctx, left) for b, _ in groups.values())
    have = signset(ctx, at.data)
    # strict decisions first: equalities are usually dead ends
    for b, idx in sorted(groups.values(), key=lambda t: t[1] == [1]):
        live = [i for i in idx if i in have]
        if not live:
            continue
        if len(live) == len(have):
            c = ctx
        else:
            c = assume(ctx, at.data, live)
            if c is None:
                continue
        if search(b, c, left):
            return True
    return False
