"""Sources of rays: how many rays, where, and in which directions."""
from . import law
from .common import *
from fractions import Fraction
from vg.rat import PI_ATOM, ratom

HALF_PI = T.div(T.num(ratom(PI_ATOM)), N(2))


def within(L, label, v, lo, hi, **kw):
    L.holds(label + ' is not below the minimum', T.cmp_num('>=', v, lo), **kw)
    L.holds(label + ' is not above the maximum', T.cmp_num('<=', v, hi), **kw)


def limits(L):
    y0, y1, t0, t1 = L.var('yMin'), L.var('yMax'), L.var('tMin'), L.var('tMax')
    L.assume(T.cmp_num('<', y0, y1))
    L.assume(T.cmp_num('<', t0, t1))
    return y0, y1, t0, t1


def span(a, b, n):
    """n values from a to b, ends included; the middle when there is only one"""
    if n == 1:
        return [T.div(T.add(a, b), N(2))]
    return [T.add(a, T.mul(T.sub(b, a), N(Fraction(i, n - 1)))) for i in range(n)]


def grid(L, s, ys, ths, label=''):
    """one ray per height and angle"""
    rs = [x for _, x in L.seq_gated(s)]
    L.eq(label + 'number of rays', N(len(rs)), N(len(ys) * len(ths)))
    L.eq(label + 'len()', L.length(s), N(len(ys) * len(ths)))
    L.eq(label + 'count', L.get(s, 'count'), N(len(ys) * len(ths)))
    k = 0
    for y in ys:
        for t in ths:
            if k < len(rs):
                L.eq(label + 'height of ray %d' % k, L.get(rs[k], 'y'), y)
                L.eq(label + 'angle of ray %d' % k, L.get(rs[k], 'theta'), t)
                L.eq(label + 'ray %d starts at z=0' % k, L.get(rs[k], 'z'), N(0))
                L.eq(label + 'ray %d is not blocked' % k, L.get(rs[k], 'isBlocked'), FALSE)
            k += 1


@law('C18', [(1, 2), (2, 2), (3, 2), (2, 3)], thorough=[(5, 5), (1, 7), (10, 3)])
def uniform_rays(L, M, NN):
    y0, y1, t0, t1 = limits(L)
    s = L.new('UniformRays', yMax=y1, yMin=y0, thetaMax=t1, thetaMin=t0, M=M, N=NN)
    L.note(s, '__init__')
    grid(L, s, span(y0, y1, M), span(t0, t1, NN))


@law('C18', ['UniformRays', 'RandomUniformRays', 'LambertianRays', 'RandomLambertianRays'])
def default_limits_are_symmetric(L, c):
    """without a minimum, rays go from -maximum to +maximum"""
    y1, t1 = L.var('yMax', '+'), L.var('tMax', '+')
    lamb = 'Lambertian' in c
    kw = {} if lamb else dict(thetaMax=t1)
    kw.update(dict(maxCount=3) if 'Random' in c else dict(M=2, N=2))
    if c == 'LambertianRays':
        kw['I'] = 1
    s = L.new(c, yMax=y1, **kw)
    L.note(s, '__init__')
    L.eq('yMax', L.get(s, 'yMax'), y1)
    L.eq('yMin', L.get(s, 'yMin'), T.neg(y1))
    L.eq('thetaMax', L.get(s, 'thetaMax'), HALF_PI if lamb else t1)
    L.eq('thetaMin', L.get(s, 'thetaMin'), T.neg(HALF_PI if lamb else t1))


@law('C18', ['UniformRays', 'RandomUniformRays', 'LambertianRays', 'RandomLambertianRays'])
def zero_is_a_limit(L, c):
    """a minimum of zero is a minimum of zero"""
    y1, t1 = L.var('yMax', '+'), L.var('tMax', '+')
    lamb = 'Lambertian' in c
    kw = {} if lamb else dict(thetaMax=t1, thetaMin=0)
    kw.update(dict(maxCount=3) if 'Random' in c else dict(M=2, N=2))
    if c == 'LambertianRays':
        kw['I'] = 1
    s = L.new(c, yMax=y1, yMin=0, **kw)
    L.note(s, '__init__')
    L.eq('yMin', L.get(s, 'yMin'), N(0))
    if not lamb:
        L.eq('thetaMin', L.get(s, 'thetaMin'), N(0))


@law('C18', [(2, 2), (3, 3)], thorough=[(1, 3), (4, 2)])
def object_rays(L, H, NT):
    """from -diameter/2 to diameter/2 and -halfAngle to halfAngle"""
    d, a, z = L.var('d', '+'), L.var('a', '+'), L.var('z')
    s = L.new('ObjectRays', d, halfAngle=a, H=H, T=NT, z=z, label='x', rayColors=L.v(['r']), color='g')
    L.note(s, '__init__')
    h = T.div(d, N(2))
    grid(L, s, span(T.neg(h), h, H), span(T.neg(a), a, NT))
    L.eq('z', L.get(s, 'z'), z)
    L.eq('label', L.get(s, 'label'), L.v('x'))
    L.eq('color', L.get(s, 'color'), L.v('g'))


@law('C18', [(2, 2, False), (3, 2, False), (2, 3, True)])
def lamp_rays(L, NN, NT, useH):
    d, a, z = L.var('d', '+'), L.var('a', '+'), L.var('z')
    s = L.new('LampRays', d, NA=a, N=7 if useH else NN, T=NT, z=z, label='x', **(dict(H=NN) if useH else {}))
    L.note(s, '__init__')
    h = T.div(d, N(2))
    grid(L, s, span(T.neg(h), h, NN), span(T.neg(a), a, NT))
    L.eq('z', L.get(s, 'z'), z)
    L.eq('label', L.get(s, 'label'), L.v('x'))


@law('C18', ['RandomUniformRays', 'RandomLambertianRays', 'LampRays', 'GaussianProfileUniformRays'])
def random_rays(L, c):
    """as many as announced, each within the limits, and none beyond the last"""
    L.lenient = c in ('RandomLambertianRays', 'GaussianProfileUniformRays')
    n = 2
    if c == 'RandomUniformRays':
        y0, y1, t0, t1 = limits(L)
        s = L.new(c, yMax=y1, yMin=y0, thetaMax=t1, thetaMin=t0, maxCount=n)
    elif c == 'RandomLambertianRays':
        y0, y1, t0, t1 = limits(L)
        s = L.new(c, yMax=y1, yMin=y0, maxCount=n)
        t0, t1 = T.neg(HALF_PI), HALF_PI
    elif c == 'LampRays':
        d, a = L.var('d', '+'), L.var('a', '+')
        s = L.new(c, d, NA=a, N=n, random=True)
        y0, y1, t0, t1 = T.neg(T.div(d, N(2))), T.div(d, N(2)), T.neg(a), a
    else:
        w = L.var('w', '+')
        s = L.new(c, w, maxCount=n)
        y0, y1, t0, t1 = T.neg(T.mul(N(4), w)), T.mul(N(4), w), T.neg(HALF_PI), HALF_PI
    L.note(s, 'randomRay')
    L.eq('len()', L.length(s), N(n))
    L.eq('count', L.get(s, 'count'), N(n))
    rs = [x for _, x in L.seq_gated(s)]
    L.eq('number of rays', N(len(rs)), N(n))
    for i, r in enumerate(rs):
        within(L, 'height of ray %d' % i, L.get(r, 'y'), y0, y1)
        within(L, 'angle of ray %d' % i, L.get(r, 'theta'), t0, t1)
        L.eq('ray %d is that of index %d' % (i, i), L.idx(s, i), r)
        L.eq('ray %d is that of index %d' % (i, i - n), L.idx(s, i - n), r)
    for i in (n, -n - 1):
        L.raises('no ray %d' % i, L.trial(L.idx, s, i), 'IndexError')
    L.raises('no more rays than announced', L.trial(L.call, s, 'randomRay'), 'AttributeError')


@law('C18')
def base_class_is_abstract(L):
    s = L.new('RandomRays', maxCount=2)
    L.raises('RandomRays has no distribution', L.trial(L.idx, s, 0), 'NotImplementedError')


@law('C18', [(2, 3, 1), (2, 3, 2), (1, 3, 1), (3, 5, 2)], thorough=[(2, 5, 3)])
def lambertian_rays(L, M, NN, I):
    """int(I cos theta) rays per height at each angle"""
    import math
    y0, y1 = L.var('yMin'), L.var('yMax')
    L.assume(T.cmp_num('<', y0, y1))
    s = L.new('LambertianRays', yMax=y1, yMin=y0, M=M, N=NN, I=I)
    L.note(s, '__init__')
    rs = [x for _, x in L.seq_gated(s)]
    want = []
    for t, k in zip(span(T.neg(HALF_PI), HALF_PI, NN), [math.floor(I * math.cos(-math.pi / 2 + math.pi * i / (NN - 1)) + 1e-9) for i in range(NN)]):
        for y in ([y0] if M == 1 else span(y0, y1, M)):
            want += [(y, t)] * k
    L.eq('number of rays', N(len(rs)), N(len(want)))
    L.eq('len()', L.length(s), N(len(want)))
    for i, (r, (y, t)) in enumerate(zip(rs, want)):
        within(L, 'height of ray %d' % i, L.get(r, 'y'), y0, y1)
        L.eq('angle of ray %d' % i, L.get(r, 'theta'), t)
        if M > 1:
            L.eq('height of ray %d' % i, L.get(r, 'y'), y)


@law('C18', ['fan', 'fanGroup'])
def ray_fans(L, which):
    c = L.cls('Ray')
    y, a = L.var('y'), L.var('a', '+')
    y0, y1, t0, t1 = limits(L)
    def inside(label, x, lo, hi, n, k, want):
        if n == 1:                  # anywhere inside the limits
            within(L, label, x, lo, hi)
        else:
            L.eq(label, x, want)
    if which == 'fan':
        for n in (1, 2, 3, 5):
            rs = L.seq(L.apply(L.get(c, 'fan'), y, t0, t1, n))
            L.eq('%d rays' % n, N(len(rs)), N(n))
            for k, r in enumerate(rs):
                L.eq('fan of %d: height' % n, L.get(r, 'y'), y)
                inside('fan of %d: angle' % n, L.get(r, 'theta'), t0, t1, n, k, span(t0, t1, n)[k] if n > 1 else t0)
    else:
        for m in (1, 2, 3, 4):
            for n in (1, 2, 3, 4):
                rs = L.seq(L.apply(L.get(c, 'fanGroup'), y0, y1, m, t0, t1, n))
                L.eq('%d x %d rays' % (m, n), N(len(rs)), N(m * n))
                for k, r in enumerate(rs):
                    i, j = divmod(k, n)
                    inside('group %d x %d: height' % (m, n), L.get(r, 'y'), y0, y1, m, i, span(y0, y1, m)[i] if m > 1 else y0)
                    inside('group %d x %d: angle' % (m, n), L.get(r, 'theta'), t0, t1, n, j, span(t0, t1, n)[j] if n > 1 else t0)


@law('C18', [(c, h, t) for c in ('UniformRays', 'ObjectRays', 'LampRays') for h, t in ((1, 1), (3, 1), (1, 3))])
def one_point_or_one_angle(L, c, h, t):
    """as many rays as announced, inside the limits, also with a single point or a single angle"""
    if c == 'UniformRays':
        y0, y1, t0, t1 = limits(L)
        s = L.new(c, yMax=y1, yMin=y0, thetaMax=t1, thetaMin=t0, M=h, N=t)
    else:
        d, a = L.var('d', '+'), L.var('a', '+')
        y0, y1, t0, t1 = T.neg(T.div(d, N(2))), T.div(d, N(2)), T.neg(a), a
        s = L.new(c, d, halfAngle=a, H=h, T=t) if c == 'ObjectRays' else L.new(c, d, NA=a, N=h, T=t)
    L.note(s, '__init__')
    rs = [x for _, x in L.seq_gated(s)]
    L.eq('number of rays', N(len(rs)), N(h * t))
    L.eq('len()', L.length(s), N(h * t))
    L.eq('count', L.get(s, 'count'), N(h * t))
    for k, r in enumerate(rs):
        within(L, 'height of ray %d' % k, L.get(r, 'y'), y0, y1)
        within(L, 'angle of ray %d' % k, L.get(r, 'theta'), t0, t1)
    for k, r in enumerate(rs[:3]):
        if h == 3:
            L.eq('height of point %d' % k, L.get(r, 'y'), span(y0, y1, 3)[k])
        elif t == 3:
            L.eq('angle of ray %d' % k, L.get(r, 'theta'), span(t0, t1, 3)[k])
            L.eq('same point %d' % k, L.get(r, 'y'), L.get(rs[0], 'y'))
