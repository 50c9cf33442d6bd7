"""Rays between the planes where they were traced, and what a ray is."""
from . import law
from .common import *


@law('C21', [False, True])
def at(L, blocked):
    """straight line, same angle, at the position asked"""
    y, t, z0, z, w = L.var('y'), L.var('t'), L.var('z0'), L.var('z'), L.var('w', '+')
    r = L.new('Ray', y, t, z0, isBlocked=blocked)
    L.set(r, 'wavelength', w)
    before = L.image(r)
    q = L.call(r, 'at', z)
    L.note(r, 'at')
    L.eq('y', L.get(q, 'y'), T.add(y, T.mul(t, T.sub(z, z0))))
    L.eq('theta', L.get(q, 'theta'), t)
    L.eq('z', L.get(q, 'z'), z)
    L.eq('isBlocked', L.get(q, 'isBlocked'), L.v(blocked))
    L.eq('wavelength', L.get(q, 'wavelength'), w)
    L.eq('the ray itself is not moved', L.image(r), before)
    L.eq('at its own position: same height', L.get(L.call(r, 'at', z0), 'y'), y)
    z2 = L.var('z2')
    eq_fields(L, 'in two steps', L.call(q, 'at', z2), L.call(r, 'at', z2), ('y', 'theta', 'z', 'isBlocked', 'wavelength'))
    back = L.call(q, 'at', z0)
    eq_fields(L, 'and back', back, r, ('y', 'theta', 'z', 'isBlocked', 'wavelength'))


@law('C21', ['space', 'group'])
def at_agrees_with_a_space(L, how):
    """the ray that a space gives is the ray at its end"""
    r = ray(L)
    d = L.var('d', '+')
    s = L.new('Space', d)
    out = L.mul(s if how == 'space' else L.new('MatrixGroup', L.v([s])), r)
    q = L.call(r, 'at', T.add(L.get(r, 'z'), d))
    L.note(r, 'at')
    eq_fields(L, 'ray', q, out, ('y', 'theta', 'z', 'isBlocked', 'wavelength'))


def path(L, dia=None):
    d1, d2, f = L.var('d1', '+'), L.var('d2', '+'), L.var('f', '!0')
    lens = L.new('Lens', f, diameter=dia) if dia is not None else L.new('Lens', f)
    return L.new('ImagingPath', L.v([L.new('Space', d1), lens, L.new('Space', d2)])), d1, d2, f


def along(L, tr, z):
    return L.apply(L.get(L.cls('Ray'), 'along'), tr, z)


@law('C21', ['before', 'first space', 'second space', 'start', 'end'])
def along_a_trace(L, where):
    p, d1, d2, f = path(L)
    y, t = L.var('y'), L.var('t')
    r = L.new('Ray', y, t)
    tr = L.call(p, 'trace', r)
    z = L.var('z')
    y1 = T.add(y, T.mul(t, d1))
    t2 = T.sub(t, T.div(y1, f))
    if where == 'before':
        L.assume(T.cmp_num('<', z, N(0)))
        wy, wt = T.add(y, T.mul(t, z)), t
    elif where == 'start':
        z, wy, wt = N(0), y, t
    elif where == 'first space':
        L.assume(and_(T.cmp_num('>', z, N(0)), T.cmp_num('<', z, d1)))
        wy, wt = T.add(y, T.mul(t, z)), t
    elif where == 'second space':
        L.assume(and_(T.cmp_num('>', z, d1), T.cmp_num('<', z, T.add(d1, d2))))
        wy, wt = T.add(y1, T.mul(t2, T.sub(z, d1))), t2
    else:
        z = T.add(d1, d2)
        wy, wt = T.add(y1, T.mul(t2, d2)), t2
    q = along(L, tr, z)
    L.entry = 'Ray.along (raytracing/ray.py)'
    L.eq('y', L.get(q, 'y'), wy)
    L.eq('theta', L.get(q, 'theta'), wt)
    L.eq('z', L.get(q, 'z'), z)
    L.eq('isBlocked', L.get(q, 'isBlocked'), FALSE)


@law('C21', ['first space', 'second space'])
def along_a_blocked_trace(L, where):
    """the ray is blocked after the aperture that blocks it, not before"""
    dia = L.var('dia', '+')
    p, d1, d2, f = path(L, dia)
    y, t = L.var('y'), L.var('t')
    tr = L.call(p, 'trace', L.new('Ray', y, t))
    z = L.var('z')
    y1 = T.add(y, T.mul(t, d1))
    if where == 'first space':
        L.assume(and_(T.cmp_num('>', z, N(0)), T.cmp_num('<', z, d1)))
        want = FALSE
    else:
        L.assume(and_(T.cmp_num('>', z, d1), T.cmp_num('<', z, T.add(d1, d2))))
        want = T.cmp_num('>', absv(y1), T.div(dia, N(2)))
    q = along(L, tr, z)
    L.entry = 'Ray.along (raytracing/ray.py)'
    L.iff('isBlocked', L.get(q, 'isBlocked'), want)


@law('C21')
def at_the_lens(L):
    """at the position of a thin lens, the height is that on the lens"""
    p, d1, d2, f = path(L)
    y, t = L.var('y'), L.var('t')
    tr = L.call(p, 'trace', L.new('Ray', y, t))
    q = along(L, tr, d1)
    L.entry = 'Ray.along (raytracing/ray.py)'
    L.eq('y', L.get(q, 'y'), T.add(y, T.mul(t, d1)))
    L.eq('z', L.get(q, 'z'), d1)


@law('C21', ['ThickLens', 'Matrix', 'group'])
def behind_an_element_with_length(L, kind):
    """at the back of an element whose inside is not a straight line, the ray is the one that was traced there"""
    d1, d2, t = L.var('d1', '+'), L.var('d2', '+'), L.var('tk', '+')
    if kind == 'ThickLens':
        e = L.new('ThickLens', L.var('n', '+'), L.var('R1', '!0'), L.var('R2', '!0'), t)
    elif kind == 'Matrix':
        e = mat(L, 1, 'gen', indices=False, length=t)
    else:
        e = L.new('MatrixGroup', L.v([L.new('Lens', L.var('f', '!0')), L.new('Space', t), L.new('Lens', L.var('g', '!0'))]))
    p = L.new('ImagingPath', L.v([L.new('Space', d1), e, L.new('Space', d2)]))
    y, th = L.var('y'), L.var('t')
    tr = L.call(p, 'trace', L.new('Ray', y, th))
    y1 = T.add(y, T.mul(th, d1))
    A, B, C, D = abcd(L, e)
    w = T.add(T.mul(A, y1), T.mul(B, th)), T.add(T.mul(C, y1), T.mul(D, th))
    z = T.add(d1, t)
    q = along(L, tr, z)
    x = L.var('x', '+')
    L.assume(T.cmp_num('<', x, d2))
    q2 = along(L, tr, T.add(z, x))
    L.entry = 'Ray.along (raytracing/ray.py)'
    L.eq('height at the back', L.get(q, 'y'), w[0])
    L.eq('position', L.get(q, 'z'), z)
    L.eq('further: height', L.get(q2, 'y'), T.add(w[0], T.mul(w[1], x)))
    L.eq('further: angle', L.get(q2, 'theta'), w[1])


@law('C21')
def along_does_not_change_the_trace(L):
    p, d1, d2, f = path(L)
    tr = L.call(p, 'trace', L.new('Ray', L.var('y'), L.var('t')))
    before = L.image(tr)
    along(L, tr, L.var('z'))
    L.entry = 'Ray.along (raytracing/ray.py)'
    L.eq('trace', L.image(tr), before)


@law('C21')
def a_new_ray(L):
    y, t, z = L.var('y'), L.var('t'), L.var('z')
    r = L.new('Ray', y, t, z)
    L.note(r, '__init__')
    L.eq('y', L.get(r, 'y'), y)
    L.eq('theta', L.get(r, 'theta'), t)
    L.eq('z', L.get(r, 'z'), z)
    L.eq('isBlocked', L.get(r, 'isBlocked'), FALSE)
    L.eq('isNotBlocked', L.get(r, 'isNotBlocked'), TRUE)
    b = L.new('Ray', y, t, z, isBlocked=True)
    L.eq('blocked: isBlocked', L.get(b, 'isBlocked'), TRUE)
    L.eq('blocked: isNotBlocked', L.get(b, 'isNotBlocked'), FALSE)


@law('C21')
def equality(L):
    """same height and same angle"""
    a, b = ray(L, 'a'), ray(L, 'b')
    L.note(a, '__eq__')
    L.iff('==', L.cmp('==', a, b), and_(T.cmp_num('==', L.get(a, 'y'), L.get(b, 'y')), T.cmp_num('==', L.get(a, 'theta'), L.get(b, 'theta'))))
    L.iff('!=', L.cmp('!=', a, b), not_(L.cmp('==', a, b)))
    L.iff('symmetric', L.cmp('==', b, a), L.cmp('==', a, b))
    for x in (N(1), L.v('a'), NONE):
        L.iff('not equal to something else', L.cmp('==', a, x), FALSE)


@law('C21')
def in_front_of_a_lens(L):
    """before the first plane, the ray has not met the first element"""
    lens = L.new('Lens', L.var('f', '!0'))
    p = L.new('ImagingPath', L.v([lens, L.new('Space', L.var('d', '+'))]))
    y, t = L.var('y'), L.var('t')
    z = T.neg(L.var('z', '+'))
    q = along(L, L.call(p, 'trace', L.new('Ray', y, t)), z)
    L.entry = 'Ray.along (raytracing/ray.py)'
    L.eq('y', L.get(q, 'y'), T.add(y, T.mul(t, z)))
    L.eq('theta', L.get(q, 'theta'), t)


@law('C21', ['end', 'inside', 'before'])
def profile_of_traces(L, where):
    """the profile holds, in order, the rays there that are not blocked, by default those at the end of the path"""
    dia = L.var('dia', '+')
    p, d1, d2, f = path(L, dia)
    rays = [L.new('Ray', L.var('y%d' % i), L.var('t%d' % i)) for i in range(2)]
    traces = L.call(p, 'traceMany', L.v(rays))
    if where == 'end':
        z = INF
        pr = L.call(p, 'profileFromRayTraces', traces)
    else:
        z = T.add(d1, T.div(d2, N(2))) if where == 'inside' else T.div(d1, N(3))
        pr = L.call(p, 'profileFromRayTraces', traces, z=z)
    L.note(p, 'profileFromRayTraces')
    want = [along(L, t, z) if where != 'end' else L.idx(t, N(-1)) for t in L.seq(traces)]
    ok = [not_(L.I.truth(L.st, L.get(q, 'isBlocked'))) for q in want]
    L.fact('a set of rays', L.I.obj(L.st, pr).cls.name == 'Rays')
    L.eq('count', L.length(pr), T.add(ite(ok[0], N(1), N(0)), ite(ok[1], N(1), N(0))))
    for n in ('y', 'theta', 'isBlocked', 'wavelength'):
        first = L.run('if len(p) > 0:\n    return p[0].%s\nreturn None' % n, p=pr)
        second = L.run('if len(p) > 1:\n    return p[1].%s\nreturn None' % n, p=pr)
        a, b = L.get(want[0], n), L.get(want[1], n)
        L.eq('first: ' + n, first, ite(ok[0], a, ite(ok[1], b, NONE)))
        L.eq('second: ' + n, second, ite(and_(ok[0], ok[1]), b, NONE))
