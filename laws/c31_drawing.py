"""What a figure shows is what the path computes: rays, objects, images, elements, stops, focal points, beams."""
from . import law
from .drawing import *
from vg.interp import Dead


def setup(L):
    L.matplotlib()
    no_search(L)


def half(x):
    return T.div(x, N(2))


def shown(L, p, *args, **kw):
    a = L.attempt(L.call, p, 'display', *args, **kw)
    L.quiet('display works', a)
    if a.guard is FALSE:
        raise Dead()
    L.note(p, 'display')
    return picture(L)


def same_num(L, a, b):
    return L.cmp('==', a, b)


def both(L, p, q):
    return and_(same_num(L, p[0], q[0]), same_num(L, p[1], q[1]))


def exists(L, label, pic, pred, when=TRUE):
    c = FALSE
    for i in pic:
        c = or_(c, and_(and_(i.guard, i.visible), pred(i)))
    return L.holds(label, c, when)


def nothing(L, label, pic, pred):
    c = FALSE
    for i in pic:
        c = or_(c, and_(and_(i.guard, i.visible), pred(i)))
    return L.eq(label, c, FALSE)


def points(i):
    """corners of a line, without the repeated ones"""
    xs, ys = [v for _, v in i.x], [v for _, v in i.y]
    out = []
    for p in zip(xs, ys):
        if not out or out[-1][0] is not p[0] or out[-1][1] is not p[1]:
            out.append(p)
    return out


def rays_of(pic, visible=True):
    """the lines of the rays: those with more than one point"""
    return [i for i in pic if i.kind == 'line' and len(i.x) > 1 and (i.visible is not FALSE or not visible)]


def marks_of(pic):
    return [i for i in pic if i.kind == 'line' and len(i.x) == 1]


def through(L, line, pts):
    got = points(line)
    if len(got) != len(pts):
        return FALSE
    c = TRUE
    for p, q in zip(got, pts):
        c = and_(c, both(L, p, q))
    return c


def lines_are(L, label, pic, wanted):
    """the visible lines are exactly the polylines wanted, in any order"""
    lines = rays_of(pic)
    L.fact('%s: number of lines' % label, len(lines) == len(wanted), 'drawn %d, expected %d' % (len(lines), len(wanted)))
    for n, w in enumerate(wanted):
        exists(L, '%s: line %d' % (label, n), lines, lambda i: through(L, i, w))
    for n, i in enumerate(lines):
        c = FALSE
        for w in wanted:
            c = or_(c, through(L, i, w))
        L.holds('%s: drawn line %d is one of them' % (label, n), c)


def at(y, t, z):
    return T.add(y, T.mul(t, z))


def spread(L, lo, hi, n):
    return [T.add(lo, T.mul(T.sub(hi, lo), T.div(N(i), N(n - 1)))) for i in range(n)]


def dedupe(pts):
    out = []
    for p in pts:
        if not out or out[-1][0] is not p[0] or out[-1][1] is not p[1]:
            out.append(p)
    return out


def lens_line(y, t, d1, f, d2, z=None):
    """corners of a ray that starts at z (0) in the first space"""
    z = N(0) if z is None else z
    y1 = at(y, t, T.sub(d1, z))
    t1 = T.sub(t, T.div(y1, f))
    return dedupe([(z, y), (d1, y1), (T.add(d1, d2), at(y1, t1, d2))])


@law('C31', ['Ray', 'Rays', 'ObjectRays', 'UniformRays', 'LampRays'])
def rays_from_the_start(L, kind):
    """every ray of the source is drawn through the heights and positions of its trace, and nothing else is"""
    setup(L)
    p, d1, d2, f, lens = fixed(L, dia=False)
    L.set(p, 'objectHeight', L.v(1))
    h = L.var('h', '+')
    y, t = L.var('y'), L.var('t')
    if kind == 'Ray':
        src, rays = L.v([L.new('Ray', y, t)]), [(y, t)]
    elif kind == 'Rays':
        src, rays = L.new('Rays', L.v([L.new('Ray', y, t), L.new('Ray', h, 0)])), [(y, t), (h, N(0))]
    elif kind == 'ObjectRays':
        src = L.new('ObjectRays', h, halfAngle=T.div(N(1), N(10)), H=3, T=2)
        rays = [(a, b) for a in spread(L, T.neg(half(h)), half(h), 3) for b in (T.div(N(-1), N(10)), T.div(N(1), N(10)))]
    elif kind == 'UniformRays':
        src = L.new('UniformRays', yMax=h, thetaMax=1, N=2, M=2)
        rays = [(a, b) for a in (T.neg(h), h) for b in (N(-1), N(1))]
    else:
        src = L.new('LampRays', h, NA=1, N=2, T=2)
        rays = [(a, b) for a in (T.neg(half(h)), half(h)) for b in (N(-1), N(1))]
    wanted = [lens_line(a, b, d1, f, d2) for a, b in rays]
    if kind not in ('ObjectRays', 'LampRays'):      # the default object is drawn too
        L.set(p, 'fanNumber', L.v(2))
        L.set(p, 'rayNumber', L.v(2))
        L.set(p, 'fanAngle', L.v(1))
        wanted += [lens_line(a, b, d1, f, d2) for a in (half(N(-1)), half(N(1))) for b in (N(-1), N(1))]
    pic = shown(L, p, src)
    lines_are(L, 'rays', pic, wanted)


@law('C31', [False, True])
def object_inside(L, lamp):
    """rays of an object at z go forwards and backwards from z"""
    setup(L)
    p, d1, d2, f, lens = fixed(L, dia=False)
    L.set(p, 'objectHeight', L.v(1))
    h = L.var('h', '+')
    z = N(12)
    a = T.div(N(1), N(10))
    if lamp:
        src = L.v([L.new('ObjectRays', h, halfAngle=a, H=2, T=2), L.new('LampRays', h, NA=a, N=2, T=2, z=z)])
    else:
        src = L.v([L.new('ObjectRays', h, halfAngle=a, H=2, T=2, z=z)])
    wanted = []
    for y in (T.neg(half(h)), half(h)):
        for t in (T.neg(a), a):
            wanted.append(lens_line(y, t, d1, f, d2, z))
            wanted.append([(z, y), (N(0), at(y, t, z))])
            if lamp:
                wanted.append(lens_line(y, t, d1, f, d2))
    pic = shown(L, p, raysList=src)
    if lamp:
        lines = rays_of(pic, False)
        for n, w in enumerate(wanted):
            c = FALSE
            for i in lines:
                c = or_(c, through(L, i, w))
            L.holds('line %d' % n, c)
    else:
        lines_are(L, 'rays', pic, wanted)


@law('C31', [('same place', 0), ('same place', 12), ('two places', 12), ('lamps', 0), ('lamps', 12)])
def several_sources(L, how, z):
    """each source has its own rays"""
    setup(L)
    p, d1, d2, f, lens = fixed(L, dia=False)
    h = L.var('h', '+') if how != 'lamps' else N(3)
    k = T.mul(N(2), h)
    a = T.div(N(1), N(10))
    z2 = N(z) if how != 'two places' else N(0)
    zs = [(h, N(z)), (k, z2)]
    if how == 'lamps':
        ls = [L.new('LampRays', x, NA=a, N=2, T=2, z=q) for x, q in zs]
    else:
        ls = [L.new('ObjectRays', x, halfAngle=a, H=2, T=2, z=q) for x, q in zs]
    wanted = []
    for x, q in zs:
        for y in (T.neg(half(x)), half(x)):
            for t in (T.neg(a), a):
                wanted.append(lens_line(y, t, d1, f, d2, q))
                if q is not N(0):
                    wanted.append([(q, y), (N(0), at(y, t, q))])
    pic = shown(L, p, raysList=L.v(ls))
    lines_are(L, 'rays', pic, wanted)
    for x, q in zs:
        if how == 'lamps':
            exists(L, 'lamp', pic, lambda i: spans(L, i, q, T.neg(half(x)), half(x)) if i.kind == 'patch' else FALSE)
        else:
            exists(L, 'object', pic, lambda i: arrow(L, i, q, T.neg(half(x)), half(x)))


def ys(i):
    return [y for _, y in i.points]


def spans(L, i, z, lo, hi):
    """a patch whose corners are at heights lo and hi, at equal distances from z"""
    hit_lo = hit_hi = FALSE
    for x, y in i.points:
        hit_lo = or_(hit_lo, same_num(L, y, lo))
        hit_hi = or_(hit_hi, same_num(L, y, hi))
    out = and_(hit_lo, hit_hi)
    xs = [x for x, _ in i.points]
    for x in xs:
        m = FALSE
        for x2 in xs:
            m = or_(m, same_num(L, T.add(x, x2), T.mul(N(2), z)))
        out = and_(out, m)
    return out


def arrow(L, i, z, tail, tip):
    """an arrow at z from a height to another"""
    if i.kind != 'patch':
        return FALSE
    c = FALSE
    for q in i.points:
        c = or_(c, both(L, q, (z, tip)))
    return and_(c, spans(L, i, z, tail, tip))


@law('C31', [('removed', 'mixed'), ('cut', 'mixed')])
def blocked_rays(L, how, which):
    """a ray that an aperture blocks is removed, or drawn up to there when removeBlocked=False"""
    setup(L)
    D = L.var('D', '+')
    y, t, g = L.var('y'), N(0), L.var('g')
    p = path(L, L.new('Space', 30), L.new('Lens', 10, diameter=D), L.new('Space', 40), L.new('Aperture', D), L.new('Space', 5))
    L.assume(T.cmp_num('>', y, N(0)))
    L.assume(T.cmp_num('>', y, half(D)))
    L.assume(and_(T.cmp_num('>', g, N(0)), T.cmp_num('<', T.mul(N(6), g), D)))
    wanted = []
    ylens = T.neg(T.mul(N(3), g))                     # y at 40 after a lens of 10 for a parallel ray
    free_ray = [(N(0), g), (N(30), g), (N(70), ylens), (N(75), at(ylens, T.neg(T.div(g, N(10))), N(5)))]
    src = L.v([L.new('Ray', y, 0), L.new('Ray', g, 0)])
    L.set(p, 'objectHeight', L.v(1))
    one = L.new('ObjectRays', 0, halfAngle=0, H=2, T=2)
    L.note(p, 'display')
    wanted.append(free_ray)
    if how == 'cut':
        wanted.append([(N(0), y), (N(30), y)])
    axis = [(N(0), N(0)), (N(30), N(0)), (N(70), N(0)), (N(75), N(0))]
    pic = shown(L, p, raysList=L.v([src, one]), removeBlocked=how == 'removed')
    lines = [i for i in rays_of(pic) if not all(v is N(0) for _, v in i.y)]
    lines_are(L, 'rays', lines, wanted)


@law('C31', ['real', 'virtual', 'inverted tip', 'none', 'two lenses', 'inside', 'hidden image', 'hidden object'])
def object_and_images(L, kind):
    """an object is an arrow of its height where it is, each image an arrow of height times magnification where it forms"""
    setup(L)
    h = L.var('h', '+')
    images, z = [], N(0)
    if kind == 'two lenses':
        p = path(L, L.new('Space', 20), L.new('Lens', 10), L.new('Space', 40), L.new('Lens', 10), L.new('Space', 30))
        images = [(N(40), N(-1)), (N(80), N(1))]
    elif kind == 'inside':
        p = path(L, L.new('Space', 30), L.new('Lens', 10), L.new('Space', 40))
        z = N(10)
        images = [(N(50), N(-1))]
    elif kind == 'none':
        p = path(L, L.new('Space', 10), L.new('Lens', 10), L.new('Space', 40))
    elif kind == 'virtual':
        p = path(L, L.new('Space', 5), L.new('Lens', 10), L.new('Space', 40))
        images = [(N(-5), N(2))]
    else:
        p, d1, d2, f, lens = (fixed if 'hidden' in kind else simple)(L, dia=False)
        di = T.div(T.mul(d1, f), T.sub(d1, f))
        images = [(T.add(d1, di), T.neg(T.div(di, d1)))]
    if kind == 'hidden image':
        L.set(p, 'showImages', L.v(False))
    if kind == 'hidden object':
        L.set(p, 'showObject', L.v(False))
    pic = shown(L, p, L.new('ObjectRays', h, H=2, T=2, z=z))
    arrows = [i for i in pic if i.kind == 'patch' and len(i.points) == 14]
    if kind == 'hidden object':
        nothing(L, 'no object', pic, lambda i: arrow(L, i, z, T.neg(half(h)), half(h)))
    else:
        exists(L, 'object', pic, lambda i: arrow(L, i, z, T.neg(half(h)), half(h)))
    for zi, m in images:
        top = half(T.mul(h, m))
        check = nothing if kind == 'hidden image' else exists
        check(L, 'image', pic, lambda i: arrow(L, i, zi, T.neg(top), top))
    n = len(images) * (kind != 'hidden image') + (kind != 'hidden object')
    L.fact('as many arrows as there are', len([i for i in arrows if i.visible is not FALSE]) == n)


def corner(L, i, x, y):
    c = FALSE
    for q in i.points:
        c = or_(c, both(L, q, (x, y)))
    return c


def patches(pic):
    return [i for i in pic if i.kind == 'patch']


def sag(L, R, h):
    """depth of a spherical surface at height h"""
    return L.run('''
        import math
        return R*(1 - math.cos(math.asin(h/abs(R))))
    ''', R=R, h=h)


def bars(L, i, x0, x1, y):
    """two horizontal bars at heights y and -y between x0 and x1"""
    c = TRUE
    for x in (x0, x1):
        for v in (y, T.neg(y)):
            c = and_(c, corner(L, i, x, v))
    return c if len(i.points) == 4 else FALSE


def with_element(L, e, *more, index=N(1)):
    d = L.var('d', '+')
    p = path(L, L.new('Space', d, index), e, *more)
    L.set(p, 'objectHeight', L.v(1))
    L.set(p, 'fanAngle', L.v(0))
    L.set(p, 'fanNumber', L.v(2))
    L.set(p, 'rayNumber', L.v(2))
    return p, d


def third(a, b):
    return T.div(N(a), N(b))


THIN = ['lens', 'large rays', 'infinite lens', 'aperture', 'generic', 'long generic', 'infinite generic', 'objective', 'flipped objective']


@law('C31', THIN)
def simple_elements(L, kind):
    """elements are drawn where they are in the path, with the size of their aperture"""
    setup(L)
    D = L.var('D', '+')
    tail = L.new('Space', 20)
    if kind == 'lens':
        p, d = with_element(L, L.new('Lens', 10, diameter=D), tail)
        ps = patches(shown(L, p))
        top = half(D)
        exists(L, 'lens from edge to edge', ps, lambda i: and_(corner(L, i, d, top), corner(L, i, d, T.neg(top))))
        exists(L, 'edges', ps, lambda i: spans(L, i, d, T.neg(top), top) if len(i.points) == 4 else FALSE)
    elif kind == 'infinite lens':
        p, d = with_element(L, L.new('Lens', 10), tail)
        ps = patches(shown(L, p))
        exists(L, 'lens', ps, lambda i: and_(corner(L, i, d, N(4)), corner(L, i, d, N(-4))))
        L.fact('no edges', not [i for i in ps if len(i.points) == 4])
    elif kind == 'large rays':
        p, d = with_element(L, L.new('Lens', 10), tail)
        ps = patches(shown(L, p, L.new('ObjectRays', 30, halfAngle=0, H=2, T=2)))
        exists(L, 'lens as large as the rays', ps, lambda i: and_(corner(L, i, d, N(15)), corner(L, i, d, N(-15))))
    elif kind == 'aperture':
        p, d = with_element(L, L.new('Aperture', D), tail)
        ps = patches(shown(L, p))
        exists(L, 'edges', ps, lambda i: spans(L, i, d, T.neg(half(D)), half(D)) if len(i.points) == 4 else FALSE)
    elif kind in ('generic', 'long generic', 'infinite generic'):
        l = N(0) if kind == 'generic' else N(3)
        kw = {'apertureDiameter': D} if kind != 'infinite generic' else {}
        p, d = with_element(L, L.new('Matrix', 1, 0, third(-1, 10), 1, physicalLength=l, **kw), tail)
        ps = patches(shown(L, p))
        h = half(D) if kw else N(4)

        def box(i):
            c = TRUE
            for x in (d, T.add(d, l)):
                for y in (h, T.neg(h)):
                    c = and_(c, corner(L, i, x, y))
            return c
        exists(L, 'box', ps, box)
        if kind == 'long generic':
            exists(L, 'edges', ps, lambda i: bars(L, i, d, T.add(d, l), h))
    else:
        e = L.new('Objective', f=9, NA=third(2, 5), focusToFocusLength=60, backAperture=20, workingDistance=5, magnification=20, fieldNumber=22)
        if kind != 'objective':
            L.call(e, 'flipOrientation')
        p, d = with_element(L, e, tail)
        ps = patches(shown(L, p))
        flip = (lambda x: T.sub(N(60), x)) if kind != 'objective' else (lambda x: x)
        outline = [(0, 10), (35, 10), (55, 2), (55, -2), (35, -10), (0, -10)]

        def body(i):
            c = TRUE
            for x, y in outline:
                c = and_(c, corner(L, i, T.add(d, flip(N(x))), N(y)))
            return c
        exists(L, 'body', ps, body)
        small = [i for i in ps if len(i.points) == 4]
        L.fact('two apertures', len(small) == 2)

        def stop(x, y):
            lo, hi = T.sub(T.add(d, flip(x)), third(1, 10)), T.add(T.add(d, flip(x)), third(1, 10))

            def f(i):
                c = TRUE
                for a, b in i.points:
                    c = and_(c, or_(same_num(L, b, y), same_num(L, b, T.neg(y))))
                c = and_(c, and_(corner_y(L, i, y), corner_y(L, i, T.neg(y))))
                return c
            return f
        exists(L, 'back aperture', small, stop(N(0), N(10)))
        exists(L, 'front aperture', small, stop(N(55), N(2)))


def corner_y(L, i, y):
    c = FALSE
    for q in i.points:
        c = or_(c, same_num(L, q[1], y))
    return c


THICK = ['thick', 'flipped thick', 'meniscus', 'slab', 'flipped slab', 'doublet', 'flipped doublet', 'singlet', 'flipped singlet', 'compound',
         'flipped compound']


@law('C31', THICK)
def thick_elements(L, kind):
    """surfaces are drawn at their vertices, with their radii up to the edge, in the present orientation"""
    setup(L)
    n = third(3, 2)
    if 'thick' in kind or kind == 'meniscus':
        e = L.new('ThickLens', n, 60, -40 if kind != 'meniscus' else 80, 5, diameter=20)
        surf = [(60, 5), (-40 if kind != 'meniscus' else 80, 0)]
    elif 'slab' in kind:
        e = L.new('DielectricSlab', n, 5, diameter=20)
        surf = [(None, 5), (None, 0)]
    elif 'doublet' in kind:
        e = L.new('AchromatDoubletLens', fa=100, fb=95, R1=60, R2=-40, R3=-200, tc1=4, tc2=2, te=4, n1=third(8, 5), n2=third(17, 10), diameter=20)
        surf = [(60, 4), (-40, 2), (-200, 0)]
    elif 'singlet' in kind:
        e = L.new('SingletLens', f=100, fb=98, R1=100, R2=-80, tc=4, te=3, n=n, diameter=20)
        surf = [(100, 4), (-80, 0)]
    else:
        n2 = third(8, 5)
        els = [L.new('DielectricInterface', 1, n, 60, diameter=20), L.new('Space', 4, n), L.new('DielectricInterface', n, n2, -40, diameter=20),
               L.new('Space', 2, n2), L.new('DielectricInterface', n2, 1, -200, diameter=20)]
        e = L.new('CompoundLens', elements=L.v(els), designFocalLength=100)
        surf = [(60, 4), (-40, 2), (-200, 0)]
    if 'flipped' in kind:
        L.call(e, 'flipOrientation')
        back = [(None if R is None else -R) for R, _ in reversed(surf)]
        gaps = [t for _, t in surf[:-1]]
        surf = list(zip(back, list(reversed(gaps)) + [0]))
    p, d = with_element(L, e, L.new('Space', 20))
    pic = shown(L, p)
    ps = patches(pic)
    z = d
    h = N(10) if 'compound' not in kind else N(4)
    edge = []
    for k, (R, t) in enumerate(surf):
        s = sag(L, N(R), h) if R is not None else N(0)
        x = T.add(z, s)
        edge.append(x)

        def surface(i):
            c = and_(corner(L, i, x, h), corner(L, i, x, T.neg(h)))
            if R is not None:
                c = and_(c, corner(L, i, z, N(0)))
            return c
        exists(L, 'surface %d' % k, ps, surface)
        z = T.add(z, N(t))
    if 'compound' not in kind:
        exists(L, 'edges', ps, lambda i: bars(L, i, edge[0], edge[-1], h))


@law('C31', ['mirror', 'interface', 'flipped interface', 'flat mirror', 'flat interface'])
def one_surface(L, kind):
    """a single surface is drawn at its vertex, curved towards its centre"""
    setup(L)
    n = third(3, 2)
    if kind == 'mirror':
        e, R = L.new('CurvedMirror', -60, diameter=20), -60
    else:
        e, R = L.new('DielectricInterface', 1, n, 60, diameter=20), 60
        if 'flipped' in kind:
            L.call(e, 'flipOrientation')
            R = -60
    if 'flat' in kind:
        e = L.new('CurvedMirror', INF, diameter=20) if 'mirror' in kind else L.new('DielectricInterface', 1, n, diameter=20)
        R = None
    p, d = with_element(L, e, index=n if 'flipped' in kind else N(1))
    ps = patches(shown(L, p))
    x = T.add(d, sag(L, N(R), N(10))) if R is not None else d

    def surface(i):
        ends = and_(corner(L, i, x, N(10)), corner(L, i, x, N(-10)))
        return and_(corner(L, i, d, N(0)), ends) if R is not None else ends
    if kind == 'mirror':            # concave or convex: only where it is
        exists(L, 'surface', ps, lambda i: corner(L, i, d, N(0)))
    else:
        exists(L, 'surface', ps, surface)


@law('C31', [True, False])
def group_in_a_path(L, labels):
    """the elements of a group are drawn at their own positions, with their labels unless labels are off"""
    setup(L)
    D, D2 = N(20), N(16)
    a, b = L.new('Lens', 30, diameter=D, label='first'), L.new('Lens', 30, diameter=D2, label='second')
    g = L.new('MatrixGroup', L.v([a, L.new('Space', 4), b, L.new('Space', 6), L.new('Aperture', 5, label='third')]))
    c = L.new('Matrix', 1, 0, third(-1, 10), 1, physicalLength=3, apertureDiameter=7, label='box')
    p, d = with_element(L, g, L.new('Space', 9), c, L.new('Space', 10))
    L.set(p, 'showElementLabels', L.v(labels))
    pic = shown(L, p)
    ps = patches(pic)
    for nm, z, y in (('first', d, half(D)), ('second', T.add(d, N(4)), half(D2)), ('third', T.add(d, N(10)), third(5, 2))):
        exists(L, nm, ps, lambda i: spans(L, i, z, T.neg(y), y) if len(i.points) == 4 else FALSE)
        (exists if labels else nothing)(L, 'label of ' + nm, pic, lambda i: text_at(L, i, nm, z))
    (exists if labels else nothing)(L, 'label of box', pic, lambda i: text_at(L, i, 'box', T.add(d, third(41, 2))))


def text_at(L, i, text, x):
    if i.kind != 'text' or i.text is NONE:
        return FALSE
    return and_(L.cmp('==', i.text, text), same_num(L, i.x, x))


@law('C31', ['AS first', 'AS second', 'FS', 'off'])
def stops(L, kind):
    """the labels AS and FS are at the positions of apertureStop() and fieldStop()"""
    setup(L)
    a, b = (4, 20) if kind != 'AS second' else (20, 4)
    p = path(L, L.new('Space', 20), L.new('Lens', 10, diameter=a), L.new('Space', 15), L.new('Aperture', b), L.new('Space', 10))
    if kind == 'FS':
        L.I.stubs[('ImagingPath', 'fieldStop')] = lambda I, st, me, x, k: T.tup([L.var('zf'), L.var('Df', '+')])
    if kind == 'off':
        L.set(p, 'showPointsOfInterest', L.v(False))
    z = L.idx(L.call(p, 'apertureStop'), 0)
    pic = shown(L, p)
    if kind == 'off':
        nothing(L, 'no label', pic, lambda i: L.cmp('==', i.text, 'AS') if i.kind == 'text' and i.text is not NONE else FALSE)
        return
    exists(L, 'AS', pic, lambda i: text_at(L, i, 'AS', z))
    f = exists if kind == 'FS' else nothing
    f(L, 'FS', pic, lambda i: text_at(L, i, 'FS', L.var('zf')))


@law('C31', ['lens', 'two lenses', 'no labels', 'none'])
def focal_points(L, kind):
    """the focal points of the elements are marked on the axis"""
    setup(L)
    els = [L.new('Space', 20), L.new('Lens', 10), L.new('Space', 50)]
    zs = [10, 30]
    if kind == 'two lenses':
        els += [L.new('Lens', 5), L.new('Space', 10)]
        zs += [65, 75]
    p = path(L, *els)
    if kind == 'none':
        L.set(p, 'showPointsOfInterest', L.v(False))
    if kind == 'no labels':
        L.set(p, 'showPointsOfInterestLabels', L.v(False))
    pic = shown(L, p)
    marks = marks_of(pic)
    if kind == 'none':
        L.fact('no mark', not marks)
        return
    L.fact('as many marks', len(marks) == len(zs), '%d' % len(marks))
    for z in zs:
        exists(L, 'mark at %d' % z, marks, lambda i: both(L, (i.x[0][1], i.y[0][1]), (N(z), N(0))))
    (nothing if kind == 'no labels' else exists)(L, 'label', pic, lambda i: same_num(L, i.x, N(zs[0])) if i.kind == 'text' and i.text is not NONE and i.text is not T.const('AS') else FALSE)


@law('C31', [False, True])
def entrance_pupil(L, on):
    """the entrance pupil is drawn at its position and with its diameter, when asked for"""
    setup(L)
    p = path(L, L.new('Space', 20), L.new('Lens', 10, diameter=50), L.new('Space', 5), L.new('Aperture', 4), L.new('Space', 10))
    L.set(p, 'showEntrancePupil', L.v(on))
    z, D = L.seq(L.call(p, 'entrancePupil'))[:2]
    ps = patches(shown(L, p))
    (exists if on else nothing)(L, 'pupil', ps, lambda i: spans(L, i, z, T.neg(half(D)), half(D)) if len(i.points) == 4 else FALSE)


@law('C31', ['lens', 'thick', 'flipped thick', 'group'])
def one_element(L, kind):
    """display() of an element shows its focal points, its principal planes and its focal lengths where they are"""
    setup(L)
    n = third(3, 2)
    if kind == 'lens':
        e = L.new('Lens', 10, diameter=8)
    elif 'thick' in kind:
        e = L.new('ThickLens', n, 60, -40, 5, diameter=20)
        if 'flipped' in kind:
            L.call(e, 'flipOrientation')
    else:
        e = L.new('MatrixGroup', L.v([L.new('Lens', 10, diameter=20), L.new('Space', 5), L.new('Lens', 30, diameter=20)]))
    F = L.seq(L.call(e, 'focusPositions', 0))[:2]
    P = L.seq(L.call(e, 'principalPlanePositions', 0))[:2]
    V = [L.get(e, 'frontVertex'), L.get(e, 'backVertex')]
    a = L.attempt(L.call, e, 'display')
    L.quiet('display works', a)
    L.note(e, 'display')
    pic = picture(L)
    marks = marks_of(pic)
    if kind == 'group':             # its elements, with their focal points
        for z in (-10, 10, -25, 35):
            exists(L, 'focal point at %d' % z, marks, lambda i: both(L, (i.x[0][1], i.y[0][1]), (N(z), N(0))))
        for z in (0, 5):
            exists(L, 'edges of the lens at %d' % z, patches(pic), lambda i: spans(L, i, N(z), N(-10), N(10)) if len(i.points) == 4 else FALSE)
        return
    for k in (0, 1):
        exists(L, 'focal point %d' % k, marks, lambda i: both(L, (i.x[0][1], i.y[0][1]), (F[k], N(0))))
        exists(L, 'principal plane %d' % k, rays_of(pic), lambda i: and_(same_num(L, i.x[0][1], P[k]), same_num(L, i.x[-1][1], P[k])))
        exists(L, 'focal length %d' % k, pic, lambda i: between(L, i, P[k], F[k]))
        exists(L, 'from the vertex %d' % k, pic, lambda i: between(L, i, V[k], F[k]))


def between(L, i, a, b):
    if i.kind != 'arrow':
        return FALSE
    return and_(same_num(L, i.a[0], a), same_num(L, i.b[0], b))


@law('C31', ['space', 'lens'], weight=3)
def beams(L, kind):
    """a beam is drawn with its size w above and below the axis, and an arrow ends at each of its waists"""
    setup(L)
    p = L.new('LaserPath')
    f, d = 20, 50
    if kind == 'lens':
        L.call(p, 'append', L.new('Lens', f, diameter=30))
    L.call(p, 'append', L.new('Space', d))
    b = L.new('GaussianBeam', w=2, R=-30, wavelength=third(1, 2))
    L.call(p, 'display', L.v([b]))
    L.note(p, 'display')
    pic = picture(L)
    lines = [i for i in pic if i.kind == 'line']
    L.fact('two lines', len(lines) == 2)
    after = L.mul(L.new('Lens', f, diameter=30), b) if kind == 'lens' else b
    for sign in (1, -1):
        for k in (0, 10, 25, 50):
            w = L.get(L.mul(L.new('Space', N(k)), after) if k else after, 'w')
            pt = (N(k), T.mul(N(sign), w))
            c = FALSE
            for i in lines:
                for q in zip(i.x, i.y):
                    if q[0][1] is pt[0]:
                        c = or_(c, same_num(L, q[1][1], pt[1]))
            L.holds('%s of the beam at %d' % ('top' if sign == 1 else 'bottom', k), c)
    for i in lines:
        L.fact('from one end to the other', i.x[0][1] is N(0) and i.x[-1][1] is N(d))
    wz, w0 = L.get(after, 'waistPosition'), L.get(after, 'waist')
    for s in (1, -1):
        exists(L, 'waist', pic, lambda i: both(L, i.b, (wz, T.mul(N(s), w0))) if i.kind == 'arrow' else FALSE)
    arrows = [i for i in pic if i.kind == 'arrow']
    for i in arrows:
        L.holds('no arrow outside', and_(T.cmp_num('>=', i.b[0], N(0)), T.cmp_num('<=', i.b[0], N(d))))


@law('C31', ['list', 'uniform', 'no angles'])
def histograms(L, kind):
    """display() of rays plots their two histograms"""
    L.matplotlib()
    if kind == 'list':
        r = L.new('Rays', L.v([L.new('Ray', i, third(i, 10)) for i in (-2, 0, 1, 3)]))
    else:
        r = L.new('UniformRays', 5, N=2, M=3)
    L.call(r, 'display', **({'showTheta': False} if kind == 'no angles' else {}))
    L.note(r, 'display')
    for k, m in enumerate(('rayCountHistogram', 'rayAnglesHistogram')):
        if k and kind == 'no angles':
            continue
        x, y = [[v for v in L.seq(c)] for c in L.seq(L.call(r, m))]
        pic = picture(L, axes=k)
        L.fact('one curve', len(pic) == 1)
        for nm, got, want in (('positions', pic[0].x, x), ('counts', pic[0].y, y)):
            L.fact('%s: as many' % nm, len(got) == len(want))
            for (g, a), b in zip(got, want):
                L.eq(nm, a, b)


def stop_system(L):
    """an aperture stop behind a lens, and a field of view of 2"""
    L.I.stubs[('ImagingPath', 'fieldOfView')] = lambda I, st, me, a, k: N(2)
    L.I.stubs[('ImagingPath', 'halfFieldOfView')] = lambda I, st, me, a, k: N(1)
    p = path(L, L.new('Space', 30), L.new('Lens', 10, diameter=40), L.new('Space', 5), L.new('Aperture', 4), L.new('Space', 35))
    L.set(p, 'fanNumber', L.v(2))
    L.set(p, 'rayNumber', L.v(2))
    L.set(p, 'fanAngle', L.v(0))
    return p


def trace_of(L, p, ray):
    return dedupe([(L.get(r, 'z'), L.get(r, 'y')) for r in L.seq(L.call(p, 'trace', ray))])


def group_lines(L, p, h):
    principal = [trace_of(L, p, L.call(p, 'principalRay')), trace_of(L, p, L.call(p, 'axialRay'))]
    objects = [trace_of(L, p, L.new('Ray', y, 0)) for y in (T.neg(half(h)), T.neg(half(h)), half(h), half(h))]
    return principal, objects


@law('C31', ['no rays', 'lamp', 'object', 'asked off', 'other rays'])
def shown_and_hidden(L, kind):
    """principal and axial rays are shown when no rays are given, otherwise the rays given, with the object unless there is a lamp"""
    setup(L)
    p = stop_system(L)
    h = L.var('h', '+')
    L.assume(T.cmp_num('<', h, N(2)))
    lamp = L.new('LampRays', h, NA=0, N=2, T=2)
    if kind == 'no rays':
        principal, objects = group_lines(L, p, N(2))
        pic = shown(L, p, onlyPrincipalAndAxialRays=True)
        lines_are(L, 'rays', pic, principal)
        exists(L, 'field of view', pic, lambda i: arrow(L, i, N(0), N(-1), N(1)))
        exists(L, 'its image', pic, lambda i: arrow(L, i, N(45), T.div(N(1), N(2)), T.div(N(-1), N(2))))
        return
    L.set(p, 'objectHeight', h)
    principal, objects = group_lines(L, p, h)
    if kind == 'lamp':
        pic = shown(L, p, lamp, limitObjectToFieldOfView=False)
        lines_are(L, 'rays', pic, objects)
        nothing(L, 'no object', pic, lambda i: arrow(L, i, N(0), T.neg(half(h)), half(h)))
        exists(L, 'lamp', pic, lambda i: spans(L, i, N(0), T.neg(half(h)), half(h)) if i.kind == 'patch' else FALSE)
    elif kind == 'object':
        pic = shown(L, p, L.new('ObjectRays', h, halfAngle=0, H=2, T=2), limitObjectToFieldOfView=False)
        lines_are(L, 'rays', pic, objects)
        exists(L, 'object', pic, lambda i: arrow(L, i, N(0), T.neg(half(h)), half(h)))
    elif kind == 'asked off':
        pic = shown(L, p, onlyPrincipalAndAxialRays=False, limitObjectToFieldOfView=False)
        lines_are(L, 'rays', pic, objects)
    else:
        pic = shown(L, p, L.v([L.new('Ray', 0, 0)]), limitObjectToFieldOfView=False)
        lines_are(L, 'rays', pic, objects + [trace_of(L, p, L.new('Ray', 0, 0))])


@law('C31', ['Principal/axial rays', 'Object/Image', 'Object/Image (z=12.0)', 'Lamp'])
def check_boxes(L, key):
    """the box of a group shows and hides its rays and its arrows, and nothing else"""
    setup(L)
    p = stop_system(L)
    h = N(1)
    src = [L.new('ObjectRays', h, halfAngle=0, H=2, T=2), L.new('ObjectRays', h, halfAngle=0, H=2, T=2, z=N(12))]
    if key == 'Lamp':
        src.append(L.new('LampRays', half(h), NA=0, N=2, T=2))
    seen = frozen(L, shown(L, p, raysList=L.v(src), limitObjectToFieldOfView=False))
    pic = picture(L)
    box = L.get(L.seq(L.get(L.I.plt, 'extra'))[-1], 'widget')
    labels, states = L.seq(L.get(box, 'labels')), L.seq(L.get(box, 'actives'))
    L.fact('the group has a box', T.const(key) in labels, '%s' % [T.show(x) for x in labels])
    L.apply(L.get(box, 'callback'), L.v(key))
    L.note(p, 'display')
    now = picture(L)
    L.fact('same artists', len(now) == len(pic))
    changed = [(a, b) for a, b in zip(pic, now) if a.visible is not b.visible]
    L.fact('something changes', len(changed) > 0)
    for a, b in changed:
        L.eq('shown or hidden', b.visible, not_(a.visible))
    n = {'Principal/axial rays': 2, 'Object/Image': 4, 'Object/Image (z=12.0)': 8, 'Lamp': 4}[key]
    L.fact('its rays', len([1 for a, _ in changed if a.kind == 'line']) == n, '%d' % len([1 for a, _ in changed if a.kind == 'line']))
    if key != 'Principal/axial rays':
        L.fact('its arrows', len([1 for a, _ in changed if a.kind == 'patch']) == (1 if key == 'Lamp' else 2))
    L.apply(L.get(box, 'callback'), L.v(key))
    same_picture(L, 'twice', seen, frozen(L, picture(L)))


@law('C31', ['rays', 'one color', 'point', 'own colors', 'lamp', 'point lamp', 'arrows', 'axial', 'after a display', 'publication'])
def designs(L, kind):
    """colours and the other choices of design() are those of the figure"""
    setup(L)
    p, d1, d2, f, lens = fixed(L, dia=False)
    h = L.var('h', '+')
    a = third(1, 10)
    L.note(p, 'display')

    def colors(pic, n):
        lines = rays_of(pic)
        L.fact('number of rays', len(lines) == n, '%d' % len(lines))
        return [(i, i.y[0][1], dict_of(L, i.style)['color']) for i in lines]

    def by_height(cs, table):
        for i, y, c in cs:
            k = FALSE
            for w, name in table:
                k = or_(k, and_(same_num(L, y, w), L.cmp('==', c, L.v(name))))
            L.holds('color of its height', k)
    if kind in ('rays', 'after a display', 'publication'):
        names = ('low', 'mid', 'high') if kind != 'publication' else ('0.4', '0.2', '0.6')
        if kind == 'publication':
            L.call(p, 'design', style='publication')
        else:
            L.call(p, 'design', rayColors=L.v(['low', 'mid', 'high']))
        if kind == 'after a display':
            shown(L, p)
        pic = shown(L, p, L.new('ObjectRays', h, halfAngle=a, H=3, T=2))
        by_height(colors(pic, 6), list(zip((T.neg(half(h)), N(0), half(h)), names)))
    elif kind == 'one color':
        L.call(p, 'design', rayColors=L.v(['only']))
        pic = shown(L, p, L.new('ObjectRays', h, halfAngle=a, H=3, T=2))
        by_height(colors(pic, 6), [(T.neg(half(h)), 'only'), (N(0), 'only'), (half(h), 'only')])
    elif kind == 'point':
        L.call(p, 'design', rayColors=L.v(['low', 'mid', 'high']))
        pic = shown(L, p, L.new('ObjectRays', 0, halfAngle=a, H=2, T=2))
        by_height(colors(pic, 4), [(N(0), 'mid')])
    elif kind == 'own colors':
        L.call(p, 'design', rayColors=L.v(['a', 'b']))
        pic = shown(L, p, L.new('ObjectRays', h, halfAngle=a, H=3, T=2, rayColors=L.v(['low', 'mid', 'high'])))
        by_height(colors(pic, 6), list(zip((T.neg(half(h)), N(0), half(h)), ('low', 'mid', 'high'))))
    elif kind == 'lamp':
        L.call(p, 'design', lampRayColors=L.v(['low', 'high']))
        pic = shown(L, p, L.new('LampRays', h, NA=a, N=2, T=2))
        by_height(colors(pic, 4), [(T.neg(half(h)), 'low'), (half(h), 'high')])
    elif kind == 'point lamp':
        pic = shown(L, p, L.new('LampRays', 0, NA=a, N=2, T=2))
        by_height(colors(pic, 4), [(N(0), 'y')])
    elif kind == 'arrows':
        L.call(p, 'design', imageColor='image', objectColor='object', fillImage=False, fillObject=False)
        pic = shown(L, p, L.new('ObjectRays', h, halfAngle=a, H=2, T=2))
        m = T.div(N(-1), N(2))
        for nm, z, y in (('object', N(0), half(h)), ('image', N(45), T.mul(half(h), m))):
            exists(L, nm, pic, lambda i: and_(arrow(L, i, z, T.neg(y), y), styled(L, i, color=nm, fill=False)) if i.kind == 'patch' else FALSE)
    elif kind == 'axial':
        L.call(p, 'design', onlyAxialRay=True, rayColors=L.v(['low', 'mid', 'high']))
        pic = shown(L, p, L.new('ObjectRays', h, halfAngle=a, H=3, T=2))
        by_height(colors(pic, 2), [(N(0), 'mid')])


def dict_of(L, v):
    return {k.a: x for g, k, x in dict_items(L, v)}


def dict_items(L, v):
    o = L.I.obj(L.st, v)
    return [(g, k, x) for k, (g, x) in o.entries.items()] if isinstance(o.entries, dict) else [tuple(e) for e in o.entries]


def styled(L, i, **kw):
    d = dict_of(L, i.style)
    c = TRUE
    for k, v in kw.items():
        c = and_(c, L.cmp('==', d[k], v)) if k in d else FALSE
    return c


@law('C31', ['AC254_050_A', 'PN_33_922'])
def chromatic_curve(L, name):
    """showChromaticAberrations plots the focal shifts against the wavelengths"""
    setup(L)
    e = L.new(name)
    ws = L.v([T.div(N(k), N(10)) for k in (5, 6, 7)])
    x, y = [L.seq_gated(v) for v in L.seq(L.call(e, 'focalShifts', ws))]
    L.call(e, 'showChromaticAberrations', ws)
    L.note(e, 'showChromaticAberrations')
    pic = picture(L)
    L.fact('one curve', len(pic) == 1 and len(pic[0].x) == 3)
    for i in range(3):
        L.eq('wavelength', pic[0].x[i][1], x[i][1])
        L.eq('shift', pic[0].y[i][1], y[i][1])


@law('C31', ['no rays', 'rays', 'rays list', 'cut'])
def saved_figure(L, kind):
    """saveFigure writes the picture that display shows, in the file asked for"""
    setup(L)
    p = stop_system(L)
    h = L.var('h', '+')
    src = L.new('ObjectRays', h, halfAngle=third(1, 10), H=2, T=2)
    kw = {'no rays': {}, 'rays': dict(rays=src), 'rays list': dict(raysList=L.v([src])), 'cut': dict(rays=src, removeBlocked=False)}[kind]
    L.call(p, 'display', **kw)
    L.fact('not saved', not L.seq(L.get(figures(L)[-1], 'saved')))
    a = frozen(L, picture(L))
    L.call(p, 'saveFigure', 'file.pdf', **kw)
    L.note(p, 'saveFigure')
    same_picture(L, 'saved', a, frozen(L, picture(L)))
    L.fact('the file', [T.show(x) for x in L.seq(L.get(figures(L)[-1], 'saved'))] == [T.show(T.const('file.pdf'))])


@law('C31', ['lens', 'thick', 'infinite', 'large image'])
def vertical_range(L, kind):
    """the vertical range is symmetric and holds the elements, the object and the images inside the path"""
    setup(L)
    D, h = L.var('D', '+'), L.var('h', '+')
    m = N(0)
    if kind == 'lens':
        p = path(L, L.new('Space', 30), L.new('Lens', 10, diameter=D), L.new('Space', 40))
    elif kind == 'thick':
        p = path(L, L.new('Space', 30), L.new('DielectricSlab', third(3, 2), 5, diameter=D), L.new('Space', 40))
    elif kind == 'infinite':
        D = N(0)
        p = path(L, L.new('Space', 30), L.new('Lens', 10), L.new('Space', 40))
    else:
        m = N(4)
        p = path(L, L.new('Space', third(25, 2)), L.new('Lens', 10, diameter=D), L.new('Space', 60))
    L.set(p, 'objectHeight', h)
    L.set(p, 'fanAngle', L.v(0))
    shown(L, p)
    lo, hi = L.seq(L.get(L.seq(L.get(figures(L)[-1], 'axes'))[0], 'ylim'))
    L.eq('symmetric', lo, T.neg(hi))
    L.holds('elements', T.cmp_num('>=', hi, half(D)))
    L.holds('object', T.cmp_num('>=', hi, half(h)))
    L.holds('image', T.cmp_num('>=', hi, half(T.mul(m, h))))


@law('C31')
def with_object(L):
    """displayWithObject shows an object of the diameter asked for, with its rays"""
    setup(L)
    p, d1, d2, f, lens = fixed(L, dia=False)
    h = L.var('h', '+')
    L.call(p, 'displayWithObject', h, fanAngle=third(1, 10), fanNumber=2, rayNumber=2)
    L.note(p, 'displayWithObject')
    pic = picture(L)
    lines_are(L, 'rays', pic, [lens_line(y, t, d1, f, d2) for y in (T.neg(half(h)), half(h)) for t in (third(-1, 10), third(1, 10))])
    exists(L, 'object', pic, lambda i: arrow(L, i, N(0), T.neg(half(h)), half(h)))


def of_lens(L, kind):
    n, dia, t = L.var('n', '+'), L.var('dia', '+'), L.var('t', '+')
    R1, R2, R3 = [L.var(k, '!0') for k in ('R1', 'R2', 'R3')]
    if 'thick' in kind:
        return L.new('ThickLens', n, R1, R2, t, diameter=dia), [R1, R2], [(n, t)]
    if 'slab' in kind:
        return L.new('DielectricSlab', n, t, diameter=dia), [INF, INF], [(n, t)]
    if 'mirror' in kind:
        R1 = R1 if 'flat' not in kind else INF
        return L.new('CurvedMirror', R1, diameter=dia), [R1], []
    if 'interface' in kind:
        return L.new('DielectricInterface', L.var('n1', '+'), n, R1, diameter=dia), [R1], []
    setup(L)
    if 'singlet' in kind:
        R1, R2, t, n = N(60), N(-40), N(4), third(3, 2)
        return L.new('SingletLens', f=48, fb=47, R1=R1, R2=R2, tc=t, te=2, n=n, diameter=20), [R1, R2], [(n, t)]
    n, n2, (R1, R2, R3), (t, t2) = third(3, 2), third(8, 5), [N(60), N(-40), N(-200)], [N(4), N(2)]
    if 'achromat' in kind:
        return L.new('AchromatDoubletLens', fa=70, fb=67, R1=R1, R2=R2, R3=R3, tc1=t, tc2=t2, te=4, n1=n, n2=n2, diameter=20), [R1, R2, R3], [(n, t), (n2, t2)]
    els = [L.new('DielectricInterface', 1, n, R1, diameter=dia), L.new('Space', t, n), L.new('DielectricInterface', n, n2, R2, diameter=dia),
           L.new('Space', t2, n2), L.new('DielectricInterface', n2, 1, R3, diameter=dia)]
    return L.new('CompoundLens', elements=L.v(els), designFocalLength=100), [R1, R2, R3], [(n, t), (n2, t2)]


@law('C31', [f + k for f in ('', 'flipped ', 'twice flipped ') for k in ('thick', 'slab', 'mirror', 'flat mirror', 'interface', 'compound', 'achromat', 'singlet')])
def surfaces_of_an_element(L, kind):
    """the surfaces of an element are those of its present orientation, whenever they are asked, with the media and thicknesses in between"""
    e, R, gaps = of_lens(L, kind)
    for _ in range(2 if 'twice' in kind else 1 if 'flipped' in kind else 0):
        L.call(e, 'flipOrientation')
        R, gaps = [T.neg(r) if r not in (INF, None) else None for r in R[::-1]], gaps[::-1]
    if 'slab' in kind:
        R = [None] * len(R)
    if kind == 'twice flipped mirror':
        kind = 'mirror'
    before = L.image(e, depth=12)
    for turn in ('', ' (again)'):
        s = L.seq(L.get(e, 'surfaces'))
        L.fact('number of surfaces' + turn, len(s) == len(R), '%d surfaces instead of %d' % (len(s), len(R)))
        for i, (a, r) in enumerate(zip(s, R)):
            if r is not None:
                L.eq('radius %d%s' % (i, turn), L.get(a, 'R'), r)
            if i < len(gaps):
                L.eq('index behind surface %d%s' % (i, turn), L.get(a, 'n'), gaps[i][0])
                L.eq('thickness behind surface %d%s' % (i, turn), L.get(a, 'L'), gaps[i][1])
    L.note(e, 'surfaces')
    L.eq('asking for the surfaces does not modify the element', L.image(e, depth=12), before)


@law('C31', [f + k for f in ('', 'flipped ') for k in ('lens', 'thick', 'mirror', 'compound', 'slab', 'generic', 'space')])
def points_of_interest(L, kind):
    """the points of interest of an element are its two focal points, where they are"""
    z = L.var('z')
    if 'compound' in kind:
        setup(L)
    e = {'lens': lambda: L.new('Lens', L.var('f', '!0')), 'generic': lambda: L.new('Matrix', 1, 0, L.var('C'), 1),
         'space': lambda: L.new('Space', L.var('d', '+'))}.get(kind.split()[-1], lambda: of_lens(L, kind)[0])()
    if 'flipped' in kind:
        L.call(e, 'flipOrientation')
    before = L.image(e, depth=12)
    f1, f2 = L.seq(L.call(e, 'focusPositions', z))
    ps = L.seq_gated(L.call(e, 'pointsOfInterest', z))
    L.note(e, 'pointsOfInterest')
    if kind.split()[-1] in ('generic', 'space'):
        L.eq('no points of interest', T.tup([g for g, _ in ps]), T.tup([]))
        return
    for name, f in (('$F_f$', f1), ('$F_b$', f2)):
        there = FALSE
        for g, p in ps:
            there = or_(there, and_(g, L.cmp('==', L.idx(p, 'label'), L.v(name))))
            L.eq('position of ' + name, L.idx(p, 'z'), f, and_(g, L.cmp('==', L.idx(p, 'label'), L.v(name))))
        L.iff('%s is listed exactly when there is one' % name, there, not_(L.cmp('is', f, NONE)))
    L.eq('asking does not modify the element', L.image(e, depth=12), before)


@law('C31', ['one', 'two', 'stop between', 'telescope', 'group'])
def names_of_focal_points(L, kind):
    """the label at a focal point says which one it is, and of which element when there are several"""
    setup(L)
    f1, f2 = '$F_f$', '$F_b$'
    k = lambda f, i: '${%s}_%d$' % (f.strip('$'), i)
    if kind == 'one':
        els = [L.new('Space', 20), L.new('Lens', 10), L.new('Space', 50)]
        want = {10: f1, 30: f2}
    elif kind in ('two', 'stop between'):
        els = [L.new('Lens', 10)] + ([L.new('Space', 30), L.new('Aperture', 10), L.new('Space', 10)] if 'stop' in kind else [L.new('Space', 40)])
        els += [L.new('Lens', 5), L.new('Space', 10)]
        want = {-10: k(f1, 1), 10: k(f2, 1), 35: k(f1, 2), 45: k(f2, 2)}
    elif kind == 'telescope':
        els = [L.new('Space', 10), L.new('Lens', 10), L.new('Space', 15), L.new('Lens', 5), L.new('Space', 10)]
        want = {0: k(f1, 1), 20: k(f2, 1) + ', ' + k(f1, 2), 30: k(f2, 2)}
    else:
        g = L.new('MatrixGroup', L.v([L.new('Lens', 10), L.new('Space', 4)]))
        els = [L.new('Space', 30), g, L.new('Space', 30), L.new('Lens', 5), L.new('Space', 10)]
        want = {59: k(f1, 1), 69: k(f2, 1)}
    p = path(L, *els)
    pic = shown(L, p)
    for z, t in want.items():
        exists(L, '%s at %d' % (t, z), pic, lambda i: text_at(L, i, t, N(z)))
        L.eq('once', N(sum(1 for i in pic if i.kind == 'text' and i.text is T.const(t))), N(1))


@law('C31', ['fans', 'limited', 'limited rays'])
def default_rays(L, kind):
    """display() of a path traces the fans of its object: fanNumber points over objectHeight, rayNumber rays each"""
    setup(L)
    if kind == 'fans':
        p, d1, d2, f, lens = fixed(L, dia=False)
        h = L.var('h', '+')
        L.set(p, 'objectHeight', h)
    else:
        d1, d2, f, h = N(20), N(40), N(10), N(6)
        p = path(L, L.new('Space', d1), L.new('Lens', f, diameter=4), L.new('Space', d2), L.new('Aperture', 6))
        L.I.stubs[('ImagingPath', 'fieldOfView')] = lambda I, st, me, x, k: h
        L.set(p, 'objectHeight', L.v(9))
    L.set(p, 'fanNumber', L.v(2))
    L.set(p, 'rayNumber', L.v(3))
    L.set(p, 'fanAngle', third(1, 100))
    if kind == 'limited rays':
        src = L.new('Rays', L.v([L.new('Ray', third(1, 2), 0)]))
        pic = shown(L, p, src, limitObjectToFieldOfView=True, removeBlocked=False)
    elif kind == 'limited':
        pic = shown(L, p, limitObjectToFieldOfView=True, onlyPrincipalAndAxialRays=False, removeBlocked=False)
    else:
        pic = shown(L, p)
    lines = rays_of(pic)
    for y in (T.neg(half(h)), half(h)):
        for t in (third(-1, 100), N(0), third(1, 100)):
            if kind == 'fans':
                exists(L, 'ray', lines, lambda i: through(L, i, lens_line(y, t, d1, f, d2)))
            else:
                exists(L, 'ray', lines, lambda i: both(L, (i.x[0][1], i.y[0][1]), (N(0), y)))
    if kind == 'fans':
        L.fact('six rays', len(lines) == 6)
    exists(L, 'object', pic, lambda i: arrow(L, i, N(0), T.neg(half(h)), half(h)))
    if kind != 'fans':
        nothing(L, 'no other object', pic, lambda i: arrow(L, i, N(0), third(-9, 2), third(9, 2)))


@law('C31', ['boxes', 'limited', 'principal'])
def saved_options(L, kind):
    """a saved figure has no check boxes and follows the same options as display()"""
    setup(L)
    p = stop_system(L)
    L.I.stubs[('ImagingPath', 'fieldOfView')] = lambda I, st, me, x, k: N(6)
    src = L.new('ObjectRays', L.var('h', '+'), halfAngle=third(1, 10), H=2, T=2)
    kw = {'boxes': dict(rays=src), 'limited': dict(limitObjectToFieldOfView=True),
          'principal': dict(onlyPrincipalAndAxialRays=False, limitObjectToFieldOfView=False)}[kind]
    L.set(p, 'objectHeight', L.v(9))
    L.call(p, 'display', **kw)
    a = frozen(L, picture(L))
    if kind == 'boxes':
        L.fact('boxes to click', len(L.seq(L.get(L.I.plt, 'extra'))) == 1)
        n = len(L.seq(L.get(L.I.plt, 'extra')))
        L.call(p, 'saveFigure', 'file.pdf', **kw)
        L.fact('no boxes in the file', len(L.seq(L.get(L.I.plt, 'extra'))) == n)
    else:
        L.set(p, 'objectHeight', L.v(9))
        L.call(p, 'saveFigure', 'file.pdf', **kw)
    L.note(p, 'saveFigure')
    same_picture(L, 'saved', a, frozen(L, picture(L)))


@law('C31', ['object', 'lamp'])
def blocked_behind(L, kind):
    """rays of an object inside the path that are blocked on their way back are drawn up to where they are blocked"""
    setup(L)
    p = path(L, L.new('Space', 10), L.new('Aperture', 2), L.new('Space', 40), L.new('Lens', 10), L.new('Space', 40))
    L.set(p, 'objectHeight', L.v(1))
    z, h = N(30), L.var('h', '+')
    L.assume(T.cmp_num('>', h, N(2)))
    src = L.new('ObjectRays', h, halfAngle=0, H=2, T=2, z=z) if kind == 'object' else L.new('LampRays', h, NA=0, N=2, T=2, z=z)
    axis = L.new('ObjectRays', 1, halfAngle=0, H=2, T=2)
    pic = shown(L, p, raysList=L.v([src, axis]), removeBlocked=False)
    for y in (T.neg(half(h)), half(h)):
        exists(L, 'back', rays_of(pic, False), lambda i: through(L, i, [(z, y), (N(10), y)]))
        exists(L, 'forth', rays_of(pic, False), lambda i: through(L, i, [(z, y), (N(50), y), (N(90), T.mul(N(-3), y))]))
    for i in rays_of(pic, False):
        for (_, x) in i.x:
            L.holds('inside the path', and_(T.cmp_num('>=', x, N(0)), T.cmp_num('<=', x, N(90))))


@law('C31', ['upright', 'inverted', 'enlarged'])
def arrow_heads(L, kind):
    """the head of an arrow is at its tip and inside its length, for upright and inverted images"""
    setup(L)
    d, z, m = {'inverted': (20, 40, -1), 'upright': (5, -5, 2), 'enlarged': (15, 45, -2)}[kind]
    p = path(L, L.new('Space', d), L.new('Lens', 10), L.new('Space', 40))
    h = L.var('h', '+')
    pic = shown(L, p, L.new('ObjectRays', h, H=2, T=2))
    for x, top in ((N(0), half(h)), (N(z), half(T.mul(h, N(m))))):
        found, heads = FALSE, TRUE
        for i in pic:
            if i.kind != 'patch' or len(i.points) != 14:
                continue
            is_it = arrow(L, i, x, T.neg(top), top)
            found = or_(found, is_it)
            ok = TRUE
            for q in i.points:
                # every corner is between the tail and the tip
                ok = and_(ok, T.cmp_num('<=', T.mul(T.sub(q[1], top), T.add(q[1], top)), N(0)))
                # and a corner that is neither at the tail nor at the tip is on the side of the tip
                near = T.cmp_num('>', T.mul(q[1], top), N(0))
                ok = and_(ok, or_(near, same_num(L, q[1], T.neg(top))))
            heads = and_(heads, or_(not_(is_it), ok))
        L.holds('head of the arrow at %s' % T.show(x), heads)
        L.holds('there is an arrow at %s' % T.show(x), found)


@law('C31', ['front', 'back', 'both', 'single'])
def strongly_curved(L, kind):
    """a surface higher than its radius is drawn as a half sphere, on the side of its centre"""
    setup(L)
    n, h = third(3, 2), N(30)
    if kind in ('front', 'back', 'both'):
        R1, R2 = {'front': (20, -100), 'back': (100, -20), 'both': (20, -20)}[kind]
        e = L.new('ThickLens', n, R1, R2, 5, diameter=60)
        surf = [(R1, 0), (R2, 5)]
    else:
        e = L.new('DielectricInterface', 1, n, 20, diameter=60)
        surf = [(20, 0)]
    p, d = with_element(L, e, L.new('Space', 20))
    ps = patches(shown(L, p))
    for k, (R, t) in enumerate(surf):
        z = T.add(d, N(t))
        x = T.add(z, N(R)) if abs(R) == 20 else T.add(z, sag(L, N(R), h))
        exists(L, 'surface %d' % k, ps, lambda i: and_(and_(corner(L, i, x, h), corner(L, i, x, T.neg(h))), corner(L, i, z, N(0))))


@law('C31', ['lens', 'thick', 'other media'])
def written_lengths(L, kind):
    """the lengths written on the display of an element are its focal lengths, next to their arrows"""
    setup(L)
    n = third(3, 2)
    if kind == 'lens':
        e = L.new('Lens', 10, diameter=8)
    elif kind == 'thick':
        e = L.new('ThickLens', n, 60, -40, 5, diameter=20)
    else:
        e = L.new('Matrix', 1, 0, third(-1, 20), third(2, 3), physicalLength=3, frontVertex=0, backVertex=3, apertureDiameter=20, frontIndex=N(1), backIndex=n)
    F, P = L.seq(L.call(e, 'focusPositions', 0))[:2], L.seq(L.call(e, 'principalPlanePositions', 0))[:2]
    V = [L.get(e, 'frontVertex'), L.get(e, 'backVertex')]
    f = L.seq(L.call(e, 'effectiveFocalLengths'))[:2]
    v = [L.call(e, 'frontFocalLength'), L.call(e, 'backFocalLength')]
    L.call(e, 'display')
    L.note(e, 'display')
    texts = [i for i in picture(L) if i.kind == 'text']
    for k in (0, 1):
        exists(L, 'effective focal length %d' % k, texts, lambda i: text_at(L, i, L.run('return "EFL = {0:0.1f}".format(f)', f=f[k]), half(T.add(P[k], F[k]))))
        exists(L, 'from the vertex %d' % k, texts, lambda i: text_at(L, i, L.run('return "%s = {0:0.1f}".format(f)' % ('FFL', 'BFL')[k], f=v[k]), half(T.add(V[k], F[k]))))


@law('C31', ['start', 'end', 'outside'])
def waists_shown(L, kind):
    """the waist of a beam is shown wherever it is in the path, ends included, and not outside"""
    setup(L)
    p = L.new('LaserPath')
    z = {'start': 0, 'end': -50, 'outside': 7}[kind]
    L.call(p, 'append', L.new('Space', 50))
    zR = L.var('zR', '+')
    b = L.new('GaussianBeam', q=L.run('return z+1j*zR', z=N(z), zR=zR), wavelength=third(1, 2))
    w0 = L.get(b, 'waist')
    L.call(p, 'display', L.v([b]))
    L.note(p, 'display')
    arrows = [i for i in picture(L) if i.kind == 'arrow']
    if kind == 'outside':
        nothing(L, 'no waist', arrows, lambda i: TRUE)
    else:
        for s in (1, -1):
            exists(L, 'waist', arrows, lambda i: both(L, i.b, (N(-z), T.mul(N(s), w0))))


@law('C31', ['none', 'given', 'input', 'two'])
def which_beams(L, kind):
    """a laser path shows the beams given, or its input beam, and no beam at all for an empty list"""
    setup(L)
    p = L.new('LaserPath')
    L.call(p, 'append', L.new('Space', 50))
    b = L.new('GaussianBeam', w=2, wavelength=third(1, 2))
    c = L.new('GaussianBeam', w=5, wavelength=third(1, 2))
    L.set(p, 'inputBeam', b)
    a = L.attempt(L.call, p, 'display', *([] if kind == 'input' else [L.v({'none': [], 'given': [c], 'two': [b, c]}[kind])]))
    L.quiet('display works', a)
    L.note(p, 'display')
    lines = [i for i in picture(L) if i.kind == 'line']
    starts = {'none': [], 'given': [5], 'input': [2], 'two': [2, 5]}[kind]
    L.fact('two lines per beam', len(lines) == 2 * len(starts), '%d lines' % len(lines))
    for w in starts:
        for s in (1, -1):
            exists(L, 'beam of size %d' % w, lines, lambda i: same_num(L, i.y[0][1], N(s * w)))


@law('C31', ['stable', 'unstable'])
def shown_cavity(L, kind):
    """a cavity shows its laser modes, and no beam when it has none"""
    setup(L)
    p = L.new('LaserCavity')
    if kind == 'stable':
        L.call(p, 'append', L.new('Matrix', 0, 10, third(-1, 10), 0))
    else:
        L.call(p, 'append', L.new('Space', 10))
        L.call(p, 'append', L.new('Matrix', 3, 10, third(4, 5), 3))
    modes = L.items(L.call(p, 'laserModes'))
    a = L.attempt(L.call, p, 'display')
    L.quiet('display works', a)
    L.note(p, 'display')
    lines = [i for i in picture(L) if i.kind == 'line']
    if kind == 'unstable':
        L.fact('no beam', not lines)
        return
    L.fact('one mode', len(lines) == 2, '%d lines' % len(lines))
    w = None
    for m in modes:
        g, m = m if isinstance(m, tuple) and len(m) == 2 and not hasattr(m, 'op') else (TRUE, m)
        for s in (1, -1):
            exists(L, 'the mode', lines, lambda i: same_num(L, i.y[0][1], T.mul(N(s), L.get(m, 'w'))), g)


@law('C31', ['behind', 'in front'])
def pupil_elsewhere(L, kind):
    """the entrance pupil is drawn where it is, also in front of the path"""
    setup(L)
    if kind == 'in front':        # the stop is 15 behind a lens of 10: its image is 30 before the lens
        p = path(L, L.new('Space', 20), L.new('Lens', 10, diameter=50), L.new('Space', 15), L.new('Aperture', 4), L.new('Space', 10))
        z, D = N(-10), N(8)
    else:
        p = path(L, L.new('Space', 20), L.new('Lens', 10, diameter=50), L.new('Space', 5), L.new('Aperture', 4), L.new('Space', 10))
        z, D = N(30), N(8)
    L.set(p, 'showEntrancePupil', L.v(True))
    ps = patches(shown(L, p))
    exists(L, 'pupil', ps, lambda i: spans(L, i, z, T.neg(half(D)), half(D)) if len(i.points) == 4 else FALSE)


@law('C31', [0, 1, 2])
def focal_points_of_an_objective(L, turns):
    """both focal points of an objective are shown, the back one on the side of its back aperture, whichever way it is turned"""
    L.lenient = True
    f, wd, ff, z = L.var('f', '+'), L.var('wd', '+'), L.var('ff', '+'), L.var('z')
    L.assume(T.cmp_num('>', ff, T.mul(N(2), f)))
    L.assume(T.cmp_num('<', f, N(100000)))
    e = L.new('Objective', f=f, NA=L.var('na', '+'), focusToFocusLength=ff, backAperture=L.var('dia', '+'), workingDistance=wd)
    for _ in range(turns):
        L.call(e, 'flipOrientation')
    ps = L.seq(L.call(e, 'pointsOfInterest', z))
    L.note(e, 'pointsOfInterest')
    L.eq('two points', N(len(ps)), N(2))
    by = {L.idx(p, 'label').a: L.idx(p, 'z') for p in ps}
    L.fact('named', sorted(by) == ['$F_b$', '$F_f$'], '%s' % by)
    back, front = (z, T.add(z, ff)) if turns % 2 == 0 else (T.add(z, ff), z)
    L.eq('back focal point', by['$F_b$'], back)
    L.eq('front focal point', by['$F_f$'], front)
    pos = sorted([L.cmp('==', p, q) for p in by.values() for q in L.seq(L.call(e, 'focusPositions', z))], key=str)
    L.fact('they are the focal points of the element', sum(c is TRUE for c in pos) == 2, '%s' % (pos,))


@law('C31', ['height set', 'height left alone', 'limited again'])
def height_asked_for(L, kind):
    """the object has the height it was given; a path whose object has no height of its own shows one of the size of the field of view"""
    setup(L)
    p = path(L, L.new('Space', 20), L.new('Lens', 10, diameter=4), L.new('Space', 40), L.new('Aperture', 6))
    L.I.stubs[('ImagingPath', 'fieldOfView')] = lambda I, st, me, x, k: N(6)
    h = L.var('h', '+')
    if kind != 'height left alone':
        L.assume(T.cmp_num('>', h, N(7)))
        L.set(p, 'objectHeight', h)
    kw = {'limitObjectToFieldOfView': True} if kind == 'limited again' else {}
    pic = shown(L, p, onlyPrincipalAndAxialRays=False, **kw)
    e = h if kind == 'height set' else N(6)
    exists(L, 'object', pic, lambda i: arrow(L, i, N(0), T.neg(half(e)), half(e)))


@law('C31', ['ImagingPath', 'LaserPath', 'default', 'saved'])
def title_of_a_figure(L, kind):
    """a figure has the label of the path as its title"""
    setup(L)
    name = L.sym('my microscope')
    els = [L.new('Space', 30), L.new('Lens', 10), L.new('Space', 40)]
    if kind == 'LaserPath':
        p = L.new('LaserPath', L.v(els[:1]), label=name)
        L.set(p, 'inputBeam', L.new('GaussianBeam', w=third(1, 10)))
        L.call(p, 'display')
    else:
        p = L.new('ImagingPath', L.v(els), **({} if kind == 'default' else {'label': name}))
        if kind == 'saved':
            L.call(p, 'saveFigure', 'file.pdf')
        else:
            L.call(p, 'display')
    L.eq('label of the path', L.get(p, 'label'), L.v('') if kind == 'default' else name)
    ax = L.seq(L.get(figures(L)[-1], 'axes'))[0]
    L.eq('title', L.get(ax, 'title'), L.get(p, 'label'))


@law('C31', ['inside', 'at the front'])
def position_of_the_object(L, where):
    """the default object and its rays are at the objectPosition of the path"""
    setup(L)
    z = N(12) if where == 'inside' else N(0)
    p, d1, d2, f, lens = fixed(L, dia=False)
    h = L.var('h', '+')
    L.set(p, 'objectHeight', h)
    L.set(p, 'objectPosition', z)
    L.set(p, 'fanAngle', third(1, 100))
    L.set(p, 'fanNumber', L.v(2))
    L.set(p, 'rayNumber', L.v(2))
    pic = shown(L, p)
    exists(L, 'object', pic, lambda i: arrow(L, i, z, T.neg(half(h)), half(h)))
    for y in (T.neg(half(h)), half(h)):
        for t in (third(-1, 100), third(1, 100)):
            at = lambda q: T.add(y, T.mul(t, T.sub(q, z)))
            y2 = at(N(30))
            t2 = T.sub(t, T.div(y2, N(10)))
            exists(L, 'ray', rays_of(pic), lambda i: through(L, i, [(z, y), (N(30), y2), (N(70), T.add(y2, T.mul(N(40), t2)))]))
