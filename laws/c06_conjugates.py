"""Conjugate planes are images of each other."""
from . import law
from .common import *


@law('C06', ['gen', 'C0', 'A0', 'B0'])
def forward_conjugate(L, c):
    m = mat(L, 1, c)
    L.assume(not_(T.cmp_num('==', L.get(m, 'D'), N(0))))
    r = L.call(m, 'forwardConjugate')
    L.note(m, 'forwardConjugate')
    d, t = L.get(r, 'd'), L.get(r, 'transferMatrix')
    A, B, C, D = prod([abcd(L, m), free(d)])
    L.eq('at this distance after the element there is an image', B, N(0))
    for k, w in zip(ABCD, (A, B, C, D)):
        L.eq('transferMatrix.%s goes up to the image' % k, L.get(t, k), w)
    L.eq('transferMatrix.backIndex', L.get(t, 'backIndex'), L.get(m, 'backIndex'))
    L.eq('transferMatrix.frontIndex', L.get(t, 'frontIndex'), L.get(m, 'frontIndex'))
    L.eq('transferMatrix.L', L.get(t, 'L'), T.add(L.get(m, 'L'), d))
    L.eq('d is the first item', L.idx(r, 0), d)


@law('C06')
def forward_conjugate_at_infinity(L):
    m = mat(L, 1, 'D0')
    r = L.call(m, 'forwardConjugate')
    L.note(m, 'forwardConjugate')
    L.eq('no forward conjugate: infinite distance', L.get(r, 'd'), INF)
    L.eq('no forward conjugate: no matrix', L.get(r, 'transferMatrix'), NONE)


@law('C06', ['gen', 'C0', 'D0', 'B0'])
def backward_conjugate(L, c):
    m = mat(L, 1, c)
    L.assume(not_(T.cmp_num('==', L.get(m, 'A'), N(0))))
    r = L.call(m, 'backwardConjugate')
    L.note(m, 'backwardConjugate')
    d, t = L.get(r, 'd'), L.get(r, 'transferMatrix')
    A, B, C, D = prod([free(d), abcd(L, m)])
    L.eq('an object at this distance before the element has its image at the end', B, N(0))
    for k, w in zip(ABCD, (A, B, C, D)):
        L.eq('transferMatrix.%s starts at the object' % k, L.get(t, k), w)
    L.eq('transferMatrix.frontIndex', L.get(t, 'frontIndex'), L.get(m, 'frontIndex'))
    L.eq('transferMatrix.L', L.get(t, 'L'), T.add(L.get(m, 'L'), d))


@law('C06', [1, 2])
def group_conjugates(L, k):
    ms = [mat(L, i + 1, 'gen', indices=False) for i in range(k)]
    g = L.new('MatrixGroup', ms)
    m = prod([abcd(L, x) for x in ms])
    L.assume(not_(T.cmp_num('==', m[3], N(0))))
    L.assume(not_(T.cmp_num('==', m[0], N(0))))
    r = L.call(g, 'forwardConjugate')
    L.eq('group: image after the group', prod([m, free(L.get(r, 'd'))])[1], N(0))
    r = L.call(g, 'backwardConjugate')
    L.eq('group: object before the group', prod([free(L.get(r, 'd')), m])[1], N(0))


@law('C06')
def to_conjugate(L):
    m = mat(L, 1, 'gen')
    L.assume(not_(T.cmp_num('==', L.get(m, 'D'), N(0))))
    s = L.new('ToConjugate', m)
    L.note(s, '__init__')
    L.eq('an element followed by ToConjugate makes an image', prod([abcd(L, m), abcd(L, s)])[1], N(0))
    L.eq('ToConjugate is in the medium of the element', L.get(s, 'frontIndex'), L.get(m, 'backIndex'))
    m = mat(L, 2, 'D0')
    L.raises('ToConjugate refuses an infinite distance', L.trial(L.new, 'ToConjugate', m), 'ValueError')


@law('C06')
def to_focus(L):
    m = mat(L, 1, 'gen')
    L.assume(far_from_zero(L.get(m, 'C')))
    L.set(m, 'backVertex', L.get(m, 'L'))
    s = L.new('ToFocus', m)
    L.note(s, '__init__')
    L.eq('an element followed by ToFocus focuses parallel rays', prod([abcd(L, m), abcd(L, s)])[0], N(0))
    L.eq('ToFocus is in the medium of the element', L.get(s, 'frontIndex'), L.get(m, 'backIndex'))
    m = mat(L, 2, 'C0')
    L.raises('ToFocus refuses an infinite distance', L.trial(L.new, 'ToFocus', m), 'ValueError')


@law('C06')
def is_imaging(L):
    m = mat(L, 1, 'B0')
    L.eq('B = 0 is imaging', L.I.truth(L.st, L.get(m, 'isImaging')), TRUE)
    g = L.call(m, 'magnification')
    L.eq('transverse magnification: image height over object height', L.get(g, 'transverse'), L.get(m, 'A'))
    L.eq('angular magnification', L.get(g, 'angular'), L.get(m, 'D'))
    m = mat(L, 2, 'gen')
    L.assume(far_from_zero(L.get(m, 'B')))
    L.eq('B != 0 is not imaging', L.I.truth(L.st, L.get(m, 'isImaging')), FALSE)
    g = L.call(m, 'magnification')
    L.eq('no magnification when not imaging', T.tup([L.get(g, 'transverse'), L.get(g, 'angular')]), T.tup([NONE, NONE]))


@law('C06', ['lens', 'two lenses', 'nested', 'matrices'])
def intermediate_images(L, kind):
    d1, d2, f = L.var('d1', '+'), L.var('d2', '+'), L.var('f', '!0')
    if kind == 'lens':
        es = [L.new('Space', d1), L.new('Lens', f), L.new('Space', d2)]
    elif kind == 'matrices':
        es = [mat(L, i + 1, 'gen', indices=False) for i in range(2)]
    else:
        es = [L.new('Space', d1), L.new('Lens', f), L.new('Space', d2), L.new('Lens', L.var('g', '!0'))]
    g = L.new('MatrixGroup', es if kind != 'nested' else [es[0], L.new('MatrixGroup', es[1:])])
    got = L.call(g, 'intermediateConjugates')
    L.note(g, 'intermediateConjugates')
    pre, length = [], N(0)
    for i, e in enumerate(es):
        length = T.add(length, L.get(e, 'L'))
        pre.append((prod([abcd(L, x) for x in es[:i + 1]]), length))

    def image(z, mag):
        r = FALSE
        for (A, B, C, D), l in pre:
            d = T.sub(z, l)
            r = or_(r, and_(T.cmp_num('==', T.add(B, T.mul(D, d)), N(0)), T.cmp_num('==', T.add(A, T.mul(C, d)), mag)))
        return r
    for i, (gd, x) in enumerate(L.seq_gated(got)):
        if gd is FALSE:
            continue
        L.iff('plane %d is an image, with its magnification' % i, image(L.idx(x, 0), L.idx(x, 1)), TRUE, gd)
    # and none is forgotten
    tol = T.num(__import__('fractions').Fraction(1, 500))
    for i, ((A, B, C, D), l) in enumerate(pre):
        d = T.neg(T.div(B, ite(T.cmp_num('==', D, N(0)), N(1), D)))
        z, mag = T.add(l, d), T.add(A, T.mul(C, d))
        if T.cmp_num('==', z, N(0)) is TRUE or T.cmp_num('==', D, N(0)) is TRUE:
            continue  # the object itself
        near = FALSE
        for gd, x in L.seq_gated(got):
            near = or_(near, and_(gd, and_(T.cmp_num('<', absv(T.sub(L.idx(x, 0), z)), tol), T.cmp_num('<', absv(T.sub(L.idx(x, 1), mag)), tol))))
        L.iff('the image after element %d is reported' % i, near, TRUE, and_(not_(T.cmp_num('==', D, N(0))), not_(T.cmp_num('==', z, N(0)))))
    b = L.image(g, depth=10)
    L.call(g, 'intermediateConjugates')
    L.eq('intermediateConjugates() does not modify the group', L.image(g, depth=10), b)


@law('C06', ['spaces', 'aperture', 'two images', 'one magnification', 'two magnifications'])
def images_are_reported_once(L, case):
    """an image plane that several elements see is reported once; planes that differ in position or magnification are all reported"""
    f = L.var('f', '!0')
    d = L.var('d', '+')
    lens = L.new('Lens', f)
    L.assume(far_from_zero(T.sub(T.div(d, f), N(1))))
    es = [L.new('Space', d), lens]
    if case == 'spaces':
        es += [L.new('Space', L.var('a', '+')), L.new('Space', L.var('b', '+'))]
        want = 1
    elif case == 'aperture':
        es += [L.new('Space', L.var('a', '+')), L.new('Aperture', L.var('dia', '+'))]
        want = 1
    elif case == 'two images':
        # a 4f system then free space: the image of the first lens is at infinity
        es = [L.new('Space', d), lens, L.new('Space', T.mul(N(4), d)), L.new('Lens', d)]
        L.assume(T.cmp_num('==', f, T.div(d, N(2))))
        want = 2
    elif case == 'two magnifications':
        # a relay without length keeps the position and changes the magnification
        k = L.var('k', '+')
        L.assume(T.cmp_num('>', k, N(2)))
        es = [L.new('Space', T.mul(N(2), d)), L.new('Lens', d), L.new('Space', T.mul(N(2), d)), L.new('Matrix', k, N(0), N(0), T.div(N(1), k))]
        want = 2
    else:
        # a lens at the image: same position, another magnification is not possible; an interface there keeps the position
        es = [L.new('Space', T.mul(N(2), d)), L.new('Lens', d), L.new('Space', T.mul(N(2), d)), L.new('Lens', L.var('g', '!0'))]
        want = 1
    g = L.new('MatrixGroup', es)
    got = L.call(g, 'intermediateConjugates')
    L.note(g, 'intermediateConjugates')
    planes = [(gd, x) for gd, x in L.seq_gated(got) if gd is not FALSE]
    L.eq('number of planes', L.length(got), N(want))
