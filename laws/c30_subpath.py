"""Part of a path from a position inside of it, forward or backwards."""
from . import law
from .common import *

SKIP = ('_lastRayToBeTraced', '_lastRayTrace', 'iteration')


def tail(L, kind):
    """elements beyond the space of the object: [(element, (A, B, C, D), length)], index of the medium after"""
    n = L.var('n', '+')
    dia = L.var('dia', '+')
    f = L.var('f', '!0')
    d2 = L.var('d2', '+')
    if kind == 'lens':
        return N(1), [L.new('Lens', f, diameter=dia), L.new('Space', d2)]
    if kind == 'interface':
        n2 = L.var('n2', '+')
        return n, [L.new('DielectricInterface', n, n2, L.var('R', '!0'), diameter=dia), L.new('Space', d2, n2)]
    if kind == 'thick lens':
        return N(1), [L.new('ThickLens', n, L.var('R1', '!0'), L.var('R2', '!0'), L.var('t', '+'), diameter=dia), L.new('Space', d2)]
    if kind == 'mirror':
        return N(1), [L.new('CurvedMirror', L.var('R', '!0'), diameter=dia), L.new('Space', d2)]
    if kind == 'group':
        g = L.new('MatrixGroup', [L.new('Space', L.var('d1', '+')), L.new('Lens', f, diameter=dia)])
        return N(1), [g, L.new('Space', d2)]
    if kind == 'two spaces':
        return N(1), [L.new('Space', d2), L.new('Lens', f, diameter=dia)]
    if kind == 'aperture':
        return N(1), [L.new('Aperture', dia), L.new('Space', d2), L.new('Lens', f)]


KINDS = ['lens', 'interface', 'thick lens', 'mirror', 'group', 'two spaces', 'aperture']


@law('C30', KINDS)
def forward(L, kind):
    """from a position in the first space: what is left of it, then the same elements"""
    n, es = tail(L, kind)
    za, zb = L.var('za', '+'), L.var('zb', '+')
    want = prod([free(zb)] + [abcd(L, e) for e in es])
    length = zb
    for e in es:
        length = T.add(length, L.get(e, 'L'))
    p = L.new('ImagingPath', [L.new('Space', T.add(za, zb), n)] + es)
    before = L.image(p, skip=SKIP)
    s = L.call(p, 'subPath', za)
    L.note(p, 'subPath')
    for k, w in zip('ABCD', want):
        L.eq('forward .%s' % k, L.get(s, k), w)
    L.eq('forward length', L.get(s, 'L'), length)
    L.eq('forward: index of the medium of the object', L.get(s, 'frontIndex'), n)
    L.eq('forward: index at the end', L.get(s, 'backIndex'), L.get(p, 'backIndex'))
    L.eq('backwards=False is the same', L.get(L.call(p, 'subPath', za, backwards=FALSE), 'B'), want[1])
    r = L.call(s, 'trace', L.new('Ray', N(0), L.var('theta')))
    L.eq('the path is not modified', L.image(p, skip=SKIP), before)
    h = T.mul(L.var('theta'), zb)
    if kind == 'two spaces':
        h = T.mul(L.var('theta'), T.add(zb, L.var('d2', '+')))
    if kind in ('group',):
        h = T.mul(L.var('theta'), T.add(zb, L.var('d1', '+')))
    if kind != 'thick lens':
        L.iff('the last ray is blocked when it misses the aperture', L.I.truth(L.st, L.get(L.idx(r, -1), 'isBlocked')),
              T.cmp_num('>', T.mul(N(2), absv(h)), L.var('dia', '+')))


@law('C30', KINDS)
def backwards(L, kind):
    """from a position in the last space: the elements before it, turned around, in the opposite order"""
    n, es = tail(L, kind)
    if kind in ('interface',):
        # light comes back from the other side
        es = es[:1]
        n = L.var('n2', '+')
    if kind == 'two spaces':
        es = es[:1]
    za, zb = L.var('za', '+'), L.var('zb', '+')
    ms = []
    for e in es:
        A, B, C, D = abcd(L, e)
        det = T.sub(T.mul(A, D), T.mul(B, C))
        ms.append((A, B, C, D) if kind == 'mirror' else tuple(T.div(x, det) for x in (D, B, C, A)))
    want = prod([free(za)] + ms[::-1])
    length = za
    for e in es:
        length = T.add(length, L.get(e, 'L'))
    p = L.new('ImagingPath', es + [L.new('Space', T.add(za, zb), n)])
    z = T.add(T.sub(length, za), za)
    before = L.image(p, skip=SKIP)
    s = L.call(p, 'subPath', z, backwards=TRUE)
    L.note(p, 'subPath')
    for k, w in zip('ABCD', want):
        L.eq('backwards .%s' % k, L.get(s, k), w)
    L.eq('backwards length', L.get(s, 'L'), length)
    L.eq('backwards: index of the medium of the object', L.get(s, 'frontIndex'), n)
    L.eq('backwards: index at the end is the one before the path', L.get(s, 'backIndex'), L.get(p, 'frontIndex'))
    r = L.call(s, 'trace', L.new('Ray', N(0), L.var('theta')))
    L.eq('the path is not modified', L.image(p, skip=SKIP), before)
    h = T.mul(L.var('theta'), za if kind == 'interface' else T.add(za, L.var('d2', '+')))
    if kind in ('interface', 'mirror'):
        L.iff('the last ray is blocked when it misses the aperture', L.I.truth(L.st, L.get(L.idx(r, -1), 'isBlocked')),
              T.cmp_num('>', T.mul(N(2), absv(h)), L.var('dia', '+')))


@law('C30', [(i, b) for i in (0, 1, 2) for b in (False, True)])
def position(L, i, back):
    """the position is counted from the start of the path, over all elements"""
    ds = [L.var('d%d' % k, '+') for k in range(3)]
    fs = [L.var('f%d' % k, '!0') for k in range(2)]
    lens = lambda f: (N(1), N(0), T.neg(T.div(N(1), f)), N(1))
    p = L.new('ImagingPath', [L.new('Space', ds[0]), L.new('Lens', fs[0]), L.new('Space', ds[1]), L.new('Lens', fs[1]), L.new('Space', ds[2])])
    z = L.var('z', '+')
    L.assume(T.cmp_num('<', z, ds[i]))
    at = z
    for k in range(i):
        at = T.add(at, ds[k])
    s = L.call(p, 'subPath', at, TRUE if back else FALSE)
    L.note(p, 'subPath')
    if back:
        ms = [free(z)]
        for k in range(i - 1, -1, -1):
            ms += [lens(fs[k]), free(ds[k])]
    else:
        ms = [free(T.sub(ds[i], z))]
        for k in range(i + 1, 3):
            ms += [lens(fs[k - 1]), free(ds[k])]
    for k, w in zip('ABCD', prod(ms)):
        L.eq('.%s of what is left' % k, L.get(s, k), w)


@law('C30', [(w, b) for w in ('before', 'after', 'inside') for b in (False, True)])
def no_such_position(L, where, back):
    """a position outside of the path or inside of an element raises an error"""
    d, t = L.var('d', '+'), L.var('t', '+')
    p = L.new('ImagingPath', [L.new('Space', d), L.new('ThickLens', L.var('n', '+'), L.var('R1', '!0'), L.var('R2', '!0'), t), L.new('Space', d)])
    z = L.var('z', '+')
    if where == 'before':
        at = T.neg(z)
    elif where == 'after':
        at = T.add(z, T.add(T.mul(N(2), d), t))
    else:
        L.assume(T.cmp_num('<', z, t))
        at = T.add(d, z)
    before = L.image(p, skip=SKIP)
    L.note(p, 'subPath')
    a = L.trial(lambda: L.call(p, 'subPath', at, TRUE if back else FALSE))
    L.raises('no path from %s' % where, a, ('ValueError', 'AssertionError'))
    L.eq('the path is not modified', L.image(p, skip=SKIP), before)


@law('C30', [True, False])
def in_the_first_space(L, back):
    """from a position in the first space, in any medium: a space of that medium, with the index of that medium on both sides"""
    n, za, zb = L.var('n', '+'), L.var('za', '+'), L.var('zb', '+')
    n2 = L.var('n2', '+')
    p = L.new('ImagingPath', [L.new('Space', T.add(za, zb), n), L.new('DielectricInterface', n, n2, L.var('R', '!0')), L.new('Space', L.var('d', '+'), n2)])
    s = L.call(p, 'subPath', za, TRUE if back else FALSE)
    L.note(p, 'subPath')
    L.eq('index in front', L.get(s, 'frontIndex'), n)
    L.eq('index at the end', L.get(s, 'backIndex'), n if back else n2)
    first = L.seq(L.get(s, 'elements'))[0]
    L.eq('length of the first space', L.get(first, 'L'), za if back else zb)
    L.eq('medium of the first space', L.get(first, 'frontIndex'), n)
    L.eq('medium of the first space (end)', L.get(first, 'backIndex'), n)
    if back:
        L.eq('nothing else on the way back', L.length(L.get(s, 'elements')), N(1))
