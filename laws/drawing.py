"""What a figure contains, read from the abstract matplotlib (shared by the laws on figures)."""
from .common import *


class Private:
    """fields that are not observable"""
    def __contains__(self, k):
        return k.startswith('_') or k in ('figure', 'design', 'iteration')


PRIVATE = Private()
PATH = ('objectHeight', 'objectPosition', 'fanAngle', 'fanNumber', 'rayNumber', 'showImages', 'showObject', 'showElementLabels',
        'showPointsOfInterest', 'showPointsOfInterestLabels', 'showEntrancePupil', 'label', 'A', 'B', 'C', 'D', 'L',
        'apertureDiameter', 'frontIndex', 'backIndex', 'frontVertex', 'backVertex', 'largestDiameter', 'isFlipped')
LASER = ('label', 'A', 'B', 'C', 'D', 'L', 'apertureDiameter', 'inputBeam', 'showElementLabels', 'largestDiameter')
RAYS = ('yMax', 'z', 'label', 'rayColors')


def same(L, before):
    """what the user can observe of elements, paths and rays"""
    def one(o, names):
        return [(n, L.image(L.get(o, n), 8, PRIVATE)) for n in names]
    out = []
    for o in before:
        c = L.I.obj(L.st, o).cls.name
        if c == 'ImagingPath':
            out += one(o, PATH)
        elif c == 'LaserPath':
            out += one(o, LASER)
        elif c in ('ObjectRays', 'LampRays', 'UniformRays', 'Rays'):
            out += one(o, RAYS if c != 'Rays' else RAYS[1:]) + [('rays', L.image(L.v(L.seq(o)), 8, PRIVATE))]
            continue
        elif c != 'list' and L.I.obj(L.st, o).items is None and c not in ('GaussianBeam',):
            out.append(('displayHalfHeight', L.call(o, 'displayHalfHeight')))
            out += one(o, ('largestDiameter',))
        if c in ('ImagingPath', 'LaserPath', 'MatrixGroup'):
            els = L.seq(L.get(o, 'elements'))
            out.append(('elements', L.image(L.v(els), 8, PRIVATE)))
            out += [(n, x) for e in els for n, x in same(L, [e])]
        else:
            out.append((c, L.image(o, 8, PRIVATE)))
    return out


def unchanged(L, label, before, after):
    L.fact('%s: same observables' % label, [n for n, _ in before] == [n for n, _ in after])
    for (n, x), (_, y) in zip(before, after):
        L.eq('%s: %s' % (label, n), y, x)


class Item:
    def __init__(self, guard, kind, **kw):
        self.guard, self.kind = guard, kind
        self.__dict__.update(kw)


def figures(L):
    return L.seq(L.get(L.I.plt, 'figures'))


def numbers(L, v):
    """[(guard, number)] of a list or an array"""
    return L.seq_gated(v)


def placed(L, at, x, y):
    if at is NONE:
        return x, y
    g = lambda n: L.get(at, n)
    return T.add(T.mul(x, g('sx')), g('tx')), T.add(T.mul(y, g('sy')), g('ty'))


def drawn(L, ax):
    """[(guard, artist, its transform)]: one for each way it can be drawn"""
    out = []
    for g, a in L.items(L.get(ax, 'artists')):
        for ga, one in T.leaves(a, and_(g, L.st.guard)):
            for c, l in T.leaves(L.raw(one, 'at'), ga):
                c = T.restrict(and_(ga, c), L.st.guard)
                if c is not FALSE:
                    out.append((c, one, l))
    return out


def picture(L, which=-1, axes=0):
    """everything added to the axes of a figure, in data coordinates"""
    f = figures(L)[which]
    ax = L.seq(L.get(f, 'axes'))[axes]
    out = []
    for g, a, at in drawn(L, ax):
        kind = L.I.obj(L.st, a).cls.name
        kw = dict(visible=L.I.truth(L.st, L.raw(a, 'visible')), style=L.raw(a, 'style'))
        if kind == 'Line2D':
            it = Item(g, 'line', x=numbers(L, L.raw(a, 'x')), y=numbers(L, L.raw(a, 'y')), **kw)
        elif kind == 'PathPatch':
            vs = L.seq(L.get(L.raw(a, 'path'), 'vertices'))
            pts = [L.seq(v) for v in vs]
            it = Item(g, 'patch', raw=pts, points=[placed(L, at, *p) for p in pts], at=at, **kw)
        elif kind == 'FancyArrowPatch':
            it = Item(g, 'arrow', a=L.seq(L.raw(a, 'posA')), b=L.seq(L.raw(a, 'posB')), **kw)
        else:
            x, y = L.raw(a, 'x'), L.raw(a, 'y')
            sp = L.raw(at, 'space') if at is not NONE else NONE
            x, y = placed(L, at, x, y)
            it = Item(g, 'text', x=x, y=y, text=L.raw(a, 'text'), space=sp, **kw)
        out.append(it)
    return out


def frozen(L, pic):
    """comparable form of a picture"""
    out = []
    for i in pic:
        if i.kind == 'line':
            d = [T.tup([g, v]) for g, v in i.x] + [T.tup([g, v]) for g, v in i.y]
        elif i.kind == 'patch':
            d = [v for p in i.points for v in p]
        elif i.kind == 'arrow':
            d = list(i.a) + list(i.b)
        else:
            d = [i.x, i.y, i.text]
        out.append((i.kind, T.tup([i.guard, i.visible, L.image(i.style)] + d)))
    return out


def same_picture(L, label, a, b):
    L.fact('%s: as many things drawn' % label, [k for k, _ in a] == [k for k, _ in b])
    for n, ((k, x), (_, y)) in enumerate(zip(a, b)):
        L.eq('%s: %s %d' % (label, k, n), y, x)


def no_search(L):
    """field stop and field of view are found by a numerical search: not followed here"""
    L.I.stubs[('ImagingPath', 'fieldOfView')] = lambda I, st, me, a, k: INF
    L.I.stubs[('ImagingPath', 'fieldStop')] = lambda I, st, me, a, k: T.tup([NONE, NONE])
    L.I.stubs[('ImagingPath', 'imageSize')] = lambda I, st, me, a, k: INF


def path(L, *els):
    p = L.new('ImagingPath')
    for e in els:
        L.call(p, 'append', e)
    return p


def fixed(L, dia=True, label=''):
    """the same with numbers: object at -30, image at 15 from a lens of focal length 10"""
    lens = L.new('Lens', 10, label=label, **({'diameter': 25} if dia else {}))
    return path(L, L.new('Space', 30), lens, L.new('Space', 40)), N(30), N(40), N(10), lens


def simple(L, dia=True, label='', real=True):
    """an object before the focal point of a lens, and its image"""
    d1, d2, f = L.var('d1', '+'), L.var('d2', '+'), L.var('f', '+')
    if real:
        L.assume(T.cmp_num('>', d1, f))
        di = T.div(T.mul(d1, f), T.sub(d1, f))
        L.assume(T.cmp_num('>', d2, di))
    kw = {'diameter': L.var('D', '+')} if dia else {}
    lens = L.new('Lens', f, label=label, **kw)
    return path(L, L.new('Space', d1), lens, L.new('Space', d2)), d1, d2, f, lens
