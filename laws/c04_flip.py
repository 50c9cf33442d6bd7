"""Turning an element (or a group) around describes light going the other way."""
from . import law
from .common import *


def elements(L, kind):
    n, dia = L.var('n', '+'), L.var('dia', '+')
    if kind == 'lens':
        return L.new('Lens', L.var('f', '!0'), diameter=dia)
    if kind == 'space':
        return L.new('Space', L.var('d', '+'), n, diameter=dia)
    if kind == 'interface':
        return L.new('DielectricInterface', L.var('n1', '+'), n, L.var('R', '!0'), diameter=dia)
    if kind == 'flat interface':
        return L.new('DielectricInterface', L.var('n1', '+'), n, diameter=dia)
    if kind == 'thick lens':
        return L.new('ThickLens', n, L.var('R1', '!0'), L.var('R2', '!0'), L.var('t', '+'), diameter=dia)
    if kind == 'plano-convex':
        return L.new('ThickLens', n, L.var('R1', '!0'), INF, L.var('t', '+'), diameter=dia)
    if kind == 'slab':
        return L.new('DielectricSlab', n, L.var('t', '+'), diameter=dia)
    if kind == 'aperture':
        return L.new('Aperture', dia)
    if kind == 'singlet group':
        a = L.new('DielectricInterface', N(1), n, L.var('R1', '!0'), diameter=dia)
        b = L.new('Space', L.var('t', '+'), n)
        c = L.new('DielectricInterface', n, N(1), L.var('R2', '!0'))
        return L.new('MatrixGroup', [a, b, c])
    if kind == 'lens group':
        return L.new('MatrixGroup', [L.new('Space', L.var('d1', '+')), L.new('Lens', L.var('f1', '!0'), diameter=dia),
                                     L.new('Space', L.var('d2', '+')), L.new('Lens', L.var('f2', '!0'))])
    if kind == 'path':
        return L.new('ImagingPath', [L.new('Space', L.var('d1', '+')), L.new('Lens', L.var('f1', '!0'), diameter=dia)])
    if kind in ('group of one', 'empty group'):
        g = L.new('MatrixGroup', [L.new('DielectricInterface', L.var('n1', '+'), n, L.var('R', '!0'), diameter=dia)][:kind == 'group of one'])
        L.call(g, 'transferMatrix')
        return g
    if kind == 'objective':
        L.lenient = True
        f, wd, ff = L.var('f', '+'), L.var('wd', '+'), L.var('ff', '+')
        L.assume(T.cmp_num('>', ff, T.mul(N(2), f)))
        return L.new('Objective', f=f, NA=L.var('na', '+'), focusToFocusLength=ff, backAperture=dia, workingDistance=wd)
    if kind == 'nested':
        g = L.new('MatrixGroup', [L.new('Space', L.var('d1', '+')), L.new('Lens', L.var('f1', '!0'), diameter=dia)])
        return L.new('MatrixGroup', [L.new('Space', L.var('d2', '+')), g, L.new('Space', L.var('d3', '+'))])
    if kind == 'repeated':
        lens = L.new('Lens', L.var('f1', '!0'))
        sp = L.new('DielectricSlab', n, L.var('t', '+'))
        return L.new('MatrixGroup', [lens, sp, L.new('Space', L.var('d2', '+')), lens])
    if kind == 'repeated inside':
        e = L.new('ThickLens', n, L.var('R1', '!0'), INF, L.var('t', '+'), diameter=dia)
        return L.new('MatrixGroup', [L.new('Space', L.var('d1', '+')), e, L.new('Space', L.var('d2', '+')), e, L.new('Space', L.var('d3', '+'))])


KINDS = ['lens', 'space', 'interface', 'flat interface', 'thick lens', 'plano-convex', 'slab', 'aperture', 'singlet group',
         'lens group', 'path', 'nested', 'repeated', 'repeated inside',
         'group of one', 'empty group', 'objective']


@law('C04', KINDS)
def flipped_matrix_is_reversed(L, kind):
    e = elements(L, kind)
    A, B, C, D = abcd(L, e)
    det = T.sub(T.mul(A, D), T.mul(B, C))
    length, nf, nb = [L.get(e, k) for k in ('L', 'frontIndex', 'backIndex')]
    fv, bv = L.get(e, 'frontVertex'), L.get(e, 'backVertex')
    dia = L.get(e, 'apertureDiameter')
    r = L.call(e, 'flipOrientation')
    L.note(e, 'flipOrientation')
    L.eq('flipOrientation() returns the element itself', r, e)
    for k, w in zip(ABCD, (D, B, C, A)):
        L.eq('flipped .%s is that of the reversed system' % k, L.get(e, k), T.div(w, det))
    L.eq('flipped length', L.get(e, 'L'), length)
    L.eq('flipped frontIndex', L.get(e, 'frontIndex'), nb)
    L.eq('flipped backIndex', L.get(e, 'backIndex'), nf)
    L.eq('flipped aperture', L.get(e, 'apertureDiameter'), dia)
    if 'repeated' not in kind:
        mirror = lambda v: T.lift(lambda x: NONE if x is NONE else T.sub(length, x), [v], {})
        L.eq('flipped frontVertex', L.get(e, 'frontVertex'), mirror(bv))
        L.eq('flipped backVertex', L.get(e, 'backVertex'), mirror(fv))


@law('C04', KINDS)
def flipping_twice_changes_nothing(L, kind):
    e = elements(L, kind)
    skip = ('iteration', '_lastRayToBeTraced', '_lastRayTrace')
    before = L.image(e, skip=skip, depth=12)
    L.call(e, 'flipOrientation')
    L.call(e, 'flipOrientation')
    L.note(e, 'flipOrientation')
    L.eq('flipped twice: same element', L.image(e, skip=skip, depth=12), before)


@law('C04', KINDS)
def rays_come_back(L, kind):
    """a ray that went through comes back through the flipped element along the same path"""
    e = elements(L, kind)
    y, th = L.var('y'), L.var('th')
    out = L.call(e, 'traceThrough', L.new('Ray', y, th))
    yo, tho = L.get(out, 'y'), L.get(out, 'theta')
    clear = not_(L.I.truth(L.st, L.get(out, 'isBlocked')))
    L.call(e, 'flipOrientation')
    L.note(e, 'flipOrientation')
    back = L.call(e, 'traceThrough', L.new('Ray', yo, T.neg(tho)))
    clear = and_(clear, not_(L.I.truth(L.st, L.get(back, 'isBlocked'))))
    L.eq('height comes back', L.get(back, 'y'), y, clear)
    L.eq('angle comes back', L.get(back, 'theta'), T.neg(th), clear)


@law('C04', ['lens group', 'singlet group', 'nested', 'repeated', 'repeated inside'])
def order_is_reversed(L, kind):
    e = elements(L, kind)
    es = L.seq(L.get(e, 'elements'))
    was = [L.I.truth(L.st, L.get(x, 'isFlipped')) for x in es]
    L.call(e, 'flipOrientation')
    L.note(e, 'flipOrientation')
    L.eq('flipped group: elements in reverse order', T.tup(L.seq(L.get(e, 'elements'))), T.tup(es[::-1]))
    L.eq('flipped group is marked flipped', L.I.truth(L.st, L.get(e, 'isFlipped')), TRUE)
    for i, x in enumerate(es):
        L.eq('element %d is turned around' % i, L.I.truth(L.st, L.get(x, 'isFlipped')), not_(was[i]))
