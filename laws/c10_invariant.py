"""The optical (Lagrange) invariant does not change along the path."""
from . import law
from .common import *


def pair(L):
    return L.new('Ray', L.var('y1'), L.var('th1')), L.new('Ray', L.var('y2'), L.var('th2'))


def system(L, kind):
    if kind == 'lens':
        return L.new('Lens', L.var('f', '!0'))
    if kind == 'interface':
        return L.new('DielectricInterface', L.var('n1', '+'), L.var('n2', '+'), L.var('R', '!0'))
    if kind == 'space':
        return L.new('Space', L.var('d', '+'), L.var('n', '+'))
    if kind == 'thick':
        return L.new('ThickLens', L.var('n', '+'), L.var('R1', '!0'), L.var('R2', '!0'), L.var('t', '+'))
    if kind == 'matrix':
        return mat(L, 1, 'gen')
    if kind == 'group':
        return L.new('MatrixGroup', [L.new('Space', L.var('d1', '+')), L.new('Lens', L.var('f', '!0')), L.new('Space', L.var('d2', '+'))])
    if kind == 'glass':
        n = L.var('n', '+')
        return L.new('ImagingPath', [L.new('DielectricInterface', N(1), n, L.var('R1', '!0')), L.new('Space', L.var('d2', '+'), n)])


KINDS = ['lens', 'interface', 'space', 'thick', 'matrix', 'group', 'glass']


@law('C10', KINDS)
def same_before_and_after(L, kind):
    s = system(L, kind)
    r1, r2 = pair(L)
    n1, n2 = L.get(s, 'frontIndex'), L.get(s, 'backIndex')
    inv = lambda n, a, b: T.mul(n, T.sub(T.mul(L.get(a, 'theta'), L.get(b, 'y')), T.mul(L.get(a, 'y'), L.get(b, 'theta'))))
    before = inv(n1, r1, r2)
    o1, o2 = L.call(s, 'traceThrough', r1), L.call(s, 'traceThrough', r2)
    L.note(s, 'traceThrough')
    L.eq('n(theta1 y2 - y1 theta2) is the same before and after', inv(n2, o1, o2), before)
    L.eq('opticalInvariant() at the output is that of the input rays', L.call(s, 'opticalInvariant', r1, r2, z=L.get(s, 'L')), before)
    if kind not in ('matrix', 'interface'):
        L.eq('opticalInvariant() at the input', L.call(s, 'opticalInvariant', r1, r2), before)


@law('C10', ['group', 'space', 'glass'])
def anywhere(L, kind):
    s = system(L, kind)
    r1, r2 = pair(L)
    z = L.var('zz', '0+')
    L.assume(T.cmp_num('<', z, L.get(s, 'L')))
    a, b = L.call(s, 'opticalInvariant', r1, r2, z), L.call(s, 'opticalInvariant', r2, r1, z)
    L.note(s, 'opticalInvariant')
    n = L.get(s, 'frontIndex')
    want = T.mul(n, T.sub(T.mul(L.get(r1, 'theta'), L.get(r2, 'y')), T.mul(L.get(r1, 'y'), L.get(r2, 'theta'))))
    L.eq('opticalInvariant() is the same anywhere along the path', a, want)
    L.eq('exchanging the rays changes the sign', T.add(a, b), N(0))


@law('C10')
def rays_left_alone(L):
    s = system(L, 'group')
    r1, r2 = pair(L)
    b = L.image(r1), L.image(r2)
    L.call(s, 'opticalInvariant', r1, r2, L.var('zz', '0+'))
    L.eq('opticalInvariant() does not modify the rays', T.tup([L.image(r1), L.image(r2)]), T.tup(list(b)))
