"""Focal lengths, focal points, principal planes: decided from what rays do at these points."""
from . import law
from .common import *

CASES = ['gen', 'A0', 'D0', 'B0']


def powered(L, chart, **kw):
    m = mat(L, 1, chart, **kw)
    L.assume(far_from_zero(L.get(m, 'C')))
    return m


@law('C05', CASES)
def principal_planes_have_unit_magnification(L, c):
    m, z = powered(L, c), L.var('z')
    p = L.call(m, 'principalPlanePositions', z)
    L.note(m, 'principalPlanePositions')
    p1, p2 = L.get(p, 'z1'), L.get(p, 'z2')
    # object at p1, seen from p2 (z: front of the element)
    A, B, C, D = prod([free(T.sub(z, p1)), abcd(L, m), free(T.sub(p2, T.add(z, L.get(m, 'L'))))])
    L.eq('principal planes are images of each other', B, N(0))
    L.eq('with a magnification of 1', A, N(1))


@law('C05', CASES)
def focal_points(L, c):
    m, z = powered(L, c), L.var('z')
    f = L.call(m, 'focusPositions', z)
    L.note(m, 'focusPositions')
    f1, f2 = L.get(f, 'z1'), L.get(f, 'z2')
    A, B, C, D = prod([abcd(L, m), free(T.sub(f2, T.add(z, L.get(m, 'L'))))])
    L.eq('rays parallel to the axis meet at the back focal point', A, N(0))
    A, B, C, D = prod([free(T.sub(z, f1)), abcd(L, m)])
    L.eq('rays from the front focal point leave parallel to the axis', D, N(0))
    L.eq('tuple order', T.tup([L.idx(f, 0), L.idx(f, 1)]), T.tup([f1, f2]))


@law('C05', CASES)
def focal_lengths(L, c):
    m = powered(L, c)
    f = L.call(m, 'effectiveFocalLengths')
    L.note(m, 'effectiveFocalLengths')
    f1, f2 = L.get(f, 'f1'), L.get(f, 'f2')
    y = L.var('y')
    out = L.mul(m, L.new('Ray', y, N(0)))
    L.eq('back focal length: a parallel ray at y leaves with -y/f', T.mul(L.get(out, 'theta'), f2), T.neg(y))
    L.eq('focal lengths are in the ratio of the indices', T.mul(f1, L.get(m, 'backIndex')), T.mul(f2, L.get(m, 'frontIndex')))
    g = L.call(m, 'focalDistances')
    L.eq('focalDistances()', T.tup([L.idx(g, 0), L.idx(g, 1)]), T.tup([f1, f2]))
    z = L.var('z')
    p, q = L.call(m, 'principalPlanePositions', z), L.call(m, 'focusPositions', z)
    L.eq('front focal point is at f1 before the first principal plane', T.sub(L.get(p, 'z1'), L.get(q, 'z1')), f1)
    L.eq('back focal point is at f2 after the second principal plane', T.sub(L.get(q, 'z2'), L.get(p, 'z2')), f2)


@law('C05', CASES)
def working_distances(L, c):
    """front and back focal lengths: from the vertices to the focal points"""
    m = powered(L, c)
    bfl, ffl = L.call(m, 'backFocalLength'), L.call(m, 'frontFocalLength')
    f = L.call(m, 'focusPositions', N(0))
    L.note(m, 'backFocalLength')
    L.eq('backFocalLength() is from the back vertex to the back focal point', bfl,
         T.sub(L.get(f, 'z2'), L.get(m, 'backVertex')))
    L.note(m, 'frontFocalLength')
    L.eq('frontFocalLength() is from the front focal point to the front vertex', ffl,
         T.sub(L.get(m, 'frontVertex'), L.get(f, 'z1')))
    A, B, C, D = prod([abcd(L, m), free(T.add(bfl, T.sub(L.get(m, 'backVertex'), L.get(m, 'L'))))])
    L.eq('parallel rays focus at backFocalLength() from the back vertex', A, N(0))
    A, B, C, D = prod([free(T.sub(ffl, L.get(m, 'frontVertex'))), abcd(L, m)])
    L.eq('rays from frontFocalLength() before the front vertex leave parallel', D, N(0))


@law('C05')
def no_vertex_no_working_distance(L):
    m = powered(L, 'gen', fv=None, bv=None)
    L.eq('backFocalLength() without vertex', L.call(m, 'backFocalLength'), NONE)
    L.eq('frontFocalLength() without vertex', L.call(m, 'frontFocalLength'), NONE)


@law('C05')
def afocal(L):
    m, z = mat(L, 1, 'C0'), L.var('z')
    f = L.call(m, 'effectiveFocalLengths')
    L.eq('afocal: focal lengths are infinite', T.tup([L.idx(f, 0), L.idx(f, 1)]), T.tup([INF, INF]))
    for nm, a in (('principalPlanePositions', [z]), ('focusPositions', [z])):
        p = L.call(m, nm, *a)
        L.eq('afocal: %s() has none' % nm, T.tup([L.idx(p, 0), L.idx(p, 1)]), T.tup([NONE, NONE]))
    for nm in ('backFocalLength', 'frontFocalLength'):
        L.eq('afocal: %s() is None' % nm, L.call(m, nm), NONE)


@law('C05', [1, 2])
def groups_too(L, k):
    """the same holds for a group of elements"""
    ms = [mat(L, i + 1, c, indices=False) for i, c in enumerate(('gen', 'gen', 'gen')[:k])]
    g = L.new('MatrixGroup', ms)
    L.assume(far_from_zero(L.get(g, 'C')))
    z = L.var('z')
    m = prod([abcd(L, x) for x in ms])
    length = N(0)
    for x in ms:
        length = T.add(length, L.get(x, 'L'))
    p, f = L.call(g, 'principalPlanePositions', z), L.call(g, 'focusPositions', z)
    L.note(g, 'focusPositions')
    A, B, C, D = prod([free(T.sub(z, L.get(p, 'z1'))), m, free(T.sub(L.get(p, 'z2'), T.add(z, length)))])
    L.eq('group: principal planes are images of each other', B, N(0))
    L.eq('group: with a magnification of 1', A, N(1))
    A, B, C, D = prod([m, free(T.sub(L.get(f, 'z2'), T.add(z, length)))])
    L.eq('group: back focal point', A, N(0))
    A, B, C, D = prod([free(T.sub(z, L.get(f, 'z1'))), m])
    L.eq('group: front focal point', D, N(0))


@law('C05', ['lens', 'group'])
def focus_to_focus(L, kind):
    """from front focal plane to back focal plane: A = D = 0"""
    if kind == 'lens':
        e = L.new('Lens', L.var('f', '!0'))
    else:
        e = mat(L, 1, 'gen', fv=N(0), bv=L.var('L1', '0+'))
    L.assume(far_from_zero(L.get(e, 'C')))
    b, f = L.call(e, 'backFocalLength'), L.call(e, 'frontFocalLength')
    g = L.call(e, 'fromFocusToFocus')
    L.eq('from focus to focus: A = 0', L.get(g, 'A'), N(0))
    L.eq('from focus to focus: D = 0', L.get(g, 'D'), N(0))
    L.eq('from focus to focus: C', L.get(g, 'C'), L.get(e, 'C'))
    L.eq('from focus to focus: frontIndex', L.get(g, 'frontIndex'), L.get(e, 'frontIndex'))
    L.eq('from focus to focus: backIndex', L.get(g, 'backIndex'), L.get(e, 'backIndex'))
