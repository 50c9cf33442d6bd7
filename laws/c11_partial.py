"""The transfer matrix up to a distance is what the light went through so far."""
from . import law
from .common import *


def upto(L, s, d):
    return L.call(s, 'transferMatrix', upTo=d)


def fields(L, label, m, want, length=None, n0=None, n1=None):
    for k, w in zip(ABCD, want):
        L.eq('%s: %s' % (label, k), L.get(m, k), w)
    if length is not None:
        L.eq('%s: length' % label, L.get(m, 'L'), length)
    if n0 is not None:
        L.eq('%s: frontIndex' % label, L.get(m, 'frontIndex'), n0)
    if n1 is not None:
        L.eq('%s: backIndex' % label, L.get(m, 'backIndex'), n1)


@law('C11')
def space(L):
    d, n, z = L.var('d', '+'), L.var('n', '+'), L.var('zz', '0+')
    s = L.new('Space', d, n)
    m = upto(L, s, z)
    L.note(s, 'transferMatrix')
    k = ite(T.cmp_num('<', z, d), z, d)
    fields(L, 'part of a space', m, free(k), k, n, n)
    fields(L, 'whole space', L.call(s, 'transferMatrix'), free(d), d, n, n)


@law('C11', [(True, False), (False, False), (False, True)])
def thick_lens(L, slab, turned):
    n, t, z = L.var('n', '+'), L.var('t', '+'), L.var('zz', '0+')
    L.assume(T.cmp_num('<', z, t))
    if slab:
        e = L.new('DielectricSlab', n, t)
        p1 = N(0)
    else:
        R1 = L.var('R1', '!0')
        R2 = L.var('R2', '!0')
        e = L.new('ThickLens', n, R1, R2, t)
        if turned:
            L.call(e, 'flipOrientation')
            R1 = T.neg(R2)
        p1 = T.div(T.sub(N(1), n), T.mul(n, R1))
    m = upto(L, e, z)
    L.note(e, 'transferMatrix')
    fields(L, 'inside the glass', m, prod([(N(1), N(0), p1, T.div(N(1), n)), free(z)]), z)
    L.eq('inside the glass: backIndex', L.get(m, 'backIndex'), n, not_(T.cmp_num('==', n, N(1))))
    w = abcd(L, e)
    for nm, x in (('at the end', t), ('further', T.add(t, L.var('more', '+'))), ('without limit', INF)):
        fields(L, 'glass, ' + nm, upto(L, e, x), w, t, N(1), N(1))


@law('C11')
def thin(L):
    e = L.new('Lens', L.var('f', '!0'))
    fields(L, 'thin element', upto(L, e, L.var('zz', '0+')), abcd(L, e), N(0), N(1), N(1))


@law('C11')
def no_rule_for_the_inside(L):
    m = mat(L, 1, 'gen', length=L.var('Lp', '+'))
    z = L.var('zz', '0+')
    L.assume(T.cmp_num('<', z, L.get(m, 'L')))
    L.raises('the inside of a generic matrix is not known: TypeError', L.trial(upto, L, m, z), 'TypeError')


def path(L, kind):
    """elements, and their ABCD, lengths"""
    d1, d2, d3, f = L.var('d1', '+'), L.var('d2', '+'), L.var('d3', '+'), L.var('f', '!0')
    if kind == 'lens':
        return [L.new('Space', d1), L.new('Lens', f), L.new('Space', d2)]
    if kind == 'two lenses':
        return [L.new('Space', d1), L.new('Lens', f), L.new('Space', d2), L.new('Lens', L.var('g', '!0')), L.new('Space', d3)]
    if kind == 'glass':
        n = L.var('n', '+')
        return [L.new('Space', d1), L.new('DielectricInterface', N(1), n, L.var('R', '!0')), L.new('Space', d2, n)]
    if kind == 'thick':
        n = L.var('n', '+')
        return [L.new('Space', d1), L.new('ThickLens', n, L.var('R1', '!0'), L.var('R2', '!0'), L.var('t', '+')), L.new('Space', d2)]


@law('C11', [(k, j, c) for k, m in (('lens', (0, 2)), ('two lenses', (0, 2, 4)), ('glass', (0, 2)), ('thick', (0, 1, 2)))
             for j in m for c in ('MatrixGroup', 'nested')])
def inside_a_group(L, kind, j, cls):
    es = path(L, kind)
    before = N(0)
    for e in es[:j]:
        before = T.add(before, L.get(e, 'L'))
    x = L.var('x', '+')
    L.assume(T.cmp_num('<', x, L.get(es[j], 'L')))
    ms = [abcd(L, e) for e in es[:j]]
    if kind == 'thick' and j == 1:
        n, R1 = L.get(es[1], 'n'), L.get(es[1], 'R1')
        ms += [(N(1), N(0), T.div(T.sub(N(1), n), T.mul(n, R1)), T.div(N(1), n)), free(x)]
    else:
        ms.append(free(x))
    if cls == 'nested':
        g = L.new('MatrixGroup', [es[0], L.new('MatrixGroup', es[1:])])
    else:
        g = L.new('MatrixGroup', es)
    m = upto(L, g, T.add(before, x))
    L.note(g, 'transferMatrix')
    fields(L, 'up to a distance inside element %d' % j, m, prod(ms), T.add(before, x))
    if kind == 'glass':
        L.eq('front index', L.get(m, 'frontIndex'), N(1))
        L.eq('index of the medium where it stops', L.get(m, 'backIndex'), L.get(es[j], 'frontIndex'))


@law('C11', [(k, j) for k, n in (('lens', 3), ('two lenses', 5), ('glass', 3), ('thick', 3)) for j in range(n)])
def at_boundaries(L, kind, j):
    """at the end of element j: all thin elements there are included"""
    es = path(L, kind)
    z = N(0)
    for e in es[:j + 1]:
        z = T.add(z, L.get(e, 'L'))
    k = j + 1
    while k < len(es) and L.get(es[k], 'L') is N(0):
        k += 1
    ms = [abcd(L, e) for e in es[:k]]
    if kind == 'thick' and j == 0:  # the front surface of the lens is there too
        n, R1 = L.get(es[1], 'n'), L.get(es[1], 'R1')
        ms.append((N(1), N(0), T.div(T.sub(N(1), n), T.mul(n, R1)), T.div(N(1), n)))
    g = L.new('MatrixGroup', es)
    m = upto(L, g, z)
    L.note(g, 'transferMatrix')
    fields(L, 'up to the end of element %d' % j, m, prod(ms), z)


@law('C11', ['lens', 'two lenses', 'glass', 'thick'])
def all_of_it(L, kind):
    es = path(L, kind)
    g = L.new('MatrixGroup', es)
    z = N(0)
    for e in es:
        z = T.add(z, L.get(e, 'L'))
    w = prod([abcd(L, e) for e in es])
    L.note(g, 'transferMatrix')
    for nm, x in (('no limit', INF), ('its length', z), ('more than its length', T.add(z, L.var('more', '+')))):
        fields(L, 'up to ' + nm, upto(L, g, x), w, z)


@law('C11', ['lens', 'two lenses', 'glass'])
def does_not_modify(L, kind):
    g = L.new('MatrixGroup', path(L, kind))
    b = L.image(g, depth=10)
    upto(L, g, L.var('zz', '0+'))
    L.note(g, 'transferMatrix')
    L.eq('transferMatrix(upTo) does not modify the group', L.image(g, depth=10), b)
    L.call(g, 'transferMatrices')
    L.eq('transferMatrices() does not modify the group', L.image(g, depth=10), b)
