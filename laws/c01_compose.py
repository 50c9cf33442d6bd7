from . import law
from .common import *

CH = ('gen', 'C0', 'A0')


@law('C01', [(a, b) for a in CH for b in CH])
def product_acts_like_sequence(L, c1, c2):
    m1, m2 = chain(L, (c1, c2))
    r = ray(L)
    p = L.mul(m2, m1)
    a = L.mul(p, r)
    b = L.mul(m2, L.mul(m1, r))
    L.note(m2, 'mul_matrix')
    eq_fields(L, '(M2*M1)*ray = M2*(M1*ray)', a, b, ('y', 'theta', 'z', 'isBlocked'))


@law('C01', [(a, b) for a in CH for b in CH])
def product_is_matrix_product(L, c1, c2):
    m1, m2 = chain(L, (c1, c2))
    g = {(k, n): L.get(m, k) for n, m in ((1, m1), (2, m2)) for k in ABCD + ('L', 'frontIndex', 'backIndex')}
    p = L.mul(m2, m1)
    L.note(m2, '__mul__')
    want = {'A': ('A', 'A', 'B', 'C'), 'B': ('A', 'B', 'B', 'D'), 'C': ('C', 'A', 'D', 'C'), 'D': ('C', 'B', 'D', 'D')}
    for f, (a, b, c, d) in want.items():
        L.eq('product.' + f, L.get(p, f), T.add(T.mul(g[a, 2], g[b, 1]), T.mul(g[c, 2], g[d, 1])))
    L.eq('product.L', L.get(p, 'L'), T.add(g['L', 1], g['L', 2]))
    L.eq('product.determinant', L.get(p, 'determinant'), T.div(g['frontIndex', 1], g['backIndex', 2]))


@law('C01', ['gen', 'C0', 'A0'])
def product_indices(L, c):
    """light enters in the first medium and leaves in the last"""
    m1, m2 = chain(L, (c, 'gen'))
    p = L.mul(m2, m1)
    idm = {n: and_(and_(T.cmp_num('==', L.get(m, 'A'), N(1)), T.cmp_num('==', L.get(m, 'D'), N(1))),
                   and_(T.cmp_num('==', L.get(m, 'B'), N(0)), T.cmp_num('==', L.get(m, 'C'), N(0))))
           for n, m in ((1, m1), (2, m2))}
    plain = not_(or_(idm[1], idm[2]))
    L.note(m2, '__mul__')
    L.eq('product.frontIndex is the first front index', L.get(p, 'frontIndex'), L.get(m1, 'frontIndex'), plain)
    L.eq('product.backIndex is the last back index', L.get(p, 'backIndex'), L.get(m2, 'backIndex'), plain)


@law('C01', [('var', 'var'), (None, 'var'), ('var', None), (None, None)])
def product_vertices(L, first, second):
    """vertices of the product are the outermost ones, measured from its entrance"""
    n = [L.var('n%d' % i, '+') for i in range(3)]
    m1 = mat(L, 1, 'gen', fv=first, bv=first, indices=(n[0], n[1]))
    m2 = mat(L, 2, 'gen', fv=second, bv=second, indices=(n[1], n[2]))
    p = L.mul(m2, m1)
    L.note(m2, '__mul__')
    l1 = L.get(m1, 'L')
    fv = L.get(m1, 'frontVertex') if first else T.add(l1, L.get(m2, 'frontVertex')) if second else NONE
    bv = T.add(l1, L.get(m2, 'backVertex')) if second else L.get(m1, 'backVertex') if first else NONE
    L.eq('product.frontVertex', L.get(p, 'frontVertex'), fv)
    L.eq('product.backVertex', L.get(p, 'backVertex'), bv)


@law('C01', [('gen', 'gen', 'gen'), ('gen', 'C0', 'gen'), ('C0', 'gen', 'A0')])
def product_associative(L, a, b, c):
    # media in contact share their index, so that every partial product is valid
    m1, m2, m3 = chain(L, (a, b, c))
    x = L.mul(L.mul(m3, m2), m1)
    y = L.mul(m3, L.mul(m2, m1))
    L.note(m3, '__mul__')
    eq_fields(L, '(M3*M2)*M1 = M3*(M2*M1)', x, y, ABCD + ('L', 'frontVertex', 'backVertex'))


@law('C01', CH)
def identity_is_neutral(L, c):
    m = mat(L, 1, c)
    L.assume(not_(L.I.truth(L.st, L.get(m, 'isIdentity'))))
    e = L.new('Matrix')
    for nm, p in (('M*1', L.mul(m, e)), ('1*M', L.mul(e, m))):
        L.note(m, '__mul__')
        eq_fields(L, nm, p, m, ABCD + ('L', 'frontIndex', 'backIndex', 'frontVertex', 'backVertex'))


@law('C01', CH)
def product_leaves_operands(L, c):
    (m1, m2), r = chain(L, (c, 'gen'), ap=True), ray(L)
    before = [L.image(x) for x in (m1, m2, r)]
    L.mul(m2, m1)
    L.mul(m2, L.mul(m1, r))
    for nm, x, b in zip(('right matrix', 'left matrix', 'ray'), (m1, m2, r), before):
        L.note(m2, '__mul__')
        L.eq('multiplication leaves the %s untouched' % nm, L.image(x), b)


@law('C01')
def mul_beam_is_composable(L):
    """q through a product equals q through the sequence"""
    m1, m2 = mat(L, 1, 'gen', indices=False), mat(L, 2, 'gen', indices=False)
    q = T.add(L.var('qr'), T.mul(L.var('qi', '+'), T.const(1j)))
    lam = L.var('lam', '+')
    b = L.new('GaussianBeam', q=q, wavelength=lam)
    x = L.mul(L.mul(m2, m1), b)
    y = L.mul(m2, L.mul(m1, b))
    L.note(m1, 'mul_beam')
    eq_fields(L, '(M2*M1)*beam = M2*(M1*beam)', x, y, ('q', 'z', 'n', 'wavelength'))


@law('C01')
def mul_rejects_foreign_operands(L):
    m = mat(L, 1)
    for nm, x in (('number', N(3)), ('string', T.const('x')), ('None', NONE)):
        a = L.trial(L.mul, m, x)
        L.raises('Matrix * %s raises TypeError' % nm, a, 'TypeError')
