"""Symbolic fixtures shared by the laws."""
from vg import terms as T
from vg.terms import TRUE, FALSE, NONE, INF, and_, or_, not_, ite
from vg.rat import ATOMS

N = T.num


def matrix_args(L, i, chart='gen', indices=True):
    """A valid ABCD quadruple: determinant = frontIndex/backIndex holds identically.

    gen : A != 0, C != 0      C0 : A != 0, C = 0      A0 : A = 0
    """
    nf = L.var('nf%s' % i, '+') if indices is True else N(1)
    nb = L.var('nb%s' % i, '+') if indices is True else N(1)
    if isinstance(indices, tuple):
        nf, nb = indices
    r = T.div(nf, nb)
    if chart == 'gen':
        A, B, C = L.var('A%s' % i, '!0'), L.var('B%s' % i), L.var('C%s' % i, '!0')
        D = T.div(T.add(r, T.mul(B, C)), A)
    elif chart == 'C0':
        A, B, C = L.var('A%s' % i, '!0'), L.var('B%s' % i), N(0)
        D = T.div(r, A)
    elif chart == 'A0':
        A, B, D = N(0), L.var('B%s' % i, '!0'), L.var('D%s' % i)
        C = T.neg(T.div(r, B))
    elif chart == 'D0':
        D, B, A = N(0), L.var('B%s' % i, '!0'), L.var('A%s' % i)
        C = T.neg(T.div(r, B))
    elif chart == 'B0':
        A, B, C = L.var('A%s' % i, '!0'), N(0), L.var('C%s' % i, '!0')
        D = T.div(r, A)
    return A, B, C, D, nf, nb


def mat(L, i, chart='gen', ap=False, na=False, fv='var', bv='var', length=True, indices=True, **kw):
    A, B, C, D, nf, nb = matrix_args(L, i, chart, indices)
    k = dict(physicalLength=L.var('L%s' % i, '0+') if length is True else length, frontIndex=nf, backIndex=nb)
    if ap:
        k['apertureDiameter'] = L.var('dia%s' % i, '+')
    if na:
        k['apertureNA'] = L.var('na%s' % i, '+')
    if fv == 'var':
        k['frontVertex'] = L.var('fv%s' % i)
    elif fv is not None:
        k['frontVertex'] = fv
    if bv == 'var':
        k['backVertex'] = L.var('bv%s' % i)
    elif bv is not None:
        k['backVertex'] = bv
    k.update(kw)
    return L.new('Matrix', A, B, C, D, **k)


def chain(L, charts, **kw):
    """elements in contact: each one ends in the medium where the next one starts"""
    n = [L.var('n%d' % i, '+') for i in range(len(charts) + 1)]
    return [mat(L, i + 1, c, indices=(n[i], n[i + 1]), **kw) for i, c in enumerate(charts)]


def ray(L, i='', blocked=False, z=True):
    r = L.new('Ray', L.var('y%s' % i), L.var('th%s' % i), z=L.var('z%s' % i) if z is True else z)
    if blocked is not False:
        L.set(r, 'isBlocked', blocked)
    return r


ABCD = ('A', 'B', 'C', 'D')


def eq_fields(L, label, x, y, fields, when=TRUE):
    for f in fields:
        L.eq('%s.%s' % (label, f), L.get(x, f), L.get(y, f), when)


def entry(L, name, module='matrix', cls=None):
    L.entry = name


def absv(x):
    from vg.models import absval
    return absval(x)


def far_from_zero(x, eps='1/100000'):
    from fractions import Fraction
    return T.cmp_num('>', absv(x), N(Fraction(eps)))


def prod(ms):
    """(A, B, C, D) of matrices traversed in order"""
    p = (N(1), N(0), N(0), N(1))
    for a, b, c, d in ms:
        A, B, C, D = p
        p = (T.add(T.mul(a, A), T.mul(b, C)), T.add(T.mul(a, B), T.mul(b, D)),
             T.add(T.mul(c, A), T.mul(d, C)), T.add(T.mul(c, B), T.mul(d, D)))
    return p


def abcd(L, m):
    return tuple(L.get(m, k) for k in ABCD)


def free(d):
    """propagation"""
    return (N(1), d, N(0), N(1))


def index(L, e, i):
    return L.get(e, 'frontIndex' if i == 0 else 'backIndex')
