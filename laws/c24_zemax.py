"""Zemax files."""
from fractions import Fraction as F
from . import law
from .common import *
from vg import fsmodel

UNITS = {'MM': 1, 'mm': 1, 'IN': F(254, 10), 'CM': 10, 'METER': 1000, 'in': F(254, 10), 'meter': 1000, None: 1}
dec = fsmodel.decimal


def write(L, surfaces, unit='MM', waves=('0.4861', '0.5876', '0.6563'), encoding='utf-8', path='lens.zmx', fillers=0, extra=()):
    """surfaces: dicts of CURV, DISZ, DIAM (terms) and GLAS (str)"""
    s = lambda *t: [L.v(x) for x in t]
    lines = [s('VERS', '120928', '0', '30221'), s('MODE', 'SEQ'), s('NAME', 'a', 'lens')]
    if unit is not None:
        lines.append(s('UNIT', unit, 'X', 'W', 'X', 'CM', 'MR', 'CPMM'))
    for i, w in enumerate(list(waves) + ['0.55'] * fillers):
        lines.append(s('WAVM', str(i + 1), w, '1'))
    lines.append(s('PWAV', '2'))
    for i, f in enumerate(surfaces):
        lines.append(s('SURF', str(i)))
        lines.append(s('TYPE', 'STANDARD'))
        if 'first' in extra and i == 1:
            lines.append(s('STOP'))
        lines.append(s('CURV', f.get('CURV', '0.0'), '0', '0', '0', '0', '""'))
        lines.append(s('HIDE', '0', '0', '0'))
        lines.append(s('DISZ', f.get('DISZ', '0')))
        if 'GLAS' in f:
            lines.append(s('GLAS', f['GLAS'], '0', '0', '1.5', '64', '0'))
        if 'DIAM' in f:
            lines.append(s('DIAM', f['DIAM'], '1', '0', '0', '1', '""'))
    lines.append(s('TOL', 'TOFF', '0', '0'))
    fsmodel.put_text(L.I, L.st, path, lines, encoding)
    r = L.new('ZMXReader', path)
    L.note(r, '__init__')
    return r


def doublet(L):
    c = [L.var('c%d' % i, '!0') for i in range(3)]
    d = [L.var('d%d' % i, '+') for i in range(3)]
    h = [L.var('h%d' % i, '+') for i in range(3)]
    sf = [dict(DISZ='INFINITY', DIAM='0'),
          dict(CURV=dec(c[0]), DISZ=dec(d[0]), DIAM=dec(h[0]), GLAS='N-BK7'),
          dict(CURV=dec(c[1]), DISZ=dec(d[1]), DIAM=dec(h[1]), GLAS='SF5'),
          dict(CURV=dec(c[2]), DISZ=dec(d[2]), DIAM=dec(h[2])),
          dict(DISZ='0', DIAM='0.0068')]
    return sf, c, d, h


def surface(L, label, s, i, c, d, h, mat, k=1):
    """a surface in mm"""
    k = N(k)
    L.eq(label + ': number', L.get(s, 'number'), N(i))
    L.eq(label + ': radius', L.get(s, 'R'), INF if c is None else T.div(k, c))
    L.eq(label + ': spacing', L.get(s, 'spacing'), T.mul(k, d))
    L.eq(label + ': diameter', L.get(s, 'diameter'), INF if h is None else T.mul(T.mul(N(2), k), h))
    L.eq(label + ': material', L.I.classval(L.I.obj(L.st, L.get(s, 'mat')).cls), L.cls(mat))


@law('C24', list(UNITS) + ['unknown'])
def surfaces_in_mm(L, unit):
    """radii, spacings and diameters are in mm, whatever the units of the file"""
    L.files()
    sf, c, d, h = doublet(L)
    r = write(L, sf, unit='MM' if unit == 'unknown' else unit)
    k = 1 if unit == 'unknown' else UNITS[unit]
    for m in ('surfaceInfo', 'surfaces', 'lensSurfaces'):
        L.note(r, m)
    for i, mat in ((1, 'N_BK7'), (2, 'SF5'), (3, 'Air')):
        surface(L, 'surface %d' % i, L.call(r, 'surfaceInfo', i), i, c[i - 1], d[i - 1], h[i - 1], mat, k)
    s0 = L.call(r, 'surfaceInfo', 0)
    L.eq('the object plane is flat', L.get(s0, 'R'), INF)
    L.eq('the object is at infinity', L.get(s0, 'spacing'), INF)
    L.eq('there is no surface 5', L.call(r, 'surfaceInfo', 5), NONE)
    al = L.call(r, 'surfaces')
    L.eq('five surfaces', L.length(al), N(5))
    for i in range(5):
        L.eq('in order: %d' % i, L.get(L.idx(al, i), 'number'), N(i))
    ls = L.call(r, 'lensSurfaces')
    L.eq('three of them are the lens', L.length(ls), N(3))
    for i, mat in enumerate(('N_BK7', 'SF5', 'Air')):
        surface(L, 'lens surface %d' % i, L.idx(ls, i), i + 1, c[i], d[i], h[i], mat, k)


@law('C24', ['utf-8', 'utf-16'])
def encodings(L, enc):
    L.files()
    sf, c, d, h = doublet(L)
    r = write(L, sf, encoding=enc)
    L.note(r, 'determineEncoding')
    surface(L, 'surface 1', L.call(r, 'surfaceInfo', 1), 1, c[0], d[0], h[0], 'N_BK7')
    surface(L, 'surface 3', L.call(r, 'surfaceInfo', 3), 3, c[2], d[2], h[2], 'Air')
    L.eq('design wavelength', L.get(r, 'designWavelength'), N(F(5876, 10000)))


@law('C24', ['no diameter', 'flat', 'stop'])
def optional_lines(L, what):
    """without DIAM there is no aperture, a curvature of zero is flat"""
    L.files()
    sf, c, d, h = doublet(L)
    c, h = list(c), list(h)
    if what == 'no diameter':
        del sf[2]['DIAM']
        h[1] = None
    if what == 'flat':
        sf[2]['CURV'] = '0.000E+00'
        c[1] = None
    r = write(L, sf, extra=('first',) if what == 'stop' else ())
    for i, mat in ((1, 'N_BK7'), (2, 'SF5'), (3, 'Air')):
        surface(L, 'surface %d' % i, L.call(r, 'surfaceInfo', i), i, c[i - 1], d[i - 1], h[i - 1], mat)


def n_of(L, mat, w):
    return L.call(L.cls(mat), 'n', L.v(w))


@law('C24', ['mm', 'IN', 'METER'])
def group_of_the_doublet(L, unit):
    """the group has the surfaces and glasses of the file, at the design wavelength"""
    L.files()
    sf, c, d, h = doublet(L)
    k = UNITS[unit]
    r = write(L, sf, unit=unit)
    L.note(r, 'matrixGroup')
    g = L.call(r, 'matrixGroup')
    w = N(F(5876, 10000))
    n = [N(1), n_of(L, 'N_BK7', w), n_of(L, 'SF5', w), N(1)]
    es = L.seq(L.get(g, 'elements'))
    L.fact('five elements', len(es) == 5, len(es))
    for i in range(3):
        e = es[2 * i]
        L.fact('element %d is an interface' % (2 * i), L.I.obj(L.st, e).cls.name == 'DielectricInterface')
        L.eq('interface %d: n1' % i, L.get(e, 'n1'), n[i])
        L.eq('interface %d: n2' % i, L.get(e, 'n2'), n[i + 1])
        L.eq('interface %d: R' % i, L.get(e, 'R'), T.div(N(k), c[i]))
        L.eq('interface %d: diameter' % i, L.get(e, 'apertureDiameter'), T.mul(N(2 * k), h[i]))
    for i in range(2):
        e = es[2 * i + 1]
        L.fact('element %d is a space' % (2 * i + 1), L.I.obj(L.st, e).cls.name == 'Space')
        L.eq('space %d: length' % i, L.get(e, 'L'), T.mul(N(k), d[i]))
        L.eq('space %d: index' % i, L.get(e, 'frontIndex'), n[i + 1])
    L.eq('thickness', L.get(g, 'L'), T.mul(N(k), T.add(d[0], d[1])))
    L.eq('its label is the name of the file', L.get(g, 'label'), L.v('lens.zmx'))
    L.eq('asking twice gives the same', L.get(L.call(r, 'matrixGroup'), 'C'), L.get(g, 'C'))


@law('C24')
def group_of_a_singlet_with_air_in_front(L):
    """air in front of the first glass, and what comes behind the last one, are not part of the lens"""
    L.files()
    c = [L.var('c%d' % i, '!0') for i in range(2)]
    d = L.var('d', '+')
    h = L.var('h', '+')
    sf = [dict(DISZ='INFINITY'), dict(DISZ='10'), dict(CURV=dec(c[0]), DISZ=dec(d), DIAM=dec(h), GLAS='N-SF11'),
          dict(CURV=dec(c[1]), DISZ='95', DIAM=dec(h)), dict(DISZ='1', GLAS='N-BK7'), dict(DISZ='0')]
    r = write(L, sf, waves=('0.633',))
    g = L.call(r, 'matrixGroup')
    L.note(r, 'lensSurfaces')
    n = n_of(L, 'N_SF11', N(F(633, 1000)))
    es = L.seq(L.get(g, 'elements'))
    L.fact('three elements', len(es) == 3, len(es))
    L.eq('length', L.get(g, 'L'), d)
    e = L.new('MatrixGroup', L.v([L.new('DielectricInterface', N(1), n, T.div(N(1), c[0])), L.new('Space', d, n),
                                 L.new('DielectricInterface', n, N(1), T.div(N(1), c[1]))]))
    eq_fields(L, 'singlet', g, e, ('A', 'B', 'C', 'D', 'L', 'frontIndex', 'backIndex'))


@law('C24')
def air_spaced_doublet(L):
    """the lens stops at the first surface to air"""
    L.files()
    c = [L.var('c%d' % i, '!0') for i in range(2)]
    sf = [dict(DISZ='INFINITY'), dict(CURV=dec(c[0]), DISZ='3', GLAS='SF5'), dict(CURV=dec(c[1]), DISZ='1'), dict(DISZ='0')]
    r = write(L, sf)
    ls = L.call(r, 'lensSurfaces')
    L.eq('two surfaces', L.length(ls), N(2))
    L.eq('first', L.get(L.idx(ls, 0), 'number'), N(1))
    L.eq('last', L.get(L.idx(ls, 1), 'number'), N(2))


@law('C24')
def nothing_but_air(L):
    L.files()
    r = write(L, [dict(DISZ='INFINITY'), dict(DISZ='10'), dict(DISZ='0')])
    L.eq('no lens surface', L.length(L.call(r, 'lensSurfaces')), N(0))
    g = L.call(r, 'matrixGroup')
    L.eq('an empty group', L.length(L.get(g, 'elements')), N(0))


WAVES = {'three and fillers': (('0.4861', '0.5876', '0.6563'), 21, 1), 'one and fillers': (('0.633',), 23, 0), 'one': (('0.532',), 0, 0),
         'two': (('0.8', '1.0'), 0, 1), 'five': (('0.4', '0.5', '0.6', '0.7', '0.8'), 3, 2), '0.55 in the middle': (('0.45', '0.55', '0.65'), 21, 1),
         'only fillers': (('0.55',), 23, 0)}


@law('C24', list(WAVES))
def wavelengths(L, what):
    """the wavelengths of the design, without the 0.55 that fill the file up"""
    L.files()
    ws, fill, mid = WAVES[what]
    r = write(L, [dict(DISZ='INFINITY'), dict(DISZ='0')], waves=ws, fillers=fill)
    L.note(r, 'designWavelengths')
    got = L.call(r, 'designWavelengths')
    L.eq('wavelengths', T.tup(L.seq(got)), T.tup([N(F(x)) for x in ws]))
    L.eq('design wavelength', L.get(r, 'designWavelength'), N(F(ws[mid])))
    L.eq('asked twice', T.tup(L.seq(L.call(r, 'designWavelengths'))), T.tup([N(F(x)) for x in ws]))


@law('C24')
def unknown_glass_is_refused(L):
    """a glass that is not in the catalogue is not replaced by another one"""
    L.files()
    r = write(L, [dict(DISZ='INFINITY'), dict(CURV='0.1', DISZ='3', GLAS='N-XYZ9'), dict(CURV='0.1', DISZ='1'), dict(DISZ='0')])
    L.raises('surfaces', L.trial(L.call, r, 'surfaces'), 'ValueError')


@law('C24')
def missing_file_is_refused(L):
    L.files()
    L.raises('no file', L.trial(L.new, 'ZMXReader', 'nothing.zmx'), ('OSError', 'FileNotFoundError'), only=False)


@law('C24')
def two_files(L):
    """two readers do not share anything"""
    L.files()
    sf, c, d, h = doublet(L)
    a = write(L, sf, unit='IN', path='a.zmx')
    sg = [dict(x) for x in sf]
    e = L.var('e', '!0')
    sg[1]['CURV'] = dec(e)
    sg[1]['GLAS'] = 'N-SF11'
    b = write(L, sg, path='b.zmx', waves=('0.7',))
    surface(L, 'first', L.call(a, 'surfaceInfo', 1), 1, c[0], d[0], h[0], 'N_BK7', F(254, 10))
    surface(L, 'second', L.call(b, 'surfaceInfo', 1), 1, e, d[0], h[0], 'N_SF11')
    L.eq('wavelength of the first', L.get(a, 'designWavelength'), N(F(5876, 10000)))
    L.eq('wavelength of the second', L.get(b, 'designWavelength'), N(F(7, 10)))


@law('C24', [12, 40])
def many_surfaces(L, n):
    """a file with many surfaces gives all of them, and all of its lens"""
    L.files()
    glasses = ('N-BK7', 'SF5', 'N-BAF10')
    sf = [dict(DISZ='INFINITY')] + [dict(CURV='0.%03d' % (i + 1), DISZ=str(i), DIAM=str(i + 1), GLAS=glasses[i % 3]) for i in range(1, n - 1)]
    sf.append(dict(DISZ='0', CURV='0.5'))
    r = write(L, sf)
    L.note(r, 'surfaces')
    al = L.call(r, 'surfaces')
    L.eq('as many surfaces as SURF blocks', L.length(al), N(n))
    for i in sorted({1, 2, 9, 10, n - 3, n - 2}):
        s = L.idx(al, i)
        L.eq('surface %d: number' % i, L.get(s, 'number'), N(i))
        L.eq('surface %d: radius' % i, L.get(s, 'R'), N(F(1000, i + 1)))
        L.eq('surface %d: spacing' % i, L.get(s, 'spacing'), N(i))
        L.eq('surface %d: diameter' % i, L.get(s, 'diameter'), N(2 * (i + 1)))
    ls = L.call(r, 'lensSurfaces')
    L.note(r, 'lensSurfaces')
    L.eq('the lens runs to the first surface to air', L.length(ls), N(n - 1))
    L.eq('its last surface', L.get(L.idx(ls, n - 2), 'number'), N(n - 1))
