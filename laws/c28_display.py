"""Displaying a path, an element, a beam or rays only draws: nothing of what was displayed is changed."""
from . import law
from .drawing import *
from vg.interp import Dead


def setup(L):
    L.matplotlib()
    no_search(L)


def shown(L, p, make, **kw):
    """picture of one display"""
    n = len(figures(L))
    a = L.attempt(L.call, p, 'display', *make, **kw)
    L.quiet('display works', a)
    if a.guard is FALSE:
        raise Dead()
    L.fact('one figure', len(figures(L)) == n + 1)
    return frozen(L, picture(L))


SOURCES = ['none', 'rays', 'object', 'object in a space', 'lamp', 'uniform', 'list', 'two']


def source(L, kind, d1):
    h = L.var('h', '+')
    if kind == 'none':
        return [], {}
    if kind == 'object':
        return [L.new('ObjectRays', h, H=2, T=2, label='obj')], {}
    if kind == 'object in a space':
        z = N(12)
        return [L.new('ObjectRays', h, H=2, T=2, z=z)], {}
    if kind == 'lamp':
        return [L.new('LampRays', h, N=2, T=2)], {}
    if kind == 'uniform':
        return [L.new('UniformRays', h, N=2, M=2)], {}
    if kind == 'rays':
        return [L.new('Rays', L.v([L.new('Ray', L.var('y'), L.var('t'))]))], {}
    if kind == 'list':
        return [L.v([L.new('Ray', L.var('y'), L.var('t'))])], {}
    if kind == 'two':
        ls = L.v([L.new('ObjectRays', h, H=2, T=2), L.new('LampRays', h, N=2, T=2)])
        return [], {'raysList': ls}


@law('C28', SOURCES)
def path_is_unchanged(L, kind):
    """the path, its elements, the rays and their list are the same after display() and the second picture is the first one"""
    setup(L)
    p, d1, d2, f, lens = (fixed if kind in ('uniform', 'lamp', 'object in a space') else simple)(L, kind != 'uniform')
    L.set(p, 'objectHeight', L.var('H', '+'))
    L.set(p, 'fanNumber', L.v(2))
    L.set(p, 'rayNumber', L.v(2))
    L.set(p, 'fanAngle', L.var('a', '+'))
    args, kw = source(L, kind, d1)
    objs = [p, lens] + list(args) + list(kw.values()) + [x for v in kw.values() for x in L.seq(v)]
    before = same(L, objs)
    first = shown(L, p, args, **kw)
    L.note(p, 'display')
    unchanged(L, 'after display()', before, same(L, objs))
    second = shown(L, p, args, **kw)
    L.note(p, 'display')
    unchanged(L, 'after two', before, same(L, objs))
    same_picture(L, 'again', first, second)


def several(L, kw=None):
    """a path with what the drawing treats separately"""
    els = [L.new('Space', 10), L.new('Lens', 20, label='L1'), L.new('Space', 20), L.new('Aperture', 6, label='stop'), L.new('Space', 5),
           L.new('MatrixGroup', L.v([L.new('Lens', 30, diameter=20), L.new('Space', 4), L.new('Lens', 30)])),
           L.new('Space', 10), L.new('ThickLens', N(3) / 2 if False else T.div(N(3), N(2)), 40, -40, 3, diameter=25),
           L.new('Space', 10), L.new('Matrix', 1, 0, T.div(N(-1), N(50)), 1, label='black box'), L.new('Space', 30)]
    return path(L, *els), els


@law('C28', ['object', 'none'])
def many_elements(L, kind):
    """lenses, stops, groups, thick lenses and generic elements are the same after display()"""
    setup(L)
    p, els = several(L)
    L.set(p, 'objectHeight', L.v(2))
    L.set(p, 'fanNumber', L.v(2))
    L.set(p, 'rayNumber', L.v(2))
    L.set(p, 'fanAngle', T.div(N(1), N(20)))
    args, kw = ([L.new('ObjectRays', 3, H=2, T=2)], {}) if kind == 'object' else ([], {})
    objs = [p] + els + args
    before = same(L, objs)
    first = shown(L, p, args)
    L.note(p, 'display')
    unchanged(L, 'after display()', before, same(L, objs))
    same_picture(L, 'again', first, shown(L, p, args))
    L.note(p, 'display')


def params(L, p):
    d = L.get(L.get(p, 'figure'), 'designParams')
    return L.image(d)


DESIGN = {'rayColors': ['k', 'm', 'c'], 'imageColor': 'g', 'objectColor': 'y', 'fillImage': False, 'fillObject': False, 'fontScale': 2,
          'onlyAxialRay': True, 'lampRayColors': ['k'], 'FOVColors': ['g', 'm'], 'showObjectImage': False, 'style': 'publication'}


@law('C28', sorted(DESIGN))
def design_is_kept(L, what):
    """what design() was asked for stays after display(), and design() can be used again"""
    setup(L)
    p, d1, d2, f, lens = fixed(L)
    L.call(p, 'design', **{what: DESIGN[what]})
    before = params(L, p)
    src = L.new('ObjectRays', 3, H=2, T=2)
    first = shown(L, p, [src])
    L.note(p, 'display')
    L.eq('design', params(L, p), before)
    same_picture(L, 'again', first, shown(L, p, [src]))
    a = L.attempt(L.call, p, 'design', **{what: DESIGN[what]})
    L.quiet('design() can be called again', a)
    L.eq('same design', params(L, p), before)
    a = L.attempt(L.call, p, 'design', fontScale=3)
    L.eq('and changed', L.idx(L.get(L.get(p, 'figure'), 'designParams'), 'fontScale'), N(3))


PER_CALL = ['removeBlocked', 'onlyPrincipalAndAxialRays', 'limitObjectToFieldOfView', 'comments', 'interactive', 'lamp', 'principal']


@law('C28', PER_CALL)
def one_call_only(L, what):
    """an option or the rays of one display() do not show in the next ones"""
    setup(L)
    p, d1, d2, f, lens = fixed(L)
    L.set(p, 'objectHeight', L.v(2))
    src = L.new('ObjectRays', 30, H=2, T=3, halfAngle=1)
    ref = shown(L, p, [src], removeBlocked=False)
    design = params(L, p)
    kw = {'removeBlocked': True, 'onlyPrincipalAndAxialRays': False, 'limitObjectToFieldOfView': True,
          'comments': 'some text', 'interactive': False}
    if what == 'lamp':
        shown(L, p, [L.new('LampRays', 5, N=2, T=2)])
    elif what == 'principal':
        shown(L, p, [])
    else:
        shown(L, p, [src], **{what: kw[what]})
    L.note(p, 'display')
    L.eq('design', params(L, p), design)
    L.eq('object height', L.get(p, 'objectHeight'), N(2))
    same_picture(L, 'as if nothing had happened', ref, shown(L, p, [src], removeBlocked=False))
    L.note(p, 'display')


@law('C28', [('rays', 'object'), ('rays', 'none')])
def saving_a_figure(L, how, kind):
    """saveFigure() writes the picture that display() shows, to the file asked, and changes nothing"""
    setup(L)
    p, d1, d2, f, lens = fixed(L)
    L.set(p, 'objectHeight', L.v(2))
    args = [L.new('ObjectRays', 3, H=2, T=2)] if kind == 'object' else []
    shot = shown(L, p, args)
    before = same(L, [p, lens] + args)
    L.call(p, 'saveFigure', 'picture.png', *args)
    L.note(p, 'saveFigure')
    same_picture(L, 'saved', shot, frozen(L, picture(L)))
    L.eq('file', L.image(L.get(figures(L)[-1], 'saved')), L.image(L.v(['picture.png'])))
    unchanged(L, 'after saving', before, same(L, [p, lens] + args))


@law('C28', [(w, k) for w in ('file', 'not rays', 'not a list') for k in ('object', 'none', 'lamp')])
def a_display_that_fails(L, how, kind):
    """nothing stays of a display or a file that failed: the path and its design are as before, and the next display shows what the first one did"""
    setup(L)
    p, d1, d2, f, lens = fixed(L)
    L.set(p, 'objectHeight', L.v(2))
    src = L.new('ObjectRays', 3, H=2, T=2)
    ref = shown(L, p, [src])
    before, design = same(L, [p, lens, src]), params(L, p)
    one = L.new('ObjectRays', 5, H=2, T=2) if kind == 'object' else L.new('LampRays', 5, N=2, T=2) if kind == 'lamp' else NONE
    call = {'file': 'p.saveFigure("/nowhere/picture.png", one, removeBlocked=False, comments="text", onlyPrincipalAndAxialRays=False)',
            'not rays': 'p.display(raysList=[5] if one is None else [one, 5], removeBlocked=False, onlyPrincipalAndAxialRays=False)',
            'not a list': 'p.display(one, raysList=5, removeBlocked=False)'}[how]
    failed = L.run('try:\n    %s\nexcept Exception:\n    return True\nreturn False' % call, p=p, one=one)
    L.eq('the error is given', failed, TRUE)
    L.note(p, 'display')
    unchanged(L, 'after the failure', before, same(L, [p, lens, src]))
    L.eq('design', params(L, p), design)
    same_picture(L, 'the next display', ref, shown(L, p, [src]))
    L.note(p, 'display')


ELEMENTS = {
    'lens': lambda L: L.new('Lens', 10, diameter=5), 'infinite lens': lambda L: L.new('Lens', 10), 'negative lens': lambda L: L.new('Lens', -10),
    'space': lambda L: L.new('Space', 10), 'aperture': lambda L: L.new('Aperture', 5),
    'thick': lambda L: L.new('ThickLens', T.div(N(3), N(2)), 50, -30, 5, diameter=10), 'slab': lambda L: L.new('DielectricSlab', T.div(N(3), N(2)), 5, diameter=10),
    'interface': lambda L: L.new('DielectricInterface', 1, T.div(N(3), N(2)), 50, diameter=10),
    'infinite interface': lambda L: L.new('DielectricInterface', 1, T.div(N(3), N(2)), 50), 'mirror': lambda L: L.new('CurvedMirror', 50, diameter=10),
    'matrix': lambda L: L.new('Matrix', 1, 0, T.div(N(-1), N(10)), 1), 'long matrix': lambda L: L.new('Matrix', 1, 0, T.div(N(-1), N(10)), 1, physicalLength=3),
    'matrix with vertices': lambda L: L.new('Matrix', 1, 0, T.div(N(-1), N(10)), 1, physicalLength=3, frontVertex=0, backVertex=3, apertureDiameter=7),
    'group': lambda L: L.new('MatrixGroup', L.v([L.new('Lens', 10, diameter=8), L.new('Space', 5), L.new('Lens', 20)])),
    'group of a space': lambda L: L.new('MatrixGroup', L.v([L.new('Space', 5)])),
    'empty group': lambda L: L.new('MatrixGroup', L.v([])),
    '4f': lambda L: L.new('System4f', 10, 20), '2f': lambda L: L.new('System2f', 10),
    'doublet': lambda L: L.new('AchromatDoubletLens', fa=100, fb=T.num(95), R1=60, R2=-40, R3=-200, tc1=4, tc2=2, te=4, n1=T.div(N(8), N(5)), n2=T.div(N(17), N(10)), diameter=25),
    'singlet': lambda L: L.new('SingletLens', f=100, fb=98, R1=100, R2=-100, tc=4, te=3, n=T.div(N(3), N(2)), diameter=20),
    'objective': lambda L: L.new('Objective', f=9, NA=T.div(N(2), N(5)), focusToFocusLength=60, backAperture=20, workingDistance=5, magnification=20, fieldNumber=22),
}


@law('C28', sorted(ELEMENTS))
def one_element(L, kind):
    """display() of any element alone works and leaves the element as it was"""
    setup(L)
    e = ELEMENTS[kind](L)
    objs = [e] + (L.seq(L.get(e, 'elements')) if 'elements' in L.I.obj(L.st, e).fields else [])
    before = same(L, objs)
    first = shown(L, e, [])
    L.note(e, 'display')
    unchanged(L, 'after display()', before, same(L, objs))
    same_picture(L, 'again', first, shown(L, e, []))
    r = L.new('Ray', L.var('y'), L.var('t'))
    L.note(e, 'display')


@law('C28', [False, True])
def a_laser_path(L, stored):
    """display() of a laser path leaves path and beams as they were, and shows them again the same way"""
    setup(L)
    p = L.new('LaserPath')
    for e in (L.new('Lens', 20, diameter=25), L.new('Space', 50)):
        L.call(p, 'append', e)
    b = L.new('GaussianBeam', w=1, R=INF, wavelength=T.div(N(1), N(1000)))
    other = L.new('GaussianBeam', w=2, R=50, wavelength=T.div(N(1), N(1000)))
    if stored:
        L.set(p, 'inputBeam', b)
    beams = L.v([b])
    args = [] if stored else [beams]
    objs = [p, b, other]
    L.call(p, 'design', fontScale=2)
    design = params(L, p)
    before = same(L, objs)
    first = shown(L, p, args)
    L.note(p, 'display')
    unchanged(L, 'after display()', before, same(L, objs))
    L.eq('list of beams', L.image(beams), L.image(L.v([b])))
    L.eq('design', params(L, p), design)
    shown(L, p, [L.v([other])])
    L.note(p, 'display')
    same_picture(L, 'again', first, shown(L, p, args))
    L.note(p, 'display')


@law('C28', ['list', 'uniform'])
def plotting_rays(L, kind):
    """display() of rays leaves them as they were"""
    L.matplotlib()
    if kind == 'rays':
        return [L.new('Rays', L.v([L.new('Ray', L.var('y'), L.var('t'))]))], {}
    if kind == 'list':
        r = L.new('Rays', L.v([L.new('Ray', i, T.div(N(i), N(10))) for i in (-2, 0, 1, 3)]))
    else:
        r = L.new('UniformRays', 5, N=2, M=3)
    before = same(L, [r])
    a = L.attempt(L.call, r, 'display')
    L.quiet('display works', a)
    unchanged(L, 'after display()', before, same(L, [r]))
