"""What is saved is what is loaded."""
from . import law
from .common import *


def some_rays(L, n, pre=''):
    out = []
    for i in range(n):
        r = L.new('Ray', L.var('y%s%d' % (pre, i)), L.var('th%s%d' % (pre, i)), L.var('z%s%d' % (pre, i)),
                  isBlocked=L.I.truth(L.st, L.cmp('<', L.var('b%s%d' % (pre, i)), N(0))))
        L.set(r, 'wavelength', L.var('w%s%d' % (pre, i), '+'))
        L.set(r, 'apertureDiameter', L.var('d%s%d' % (pre, i), '+'))
        out.append(r)
    return out


RAY = ('y', 'theta', 'z', 'isBlocked', 'apertureDiameter', 'wavelength')
ELEMENT = ('A', 'B', 'C', 'D', 'L', 'frontVertex', 'backVertex', 'frontIndex', 'backIndex', 'apertureDiameter', 'label')


def same_list(L, label, s, want, fields):
    L.eq(label + ': how many', L.length(s), N(len(want)))
    for i, w in enumerate(want):
        for f in fields:
            L.eq('%s: %d.%s' % (label, i, f), L.get(L.idx(s, i), f), L.get(w, f))


@law('C19', [0, 1, 2])
def rays_come_back(L, n):
    L.files()
    r = some_rays(L, n)
    s = L.new('Rays', L.v(list(r)))
    L.call(s, 'save', 'x')
    same_list(L, 'saving does not change the set', s, r, RAY)
    t = L.new('Rays')
    L.call(t, 'load', 'x')
    L.note(t, 'load')
    same_list(L, 'loaded', t, r, RAY)
    L.call(t, 'load', 'x', append=True)
    same_list(L, 'loaded again, appended', t, r + r, RAY)
    L.call(t, 'load', 'x')
    same_list(L, 'loaded again, replaced', t, r, RAY)


@law('C19', [(0, 1), (1, 1), (2, 1)])
def rays_replaced_or_appended(L, n, k):
    L.files()
    saved, had = some_rays(L, k, 's'), some_rays(L, n, 'h')
    L.call(L.new('Rays', L.v(list(saved))), 'save', 'x')
    t = L.new('Rays', L.v(list(had)))
    L.call(t, 'load', 'x', append=True)
    L.note(t, 'load')
    same_list(L, 'append', t, had + saved, RAY)
    t = L.new('Rays', L.v(list(had)))
    L.call(t, 'load', 'x')
    same_list(L, 'replace', t, saved, RAY)


@law('C19')
def loaded_rays_are_copies(L):
    L.files()
    r = some_rays(L, 2)
    s = L.new('Rays', L.v(list(r)))
    L.call(s, 'save', 'x')
    t = L.new('Rays')
    L.call(t, 'load', 'x')
    L.note(t, 'load')
    L.set(L.idx(t, 0), 'y', L.var('other'))
    L.eq('the saved one is not changed', L.get(r[0], 'y'), L.var('y0'))
    u = L.new('Rays')
    L.call(u, 'load', 'x')
    L.eq('neither is the file', L.get(L.idx(u, 0), 'y'), L.var('y0'))
    L.call(s, 'append', some_rays(L, 1, 'x')[0])
    u = L.new('Rays')
    L.call(u, 'load', 'x')
    L.eq('the file is as it was saved', L.length(u), N(2))


@law('C19')
def two_files(L):
    L.files()
    a, b = some_rays(L, 1, 'a'), some_rays(L, 2, 'b')
    L.call(L.new('Rays', L.v(a)), 'save', 'a')
    L.call(L.new('Rays', L.v(b)), 'save', 'b')
    t = L.new('Rays')
    L.call(t, 'load', 'a')
    same_list(L, 'first file', t, a, RAY)
    L.call(t, 'load', 'b')
    same_list(L, 'second file', t, b, RAY)
    L.call(L.new('Rays', L.v(b)), 'save', 'a')
    L.call(t, 'load', 'a')
    same_list(L, 'overwritten file', t, b, RAY)


def write_pickle(L, path, v):
    f = L.builtin_open(path, 'wb')
    L.I.stubs['pickle.dump'](L.I, L.st, None, [L.v(v), f], {})


@law('C19', ['number', 'elements of another type', 'mixed'])
def rays_refuse_other_files(L, what):
    L.files()
    had = some_rays(L, 2, 'h')
    bad = {'number': N(3), 'elements of another type': L.v([N(1), N(2)]), 'mixed': L.v([some_rays(L, 1)[0], N(2)])}[what]
    write_pickle(L, 'x', bad)
    t = L.new('Rays', L.v(list(had)))
    for app in (False, True):
        a = L.trial(L.call, t, 'load', 'x', append=app)
        L.raises('refused', a, ('IOError', 'OSError'))
        # the state in which the exception leaves
        for st, e in a.raised[:3]:
            L.in_state(st, same_list, L, 'after the refusal', t, had, RAY)


@law('C19')
def missing_file(L):
    L.files()
    had = some_rays(L, 1)
    t = L.new('Rays', L.v(list(had)))
    a = L.trial(L.call, t, 'load', 'nothing')
    L.raises('refused', a, ('FileNotFoundError', 'OSError'))
    for st, e in a.raised[:3]:
        L.in_state(st, same_list, L, 'after the refusal', t, had, RAY)


def elements(L, thick=False):
    e = [L.new('Space', L.var('d', '+')),
         L.new('Lens', L.var('f', '!0'), diameter=L.var('dia', '+'), label='L')]
    if thick:
        e = [L.new('ThickLens', n=L.var('nt', '+'), R1=L.var('Ra', '!0'), R2=L.var('Rb', '!0'), thickness=L.var('t', '+')), e[0]]
    return e


@law('C19', [('MatrixGroup', True), ('MatrixGroup', False), ('ImagingPath', False), ('LaserPath', False), ('LaserCavity', False)])
def groups_come_back(L, c, thick):
    L.files()
    e = elements(L, thick)
    g = L.new(c, L.v(list(e)))
    L.call(g, 'save', 'x')
    h = L.new(c)
    L.call(h, 'load', 'x')
    L.note(h, 'load')
    same_list(L, 'loaded', L.get(h, 'elements'), e, ELEMENT)
    eq_fields(L, 'group', h, g, ELEMENT[:9])
    L.call(h, 'load', 'x', append=True)
    same_list(L, 'appended', L.get(h, 'elements'), e + e, ELEMENT)
    gg = L.new(c, L.v(e + e))
    eq_fields(L, 'appended group', h, gg, ELEMENT[:9])
    L.call(h, 'load', 'x')
    same_list(L, 'replaced', L.get(h, 'elements'), e, ELEMENT)
    eq_fields(L, 'replaced group', h, g, ELEMENT[:9])
    for i, w in enumerate(e):
        L.eq('same kind of element %d' % i, L.I.classval(L.I.obj(L.st, L.idx(L.get(h, 'elements'), i)).cls),
             L.I.classval(L.I.obj(L.st, w).cls))
    L.call(g, 'pop', 0)
    same_list(L, 'independent of the saved one', L.get(h, 'elements'), e, ELEMENT)


@law('C19', ['number', 'elements of another type', 'mixed'])
def groups_refuse_other_files(L, what):
    L.files()
    e = elements(L)
    g0 = L.new('MatrixGroup', L.v(list(e)))
    bad = {'number': N(3), 'elements of another type': L.v([N(1), N(2)]), 'mixed': L.v([elements(L)[0], N(2)])}[what]
    write_pickle(L, 'x', bad)
    t = L.new('MatrixGroup', L.v(list(e)))
    for app in (False, True):
        a = L.trial(L.call, t, 'load', 'x', append=app)
        L.raises('refused', a, ('IOError', 'OSError'))
        for st, x in a.raised[:3]:
            L.in_state(st, same_list, L, 'after the refusal', L.get(t, 'elements'), e, ELEMENT)
            L.in_state(st, eq_fields, L, 'after the refusal', t, g0, ELEMENT[:9])


@law('C19')
def saved_group_traces_the_same(L):
    L.files()
    e = elements(L)
    g = L.new('ImagingPath', L.v(list(e)))
    r = ray(L)
    one = L.seq(L.call(g, 'trace', r))
    L.call(g, 'save', 'x')
    h = L.new('ImagingPath')
    L.call(h, 'load', 'x')
    L.note(h, 'load')
    two = L.seq(L.call(h, 'trace', r))
    L.eq('as many rays', N(len(two)), N(len(one)))
    for i, (a, b) in enumerate(zip(one, two)):
        eq_fields(L, 'ray %d' % i, b, a, ('y', 'theta', 'z', 'isBlocked'))
