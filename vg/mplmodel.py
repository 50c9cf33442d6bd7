"""Abstract matplotlib: what is handed to the axes, in data coordinates. No pixels: labels never overlap."""
import ast

from . import terms as T
from .program import Module, Binding
from .terms import TRUE, NONE, const, num

PRELUDE = '''
class Transform:
    def __init__(self, sx=1, sy=1, tx=0, ty=0, space=None):
        self.sx = sx
        self.sy = sy
        self.tx = tx
        self.ty = ty
        self.space = space

    def translate(self, tx, ty):
        self.tx = self.tx + tx
        self.ty = self.ty + ty
        return self

    def scale(self, sx, sy=None):
        if sy is None:
            sy = sx
        self.sx = self.sx * sx
        self.tx = self.tx * sx
        self.sy = self.sy * sy
        self.ty = self.ty * sy
        return self

    def __add__(self, o):
        return Transform(self.sx * o.sx, self.sy * o.sy, self.tx * o.sx + o.tx, self.ty * o.sy + o.ty, o.space)

    def inverted(self):
        return Transform(1 / self.sx, 1 / self.sy, -self.tx / self.sx, -self.ty / self.sy, None)

    def frozen(self):
        return self

    def transform(self, xy):
        x, y = xy
        return (x * self.sx + self.tx, y * self.sy + self.ty)


def ignore(*args, **kw):
    return None


class Bbox:
    def __init__(self, x0, y0, x1, y1):
        self.x0 = x0
        self.y0 = y0
        self.x1 = x1
        self.y1 = y1

    @property
    def bounds(self):
        return (self.x0, self.y0, self.x1 - self.x0, self.y1 - self.y0)

    @property
    def width(self):
        return self.x1 - self.x0

    @property
    def height(self):
        return self.y1 - self.y0

    def transformed(self, t):
        return self

    def expanded(self, sw, sh):
        return self

    def overlaps(self, other):
        return False


class Artist:
    def __getattr__(self, name):
        return ignore

    def __init__(self, visible=True, **kw):
        self.visible = visible
        self.at = None
        self.style = kw

    def set_visible(self, b):
        self.visible = b

    def get_visible(self):
        return self.visible

    def set_transform(self, t):
        self.at = t

    def get_tightbbox(self, renderer=None):
        return Bbox(0, 0, 1, 1)

    def get_window_extent(self, renderer=None):
        return Bbox(0, 0, 1, 1)

    def set(self, **kw):
        for k, v in kw.items():
            self.style[k] = v


class Line2D(Artist):
    def __init__(self, xdata, ydata, **kw):
        super().__init__(**kw)
        self.x = xdata
        self.y = ydata

    def get_xdata(self):
        return self.x

    def get_ydata(self):
        return self.y

    def set_data(self, x, y):
        self.x = x
        self.y = y


class Path:
    STOP = 0
    MOVETO = 1
    LINETO = 2
    CURVE3 = 3
    CURVE4 = 4
    CLOSEPOLY = 79

    def __init__(self, vertices, codes=None, _interpolation_steps=1, closed=False, readonly=False):
        self.vertices = vertices
        self.codes = codes


class PathPatch(Artist):
    def __init__(self, path, **kw):
        super().__init__(**kw)
        self.path = path

    def get_path(self):
        return self.path


class FancyArrowPatch(Artist):
    def __init__(self, posA=None, posB=None, **kw):
        super().__init__(**kw)
        self.posA = posA
        self.posB = posB


class Text(Artist):
    def __init__(self, x=0, y=0, text='', **kw):
        super().__init__(**kw)
        self.x = x
        self.y = y
        self.text = text

    def set_position(self, xy):
        self.x, self.y = xy

    def get_position(self):
        return (self.x, self.y)

    def get_text(self):
        return self.text


class Axes:
    def __getattr__(self, name):
        return ignore

    def __init__(self, figure=None):
        self.figure = figure
        self.transData = Transform(space='data')
        self.transAxes = Transform(space='axes')
        self.artists = []
        self.bars = []
        self.points = []
        self.ylim = None
        self.callbacks = Callbacks()

    @property
    def viewLim(self):
        return Bbox(view('x0'), view('y0'), view('x0') + view('w'), view('y0') + view('h'))

    def add_line(self, a):
        self.artists.append(a)
        return a

    def add_patch(self, a):
        self.artists.append(a)
        return a

    def add_artist(self, a):
        self.artists.append(a)
        return a

    def plot(self, *args, **kw):
        if len(args) >= 2:
            line = Line2D(args[0], args[1], **kw)
            self.artists.append(line)
            return [line]
        return []

    def scatter(self, x, y, **kw):
        self.points.append((x, y, kw))

    def bar(self, x, height, width=0.8, **kw):
        self.bars.append((x, height, width))

    def text(self, x, y, s, **kw):
        self.artists.append(Text(x, y, s, at='axes'))

    def get_xlim(self):
        return (view('x0'), view('x0') + view('w'))

    def get_ylim(self):
        return (view('y0'), view('y0') + view('h'))

    def set_ylim(self, *args, **kw):
        self.ylim = args

    def set_xlim(self, *args, **kw):
        pass

    def autoscale(self, *args, **kw):
        pass

    def set_xlabel(self, *args, **kw):
        pass

    def set_ylabel(self, *args, **kw):
        pass

    def set_title(self, label, *args, **kw):
        self.title = label

    def legend(self, *args, **kw):
        pass

    def tick_params(self, *args, **kw):
        pass

    def axis(self, *args, **kw):
        pass

    def imshow(self, *args, **kw):
        pass


class Callbacks:
    def connect(self, *args, **kw):
        pass


class Canvas:
    def __getattr__(self, name):
        return ignore

    def get_renderer(self):
        return None

    def draw(self):
        pass


class Figure:
    def __getattr__(self, name):
        return ignore

    def __init__(self):
        self.axes = []
        self.saved = []
        self.canvas = Canvas()

    def savefig(self, path, **kw):
        if path == '/nowhere/picture.png':
            raise FileNotFoundError(path)
        self.saved.append(path)


class CheckButtons:
    def __getattr__(self, name):
        return ignore

    def __init__(self, ax, labels, actives=None, **kw):
        self.labels = list(labels)
        self.actives = list(actives)
        ax.widget = self

    def set_label_props(self, props):
        pass

    def on_clicked(self, f):
        self.callback = f


class Pyplot:
    def __init__(self):
        self.figures = []
        self.extra = []
        self.ax = None

    def subplots(self, nrows=1, ncols=1, **kw):
        f = Figure()
        self.figures.append(f)
        for i in range(nrows * ncols):
            f.axes.append(Axes(f))
        self.ax = f.axes[-1]
        if nrows * ncols == 1:
            return f, f.axes[0]
        return f, tuple(f.axes)

    def figure(self, **kw):
        f = Figure()
        self.figures.append(f)
        self.ax = None
        return f

    def gca(self):
        if self.ax is None:
            if len(self.figures) == 0:
                self.figures.append(Figure())
            f = self.figures[-1]
            f.axes.append(Axes(f))
            self.ax = f.axes[-1]
        return self.ax

    def plot(self, *args, **kw):
        return self.gca().plot(*args, **kw)

    def scatter(self, *args, **kw):
        return self.gca().scatter(*args, **kw)

    def bar(self, *args, **kw):
        return self.gca().bar(*args, **kw)

    def axes(self, *args, **kw):
        a = Axes()
        self.extra.append(a)
        return a

'''
CLASSES = {'Affine2D': ('Transform', ['matplotlib.transforms']), 'Bbox': ('Bbox', ['matplotlib.transforms']),
           'Line2D': ('Line2D', ['matplotlib.pyplot', 'matplotlib.lines']), 'Path': ('Path', ['matplotlib.path']),
           'PathPatch': ('PathPatch', ['matplotlib.patches']), 'FancyArrowPatch': ('FancyArrowPatch', ['matplotlib.patches']),
           'Text': ('Text', ['matplotlib.text', 'matplotlib.pyplot']), 'CheckButtons': ('CheckButtons', ['matplotlib.widgets']),
           'Figure': ('Figure', ['matplotlib.pyplot', 'matplotlib.figure']), 'Axes': ('Axes', ['matplotlib.pyplot', 'matplotlib.axes'])}
METHODS = ('subplots', 'figure', 'gca', 'plot', 'scatter', 'bar', 'axes')
NOTHING = ('subplots_adjust', 'connect', 'show', 'draw', 'pause', 'close', 'ion', 'ioff', 'xlabel', 'ylabel', 'title', 'legend',
           'xlim', 'ylim', 'tight_layout', 'grid', 'xscale', 'yscale', 'rc', 'clf', 'cla')


def install(I, st):
    m = Module('<matplotlib>', '<matplotlib>', '<matplotlib>')
    m.tree = ast.parse(PRELUDE)
    I.P._exec(m, m.tree.body)
    m.env['view'] = Binding('ext', value='<matplotlib>.view')
    I.stubs['<matplotlib>.view'] = lambda I_, s, _, a, k: T.var('view:' + a[0].a, '+' if a[0].a in 'wh' else None)
    for n, (c, mods) in CLASSES.items():
        for x in mods:
            I.extvals[x + '.' + n] = I.classval(m.env[c].value)
    plt = I.call(st, I.classval(m.env['Pyplot'].value), [], {})
    I.plt = plt
    for n in METHODS:
        I.stubs['matplotlib.pyplot.' + n] = lambda I_, s, _, a, k, n=n: I_.call_method(s, plt, n, list(a), k)
    for n in NOTHING:
        I.stubs['matplotlib.pyplot.' + n] = lambda I_, s, _, a, k: NONE
    I.stubs['matplotlib.pyplot.get_fignums'] = lambda I_, s, _, a, k: I_.newlist(s, [])
    return plt
