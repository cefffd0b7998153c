"""A stand-in for matplotlib which remembers what is drawn (also used on replay)."""
import types

import numpy as np


class Shape:
    """a patch or line: its vertices in data coordinates"""
    def __init__(self, kind, xy, **kw):
        self.kind, self._xy, self.kw = kind, xy, kw

    @property
    def xy(self):
        return self._xy

    def get_xy(self):
        return self._xy

    def __getattr__(self, name):
        if name.startswith('set_'):
            return lambda *a, **k: None
        raise AttributeError(name)


def flat_xy(np_, x, y, dx, dy):
    return np_.stack([np_.stack([x, y]), np_.stack([x + dx, y + dy])])


class Axis:
    def __init__(self):
        self.inverted = False

    def set_inverted(self, v):
        self.inverted = bool(v)

    def get_inverted(self):
        return self.inverted

    def __getattr__(self, name):
        if name.startswith('set_') or name == 'grid':
            return lambda *a, **k: None
        raise AttributeError(name)


class Img:
    def __init__(self, axes, x, kw):
        self.axes, self.x, self.kw, self.figure = axes, x, kw, axes.figure

    def get_array(self):
        return self.x

    def __getattr__(self, name):
        if name.startswith('set_'):
            return lambda *a, **k: None
        raise AttributeError(name)


class Axes:
    def __init__(self, figure=None):
        self.figure = figure
        self.xaxis, self.yaxis = Axis(), Axis()
        self.patches, self.segments, self.points, self.texts, self.images = [], [], [], [], []
        self.labels, self.aspect, self.colorbars = {}, 'auto', []
        self.transAxes = object()
        self.lims = {}

    def add_collection(self, c, **k):
        for kind, item in c.items:
            (self.patches if kind == 'patch' else self.segments).append(item)
        return c

    def add_patch(self, p):
        self.patches.append(p)
        return p

    def scatter(self, x, y, *a, **k):
        self.points.append((x, y))

    def plot(self, x, y, *a, **k):
        self.points.append((x, y))
        return [None]

    def text(self, x, y, s, *a, transform=None, **k):
        if transform is None:
            self.texts.append((x, y, str(s)))

    def annotate(self, s, xy, *a, **k):
        self.texts.append((xy[0], xy[1], str(s)))

    def arrow(self, x, y, dx, dy, **k):
        self.patches.append(MPL.arrow(x, y, dx, dy, **k))

    def invert_xaxis(self):
        self.xaxis.inverted = not self.xaxis.inverted

    def invert_yaxis(self):
        self.yaxis.inverted = not self.yaxis.inverted

    def imshow(self, x, *a, **kw):
        im = Img(self, x, kw)
        self.images.append(im)
        self.aspect = kw.get('aspect', 'equal')
        return im

    def set_aspect(self, a, *x, **k):
        self.aspect = a

    def set_xlabel(self, s, *a, **k):
        self.labels['x'] = str(s)

    def set_ylabel(self, s, *a, **k):
        self.labels['y'] = str(s)

    def set_title(self, s, *a, **k):
        self.labels['title'] = s

    def set(self, **kw):
        for k, v in kw.items():
            getattr(self, 'set_' + k)(v)

    def _lim(self, name, a, k):
        lo = k.get('left', k.get('bottom', a[0] if a else None))
        hi = k.get('right', k.get('top', a[1] if len(a) > 1 else None))
        if hi is None and isinstance(lo, (tuple, list)):
            lo, hi = lo
        self.lims[name] = (lo, hi)

    def set_xlim(self, *a, **k):
        self._lim('x', a, k)

    def set_ylim(self, *a, **k):
        self._lim('y', a, k)

    def axis(self, *a, **k):
        if a and isinstance(a[0], (tuple, list)):
            self.lims['x'], self.lims['y'] = a[0][:2], a[0][2:]
        elif a and a[0] in ('equal', 'scaled', 'image'):
            self.aspect = 'equal'

    def _ignore(self, *a, **k):
        pass

    legend = hlines = vlines = axhline = axvline = autoscale = autoscale_view = grid = tick_params = \
        set_facecolor = margins = relim = set_axis_off = _ignore

    def get_figure(self):
        return self.figure


class Figure:
    def __init__(self, *a, **k):
        self.axes, self.colorbars = [], []
        MPL.figures += 1

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self))
        return self.axes[-1]

    def gca(self):
        return self.axes[-1] if self.axes else self.add_subplot()

    subplots = add_axes = add_subplot

    def colorbar(self, im=None, ax=None, cax=None, **k):
        MPL.colorbars.append((im, ax, k))

    def tight_layout(self, *a, **k):
        pass

    suptitle = set_size_inches = tight_layout


class Cmap:
    def set_bad(self, *a, **k):
        pass

    set_under = set_over = set_bad

    def copy(self):
        return Cmap()


class Collection:
    def __init__(self, kind, items):
        self.items = [(kind, i) for i in items]

    def __getattr__(self, name):
        if name.startswith('set_'):
            return lambda *a, **k: None
        raise AttributeError(name)


class Mpl:
    def __init__(self):
        self.np = np
        self.reset()

    def reset(self):
        self.figures, self.colorbars, self.current = 0, [], None

    def arrow(self, x, y, dx, dy, **k):
        if k.get('length_includes_head') not in (None, True, False):
            raise TypeError
        s = Shape('arrow', flat_xy(self.np, x, y, dx, dy))
        s.arrow = (x, y, dx, dy)
        w = k.get('width', .001)
        hw = k.get('head_width')
        s.size = max(w, 3 * w if hw is None else hw)
        return s

    def polygon(self, xy, closed=True, **k):
        return Shape('polygon', xy)

    def modules(self, np_=np):
        self.np = np_
        M = {n: types.ModuleType(n) for n in (
            'matplotlib', 'matplotlib.pyplot', 'matplotlib.collections', 'matplotlib.patches', 'matplotlib.cm',
            'matplotlib.figure', 'matplotlib.backends', 'matplotlib.backends.backend_agg')}
        for n, m in M.items():
            if '.' in n:
                setattr(M[n.rpartition('.')[0]], n.rpartition('.')[2], m)
        plt = M['matplotlib.pyplot']

        def figure(*a, **k):
            self.current = Figure()
            return self.current

        def subplots(*a, **k):
            f = figure()
            return f, f.add_subplot()
        plt.figure, plt.subplots = figure, subplots
        plt.gcf = lambda: self.current or figure()
        plt.gca = lambda: plt.gcf().gca()
        plt.axes = lambda *a, **k: plt.gcf().add_subplot()
        plt.colorbar = lambda im=None, cax=None, ax=None, **k: self.colorbars.append((im, ax, k))
        plt.show = plt.draw = plt.close = lambda *a, **k: None
        c = M['matplotlib.collections']
        c.PatchCollection = lambda p, *a, **k: Collection('patch', p)
        c.LineCollection = lambda s, *a, **k: Collection('line', s)
        c.PolyCollection = lambda v, *a, **k: Collection('patch', [self.polygon(x) for x in v])
        p = M['matplotlib.patches']
        p.Polygon, p.FancyArrow = self.polygon, self.arrow
        p.Arrow = self.arrow
        cm = M['matplotlib.cm']
        cm.viridis = plt.cm = Cmap()
        plt.cm = cm
        cm.get_cmap = plt.get_cmap = lambda *a, **k: Cmap()
        M['matplotlib.figure'].Figure = Figure
        M['matplotlib.backends.backend_agg'].FigureCanvasAgg = lambda fig: None
        return M


MPL = Mpl()
