"""C30: the image viewer shows the frame it is positioned at."""
import types

import numpy as np

BOUNDS = ('stacks of 1 to 3 images of 1x1 to 2x2 pixels with any values, given to the constructor or assigned; every sequence of '
          '3 (thorough: 4) of: next(), next(viewer), prev(), position set to any of -4..6, any image displayed, new data '
          'of any length (and sequences one longer from 3 images, without displaying others); refused data of six other types and dimensions in sequences of 2')
WALL = {'quick': 300, 'thorough': 850}


class Plot:
    """stands in for matplotlib.pyplot: remembers the image drawn last"""
    def __init__(self):
        self.last = None

    def reset(self):
        self.last = None

    def modules(self):
        plot, top = types.ModuleType('matplotlib.pyplot'), types.ModuleType('matplotlib')
        top.pyplot = plot
        axes, fig, rec = Axes(), Axes(), self
        axes.figure, fig.axes = fig, [axes]

        def imshow(x, *a, **k):
            im = Image(rec, axes)
            im.set_data(x)
            return im
        axes.imshow = imshow
        plot.imshow = imshow
        plot.gca = lambda *a, **k: axes
        plot.gcf = plot.figure = lambda *a, **k: fig
        plot.subplots = lambda *a, **k: (fig, axes)
        plot.draw = plot.show = plot.pause = plot.title = plot.draw_if_interactive = lambda *a, **k: None
        fig.gca = fig.add_subplot = lambda *a, **k: axes
        return {'matplotlib': top, 'matplotlib.pyplot': plot}


class Axes:
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Image:
    def __init__(self, rec, axes):
        self.rec, self.axes, self.figure = rec, axes, axes.figure

    def set_data(self, x):
        self.x = x.copy()
        self.rec.last = self

    set_array = set_data

    def get_array(self):
        return self.x

    def set_clim(self, *a, **k):
        pass

    autoscale = set_extent = set_clim


PLOT = Plot()


def extra_modules(cfg):
    return PLOT.modules()


def conc_modules():
    return PLOT.modules()


OPS = ['next', 'next()', 'prev', 'pos', 'show', 'data']


def configs(tier):
    out = []
    n = 4 if tier == 'quick' else 5
    for size in (1, 2, 3):
        for j, first in enumerate(OPS):
            shape, dt = (((1, 2), 'i2'), ((2, 1), 'f8'), ((2, 2), 'u1'))[(size + j) % 3]
            out.append(dict(size=size, shape=shape, dt=dt, ctor=(size + j) % 2, steps=n - 1, first=first))
            if size == 3 and first in ('next', 'prev', 'pos'):
                out.append(dict(size=size, shape=shape, dt=dt, ctor=(size + j) % 2, steps=n, first=first,
                                ops=['next', 'next()', 'prev', 'pos', 'data']))
        out.append(dict(size=size, shape=(1, 1), dt='i4', ctor=1 - size % 2, steps=2, ops=['bad', 'pos']))
    out.append(dict(size=1, shape=(1, 1), dt='i4', ctor=1, steps=0, only='badctor'))
    out.append(dict(size=3, shape=(1, 2), dt='i4', ctor=1, steps=1, before=1))
    out.append(dict(size=3, shape=(1, 2), dt='i4', ctor=0, steps=1, before=1))
    return out


def scenario(S, cfg):
    utils = S.module('utils')
    PLOT.reset()
    dt = np.dtype(cfg['dt'])
    r, c = cfg['shape']
    hi = 200 if dt.itemsize == 1 else 30000

    def stack(n, tag):
        vals = [S.int('%s_%d' % (tag, i), 0, hi) if dt.kind != 'f' else S.real('%s_%d' % (tag, i), -5, 5)
                for i in range(n * r * c)]
        return S.array(vals, dt).reshape((n, r, c)), vals

    def bad(i):
        what = S.choose('bad%d' % i, ['flat', 'image', 'four', 'list', 'number', 'scalar'])
        a, _ = stack(1, 'b%d' % i)
        return {'flat': lambda: a.reshape((-1,)), 'image': lambda: a.reshape((r, c)),
                'four': lambda: a.reshape((1, 1, r, c)), 'list': lambda: [[[1, 2]]], 'number': lambda: 4,
                'scalar': lambda: a.reshape((-1,))[0]}[what]()

    if cfg.get('only') == 'badctor':
        o = S.call(utils.QuickView, bad(0))
        S.check(o.raised(TypeError), "data of another shape or type given to the viewer were not refused")
        return

    n = cfg['size']
    data, vals = stack(n, 'd')
    if cfg.get('before'):
        # another viewer, with other data
        other, _ = stack(2, 'o')
        utils.QuickView(other).next()
        PLOT.last = None
    if cfg['ctor']:
        q = utils.QuickView(data)
    else:
        q = utils.QuickView()
        S.check(q.data is None, "viewer without data has data")
        q.data = data
    pos = 0

    def frame(k, i):
        """pixel i of image k"""
        e = vals[i]
        for j in range(1, n):
            e = S.If(k == j, vals[j * r * c + i], e)
        return e

    def check(shown, when):
        S.check(q.pos == pos, "position after %s" % when)
        S.check(S.And(q.pos >= 0, q.pos < n), "position outside the stack after %s" % when)
        S.check(len(q) == n, "length after %s" % when)
        S.check(PLOT.last is not None, "no image shown after %s" % when)
        if PLOT.last is None:
            return
        sh, el, _ = S.elems(PLOT.last.x)
        S.check(tuple(sh) == (r, c), "shape of the image shown after %s" % when)
        if tuple(sh) == (r, c):
            S.check(S.And(*[S.plain(el[i]) == frame(shown, i) for i in range(r * c)]),
                    "another image is shown after %s" % when)

    shown = 0
    check(shown, 'giving the data')
    for i in range(cfg['steps']):
        op = S.choose('op%d' % i, cfg.get('ops') or OPS) if i or 'first' not in cfg else cfg['first']
        if op == 'next' or op == 'next()':
            if op == 'next':
                q.next()
            else:
                next(q)
            if S.fork(pos < n - 1):
                pos = shown = pos + 1
            else:
                op = None
        elif op == 'prev':
            q.prev()
            if S.fork(pos > 0):
                pos = shown = pos - 1
            else:
                op = None
        elif op == 'pos':
            p = S.int('p%d' % i, -4, 6)

            def assign():
                q.pos = p
            o = S.call(assign)
            if S.fork(S.And(p >= 0, p < n)):
                S.check(o.ok, "setting a position in the stack failed: %r" % (o.exc,))
                pos = shown = p
            else:
                S.check(o.raised(ValueError), "a position outside the stack was not refused")
        elif op == 'show':
            p = S.int('p%d' % i, 0, 2)
            S.assume(p < n)
            q.display(p)
            shown = p
        elif op == 'data':
            n = 1 + i % 3 if cfg['steps'] > 3 else S.choose('n%d' % i, [1, 2, 3])
            data, vals = stack(n, 'd%d' % i)
            q.data = data
            pos = shown = 0
        else:
            def give(b=bad(i)):
                q.data = b
            o = S.call(give)
            S.check(o.raised(TypeError), "data of another shape or type were not refused")
            S.check(q.data is data, "refused data replaced the data")
        if op is None:
            # nowhere to go: nothing changes, or the current image is shown again
            S.check(q.pos == pos, "position moved past the end of the stack")
            sh, el, _ = S.elems(PLOT.last.x)
            S.check(S.Or(S.And(*[S.plain(el[i]) == frame(shown, i) for i in range(r * c)]),
                         S.And(*[S.plain(el[i]) == frame(pos, i) for i in range(r * c)])),
                    "another image is shown after a move at the end of the stack")
            # which of the two is shown from here on is not specified
            q.display()
            shown = pos
            check(shown, 'displaying the current image')
        else:
            check(shown, op)
