"""C34: plots of a geometry mark each tile, and show images, where the geometry says."""
import re

import numpy as np

from symex import lin
from .geom import DETS, Tiles
from .mpl import MPL, Axes

BOUNDS = ('whole detectors; layouts and comparisons: all tiles depending on three symbolic numbers with a different weight for '
          'every tile and axis, or one tile with free corner and steps along one axis; images: one tile at any offset from '
          'the grid of less than 0.49 pixels, every pixel marked with its own value; both units, both views, with and '
          'without given axes; matplotlib is replaced by a stand-in which remembers the shapes, texts and images drawn '
          '(also on replay), so what matplotlib makes of them is outside')
WALL = {'quick': 300, 'thorough': 850}
FIRST = {'agipd': 0, 'lpd': 7, 'dssc': 0}


def extra_modules(cfg):
    lin.K = 5
    np_ = lin.numpy_module(arrays_lin=cfg['what'] != 'image')
    return {'numpy': np_, **MPL.modules(np_)}


def conc_modules():
    return MPL.modules()


def configs(tier):
    out = []
    for i, det in enumerate(DETS):
        for units in ('px', 'm'):
            out.append(dict(what='inspect', det=det, units=units, mode='all'))
        out.append(dict(what='inspect', det=det, units='m', mode='tile', axis=i % 2, pick=5 + 3 * i))
        for units in ('px', 'm'):
            out.append(dict(what='image', det=det, units=units, ax=units == 'px', pick=[0, 31 - i, 7][i]))
        out.append(dict(what='units', det=det, mode='all'))
    out.append(dict(what='compare', det='agipd', mode='move', pick=0, axis=0))
    out.append(dict(what='compare', det='agipd', mode='move', pick=77, axis=1))
    if tier == 'thorough':
        out += [dict(what='inspect', det=det, units=u, mode='tile', axis=a, pick=p) for det in DETS for u in ('px', 'm')
                for a in (0, 1) for p in (0, 17, 31)]
        out += [dict(what='compare', det='agipd', mode='tile', pick=p, axis=a) for a in (0, 1) for p in range(0, 128, 9)]
        out += [dict(what='image', det=det, units=u, ax=k, pick=p) for det in DETS for u in ('px', 'm') for k in (0, 1)
                for p in (0, 3, 30)]
    return out


def const(x):
    return x.c[..., 0] if isinstance(x, lin.LinArray) else np.asarray(x, 'f8')


def two(x):
    """the x and y of positions"""
    return x[..., :2]


def pair(L, x, y):
    return L.arr([1., 0.]) * x + L.arr([0., 1.]) * y


def match(S, L, got, want, tol, msg):
    """got and want: lists of (k, 2) arrays, in any order -> whether they are the same positions"""
    S.check(len(got) == len(want), msg + ': one for each')
    if len(got) != len(want) or not got:
        return
    g = np.stack([const(x) for x in got])
    w = np.stack([const(x) for x in want])
    if g.shape != w.shape:
        S.check(False, msg + ': vertices')
        return
    left = list(range(len(got)))
    G, W = [], []
    for i in range(len(want)):
        d = np.abs(g[left] - w[i]).reshape(len(left), -1).max(axis=1)
        j = left.pop(int(np.argmin(d)))
        G.append(L.arr(got[j]))
        W.append(L.arr(want[i]))
    if S.symbolic:
        L.close(lin.LinArray(np.stack([x.c for x in G])), lin.LinArray(np.stack([x.c for x in W])), tol, msg)
    else:
        L.close(np.stack(G), np.stack(W), tol, msg)


def rolled(x, like):
    """the corners of a tile, starting with the one and in the direction of the others"""
    best = None
    for flip in (False, True):
        for k in range(len(x)):
            ix = [(k + (-i if flip else i)) % len(x) for i in range(len(x))]
            d = np.abs(const(x)[ix] - like).max()
            if best is None or d < best[0]:
                best = d, ix
    return x[best[1]]


def corners(T, n, nss, nfs):
    r = np.array([0, 0, nss, nss])
    c = np.array([0, nfs, nfs, 0])
    return two(T.at(np.full(4, n), r, c))


def tiles_drawn(S, L, ax, T, n, nss, nfs, scale, tol, msg):
    polys = [p.xy for p in ax.patches if p.kind == 'polygon']
    want = [corners(T, t, nss, nfs) * scale for t in range(n)]
    # shapes may be closed by repeating the first vertex
    polys = [p[:4] if p.shape[0] == 5 else p for p in polys]
    S.check(len(polys) == n and all(tuple(p.shape) == (4, 2) for p in polys), msg + ': one for each tile')
    if len(polys) != n or not all(tuple(p.shape) == (4, 2) for p in polys):
        return
    mids = np.stack([const(w).mean(axis=0) for w in want])
    own = [int(np.argmin(np.abs(mids - const(p).mean(axis=0)).max(axis=1))) for p in polys]
    if sorted(own) == list(range(n)):
        polys = [rolled(p, const(want[o])) for p, o in zip(polys, own)]
    match(S, L, polys, want, tol, msg)


def view(S, ax, frontview, units):
    S.check(ax.xaxis.inverted == frontview and not ax.yaxis.inverted,
            'x increases to the left in the front view only')
    for a in 'xy':
        s = ax.labels.get(a, '').lower()
        S.check(('pix' in s or 'px' in s) == (units == 'px'), 'unit of the axes')


def scenario(S, cfg):
    L = lin.session(S)
    MPL.reset()
    det, what = cfg['det'], cfg['what']
    name, nss, nfs, nt, shape, px = DETS[det]
    n = 16 * nt
    if what == 'image':
        return image(S, L, cfg)
    T = Tiles(S, L, det, cfg['mode'], cfg.get('axis', 0), cfg.get('pick'))
    g = T.build()
    if what == 'units':
        for u in ('mm', 'pixels', ''):
            S.check(S.call(g.inspect, axis_units=u).raised(ValueError), 'unknown units are refused')
            data = np.zeros(shape)
        return
    if what == 'compare':
        return compare(S, L, cfg, T, g)
    units = cfg['units']
    scale = 1 if units == 'm' else 1 / px
    tol = 1e-9 * scale
    front = S.choose('front', [True, False, None])
    kw = {} if front is None else dict(frontview=front)
    if units == 'm' or front is False:
        kw['axis_units'] = units
    r = S.call(g.inspect, **kw)
    S.check(r.ok, 'the layout is drawn: %s' % type(r.exc).__name__)
    ax = r.value
    view(S, ax, front is not False, units)
    tiles_drawn(S, L, ax, T, n, nss, nfs, scale, tol, 'outlines of the tiles')
    # the first pixel of each module in the stored data, and the row it is in
    ft = [m * nt + FIRST[det] for m in range(16)]
    start = [two(T.corner[t]) * scale for t in ft]
    end = [two(T.corner[t] + nfs * T.fs[t]) * scale for t in ft]
    pts = []
    for x, y in ax.points:
        x, y = L.arr(x), L.arr(y)
        pts += [pair(L, x[i], y[i]).reshape((1, 2)) for i in range(len(x))]
    match(S, L, pts, [s.reshape((1, 2)) for s in start], tol, 'first pixels')
    segs = [L.arr(s) for s in ax.segments]
    match(S, L, segs, [stack(S, L, [a, b]) for a, b in zip(start, end)], tol, 'first rows')
    labels(S, L, ax, T, nt, nss, nfs, scale, tol)


def stack(S, L, xs):
    if S.symbolic:
        return lin.LinArray(np.stack([L.arr(x).c for x in xs]))
    return np.stack(xs)


def labels(S, L, ax, T, nt, nss, nfs, scale, tol):
    mods, tiles = {}, {}
    for x, y, s in ax.texts:
        m = re.match(r'Q(\d)M(\d)$', s)
        if m:
            k = (int(m.group(1)) - 1) * 4 + int(m.group(2)) - 1
            S.check(k not in mods, 'each module is labelled once')
            mods[k] = pair(L, x, y)
        m = re.match(r'T(\d+)$', s)
        if m:
            tiles.setdefault(int(m.group(1)) - 1, []).append(pair(L, x, y).reshape((1, 2)))
    S.check(sorted(mods) == list(range(16)), 'every module is labelled')
    if sorted(mods) != list(range(16)):
        return
    mid = two(T.at(np.arange(16 * nt), np.full(16 * nt, nss / 2), np.full(16 * nt, nfs / 2))) * scale
    got, want = [], []
    for k in range(16):
        # in the middle of one of its tiles
        d = np.abs(const(mid)[k * nt:(k + 1) * nt] - const(mods[k])).max(axis=1)
        got.append(mods[k])
        want.append(mid[k * nt + int(np.argmin(d))])
    L.close(stack(S, L, got), stack(S, L, want), tol, 'labels of the modules')
    for t, xs in tiles.items():
        S.check(t < nt, 'number of a tile')
        match(S, L, xs, [mid[m * nt + t].reshape((1, 2)) for m in range(16)], tol, 'labels of the tiles')


def compare(S, L, cfg, T, g):
    name, nss, nfs, nt, shape, px = DETS['agipd']
    n = 16 * nt
    g2 = S.module('geometry2')
    # the other geometry: some tiles are elsewhere
    moved, frags = {}, []
    for t in range(n):
        c, ss, fs = T.corner[t].copy(), T.ss[t].copy(), T.fs[t].copy()
        if t == cfg['pick'] or t % 11 == 3:
            d = 1e-3 * np.array([np.sin(t), np.cos(t), .5])
            if t == cfg['pick']:
                d = L.arr([0., 1, 1]) * L.var('m', -1e-2, 1e-2)
            turn = 1 if t % 2 else 1.01
            moved[t] = c + d, ss * turn, fs
            c, ss, fs = moved[t]
        frags.append(g2.GeometryFragment(c, ss, fs, nss, nfs))
    other = getattr(g2, name)([frags[m * nt:(m + 1) * nt] for m in range(16)])
    scale = S.choose('scale', [1.0, 10, None])
    r = S.call(g.compare, other, **({} if scale is None else dict(scale=scale)))
    S.check(r.ok, 'the comparison is drawn: %s' % type(r.exc).__name__)
    ax = r.value
    k = 1.0 if scale is None else scale
    # in pixels, as layouts
    tiles_drawn(S, L, ax, T, n, nss, nfs, 1 / px, 1e-9 / px, 'outlines of the tiles')
    want = []
    for t, (c, ss, fs) in moved.items():
        a = corners(T, t, nss, nfs) / px
        b = two(c) / px, two(c + nss * ss + nfs * fs) / px
        for i, q in ((0, b[0]), (2, b[1])):
            if t == cfg['pick']:
                # (this one may not have moved at all)
                d = q - a[i]
                same = d[0] == 0 and d[1] == 0
                if same:
                    continue
            want.append(stack(S, L, [a[i], a[i] + k * (q - a[i])]))
    got = []
    for p in ax.patches:
        if p.kind == 'arrow':
            x, y, dx, dy = p.arrow
            got.append(stack(S, L, [pair(L, x, y), pair(L, x + dx, y + dy)]))
            S.check(p.size < nfs, 'arrows are not wider than tiles')
    match(S, L, got, want, 1e-8 / px, 'arrows from the tiles to their place in the other geometry')
    for a, lim in ax.lims.items():
        v = 'xy'.index(a)
        lo, hi = lim
        if lo is None or hi is None:
            continue
        allv = stack(S, L, [L.arr(w[i, v]) for w in want for i in (0, 1)] +
                     [corners(T, t, nss, nfs)[i, v] / px for t in range(n) for i in range(4)])
        L.below(lo, allv, 'everything drawn is inside the limits')
        L.below(allv, hi, 'everything drawn is inside the limits')
        # (tiles lie within 2 m, arrows reach up to 0.1 m further)
        L.below(hi - lo, 6 / px, 'the tiles are not lost in the picture')


def image(S, L, cfg):
    det = cfg['det']
    name, nss, nfs, nt, shape, px = DETS[det]
    pxy = np.array([px, px * 1.5 / np.sqrt(3) if det == 'dssc' else px])
    g2 = S.module('geometry2')
    n = 16 * nt
    fx, fy = [L.var('f' + a, -.49, .49) for a in 'xy']
    across = int(np.ceil(np.sqrt(n * nss / nfs)))
    frags, cells = [], []
    for t in range(n):
        R = np.array([(t % across - across // 3) * (nfs + 6.), (t // across - across // 4) * (nss + 9.)])
        off = np.array([.4 * np.sin(t), .4 * np.cos(3 * t)])
        if t == cfg['pick']:
            R = R + np.array([-5., -6.])
            off = L.arr([1., 0]) * fx + L.arr([0., 1]) * fy
        three = np.array([[1., 0, 0], [0, 1, 0]])
        frags.append(g2.GeometryFragment(((off + R) * L.arr(pxy)) @ three, np.array([0, pxy[1], 0]),
                                         np.array([pxy[0], 0, 0]), nss, nfs))
        cells.append(R.astype(int))
    geom = getattr(g2, name)([frags[m * nt:(m + 1) * nt] for m in range(16)])
    px1 = int(np.prod(shape))
    data = (1 + np.arange(px1)).reshape(shape).astype('f4')
    ref, centre = geom.position_modules_fast(data)
    units = cfg['units']
    front = S.choose('front', [True, False, None])
    bar = S.choose('bar', [True, False, None, {'shrink': .5}])
    kw = {} if front is None else dict(frontview=front)
    if bar is not None:
        kw['colorbar'] = bar
    if units == 'm' or front is False:
        kw['axis_units'] = units
    ax = None
    if cfg['ax']:
        ax = kw['ax'] = Axes()
    more = S.choose('more', [{}, {'vmin': 3, 'vmax': 7}, {'cmap': 'x', 'extent': (1, 2, 3, 4)}])
    S.check(S.call(geom.plot_data_fast, data, axis_units='mm').raised(ValueError), 'unknown units are refused')
    MPL.reset()
    r = S.call(geom.plot_data_fast, data, **kw, **more)
    S.check(r.ok, 'the image is drawn: %s' % type(r.exc).__name__)
    got = r.value
    if ax is not None:
        S.check(got is ax and MPL.figures == 0, 'drawn in the given axes')
    ax = got
    view(S, ax, front is not False, units)
    S.check(len(ax.images) == 1, 'one image')
    im = ax.images[0]
    S.check(tuple(im.x.shape) == tuple(ref.shape) and bool(((np.asarray(im.x) == ref) | np.isnan(ref) & np.isnan(im.x)).all()),
            'the image assembled from the data')
    for k, v in more.items():
        S.check(k in im.kw and im.kw[k] is v, 'further options are passed on')
    S.check(im.kw.get('cmap') is not None, 'a colour map with a colour for missing data')
    if bar is not None:
        S.check(len(MPL.colorbars) == (0 if bar is False else 1), 'a colour bar if asked for')
        if bar and MPL.colorbars:
            S.check(MPL.colorbars[0][0] is im, 'colour bar of the image')
            if bar is not True:
                S.check(MPL.colorbars[0][2].get('shrink') == .5, 'options of the colour bar')
    if 'extent' in more:
        return
    x0, x1, y0, y1 = [float(v) for v in np.asarray(im.kw['extent'], 'f8')]
    h, w = ref.shape
    cy, cx = int(centre[0]), int(centre[1])
    ux, uy = (1, 1) if units == 'px' else pxy
    if im.kw.get('origin') != 'lower':
        S.check(False, 'y increases upwards')
    d = np.array([x0 / ux + cx, x1 / ux - (w - cx), y0 / uy + cy, y1 / uy - (h - cy)])
    S.check(bool((np.abs(d) < .51).all()), 'the image lies where the geometry says, in the given unit')
    # one unit of y is drawn so much longer than one of x
    asp = {'equal': 1.0, 'auto': -1.}.get(ax.aspect, ax.aspect)
    true = pxy[1] / pxy[0] if units == 'px' else 1.0
    S.check(abs(asp / true - 1) < .01, 'circles look like circles')
