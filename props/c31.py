"""C31: an interpolated image shows each tile at its physical position."""
import types

import numpy as np

from symex import lin
from .geom import DETS

BOUNDS = ('the whole AGIPD-1M detector, tiles in slots which do not overlap, in any of the eight orientations or turned by other '
          'angles; one tile moves by any distance up to 1.5 pixels in x and y, the others stay at fixed uneven places; '
          'scipy.ndimage.affine_transform is taken to map output index o to input index matrix*o + offset, as documented: '
          'decided for every pixel of every tile; which tile goes where in the image: at sample pixels of every tile')
WALL = {'quick': 400, 'thorough': 850}


class Spy:
    """stands in for scipy.ndimage.affine_transform: remembers the mappings, and draws the image for the offsets at 0"""
    def __init__(self):
        self.calls = []

    def modules(self):
        top, nd = types.ModuleType('scipy'), types.ModuleType('scipy.ndimage')
        top.ndimage = nd
        nd.affine_transform = self
        return {'scipy': top, 'scipy.ndimage': nd}

    def __call__(self, input, matrix, offset=0.0, output_shape=None, output=None, order=3, mode='constant', cval=0.0,
                 prefilter=True):
        from scipy.ndimage import affine_transform
        M = matrix.c[..., 0] if isinstance(matrix, lin.LinArray) and lin.is_const(matrix.c) else np.asarray(matrix)
        off = lin.aslin(offset) if not isinstance(offset, (int, float)) else lin.aslin(np.array([offset, offset]))
        if M.ndim == 1:
            M = np.diag(M)
        if M.shape == (3, 3):
            M = M[:2]
        if M.shape == (2, 3):
            off = lin.aslin(M[:, 2].copy())
            M = M[:, :2]
        self.calls.append((np.asarray(input), M, off, cval, mode))
        kw = dict(output_shape=None if output_shape is None else tuple(int(n) for n in output_shape),
                  order=min(order, 1), mode=mode, cval=cval)
        if output is not None:
            kw['output'] = output
        return affine_transform(np.asarray(input), M, offset=off.c[:, 0], **kw)


SPY = Spy()


def extra_modules(cfg):
    lin.K = 3
    return {'numpy': lin.numpy_module(arrays_lin=False), **SPY.modules()}


def configs(tier):
    out = [dict(o=1, pick=64, turn=0.0), dict(o=2, pick=0, turn=0.03), dict(o=7, pick=127, turn=0.4, edge=2),
           dict(o=4, pick=75, turn=0.4, edge=1), dict(what='refuse', o=0, pick=0, turn=0.0)]
    if tier == 'thorough':
        out += [dict(o=o, pick=(o * 29 + 13) % 128, turn=[0.0, 0.01, -0.7][o % 3], edge=[0, 1, 2, 3][o // 2]) for o in range(8)]
    return out


def scenario(S, cfg):
    L = lin.session(S)
    SPY.calls.clear()
    name, nss, nfs, nt, shape, px = DETS['agipd']
    n = shape[0] * nt
    g2 = S.module('geometry2')
    fx, fy = [L.var('f' + a, -1.5, 1.5) for a in 'xy']
    frags, corner, steps = [], [], []
    across = 16
    for t in range(n):
        k = (t * 37) % n
        swap = 0
        # rows of slots for 64 x 128 pixels; the tile which moves has its own place
        R = np.array([(k % across - across // 3) * 72., (k // across - 3) * 136. + (300 if k // across > 3 else 0)])
        o, turn = (t * 5 + cfg['o']) % 4, 2e-3 * np.sin(t)
        if t == cfg['pick']:
            o, turn = cfg['o'], cfg['turn']
            R = np.array([[150., 230.], [-(across // 3) * 72. - 300, 0.], [100., -3 * 136. - 300], [11 * 72. + 300, 150.]][cfg.get('edge', 0)])
        swap, s1, s2 = int(t == cfg['pick'] and o >= 4), 1 - 2 * (o & 1), 1 - (o & 2)
        # (x, y): here the fast-scan axis is y unless swapped
        ss, fs = ((0., s1), (s2, 0.)) if swap else ((s1, 0.), (0., s2))
        rot = np.array([[np.cos(turn), np.sin(turn)], [-np.sin(turn), np.cos(turn)]])
        ss, fs = np.array(ss) @ rot, np.array(fs) @ rot
        mid = R + .31 * np.array([np.sin(3 * t), np.cos(5 * t)])
        c = mid - .5 * (nss * ss + nfs * fs)
        move = np.array([1., 0]) * 0
        cl = c
        if t == cfg['pick']:
            cl = L.arr(c) + L.arr([1., 0]) * fx + L.arr([0., 1]) * fy
        corner.append(cl)
        steps.append((ss, fs))
        three = np.array([[1., 0, 0], [0, 1, 0]]) * px
        z = np.array([0, 0, 1.])
        frags.append(g2.GeometryFragment((cl @ three) + z * (.1 + 1e-4 * t), ss @ three + z * 1e-6,
                                         fs @ three - z * 1e-6, nss, nfs))
    geom = getattr(g2, name)([frags[m * nt:(m + 1) * nt] for m in range(shape[0])])
    data = (1000. * np.arange(n)[:, None, None] + np.arange(nss)[:, None] + .25 * np.arange(nfs))
    data = data.reshape(shape).astype('f4')
    if cfg.get('what') == 'refuse':
        for bad in (data[:-1], data[:, :-1], data[..., :-1], data[None], data.transpose(0, 2, 1)):
            S.check(S.call(geom.position_modules_interpolate, bad).raised(Exception), 'data of the wrong shape is refused')
        return
    out, centre = geom.position_modules_interpolate(data)
    S.check(len(out.shape) == 2 and len(centre) == 2, 'one image, and its centre')
    h, w = out.shape
    cyx = np.array([int(centre[0]), int(centre[1])])

    # the mapping given for each tile
    if S.symbolic:
        seen = {}
        for inp, M, off, cval, mode in SPY.calls:
            S.check(inp.shape == (nss, nfs), 'each tile is placed by itself')
            t = int(inp[0, 0]) // 1000
            S.check(t not in seen and bool((inp == data.reshape(n, nss, nfs)[t]).all()), 'each tile once')
            S.check(mode == 'constant' and cval != cval, 'nothing around the tile')
            seen[t] = (M, off)
        S.check(len(seen) == n, 'every tile is placed')
        got, want = [], []
        ij = np.array([[0, 0], [0, nfs - 1], [nss - 1, 0], [nss - 1, nfs - 1.]])
        for t in range(n):
            M, off = seen[t]
            cl, (ss, fs) = corner[t], steps[t]
            V = np.stack([ss[::-1], fs[::-1]], axis=-1)
            p = (ij + .5) @ V.T + lin.aslin(cl)[::-1] + (cyx - .5)
            got.append(p @ M.T + off)
            want.append(ij)
            if t == cfg['pick']:
                inside = L.arr(np.array([h, w]) - .5) - p
                S.check(bool((p >= -.5).all()) and bool((inside >= 0).all()), 'the whole tile lies within the image')
        L.close(np.stack([lin.aslin(g) for g in got]), np.array(want), .51, 'each tile lies where the geometry says')

    # the image
    flat = [np.asarray(c.c[..., 0] if isinstance(c, lin.LinArray) else c) for c in corner]
    r, c = np.meshgrid(np.arange(4, nss - 4, 9), np.arange(4, nfs - 4, 13), indexing='ij')
    covered = np.zeros((h, w), bool)
    ok = True
    for t in range(n):
        ss, fs = steps[t]
        xy = flat[t] + (r[..., None] + .5) * ss + (c[..., None] + .5) * fs
        o = np.floor(xy[..., ::-1] + cyx).astype(int)
        if (o < 0).any() or (o >= (h, w)).any():
            S.check(False, 'the whole tile lies within the image')
            return
        v = out[o[..., 0], o[..., 1]]
        ok = ok and bool((np.abs(v - 1000 * t - r - .25 * c) < 1.5).all())
        rr, cc = np.meshgrid(np.arange(-2., nss + 2, .5), np.arange(-2., nfs + 2, .5), indexing='ij')
        a = np.floor((flat[t] + rr[..., None] * ss + cc[..., None] * fs)[..., ::-1] + cyx).astype(int)
        a = a[((a >= 0) & (a < (h, w))).all(axis=-1)]
        covered[a[:, 0], a[:, 1]] = True
    S.check(ok, 'each tile appears where the geometry says')
    S.check(bool(np.isnan(out[~covered]).all()), 'nothing else appears in the image')
