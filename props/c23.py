"""C23: assembling an image puts every data pixel where the geometry says."""
import numpy as np

from symex import lin
from .geom import DETS, pixel_tiles

BOUNDS = ('whole detectors (16 modules), tiles in slots which do not overlap, each tile in one of the eight orientations; '
          'one tile at any of 3x3 (thorough 5x5) grid places with every offset from the grid of less than 0.49 pixels '
          'and steps off the grid by up to 1e-5 pixels, the others at fixed uneven offsets; every pixel of the data '
          'marked with its own value (the values are only moved); one frame or two, five types of data, with and without an '
          'output array')
WALL = {'quick': 400, 'thorough': 850}


def extra_modules(cfg):
    lin.K = 6
    return {'numpy': lin.numpy_module(arrays_lin=False)}


def configs(tier):
    out = []
    i = 0
    for det in ('agipd', 'lpd', 'dssc'):
        n = 16 * DETS[det][3]
        for o in range(8):
            # edge, corner and inner tiles
            picks = [0, n - 1, n // 2 - 3, 5]
            if tier == 'quick':
                picks = [picks[(o + o // 4) % 4]]
            for p in picks:
                out.append(dict(det=det, o=o, pick=p, reach=1 if tier == 'quick' else 2, dt=['f4', 'i4', 'f8', 'u4', 'i8'][i % 5],
                                lead=[(), (2,), (1,)][i % 3], out=i % 2, far=[0, 0, 5000, -3000][i % 4]))
                i += 1
        out.append(dict(det=det, o=1, pick=1, reach=0, dt='f4', lead=(), out=0, far=0, what='refuse'))
        out.append(dict(det=det, o=4, pick=1, reach=0, dt='f4', lead=(), out=0, far=0, what='again'))
    return out


def scenario(S, cfg):
    L = lin.session(S)
    det = cfg['det']
    name, nss, nfs, nt, shape, px = DETS[det]
    pxy = np.array([px, px * 1.5 / np.sqrt(3) if det == 'dssc' else px])
    n = shape[0] * nt
    slot = max(nss, nfs) + 10
    across = int(np.ceil(np.sqrt(n)))
    g2 = S.module('geometry2')
    r = cfg['reach']
    moved = [S.conc(S.int('n' + a, -r, r)) for a in 'xy']
    fx, fy = [L.var('f' + a, -.49, .49) for a in 'xy']
    es, ef = [L.var('e' + a, -1e-5, 1e-5) for a in 'sf']
    frags, cell, sgn, steps = [], [], [], []
    for t in range(n):
        # a slot, and which corner of it is the first
        k = (t * 37) % n
        sx, sy = k % across - across // 2, k // across - across // 3
        o = cfg['o'] if t == cfg['pick'] else (t * 5 + cfg['o']) % 8
        swap, s1, s2 = o & 1, 1 - (o & 2), 1 - (o & 4) // 2
        ss, fs = ((s1, 0), (0, s2)) if swap else ((0, s1), (s2, 0))
        size = np.abs(np.array(ss) * nss + np.array(fs) * nfs)
        first = np.where(np.array(ss) + np.array(fs) > 0, 0, size)
        R = np.array([sx, sy]) * slot + first + 4 + cfg['far']
        if t == cfg['pick']:
            R = R + moved
            off = L.arr([1., 0]) * fx + L.arr([0., 1]) * fy
            dss = L.arr([.7, 1.]) * es
            dfs = L.arr([1., -.8]) * ef
        else:
            off = np.array([.47 * np.sin(t), .47 * np.cos(3 * t)])
            dss = 1e-5 * np.array([np.cos(t), np.sin(7 * t)])
            dfs = 1e-5 * np.array([np.sin(2 * t), np.cos(5 * t)])
        z = np.array([.1 + 1e-4 * t, 2e-6 * np.sin(t), 3e-6])
        three = np.array([[1., 0, 0], [0, 1, 0]])
        vec = [(v * L.arr(pxy)) @ three + np.array([0, 0, z[i]])
               for i, v in enumerate((off + R, dss + np.array(ss), dfs + np.array(fs)))]
        frags.append(g2.GeometryFragment(*vec, nss, nfs))
        cell.append(R + np.where(np.array(ss) + np.array(fs) > 0, 0, -1))
        steps.append((ss, fs))
    geom = getattr(g2, name)([frags[m * nt:(m + 1) * nt] for m in range(shape[0])])
    if cfg.get('what') == 'refuse':
        return refuse(S, geom, shape)

    lead, dt = cfg['lead'], cfg['dt']
    frames = int(np.prod(lead))
    px1 = int(np.prod(shape))
    data = (1 + np.arange(px1 * frames).reshape(lead + shape)).astype(dt)
    # grid cell of every pixel
    tile, row, col = pixel_tiles(det)
    tn = (np.arange(shape[0]) * nt)[:, None, None] + tile[None]
    cell, ssv, fsv = np.array(cell), np.array([s[0] for s in steps]), np.array([s[1] for s in steps])
    X = cell[tn, 0] + row * ssv[tn, 0] + col * fsv[tn, 0]
    Y = cell[tn, 1] + row * ssv[tn, 1] + col * fsv[tn, 1]

    def judge(res, centre, data, unset):
        cy, cx = int(centre[0]), int(centre[1])
        S.check(res.ndim == len(lead) + 2 and res.shape[:-2] == lead, 'dimensions of the image')
        S.check(res.dtype == data.dtype, 'type of the image')
        h, w = res.shape[-2:]
        inside = (Y + cy >= 0).all() and (Y + cy < h).all() and (X + cx >= 0).all() and (X + cx < w).all()
        S.check(bool(inside), 'the whole detector lies within the image')
        if not inside:
            return
        S.check(bool((res[..., Y + cy, X + cx] == data).all()), 'every pixel of the data is at its place')
        rest = np.ones((h, w), bool)
        rest[Y + cy, X + cx] = False
        if unset is not None:
            others = res[..., rest]
            ok = np.isnan(others).all() if unset != unset else (others == unset).all()
            S.check(bool(ok), 'nothing else appears in the image')

    if cfg.get('what') == 'again':
        # the same geometry used several times
        res, centre = geom.position_modules_fast(data)
        res2, centre2 = geom.position_modules_fast(data[::-1] * 2)
        judge(res, centre, data, np.nan)
        judge(res2, centre2, data[::-1] * 2, np.nan)
        res3, centre3 = geom.position_all_modules(data)
        judge(res3, centre3, data, np.nan)
        out = geom.output_array_for_position_fast()
        geom.position_modules_fast(data, out=out)
        geom.position_modules_fast(data[::-1], out=out)
        judge(out, centre, data[::-1], np.nan)
        return
    if cfg['out']:
        out = geom.output_array_for_position_fast(extra_shape=lead, dtype=np.dtype(dt))
        out[...] = 0
        out[..., :] = -7 if np.dtype(dt).kind != 'u' else 7000000
        mark = out.flat[0]
        res, centre = geom.position_modules_fast(data, out=out)
        S.check(bool((np.asarray(res) == out).all()), 'the given array is filled')
        judge(out, centre, data, mark)
    else:
        res, centre = geom.position_modules_fast(data)
        judge(res, centre, data, np.nan if np.dtype(dt).kind == 'f' else None)


def refuse(S, geom, shape):
    data = np.arange(int(np.prod(shape)), dtype='f4').reshape(shape)
    good = geom.output_array_for_position_fast()
    h, w = good.shape
    for shp in ((h, w + 1), (h + 1, w), (1, h, w), (h - 1, w), (w, h) if w != h else (w, h + 2)):
        out = np.full(shp, -1, dtype='f4')
        S.check(S.call(geom.position_modules_fast, data, out=out).raised(Exception),
                'an output array of the wrong shape is refused')
    two = np.stack([data, data])
    out = np.full((h, w), -1, dtype='f4')
    S.check(S.call(geom.position_modules_fast, two, out=out).raised(Exception), 'too few dimensions are refused')
    for dd, od in (('f8', 'f4'), ('f4', 'i4'), ('f4', 'i8'), ('i4', 'i2'), ('i8', 'f4'), ('f4', 'f2'), ('u2', 'i2')):
        out = np.full((h, w), -1, dtype=od)
        S.check(S.call(geom.position_modules_fast, data.astype(dd), out=out).raised(Exception),
                'an output array which cannot hold the data is refused')
    for bad in (data[:-1], data[:, :-1], data[..., :-1], data.reshape(-1)):
        S.check(S.call(geom.position_modules_fast, bad).raised(Exception), 'data of the wrong shape is refused')
