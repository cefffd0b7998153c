"""C22: pixel positions follow from the tiles, and the two ways of finding them agree."""
import numpy as np

from symex import lin
from .geom import DETS, Tiles, pixel_tiles

BOUNDS = ('all pixels of whole detectors (16 modules); tile corners within 1 m and steps within 1 mm: either all tiles '
          'depending on three symbolic numbers with a different weight for every tile and axis, or the numbers of one '
          'tile along one axis free; any fractional position in a module of a fixed, irregular geometry; exact '
          'arithmetic, positions compared to 1e-9 m')
WALL = {'quick': 300, 'thorough': 850}


def extra_modules(cfg):
    lin.K = 4
    return {'numpy': lin.numpy_module()}


def configs(tier):
    out = []
    for det in ('agipd', 'lpd', 'dssc'):
        out.append(dict(det=det, mode='all', centre=True))
        out.append(dict(det=det, mode='all', centre=False))
        nt = DETS[det][3]
        picks = [0, nt * 5 + nt - 1, nt * 16 - 1] if tier == 'quick' else sorted(
            set(range(0, nt * 16, max(1, nt * 16 // 24))) | {nt * 16 - 1})
        for axis in range(3):
            out.append(dict(det=det, mode='tile', axis=axis, picks=picks[axis:axis + 1] if tier == 'quick' else picks,
                            centre=True))
    for det in ('agipd', 'lpd'):
        for mdt in ('i8', 'u1', 'i1'):
            out.append(dict(det=det, mode='all', what='lookup', mdt=mdt))
        for md in ((0, 11) if tier == 'quick' else range(16)):
            out.append(dict(det=det, mode='none', what='frac', mod=md))
    return out


def scenario(S, cfg):
    L = lin.session(S)
    det = cfg['det']
    shape = DETS[det][4]
    pick = S.choose('tile', cfg['picks']) if 'picks' in cfg else None
    T = Tiles(S, L, det, cfg['mode'], cfg.get('axis', 0), pick)
    g = T.build()
    nt = DETS[det][3]
    what = cfg.get('what')
    if what == 'lookup':
        # every pixel centre
        mno, ss, fs = np.meshgrid(*[np.arange(x) for x in shape], indexing='ij')
        want = T.pixels(0.5, 0.5)
        got = g.data_coords_to_positions(mno.astype(cfg['mdt']), ss + 0.5, fs + 0.5)
        L.close(got, want, 1e-9, 'looked up pixel centres')
        got = g.data_coords_to_positions(mno[3:5].ravel().astype(cfg['mdt']), ss[3:5].ravel(), fs[3:5].ravel())
        L.close(got, T.pixels(0, 0)[3:5].reshape((-1, 3)), 1e-9, 'looked up pixel corners, whole numbers')
        return
    if what == 'frac':
        a = L.var('ss', 0, shape[1])
        b = L.var('fs', 0, shape[2])
        # (the edges between tiles belong to the next tile; the last edge to none)
        S.assume(S.And(low(S, a, shape[1]), low(S, b, shape[2])))
        ss = L.arr([1.25, 0, 3.5]) + L.arr([0, 1, 0]) * a
        fs = L.arr([0.75, 0, 100.5]) + L.arr([0, 1, 0]) * b
        mods = np.array([15, cfg['mod'], 0])
        got = g.data_coords_to_positions(mods, ss, fs)
        # the tile which holds the position
        rows = tile_of(S, a, DETS[det][1], shape[1])
        cols = tile_of(S, b, DETS[det][2], shape[2])
        tile, _, _ = pixel_tiles(det)
        n1 = cfg['mod'] * nt + tile[rows * DETS[det][1], cols * DETS[det][2]]
        want1 = T.corner[n1] + (a - rows * DETS[det][1]) * T.ss[n1] + (b - cols * DETS[det][2]) * T.fs[n1]
        L.close(got[1], want1, 1e-9, 'looked up fractional position')
        for i, (m, r, c) in ((0, (15, 1.25, .75)), (2, (0, 3.5, 100.5))):
            n = m * nt + tile[int(r), int(c)]
            L.close(got[i], T.at(n, r % DETS[det][1], c % DETS[det][2]), 1e-9, 'looked up other positions')
        return
    other = g.get_pixel_positions(centre=not cfg['centre'])
    got = g.get_pixel_positions() if cfg['centre'] else g.get_pixel_positions(centre=False)
    dc = (2 / 3, 0.5) if det == 'dssc' else (0.5, 0.5)
    want = T.pixels(*(dc if cfg['centre'] else (0, 0)))
    L.close(got, want, 1e-9, 'pixel positions')
    if cfg['mode'] == 'tile':
        L.close(other, T.pixels(*(dc if not cfg['centre'] else (0, 0))), 1e-9, 'pixel corner positions')


def low(S, a, n):
    return a.sv() < n if S.symbolic else a < n


def tile_of(S, a, size, n):
    """which block of this size (forks)"""
    for k in range(n // size - 1):
        if S.fork(low(S, a, (k + 1) * size)):
            return k
    return n // size - 1
