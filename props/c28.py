"""C28: the older LPD geometry places each tile at its offset."""
import numpy as np

from symex import lin, linh5
from .geom import pixel_tiles
from .c26 import stack

BOUNDS = ('all 16 modules of 16 tiles, not overlapping, at irregular offsets; one tile free within 3x3 pixels, or a module or '
          'quadrant free along one axis within three pixels (distances of at least 0.02 pixels from the pixel grid); '
          'units of 1 mm, 1 m and one pixel; every pixel of the data marked with its own value; one frame or two')
PX = 5e-4


def extra_modules(cfg):
    lin.K = 6
    return {'numpy': lin.numpy_module(arrays_lin=False), 'h5py': linh5.module()}


def configs(tier):
    out = []
    i = 0
    for m, t in ((0, 0), (6, 15), (15, 8), (9, 7)) if tier == 'quick' else [(m, (m * 7 + 3) % 16) for m in range(16)]:
        out.append(dict(free='tile', mod=m, tile=t, axes='xy', unit=[None, 1., PX, 1e-3][i % 4], lead=[[], [2]][i % 2],
                        reach=1, dt=['f4', 'f8'][i % 2], far=[0, 900, -1100][i % 3]))
        i += 1
    out.append(dict(out[1], jut=1))
    for free in ('module', 'quad'):
        for m in (2, 7, 13) if tier == 'quick' else range(16):
            for axes in 'xy':
                out.append(dict(free=free, mod=m, tile=0, axes=axes, unit=[None, 1., PX, 2e-3][i % 4], lead=[[], [1]][i % 2],
                                reach=1 if tier == 'quick' else 3, dt=['f4', 'f8'][i % 2], far=[0, 900, -1100][i % 3]))
                i += 1
    return out


def scenario(S, cfg):
    L = lin.session(S)
    geo = S.module('geometry')
    unit = cfg['unit']
    u = 1e-3 if unit is None else unit
    nx = ny = 0
    fx = fy = None
    if 'x' in cfg['axes']:
        nx, fx = S.conc(S.int('nx', -cfg['reach'], cfg['reach'])), L.var('fx', .02, .98)
    if 'y' in cfg['axes']:
        ny, fy = S.conc(S.int('ny', -cfg['reach'], cfg['reach'])), L.var('fy', .02, .98)

    # offsets in pixels: a whole number and a fraction of quadrant, module and tile
    def around(w, k):
        """whole and fractional offset of an element"""
        f = [.13 * (k % 6) + .11, .07 * (k % 9) + .05]
        return [w[0] - f[0], w[1] + f[1] * .5]
    quads, mods, tiles = [], [], {}
    Q0 = [(-600, 30), (12, 25), (8, -640), (-610, -650)]
    Q0 = [(x + cfg['far'], y - cfg['far'] // 2) for x, y in Q0]
    free, fm, ft = cfg['free'], cfg['mod'], cfg['tile']
    for q in range(4):
        quads.append(list(map(float, Q0[q])) if free == 'quad' and q == fm // 4 else around(Q0[q], q))
    for m in range(16):
        w = (290 * (m % 4 // 2) + 3 * m, 300 * (m % 4 % 2) - 2 * m)
        mods.append(list(map(float, w)) if free != 'tile' and (m if free == 'module' else m // 4) == (
            fm if free == 'module' else fm // 4) else around(w, m * 5 + 1))
        for t in range(16):
            w = (140 * (t // 8) + t % 3, 37 * (t % 8 if t < 8 else 15 - t))
            jut = {(0, 0): (-400, -1300), (15, 15): (1300, 1300)}.get((m, t)) if cfg.get('jut') else None
            if jut:                      # outside of all others
                w = (w[0] + jut[0], w[1] + jut[1])
            exact = {'tile': (m, t) == (fm, ft), 'module': m == fm, 'quad': m // 4 == fm // 4}[free]
            tiles[m, t] = list(map(float, w)) if exact else around(w, m * 3 + t)
    target = {'tile': None, 'module': mods[fm], 'quad': quads[fm // 4]}[free]
    if free != 'quad':
        # its module and quadrant are where they are: only the sum has a given fraction
        if free == 'tile':
            target = tiles[fm, ft]
        for a in (0, 1):
            rest = quads[fm // 4][a] + (mods[fm][a] if free == 'tile' else 0)
            target[a] = np.floor(rest) + target[a] - rest
    if fx is not None:
        target[0] = fx + (target[0] + nx)
    else:
        target[0] = target[0] + .37
    if fy is not None:
        target[1] = fy + (target[1] + ny)
    else:
        target[1] = target[1] + .61
    # where each tile is, in whole pixels (up to the numbers which are free)
    where = {}
    for m in range(16):
        for t in range(16):
            p = []
            for a in (0, 1):
                parts = [quads[m // 4][a], mods[m][a], tiles[m, t][a]]
                if any(x is target[a] for x in parts):
                    fr = (fx, fy)[a]
                    if fr is not None:
                        # floor of everything but the fraction (a whole number)
                        s = sum(x for x in parts if x is not target[a])
                        whole = whole_part(S, target[a], fr)
                        p.append(int(round(float(s + whole))))
                        continue
                p.append(int(np.floor(sum(float(x) for x in parts))))
            where[m, t] = p

    path = S.path('geom.h5')
    if S.symbolic:
        f = linh5.File(path, 'w')
    else:
        import h5py
        f = h5py.File(path, 'w')
    s = PX / u
    for m in range(16):
        f['Q%d/M%d/Position' % (m // 4 + 1, m % 4 + 1)] = stack(S, [x * s for x in mods[m]])
        for t in range(16):
            f['Q%d/M%d/T%02d/Position' % (m // 4 + 1, m % 4 + 1, t + 1)] = stack(S, [x * s for x in tiles[m, t]])
    kw = {} if unit is None else {'unit': unit}
    geom = geo.LPDGeometry.from_h5_file_and_quad_positions(f, [tuple(x * s for x in q) for q in quads], **kw)
    f.close()
    for m, t in ((fm, ft), (fm, 15 - ft), ((fm + 5) % 16, 3)):
        got = geom.find_offset(('Q%d' % (m // 4 + 1), 'M%d' % (m % 4 + 1), 'T%02d' % (t + 1)))
        want = (stack(S, quads[m // 4]) + stack(S, mods[m]) + stack(S, tiles[m, t])) * PX
        L.close(got, want, 1e-9, 'offset of a tile')
    lead = tuple(cfg['lead'])
    shape = (16, 256, 256)
    n = int(np.prod(lead + shape))
    data = (1 + np.arange(n).reshape(lead + shape)).astype(cfg['dt'])
    if cfg['dt'] == 'f8':
        # values which need the precision
        data += 2. ** 30
    out, centre = geom.position_all_modules(data)
    cx, cy = int(centre[0]), int(centre[1])
    tile, row, col = pixel_tiles('lpd')
    X0 = np.array([[where[m, t][0] for t in range(16)] for m in range(16)])
    Y0 = np.array([[where[m, t][1] for t in range(16)] for m in range(16)])
    mno = np.arange(16)[:, None, None]
    # turned by half a turn
    X = X0[mno, tile[None]] + cx + 127 - col
    Y = Y0[mno, tile[None]] + cy + 31 - row
    S.check(out.ndim == len(lead) + 2 and tuple(out.shape[:-2]) == lead, 'dimensions of the image')
    h, w = out.shape[-2:]
    inside = bool((X >= 0).all() and (X < w).all() and (Y >= 0).all() and (Y < h).all())
    S.check(inside, 'the whole detector lies within the image')
    if not inside:
        return
    S.check(bool((out[..., Y, X] == data).all()), 'every pixel of the data is at its place')
    rest = np.ones((h, w), bool)
    rest[Y, X] = False
    S.check(bool(np.isnan(out[..., rest]).all()), 'nothing else appears in the image')


def whole_part(S, x, fr):
    if S.symbolic:
        d = x - fr
        assert lin.is_const(d.c), d.c
        return float(d.c[..., 0])
    return float(x - fr)
