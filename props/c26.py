"""C26: geometries built from quadrant positions place tiles as documented."""
import numpy as np

from symex import lin, linh5
from .geom import DETS

BOUNDS = ('all 16 modules and their tiles; quadrant positions within 1 m, gaps up to 0.1 m and offsets in the file within '
          '1 m all free for several units, or the unit free (1e-6 to 1 m) for fixed irregular positions and gaps; exact '
          'arithmetic, compared to 1e-9 m')
TOL = 1e-9


def extra_modules(cfg):
    lin.K = 24
    return {'numpy': lin.numpy_module(), 'h5py': linh5.module()}


UNITS = [1e-3, None, 1., 2.5e-4]


def configs(tier):
    out = []
    for det in ('agipd', 'lpd'):
        for u in UNITS:
            out.append(dict(det=det, how='quad', unit=u, gaps='free' if u else 'default'))
        out.append(dict(det=det, how='quad', unit=None, gaps='free'))
        out.append(dict(det=det, how='quad', unit='free', gaps='fixed'))
    out.append(dict(det='lpd', how='quad', unit=2e-3, gaps='default'))
    for det in ('lpd', 'dssc'):
        picks = [(0, 0), (7, 1), (14, 15 if det == 'lpd' else 0)]
        if tier != 'quick':
            nt = DETS[det][3]
            picks += [(m, (m * 5 + 3) % nt) for m in range(16)]
        for i, (m, t) in enumerate(picks):
            out.append(dict(det=det, how='file', unit=UNITS[i % 4], mod=m, tile=t, dims=2 + i % 2))
        out.append(dict(det=det, how='file', unit='free', mod=4, tile=1, dims=2))
    out.append(dict(det='lpd', how='invert', mod=3, tile=12))
    return out


def expected(S, L, det, quads, unit, asic_gap, panel_gap):
    """corner, slow-scan and fast-scan step of every tile (gaps in metres)"""
    px = DETS[det][5]
    rows = []
    for m in range(16):
        q, mq = divmod(m, 4)
        qx, qy = quads[q][0] * unit, quads[q][1] * unit
        if det == 'agipd':
            # beam-left quadrants 1 and 2: asics towards +x, rows down; modules below each other
            ox, oy = (1, -1) if q < 2 else (-1, 1)
            for t in range(8):
                x = qx + ox * t * (64 * px + asic_gap)
                y = qy - mq * (128 * px + panel_gap)
                rows.append(((x, y), (ox * px, 0.), (0., oy * px)))
        else:
            # module 4 at the given corner, 3 below it, 1 and 2 to the right
            pw = 256 * px + asic_gap + panel_gap
            ph = 256 * px + 7 * asic_gap + panel_gap
            mx = qx - (pw if mq in (0, 1) else 0)
            my = qy - (ph if mq in (1, 2) else 0)
            for t in range(16):
                # last corner of the tile; 1-8 down the right side, 9-16 up the left
                right = t < 8
                row = t if right else 15 - t
                x = mx - (128 * px + asic_gap if right else 0) - 128 * px
                y = my - row * (32 * px + asic_gap) - 32 * px
                rows.append(((x, y), (0., px), (px, 0.)))
    return rows


def judge(S, L, det, geom, rows):
    name, nss, nfs, nt, shape, px = DETS[det]
    S.check(len(geom.modules) == 16 and all(len(m) == nt for m in geom.modules), 'modules and tiles')
    frags = [t for m in geom.modules for t in m]
    S.check(all(int(f.ss_pixels) == nss and int(f.fs_pixels) == nfs for f in frags), 'size of tiles')
    L.close(stack(S, [f.corner_pos for f in frags]), stack(S, [vec(S, *r[0]) for r in rows]), TOL,
            'first pixel of the tiles')
    L.close(stack(S, [f.ss_vec for f in frags]), stack(S, [vec(S, *r[1]) for r in rows]), TOL * 1e-3, 'slow-scan steps')
    L.close(stack(S, [f.fs_vec for f in frags]), stack(S, [vec(S, *r[2]) for r in rows]), TOL * 1e-3, 'fast-scan steps')


def stack(S, rows):
    return lin.LinArray(np.stack([lin.aslin(r).c for r in rows])) if S.symbolic else np.array(rows, dtype='f8')


def vec(S, x, y):
    return stack(S, [x, y, 0.])


def scenario(S, cfg):
    L = lin.session(S)
    det, how = cfg['det'], cfg['how']
    name, nss, nfs, nt, shape, px = DETS[det]
    g2 = S.module('geometry2')
    cls = getattr(g2, name)
    free = cfg.get('unit') == 'free'
    kw = {}
    if free:
        unit = L.var('unit', 1e-6, 1)
        kw['unit'] = unit
        quads = [(-11.4, 299.), (11.5, -8.25), (254.5, -16), (-278.5, 275.)]
    else:
        unit = cfg.get('unit')
        if unit is not None:
            kw['unit'] = unit
        else:
            unit = px if det == 'agipd' else 1e-3
        quads = [tuple(L.var('q%d%s' % (q, a), -1 / unit, 1 / unit) for a in 'xy') for q in range(4)]
    if how == 'quad':
        ag, pg = 2 * px if det == 'agipd' else 4 * px, 29 * px if det == 'agipd' else 4 * px
        if cfg['gaps'] != 'default':
            if free:
                a, p = 2.75, 30.5
            else:
                a, p = L.var('asic', 0, .1 / unit), L.var('panel', 0, .1 / unit)
            kw['asic_gap'], kw['panel_gap'] = a, p
            ag, pg = a * unit, p * unit
        geom = cls.from_quad_positions(quads, **kw)
        judge(S, L, det, geom, expected(S, L, det, quads, unit, ag, pg))
        return
    # a geometry file
    path = S.path('geom.h5')
    mod, tile = cfg['mod'], cfg['tile']
    d = cfg.get('dims', 2)
    if S.symbolic:
        f = linh5.File(path, 'w')
    else:
        import h5py
        f = h5py.File(path, 'w')
    mo, to = {}, {}
    scale = 1 if free or how == 'invert' else 1e-3 / unit
    for m in range(16):
        mo[m] = [(3.5 * m + .25) * scale, (-7.75 * m + 1.5) * scale]
        if m == mod and not free:
            mo[m] = [L.var('m' + a, -1 / unit if unit else -100, 1 / unit if unit else 100) for a in 'xy']
        put(S, L, f, 'Q%d/M%d/Position' % (m // 4 + 1, m % 4 + 1), mo[m] + [7.5] * (d - 2))
        for t in range(nt):
            to[m, t] = [(1.5 * t + .01 * m) * scale, (2.25 * t - .03 * m) * scale]
            if (m, t) == (mod, tile) and not free:
                to[m, t] = [L.var('t' + a, -1 / unit if unit else -100, 1 / unit if unit else 100) for a in 'xy']
            put(S, L, f, 'Q%d/M%d/T%02d/Position' % (m // 4 + 1, m % 4 + 1, t + 1), to[m, t] + [-2.5] * (d - 2))
    if how == 'invert':
        f.create_dataset('DetectorDescribtion', data=np.array([3, 1, 4], dtype='i4'))
        f['DetectorDescribtion'].attrs['detectorType'] = 'LPD'
    f.close()
    if how == 'invert':
        out = S.path('inverted.h5')
        g2.invert_xfel_lpd_geom(path, out)
        if S.symbolic:
            f = linh5.File(out, 'r')
        else:
            f = h5py.File(out, 'r')
        got = [f['Q%d/M%d/Position' % (m // 4 + 1, m % 4 + 1)][()] for m in range(16)]
        L.close(stack(S, got), -stack(S, [stack(S, mo[m]) for m in range(16)]), TOL, 'module positions negated')
        keys = sorted(to)
        got = [f['Q%d/M%d/T%02d/Position' % (m // 4 + 1, m % 4 + 1, t + 1)][()] for m, t in keys]
        L.close(stack(S, got), -stack(S, [stack(S, to[k]) for k in keys]), TOL, 'tile positions negated')
        f.close()
        return
    geom = cls.from_h5_file_and_quad_positions(path, quads, **kw)
    rows = []
    for m in range(16):
        q = m // 4
        for t in range(nt):
            x, y = [(quads[q][a] + mo[m][a] + to[m, t][a]) * unit for a in (0, 1)]
            if det == 'lpd':
                # the file has the last corner
                rows.append(((x - 128 * px, y - 32 * px), (0., px), (px, 0.)))
            else:
                # the file has the corner with lowest x and y
                h = px * 1.5 / np.sqrt(3)
                if q < 2:
                    rows.append(((x + 256 * px, y), (0., h), (-px, 0.)))
                else:
                    rows.append(((x, y + 128 * h), (0., -h), (px, 0.)))
    judge(S, L, det, geom, rows)


def put(S, L, f, path, values):
    f[path] = stack(S, values)
