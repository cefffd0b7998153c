"""C24: the distortion array lists the corners of every pixel."""
import numpy as np

from symex import lin
from .geom import DETS, Tiles

BOUNDS = ('all pixels and corners of whole detectors (16 modules); tile corners within 1 m and steps within 1 mm: all '
          'tiles depending on three symbolic numbers with different weights, or the numbers of one tile along one axis '
          'free (origin kept); all tiles shifted by a symbolic vector, or one tile at any place along one axis (origin '
          'shifted); exact arithmetic, positions compared to 1e-6 m (the result is in single precision)')
WALL = {'quick': 300, 'thorough': 850}
NPROC = 5

CORNERS = {'agipd': ([0, 1, 1, 0], [0, 0, 1, 1])}
CORNERS['lpd'] = CORNERS['agipd']
CORNERS['dssc'] = (np.array([0, .25, .75, 1, .75, .25]) * 4 / 3, [.5, 1, 1, .5, 0, 0])
TOL = 1e-6


def extra_modules(cfg):
    lin.K = 2 if cfg['mode'] == 'move' else 4
    return {'numpy': lin.numpy_module()}


def configs(tier):
    out = []
    for det in ('agipd', 'lpd', 'dssc'):
        nt = DETS[det][3]
        out.append(dict(det=det, mode='all', neg=True))
        out.append(dict(det=det, mode='corner', neg=False))
        picks = {'quick': {0: [nt * 7 + nt // 2], 1: [nt * 16 - 1], 2: [0]}}.get(tier)
        if picks is None:
            p = sorted(set(range(0, nt * 16, max(1, nt))) | {nt * 16 - 1, 1})
            picks = {0: p, 1: p, 2: p}
        for axis in (0, 1) if tier == 'quick' else range(3):
            out.append(dict(det=det, mode='move', axis=axis, picks=picks[axis][:6], neg=False))
            if tier != 'quick':
                for h in (0, 8):
                    out.append(dict(det=det, mode='tile', axis=axis, picks=picks[axis][h:h + 8], neg=True))
    return out


def scenario(S, cfg):
    L = lin.session(S)
    det = cfg['det']
    nm, nss, nfs = DETS[det][4]
    pick = S.choose('tile', cfg['picks']) if 'picks' in cfg else None
    T = Tiles(S, L, det, cfg['mode'], cfg.get('axis', 0), pick)
    g = T.build()
    if cfg['neg']:
        got = g.to_distortion_array(allow_negative_xy=True)
    else:
        got = g.to_distortion_array()
    cs, cf = CORNERS[det]
    S.check(tuple(got.shape) == (nm * nss, nfs, len(cs), 3), 'shape of the distortion array')
    S.check(got.dtype == np.dtype('f4'), 'type of the distortion array')
    base = None
    for k in range(len(cs)):
        want = T.pixels(cs[k], cf[k]).reshape((nm * nss, nfs, 3))[..., ::-1]
        part = got[:, :, k]
        if not cfg['neg']:
            # all moved by the same amount in y and x
            d = want - part
            if base is None:
                base = d[0, 0]
                L.close(base[:1], L.arr(np.zeros(1)), TOL, 'z is not shifted')
            want = want - base
        L.close(part, want, 2 * TOL, 'positions of pixel corners')
    if not cfg['neg']:
        L.least(got[..., 1], TOL, 'y')
        L.least(got[..., 2], TOL, 'x')
