"""Detector geometries for C22 - C26."""
import numpy as np

from symex import lin

# (class name, tile rows, tile columns, tiles per module, shape of the data, pixel size)
DETS = {
    'agipd': ('AGIPD_1MGeometry', 64, 128, 8, (16, 512, 128), 2e-4),
    'lpd': ('LPD_1MGeometry', 32, 128, 16, (16, 256, 256), 5e-4),
    'dssc': ('DSSC_1MGeometry', 128, 256, 2, (16, 128, 512), 236e-6),
}


def pixel_tiles(det):
    """for each pixel of a module: tile number, row and column in the tile"""
    _, nss, nfs, nt, shape, _ = DETS[det]
    ss, fs = np.meshgrid(np.arange(shape[1]), np.arange(shape[2]), indexing='ij')
    if det == 'agipd':
        tile = ss // 64
    elif det == 'lpd':
        # tiles 1-8 go down the first half of the columns, 9-16 up the second half
        tile = np.where(fs < 128, 7 - ss // 32, 8 + ss // 32)
    else:
        tile = fs // 256
    return tile, ss % nss, fs % nfs


class Tiles:
    """Corner and step vectors of all tiles: constants plus multiples of three symbolic numbers"""
    def __init__(self, S, L, det, mode, axis=0, pick=None):
        name, nss, nfs, nt, shape, px = DETS[det]
        self.S, self.L, self.det = S, L, det
        n = shape[0] * nt
        i, k = np.arange(n)[:, None], np.arange(3)[None, :]
        m, t = i // nt, i % nt
        # concrete geometry: no two tiles alike, nothing aligned
        cc = 0.05 * (m - 7.5) * (1 - 0.3 * k) + 0.0071 * t * (1 + 0.4 * k) - 0.01 * k
        sc = px * (np.cos(0.3 + i / 9. + 2 * k) - 0.4 * (k == 2))
        fc = px * (np.sin(0.7 + i / 7. - 3 * k) + 0.3 * (k == 1))
        z = np.zeros((n, 3))
        cw, sw, fw = z.copy(), z.copy(), z.copy()
        c = s = f = np.float64(0)
        if mode == 'all':
            # every tile depends on the symbolic numbers, each with its own weight
            c, s, f = L.var('c', -1, 1), L.var('s', -1e-3, 1e-3), L.var('f', -1e-3, 1e-3)
            cw = 1 + 0.02 * i + 0.3 * k
            sw = 1 - 0.005 * i - 0.2 * k
            fw = -1 + 0.004 * i + 0.35 * k
        elif mode == 'tile':
            # the numbers of one tile along one axis are free
            c, s, f = L.var('c', -1, 1), L.var('s', -1e-3, 1e-3), L.var('f', -1e-3, 1e-3)
            for a in (cc, sc, fc):
                a[pick, axis] = 0
            cw[pick, axis] = sw[pick, axis] = fw[pick, axis] = 1
        elif mode == 'move':
            # one tile moves freely along one axis
            c = L.var('c', -1, 1)
            cc[pick, axis] = 0
            cw[pick, axis] = 1
        elif mode == 'corner':
            # all corners move by symbolic amounts
            c, s, f = [L.var('d%s' % a, -1, 1) for a in 'xyz']
            w = z.copy()
            self.corner = L.arr(cc)
            for a, v in enumerate((c, s, f)):
                w = z.copy()
                w[:, a] = 1
                self.corner = self.corner + w * v
            self.ss, self.fs = L.arr(sc), L.arr(fc)
            return
        self.corner = cc + cw * c
        self.ss = sc + sw * s
        self.fs = fc + fw * f

    def build(self):
        """a geometry object made of these tiles"""
        name, nss, nfs, nt, shape, _ = DETS[self.det]
        g2 = self.S.module('geometry2')
        mods = [[g2.GeometryFragment(self.corner[m * nt + t].copy(), self.ss[m * nt + t].copy(),
                                     self.fs[m * nt + t].copy(), nss, nfs)
                 for t in range(nt)] for m in range(shape[0])]
        return getattr(g2, name)(mods)

    def at(self, n, row, col):
        """positions in tiles n at the given rows and columns"""
        r, c = np.asarray(row, 'f8')[..., None], np.asarray(col, 'f8')[..., None]
        return self.corner[n] + r * self.ss[n] + c * self.fs[n]

    def pixels(self, drow, dcol):
        """positions of all pixels, with the given shift from the corner"""
        name, nss, nfs, nt, shape, _ = DETS[self.det]
        tile, r, c = pixel_tiles(self.det)
        n = (np.arange(shape[0]) * nt)[:, None, None] + tile[None]
        if self.det == 'dssc':
            c = c - 0.5 * (r % 2)
        return self.at(n, np.broadcast_to(r + drow, n.shape), np.broadcast_to(c + dcol, n.shape))
