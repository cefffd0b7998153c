"""C25: a geometry written to a CrystFEL file describes the same detector."""
import builtins
import io
import types

import numpy as np

from symex import engine as E, lin
from .geom import DETS, pixel_tiles

BOUNDS = ('whole detectors (16 modules) with irregular tiles; one tile with one component of its corner, slow-scan or '
          'fast-scan vector free (corner within 1 m, steps within two pixels); seven layouts of the dimensions; every '
          'optional setting given or left out; text of numbers is exact unless a format asks for rounding (corners compared '
          'to 1e-8 m, steps to 1e-10 m)')


def crystfel_reader():
    """the reader from cfelpyutils, with numbers which may be symbolic"""
    import cfelpyutils.crystfel_utils as cu
    with open(cu.__file__) as f:
        src = f.read()
    m = types.ModuleType('cfelpyutils.crystfel_utils')
    b = dict(builtins.__dict__)
    b['float'] = lin.parse
    b['open'] = lambda p, *a, **k: E.cur().path_state['osfs'].open(p, *a, **k)
    m.__dict__['__builtins__'] = b
    exec(compile(src, 'crystfel_utils.py', 'exec'), m.__dict__)
    # (only finds the pixels nearest to and furthest from the beam)
    m._find_min_max_d = lambda detector: None
    return m


class TextFS:
    def __init__(self):
        self.files = {}

    def open(self, path, mode='r', *a, **k):
        if mode[0] in 'wx':
            fs = self

            class F(io.StringIO):
                def close(self):
                    if not self.closed:
                        fs.files[path] = self.getvalue()
                    super().close()
            return F()
        if path not in self.files:
            raise FileNotFoundError(path)
        return io.StringIO(self.files[path])


def extra_modules(cfg):
    lin.K = 6
    lin.POISON_DIV[0] = True
    pkg = types.ModuleType('cfelpyutils')
    pkg.crystfel_utils = crystfel_reader()
    return {'numpy': lin.numpy_module(arrays_lin=False), 'cfelpyutils': pkg,
            'cfelpyutils.crystfel_utils': pkg.crystfel_utils}


DIMS = [None, ('frame', 'ss', 'fs'), ('frame', 'modno', 0, 'ss', 'fs'), ('modno', 'frame', 'ss', 'fs'),
        ('frame', 'fs', 'modno', 'ss'), ('ss', 'fs', 'frame'), ('frame', 0, 'ss', 'fs')]


def configs(tier):
    out = []
    i = 0
    for det in ('agipd', 'lpd', 'dssc'):
        n = 16 * DETS[det][3]
        for axis in range(3):
            for part in ('corner', 'ss', 'fs'):
                picks = [(i * 29 + 3) % n, (i * 31) % n, n - 1 - i] if tier == 'quick' else [0, n - 1, (i * 29 + 3) % n, n // 3]
                out.append(dict(det=det, axis=axis, part=part, picks=picks, dims=i % len(DIMS), opt=i % 4,
                                thorough=tier != 'quick'))
                i += 1
        out.append(dict(det=det, what='noframe'))
    if tier != 'quick':
        for det in ('agipd', 'lpd', 'dssc'):
            for d in range(len(DIMS)):
                for opt in range(4):
                    out.append(dict(det=det, axis=0, part='corner', picks=[7], dims=d, opt=opt, thorough=True))
    return out


def scenario(S, cfg):
    det = cfg['det']
    name, nss, nfs, nt, shape, px = DETS[det]
    L = lin.session(S)
    if S.symbolic:
        E.cur().path_state['osfs'] = TextFS()
        load = S.module('geometry2').load_crystfel_geometry
    else:
        from cfelpyutils.crystfel_utils import load_crystfel_geometry as load
    g2 = S.module('geometry2')
    cls = getattr(g2, name)
    n = 16 * nt
    i, k = np.arange(n)[:, None], np.arange(3)[None, :]
    corner = .03 * (i // nt - 7.5) * (1 - .3 * k) + .0071 * (i % nt) * (1 + .4 * k) - .01 * k
    corner[i[:, 0] % 5 == 1, 2] = 0
    # turned by any angle, and a little out of the plane
    a = 0.1 + i[:, 0] * 1.7
    ss = np.stack([np.cos(a), np.sin(a), .01 * np.sin(3 * a)], -1) * px
    fs = np.stack([-np.sin(a), np.cos(a), .003 * np.cos(5 * a)], -1) * px
    for q, (s_, f_) in enumerate((((0, 1, 0), (-1, 0, 0)), ((1, 0, 0), (0, -1, 0)), ((0, -1, 1e-3), (1, 0, -1e-3)))):
        ss[q::7], fs[q::7] = np.array(s_) * px, np.array(f_) * px
    what = cfg.get('what')
    pick = S.choose('tile', cfg['picks']) if not what else None
    rows = {'corner': list(corner), 'ss': list(ss), 'fs': list(fs)}
    if not what:
        part, axis = cfg['part'], cfg['axis']
        vec = rows[part][pick].copy()
        rows['ss'][pick] = np.array([.1, 1.1, .05]) * px
        rows['fs'][pick] = np.array([.9, -.2, -.01]) * px
        if part != 'corner':
            vec = rows[part][pick].copy()
        vec[axis] = 0
        unit = np.eye(3)[axis]
        if part == 'corner':
            v = L.var('v', -1, 1)
            rows[part][pick] = L.arr(vec) + L.arr(unit) * v
        else:
            # (in pixels)
            v = L.var('v', -2, 2)
            o = rows['fs' if part == 'ss' else 'ss'][pick] / px
            vv = vec / px
            # the two directions differ
            det_ = [(o[1], vv[1] * o[0]), (-o[0], -vv[0] * o[1]), None][axis]
            if det_ is not None:
                w = v.sv() if S.symbolic else v
                d = w * float(det_[0]) - float(det_[1])
                S.assume(S.Or(d > 1e-3, d < -1e-3))
            rows[part][pick] = L.arr(vec) + L.arr(unit * px) * v
    frags = [g2.GeometryFragment(rows['corner'][t], rows['ss'][t], rows['fs'][t], nss, nfs) for t in range(n)]
    geom = cls([frags[m * nt:(m + 1) * nt] for m in range(16)])
    path = S.path('x.geom')
    if what == 'noframe':
        for dims in (('modno', 'ss', 'fs'), ('ss', 'fs'), (0, 'modno', 'ss', 'fs')):
            S.check(S.call(geom.write_crystfel_geom, path, dims=dims, adu_per_ev=1, clen=1, photon_energy=1).raised(ValueError),
                    'leaving out the frame dimension is an error')
        return
    dims = DIMS[cfg['dims']]
    opt = cfg['opt']
    kw = {}
    if dims:
        kw['dims'] = dims
    dims = dims or ('frame', 'modno', 'ss', 'fs')
    if opt & 1:
        kw['mask_path'] = '/entry_1/some/mask'
        kw['data_path'] = '/other/data_3'
    if opt & 2:
        kw['photon_energy'] = 9300.5
    kw['adu_per_ev'] = 0.0042 + opt
    kw['clen'] = 5.5 + opt
    geom.write_crystfel_geom(path, **kw)
    back = cls.from_crystfel_geom(path)
    S.check(len(back.modules) == 16 and all(len(m) == nt for m in back.modules), 'all tiles come back')
    got = [f for m in back.modules for f in m]
    S.check(all(f.ss_pixels == nss and f.fs_pixels == nfs for f in got), 'size of the tiles')
    for part, attr, tol in (('corner', 'corner_pos', 1e-8), ('ss', 'ss_vec', 1e-10), ('fs', 'fs_vec', 1e-10)):
        for t in range(n):
            if t == pick:
                L.close(getattr(got[t], attr), L.arr(rows[part][t]), tol, attr + ' of the tile')
        rest = [t for t in range(n) if t != pick]
        L.close(np.array([getattr(got[t], attr) for t in rest]), np.array([rows[part][t] for t in rest]), tol,
                attr + ' of other tiles')
    # what the file says about the data
    d = load(path)
    panels = d['panels']
    S.check(sorted(panels) == sorted('p%da%d' % (m, t) for m in range(16) for t in range(nt)), 'names of the panels')
    tile, row, col = pixel_tiles(det)
    for m in range(16):
        for t in range(nt):
            p = panels['p%da%d' % (m, t)]
            off = 0 if 'modno' in dims else m * shape[1]
            r, c = np.nonzero(tile == t)
            S.check((int(p['min_ss']), int(p['max_ss'])) == (r.min() + off, r.max() + off), 'slow-scan range of the panel')
            S.check((int(p['min_fs']), int(p['max_fs'])) == (c.min(), c.max()), 'fast-scan range of the panel')
            want = ['%' if x == 'frame' else m if x == 'modno' else x for x in dims]
            S.check(list(p['dim_structure']) == want, 'dimensions of the panel')
            S.check(p['data'] == kw.get('data_path', '/entry_1/instrument_1/detector_1/data'), 'path of the data')
            S.check(p['mask'] == kw.get('mask_path'), 'path of the mask')
            S.check(p['adu_per_eV'] == kw['adu_per_ev'], 'adu_per_eV')
            S.check(p['clen'] == kw['clen'], 'clen')
    if 'photon_energy' in kw:
        # (the reader keeps the energy to itself)
        S.check('photon_energy = 9300.5' in ' '.join(read_text(S, path).split()), 'photon energy')
    names = sorted(panels)
    for prefix, size, number in (('q', n // 4, 4), ('p', nt, 16)):
        groups = {k_: v_ for k_, v_ in d['rigid_groups'].items() if k_[0] == prefix}
        S.check(len(groups) == number, 'number of rigid groups')
        S.check(sorted(x for v_ in groups.values() for x in v_) == names, 'every tile is in one rigid group')
        for k_, v_ in groups.items():
            q = int(k_[1:])
            mods = range(q * 4, q * 4 + 4) if prefix == 'q' else [q]
            S.check(sorted(v_) == sorted('p%da%d' % (m, t) for m in mods for t in range(nt)), 'members of a rigid group')
    cols = d['rigid_group_collections']
    S.check(sorted(cols.get('quadrants', [])) == sorted('q%d' % q for q in range(4)), 'quadrants collection')
    S.check(sorted(cols.get('asics', [])) == sorted('p%d' % q for q in range(16)), 'asics collection')


def read_text(S, path):
    if S.symbolic:
        return E.cur().path_state['osfs'].files[path]
    with open(path) as f:
        return f.read()
