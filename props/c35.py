"""C35: images exported from files, and listings of files, have what the file contains."""
import contextlib
import csv
import io
import sys
import types

import numpy as np

from symex.session import Data

BOUNDS = ('one file with up to 4 data sources of which one has images, at any place in the list; 1 to 3 images of 2x3 pixels with '
          'any values, any index in the file, any header; listings of up to 9 datasets in nested groups with 0 to 3 entries; fabio '
          'is replaced by a stand-in which remembers data, header and file name (also on replay)')
WALL = {'quick': 120, 'thorough': 300}
IMG = 'INSTRUMENT/SPB_DET_AGIPD1M-1/DET/4CH0:xtdf/image'
OTHERS = ['INSTRUMENT/SPB_DET_AGIPD1M-1/DET/4CH0:xtdf/imageInfo', 'INSTRUMENT/SPB_DET_AGIPD1M-1/DET/4CH0:xtdf/header',
          'INSTRUMENT/SPB_DET_AGIPD1M-1/DET/4CH0:xtdf/trailer', '']


class Fabio:
    def __init__(self):
        self.made, self.written = [], []

    def modules(self):
        top, sub = types.ModuleType('fabio'), types.ModuleType('fabio.cbfimage')
        rec = self

        class CbfImage:
            def __init__(self, data=None, header=None):
                self.data, self.header = data, header or {}
                rec.made.append(self)

            def write(self, fname, *a, **k):
                rec.written.append((fname, self))
            save = write
        sub.cbfimage = sub.CbfImage = CbfImage
        top.cbfimage = sub
        return {'fabio': top, 'fabio.cbfimage': sub}


FABIO = Fabio()


def extra_modules(cfg):
    return FABIO.modules()


conc_modules = FABIO.modules


def configs(tier):
    out = [dict(what='file', others=o, dtype=dt) for o, dt in ((0, 'u2'), (1, 'f4'), (3, 'i4'))]
    out += [dict(what='array', dtype='u2'), dict(what='array', dtype='f8')]
    out += [dict(what='list', size=s) for s in (1, 2, 3)]
    return out


def header(S):
    return S.choose('header', [None, {}, {'Wavelength': 1.2, 'X-Dim': '3'}])


def check_image(S, im, data, k, head):
    S.eq_array(im.data, [data.elem(k, i) for i in np.ndindex(2, 3)], 'the image asked for', shape=(2, 3))
    S.check(dict(im.header) == (head or {}), 'the header asked for')


def scenario(S, cfg):
    FABIO.made.clear()
    FABIO.written.clear()
    return {'file': file, 'array': array, 'list': listing}[cfg['what']](S, cfg)


def array(S, cfg):
    u = S.module('utils')
    n = S.choose('n', [1, 2, 3])
    v = [S.int('v%d' % i, 0, 255) for i in range(6 * n)]
    a = S.array(v, cfg['dtype']).reshape((n, 2, 3))
    k = S.int('k', 0, n - 1)
    head = header(S)
    default = S.choose('default', [0, 1])
    args = dict(header=head) if head is not None else {}
    if not default:
        args['index'] = k
    r = S.call(u.numpy_to_cbf, a, **args)
    S.check(r.ok, 'converted')
    if default:
        k = 0
    im = r.value
    want = v[:6]
    for i in range(1, n):
        want = [S.If(k == i, x, y) for x, y in zip(v[6 * i:], want)]
    S.eq_array(im.data, want, 'the image asked for', shape=(2, 3))
    S.check(dict(im.header) == (head or {}), 'the header asked for')


def file(S, cfg):
    u = S.module('utils')
    n = S.int('n', 1, 3)
    d = Data(S, cfg['dtype'], (2, 3), 200)
    names = list(OTHERS[:cfg['others']])
    names.insert(S.choose('at', list(range(len(names) + 1))), IMG)
    ds = [('METADATA/dataSourceId', 'bytes', [x.encode() for x in names])]
    for x in names:
        if x == IMG:
            ds.append((x + '/data', 'data', (d, n)))
            ds.append((x + '/pulseId', 'data', (Data(S, 'u8', (1,), 300), n)))
        elif x:
            ds.append((x + '/data', 'data', (Data(S, cfg['dtype'], (2, 3), 400), n)))
    path = S.write_h5('RAW-R0001-AGIPD04-S00000.h5', ds)
    k = S.int('k', 0, 2)
    S.assume(k < n)
    head = header(S)
    out = S.path('out.cbf')
    r = S.capture(u.hdf5_to_cbf, path, out, k, **({} if head is None else dict(header=head)))[0]
    S.check(r.ok, 'converted: %s' % type(r.exc).__name__)
    S.check([str(p) for p, im in FABIO.written] == [out], 'written to the file asked for')
    check_image(S, FABIO.written[0][1], d, k, head)


def listing(S, cfg):
    names = ['INDEX/trainId', 'CONTROL/b/x/value', 'CONTROL/b/x/timestamp', 'CONTROL/b-1', 'INSTRUMENT/d:out/data', 'RUN/q/r/s/t',
             'RUN/q/r.2/x', 'METADATA/root', 'm'][:cfg['size'] * 3]
    kinds = [('u8', ()), ('f4', (2,)), ('i2', (4, 1))]
    ds, want = [], []
    for i, x in enumerate(names):
        n = S.conc(S.int('n%d' % i, 0, 2 if i % 3 else 3)) if i < 3 else i
        dt, tr = kinds[(i * 2 + cfg['size']) % 3]
        ds.append((x, 'data', (Data(S, dt, tr, 100 * i), n)))
        want.append([x, str((n,) + tr), np.dtype(dt).str])
    path = S.write_h5('f.h5', ds)
    h5 = S.module('h5index')
    b = io.StringIO()
    old = sys.argv
    sys.argv = ['h5index', path]
    try:
        with contextlib.redirect_stdout(b):
            r = S.call(h5.main)
    finally:
        sys.argv = old
    S.check(r.ok, 'listed: %s' % type(r.exc).__name__)
    rows = list(csv.reader(io.StringIO(b.getvalue())))
    S.check(rows[:1] == [['path', 'shape', 'dtype']], 'header of the listing')
    S.check(rows[1:] == sorted(want), 'every dataset, sorted, with shape and type')
    # the tree
    tree = []

    def walk(prefix, depth):
        for c in sorted({x[len(prefix):].split('/')[0] for x in names if x.startswith(prefix)}):
            tree.append(' ' * depth + c)
            if prefix + c not in names:
                walk(prefix + c + '/', depth + 4)
    walk('', 0)
    with S.h5file(path) as f:
        r, text = S.capture(S.module('utils').hdf5_paths, f)
    S.check(r.ok, 'tree printed: %s' % type(r.exc).__name__)
    lines = text.splitlines()
    lines = [x for i, x in enumerate(lines) if x and (not i or x != lines[i - 1])]
    S.check(lines == tree, 'every group and dataset below its group')
