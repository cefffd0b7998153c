"""Write small HDF5 files in the European XFEL layout."""
import numpy as np
import h5py


def write_file(path, tids, control=None, instrument=None, indexes=None, old=False):
    """control: {source: {key: array}}, 1 entry per train unless listed in indexes
    instrument: {source: {key: array}}, indexes: {source + '/' + group: (firsts, counts)}"""
    indexes = indexes or {}
    tids = np.asarray(tids, 'u8')
    n = len(tids)
    sources = []
    with h5py.File(path, 'w') as f:
        f['INDEX/trainId'] = tids

        def index(name, first, count):
            first, count = np.asarray(first, 'u8'), np.asarray(count, 'u8')
            g = f.create_group('INDEX/' + name)
            g['first'] = first
            if old:
                g['last'] = np.where(count > 0, first + count - 1, first).astype('u8')
                g['status'] = (count > 0).astype('i4')
            else:
                g['count'] = count

        for src, keys in (control or {}).items():
            for key, arr in keys.items():
                f['CONTROL/%s/%s' % (src, key.replace('.', '/'))] = arr
            index(src, *indexes.get(src, (np.arange(n), np.ones(n))))
            sources.append(('CONTROL', src))
        for src, keys in (instrument or {}).items():
            for key, arr in keys.items():
                f['INSTRUMENT/%s/%s' % (src, key.replace('.', '/'))] = arr
            for g in sorted({k.split('.')[0] for k in keys}):
                index(src + '/' + g, *indexes.get(src + '/' + g, (np.arange(n), np.ones(n))))
                sources.append(('INSTRUMENT', src + '/' + g))
        vb = h5py.special_dtype(vlen=bytes)
        ns = len(sources)
        for name, vals in [('root', [a for a, _ in sources]), ('deviceId', [b for _, b in sources]),
                           ('dataSourceId', [a + '/' + b for a, b in sources])]:
            ds = f.create_dataset('METADATA/' + name, (ns,), dtype=vb)
            ds[:] = [v.encode() for v in vals]
