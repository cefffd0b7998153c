"""C09: every supported file layout yields the same trains, sources and index."""
from .common import *

WALL = {'quick': 300, 'thorough': 840}
BUDGET = {'quick': 120, 'thorough': 700}
BOUNDS = ('one file with up to 4 trains and 0..2 padded entries, counts 0..2 or 3 (any contents of last/first where a train '
          'has no data), 3 data groups in 2 instrument sources and 2 control sources listed in any of 3 orders with '
          '0..2 blank entries anywhere, metadata layouts 0.5 / 1.0 / 1.1; runs of 3 files of any of these layouts')

PES = 'SA3_XTD10_PES/ADC/1:network'
MOT = 'SPB_XTD9/MOTOR/Z'


def configs(tier):
    out = []
    for v in ('0.5', '1.0'):
        for style in ('count', 'status'):
            out.append(dict(n=2, pad=1, version=v, style=style, single=int(style == 'status')))
        out.append(dict(n=0, pad=1, version=v, style='count', meta=1))
        out.append(dict(n=1, pad=0, version=v, style='count', meta=1))
    out.append(dict(n=1, pad=2, version='1.1', style='status', meta=0))
    out.append(dict(n=1, pad=0, version='1.0', style='status', meta=0))
    out.append(dict(n=2, pad=0, version='0.5', style='mixed'))
    out.append(dict(n=3, pad=1, version='1.0', style='mixed', single=1))
    out.append(dict(n=3, pad=1, version='0.5', style='count', single=1))
    out.append(dict(what='run'))
    if tier == 'thorough':
        for v in ('0.5', '1.0'):
            out.append(dict(n=2, pad=1, version=v, style='status'))
        out.append(dict(n=1, pad=1, version='1.0', style='status', meta=1))
        out.append(dict(n=3, pad=1, version='1.0', style='status'))
        out.append(dict(n=4, pad=1, version='1.0', style='status'))
        out.append(dict(n=4, pad=2, version='0.5', style='mixed'))
    return out


def run_of_mixed_files(S):
    """files of different layouts in one folder"""
    S.osfs().mkdir_(S.path('run'))
    R = Run(S)
    tids = S.tids(2)
    vs = [S.choose('version%d' % i, ['0.5', '1.0', '1.1']) for i in (0, 1)] + ['0.5']
    for i, v in enumerate(vs):
        src = DET0[:-6] + '%d:xtdf' % i
        st = S.choose('style%d' % i, ['count', 'status']) if i < 2 else 'count'
        R.add('run/RAW-R0001-DA0%d-S00000.h5' % i, tids, ctrl={XGM + str(i): {'a.value': ('f4', ())}},
              inst={src: {'image': dict(keys={'data': ('u2', ())}, style=st, maxc=1)}}, version=v)
    for again in (0, 1):
        run = S.kd.RunDirectory(S.path('run')) if again else S.kd.DataCollection.from_paths(R.paths[::-1])
        S.check(set(run.all_sources) == R.sources(), 'sources of files of several layouts')
        S.check(len(run.train_ids) == 2 and S.And(*[a == b for a, b in zip(run.train_ids, tids)]), 'trains of files of several layouts')
        for i in range(len(vs)):
            src = DET0[:-6] + '%d:xtdf' % i
            S.check(set(run.keys_for_source(src)) == {'image.data'}, 'keys of files of several layouts')
            S.eq_array(run.get_data_counts(src, 'image.data').values, [R.count(src, 'image.data', t) for t in tids],
                       'data counts of files of several layouts', shape=(2,))


def scenario(S, cfg):
    if cfg.get('what') == 'run':
        return run_of_mixed_files(S)
    n, pad, version = cfg['n'], cfg['pad'], cfg['version']
    tids = S.tids(n)
    groups = [(PES, 'digitizers', ['trainId', 'channel_4_A.raw.samples']), (DET0, 'image', ['data', 'pulseId']),
              (DET0, 'header', ['dataId'])]
    if cfg.get('single'):
        groups = groups[:2]
    ctrl = {XGM: ['beamPosition.ixPos.value', 'beamPosition.ixPos.timestamp'], MOT: ['actual.value']}
    ds = [('INDEX/trainId', 'vec', ('u8', list(tids) + [0] * pad))]
    names = []
    counts = {}
    for gi, (src, g, keys) in enumerate(groups):
        style = cfg['style']
        if style == 'mixed':
            style = ['status', 'count', 'status'][gi]
        p = 'INDEX/%s/%s/' % (src, g)
        cs = S.counts(n, (3 if n < 2 else 2) if gi == 0 else 1, 'c%d_' % gi)
        fs = [S.int('f%d_%d' % (gi, i), 0, 2 ** 40) for i in range(n)]
        counts[src, g] = (fs, cs)
        ds.append((p + 'first', 'vec', ('u8', fs + [0] * pad)))
        if style == 'count':
            ds.append((p + 'count', 'vec', ('u8', cs + [0] * pad)))
        else:
            ls = []
            for i, (f, c) in enumerate(zip(fs, cs)):
                junk = S.int('j%d_%d' % (gi, i), 0, 2 ** 40)
                ls.append(S.If(c > 0, f + c - 1, junk))
            ds.append((p + 'last', 'vec', ('u8', ls + [0] * pad)))
            ds.append((p + 'status', 'vec', ('u4', [S.If(c > 0, 1, 0) for c in cs] + [0] * pad)))
        for j, k in enumerate(keys):
            ds.append(('INSTRUMENT/%s/%s/%s' % (src, g, k.replace('.', '/')), 'data',
                       (Data(S, 'u2', (), 100 * gi + 10 * j), 4)))
        names.append('INSTRUMENT/%s/%s' % (src, g))
    for src, keys in ctrl.items():
        ds.append(('INDEX/%s/first' % src, 'vec', ('u8', list(range(n)) + [0] * pad)))
        if cfg['style'] == 'count' or src == MOT:
            ds.append(('INDEX/%s/count' % src, 'vec', ('u8', [1] * n + [0] * pad)))
        else:
            ds.append(('INDEX/%s/last' % src, 'vec', ('u8', list(range(n)) + [0] * pad)))
            ds.append(('INDEX/%s/status' % src, 'vec', ('u4', [1] * n + [0] * pad)))
        for j, k in enumerate(keys):
            ds.append(('CONTROL/%s/%s' % (src, k.replace('.', '/')), 'data',
                       (Data(S, 'f4', (), 1000 + 10 * j), n + pad)))
        names.append('CONTROL/' + src)
    # any order, blank entries anywhere
    order = S.choose('order', [0, 1, 2] if cfg.get('meta') else [1])
    names = {0: names, 1: names[::-1], 2: names[1:] + names[:1]}[order]
    for b in range(S.choose('blanks', [0, 1, 2] if cfg.get('meta') else [1])):
        at = S.choose('blank%d' % b, [0, 2, len(names)] if cfg.get('meta') else [2])
        names.insert(at, '')
    p = 'METADATA/dataSourceId' if version == '0.5' else 'METADATA/dataSources/dataSourceId'
    ds.append((p, 'bytes', [s.encode() for s in names]))
    if version != '0.5':
        ds.append(('METADATA/dataFormatVersion', 'bytes', [version.encode()]))
    path = S.write_h5('a.h5', ds)

    run = S.kd.H5File(path)
    S.check(len(run.train_ids) == n and S.And(*[a == b for a, b in zip(run.train_ids, tids)]),
            'all train IDs without the padding')
    inst = {}
    for src, g, keys in groups:
        inst.setdefault(src, set()).update(g + '.' + k for k in keys)
    S.check(set(run.control_sources) == set(ctrl), 'control sources')
    S.check(set(run.instrument_sources) == set(inst), 'instrument sources')
    S.check(set(run.all_sources) == set(ctrl) | set(inst), 'all sources')
    for s, keys in ctrl.items():
        S.check(set(run.keys_for_source(s)) == set(keys), 'all keys below a control source')
    for s, keys in inst.items():
        S.check(set(run.keys_for_source(s)) == keys, 'all keys below an instrument source')
    S.check(S.call(run.files[0].get_keys, 'NOT/A/SOURCE').raised('SourceNameError'), 'unknown source')
    fa = run.files[0]
    for src, g, keys in groups:
        fs, cs = counts[src, g]
        for again in (0, 1):
            f, c = fa.get_index(src, g)
            S.eq_array(c, cs, 'entries per train, from any index layout', shape=(n,))
            S.eq_array(f, fs, 'first entry of each train', shape=(n,))
        if n:
            ser = run.get_data_counts(src, g + '.' + keys[0])
            S.eq_array(ser.values, cs, 'data counts', shape=(n,))
    for s in ctrl:
        f, c = fa.get_index(s, '')
        S.eq_array(c, [1] * n, 'one entry per train in control data', shape=(n,))
        S.eq_array(f, list(range(n)), 'one row per train in control data', shape=(n,))
    S.check(fa.format_version == version, 'format version')
