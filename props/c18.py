"""C18: the virtual CXI file maps each frame of each module to its own data."""
from .det import *

BOUNDS = ('2 modules (of a detector with 4 modules of 2 x 1 pixels) in 1 to 3 files of 1 to 3 trains with any train IDs, '
          '0 or 2 frames in each train of each module, any pulse IDs; raw and calibrated data with and without masks')
WALL = {'quick': 300, 'thorough': 850}


def configs(tier):
    out = []
    for kind in ('raw', 'proc', 'mask'):
        out.append(dict(kind=kind, trains=2, layout='one', pids='fixed'))
    out.append(dict(kind='raw4', trains=2, layout='one', pids='fixed', present='all'))
    out.append(dict(kind='rawx', trains=2, layout='one', pids='fixed', pdim=(1,)))
    out.append(dict(kind='raw', trains=3, layout='gap', pids='fixed'))
    out.append(dict(kind='proc', trains=3, layout='split', pids='fixed'))
    out.append(dict(kind='raw', trains=3, layout='inter', pids='fixed', present='all'))
    out.append(dict(kind='raw', trains=3, layout='one', pids='fixed', select=1))
    out.append(dict(kind='raw', trains=2, layout='one', pids='any', present='all', hi=20))
    out.append(dict(kind='raw', trains=2, layout='one', pids='train', hi=2700))
    out.append(dict(kind='proc', trains=3, layout='gap', pids='fixed', min_modules=2))
    out.append(dict(kind='raw', trains=1, layout='one', pids='train', P=3, hi=2700))
    if tier == 'thorough':
        out.append(dict(kind='mask', trains=4, layout='split', pids='fixed'))
        out.append(dict(kind='proc', trains=3, layout='gap', pids='train', P=1, hi=2700))
        out.append(dict(kind='raw', trains=4, layout='one', pids='fixed', select=1))
        out.append(dict(kind='raw', trains=2, layout='one', pids='any'))
    return out


def scenario(S, cfg):
    n = cfg['trains']
    tids = S.tids(n)
    mods = [0, 3] if cfg['layout'] != 'split' else [1, 2]
    if cfg['layout'] == 'one':
        files = {m: [list(range(n))] for m in mods}
    elif cfg['layout'] == 'gap':
        sub = S.choose('lack', [[0, 2], [1, 2], [0, 1], [1]])
        files = {mods[0]: [[0, 1, 2]], mods[1]: [sub]}
    elif cfg['layout'] == 'inter':
        files = {mods[0]: [[0, 2], [1]], mods[1]: [[1, 2], [0]]}
    else:
        files = {mods[0]: [[0], list(range(1, n))], mods[1]: [list(range(n - 1)), [n - 1]]}
    P = cfg.get('P', 2)
    kind = cfg['kind']
    trailing = {'raw4': (2, 2, 1), 'rawx': (1, 2, 1)}.get(kind, (2, 1))
    extra = {'cellId': ('u2', (1,) if kind == 'rawx' else ())}
    dtype = 'u2'
    if kind in ('proc', 'mask'):
        dtype = 'f4'
        extra['gain'] = ('i2', trailing)
        if kind == 'mask':
            extra['mask'] = ('u4', trailing)
    D = Det(S, 'SPB_DET_AGIPD1M-1', 'AGIPD1M')
    C = S.module('components')

    class Small(C.AGIPD1M):
        n_modules = 4
        module_shape = (2, 1)

    hi = cfg.get('hi', 4)
    pids, k, anything = {}, 0, False
    for m in mods:
        for t in range(n):
            if cfg['pids'] == 'fixed':
                p = [1, 3, 4][:P]
            elif cfg['pids'] == 'train':
                p = pids.get((mods[0], t)) or pulse_ids(S, P, 'p%d_' % t, hi)
            else:
                p = [S.int('p%d_%d_%d' % (m, t, i), 0, hi) for i in range(P)]
            pids[m, t] = p
    files_of = {}
    for m in mods:
        for ts in files[m]:
            counts = [P if cfg.get('present') == 'all' else P * S.choose('h%d_%d' % (m, t), [1, 0]) for t in ts]
            anything = anything or any(counts)
            D.add('RAW-R0001-AGIPD%02d-S%05d.h5' % (m, k), m, [tids[t] for t in ts], counts, [pids[m, t] for t in ts],
                  trailing=trailing, dtype=dtype, off=k % 2, pdim=cfg.get('pdim', ()), extra=extra)
            k += 1
    if not anything:
        return
    run = D.open()
    sel_t = list(tids)
    if cfg.get('select'):
        lo = S.choose('first', [0, 1])
        sel_t = tids[lo::2]
        run = run.select_trains(S.kd.by_index[lo::2])
    mm = cfg.get('min_modules', 1)
    used = [t for t in sel_t if sum(1 for m in mods if D.count(m, t)) >= mm]
    if not used:
        return
    det = Small(run, min_modules=mm)
    r = S.call(det.write_virtual_cxi, S.path('out.cxi'))

    frames = [(t, i) for t in used for i in range(P)]
    at = {m: {} for m in mods}
    for m in mods:
        for t, f, p, keys in D.frames[m]:
            for i in range(len(p)):
                at[m][id(t), i] = (f + i, p[i], keys)
    if cfg['pids'] == 'any':
        same = S.And(*[at[mods[0]][id(t), i][1] == at[mods[1]][id(t), i][1] for t, i in frames
                       if (id(t), i) in at[mods[0]] and (id(t), i) in at[mods[1]]])
        if not S.fork(same):
            S.check(not r.ok, 'differing pulse IDs are refused')
            return
    S.check(r.ok, 'written: %r' % (r.exc,))
    f = S.h5file(S.path('out.cxi'))
    S.eq_array(f['entry_1/trainId'][:], [t for t, i in frames], 'train ID of each frame', shape=(len(frames),))
    want_p = [[at[m][id(t), i][1] for m in mods if (id(t), i) in at[m]][0] for t, i in frames]
    S.eq_array(f['entry_1/pulseId'][:], want_p, 'pulse ID of each frame', shape=(len(frames),))
    names = ['data', 'cellId'] + [k for k in ('gain', 'mask') if k in extra]
    tr = trailing
    for nm in names:
        ds = f['entry_1/cellId' if nm == 'cellId' else 'entry_1/instrument_1/detector_1/' + nm]
        arr = ds[()]
        shp, els, dt = S.elems(arr)
        inner = () if nm == 'cellId' else tr
        S.check(tuple(shp) == (len(frames), 4) + tuple(inner), nm + ': one entry per frame and module')
        S.check(dt == np.dtype(dtype if nm == 'data' else extra[nm][0]), nm + ': dtype')
        size = int(np.prod(inner)) if inner else 1
        conds, fills = [], []
        for j, (t, i) in enumerate(frames):
            for m in range(4):
                got = els[(j * 4 + m) * size:][:size]
                src = at.get(m, {}).get((id(t), i))
                if src is None:
                    fills += got
                else:
                    conds += [g == v for g, v in zip(got, src[2][nm].row(src[0]))]
        S.check(S.And(*conds), nm + ': each frame of each module is its own')
        if nm == 'data' and dtype == 'f4':
            S.check(all(is_nan(g) for g in fills), nm + ': fill value where there is no data')
        else:
            S.check(S.And(*[g == fills[0] for g in fills]), nm + ': same value wherever there is no data')
    ids = list(f['entry_1/experiment_identifier'][:])
    S.check(len(ids) == len(frames), 'an identifier for each frame')
    S.check(S.And(*[S.text_is(x, [t, ':', p]) for x, (t, i), p in zip(ids, frames, want_p)]),
            'identifiers name the train and pulse')
    # the same data through the links of the layout, and what its dimensions are
    for nm in names:
        if nm == 'cellId':
            ax = f['entry_1/cellId'].attrs['axes']
            S.check(ax == 'experiment_identifier:module_identifier', 'dimensions of the cell IDs')
            continue
        d1, d2 = f['entry_1/instrument_1/detector_1/' + nm], f['entry_1/data_1/' + nm]
        S.check(tuple(d1.shape) == tuple(d2.shape), nm + ': the link data_1 leads to the data')
        S.check(S.And(*[a == b or a is b or (is_nan(a) and is_nan(b)) for a, b in
                        zip(S.elems(d1[()])[1], S.elems(d2[()])[1])]), nm + ': the link data_1 leads to the data')
        ax = d1.attrs['axes']
        S.check(ax == 'experiment_identifier:module_identifier:%sy:x' % ('data_gain:' if len(tr) == 3 else ''),
                nm + ': dimensions')
    if len(tr) == 3:
        for p in ('entry_1/data_gain', 'entry_1/instrument_1/detector_1/data_gain', 'entry_1/data_1/data_gain'):
            S.check([str_(x) for x in f[p][:]] == ['data', 'gain'][:tr[0]], 'labels of the dimension for data and gain')
    ids2 = list(f['entry_1/instrument_1/detector_1/experiment_identifier'][:])
    S.check(len(ids2) == len(ids) and S.And(*[S.text_is(x, [t, ':', p]) for x, (t, i), p in zip(ids2, frames, want_p)]),
            'identifiers found with the data')


def str_(x):
    return x.decode() if isinstance(x, bytes) else x
