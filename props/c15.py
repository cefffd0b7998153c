"""C15: get_array of a detector has exactly the selected pulses of each module."""
from .det import *

BOUNDS = ('2 modules in 1 to 3 files of 1 to 3 trains with any train IDs, 0 or 2 frames per train, pulse IDs any '
          'increasing ones in 0..4 (the same or different in trains and modules); pulse selections by ID and position: '
          'all, slices with any bounds in 0..4 and steps 1 to 3, lists and arrays of two in any order and single numbers'
          '; also trains of 520 frames and pulse IDs up to 2600')
WALL = {'quick': 300, 'thorough': 850}


def configs(tier):
    out = []
    forms = [('index', 'all'), ('index', 'slice'), ('index', 'step'), ('index', 'list'), ('index', 'int'),
             ('id', 'all'), ('id', 'slice'), ('id', 'step'), ('id', 'list'), ('id', 'int')]
    for by, form in forms:
        out.append(dict(by=by, form=form, trains=2, layout='one', pids='same'))
    out.append(dict(by='index', form='all', trains=3, layout='gap', pids='fixed'))
    out.append(dict(by='id', form='list', trains=3, layout='gap', pids='fixed', present='all'))
    out.append(dict(by='index', form='slice', trains=3, layout='split', pids='fixed', present='all'))
    out.append(dict(by='id', form='slice', trains=2, layout='split', pids='train', present='all'))
    out.append(dict(by='index', form='all', trains=2, layout='one', pids='module', present='all'))
    out.append(dict(by='index', form='int', trains=2, layout='one', pids='fixed', trailing=(1, 2, 1), pdim=(1,)))
    out.append(dict(by='id', form='int', trains=2, layout='one', pids='fixed', trailing=(2, 1, 2), pdim=(1,)))
    out.append(dict(by='id', form='slice', trains=2, layout='one', pids='fixed', trailing=(2, 2), dtype='f4'))
    out.append(dict(by='index', form='all', trains=3, layout='gap', pids='fixed', what='slow', present='all'))
    out.append(dict(by='index', form='all', trains=3, layout='gap', pids='fixed', min_modules=2))
    out.append(dict(by='index', form='list', trains=3, layout='one', pids='fixed', select=1))
    out.append(dict(by='id', form='all', trains=2, layout='one', pids='fixed', style='status', key='calib.cellId'))
    out.append(dict(by='id', form='list', trains=2, layout='rev', pids='fixed', present='all'))
    out.append(dict(by='index', form='all', trains=3, layout='rev', pids='fixed', mods=[3]))
    out.append(dict(by='bad', form='all', trains=1, layout='one', pids='fixed', what='refuse'))
    out.append(dict(by='id', form='from', trains=1, layout='one', pids='fixed', present='all', base=[600, 2600],
                    lo=599, hi=602))
    out.append(dict(by='index', form='from', trains=1, layout='one', pids='fixed', present='all', P=520, mods=[3],
                    base=list(range(0, 1040, 2)), hi=1, trailing=(2, 1)))
    if tier == 'thorough':
        for by, form in forms:
            out.append(dict(by=by, form=form, trains=3, layout='gap', pids='train'))
            out.append(dict(by=by, form=form, trains=3, layout='split', pids='fixed'))
            out.append(dict(by=by, form=form, trains=2, layout='one', pids='fixed', P=3))
    return out


def scenario(S, cfg):
    n = cfg['trains']
    tids = S.tids(n)
    mods = cfg.get('mods') or ([0, 3] if cfg['layout'] != 'split' else [3, 10])
    if cfg['layout'] == 'one':
        files = {m: [list(range(n))] for m in mods}
    elif cfg['layout'] == 'gap':
        # the second module's file lacks trains inside its range or at its ends
        sub = S.choose('lack', [[0, 2], [1, 2], [0, 1], [1]])
        files = {mods[0]: [[0, 1, 2]], mods[1]: [sub]}
    elif cfg['layout'] == 'rev':
        # the files with later trains come first
        files = {m: [list(range(1, n)), [0]] for m in mods}
    else:
        files = {mods[0]: [[0], list(range(1, n))], mods[1]: [list(range(n - 1)), [n - 1]]}
    P = cfg.get('P', 2)
    trailing = cfg.get('trailing', (2, 1))
    D = Det(S)
    dtype = cfg.get('dtype', 'u2')
    pids = {}
    base = pulse_ids(S, P, 'p') if cfg['pids'] == 'same' else cfg.get('base', [1, 3, 4])[:P]
    for m in mods:
        for t in range(n):
            if cfg['pids'] in ('same', 'fixed'):
                p = base
            elif cfg['pids'] == 'train':
                p = pids.get((mods[0], t)) or pulse_ids(S, P, 'p%d_' % t)
            else:
                p = pulse_ids(S, P, 'p%d_%d_' % (m, t)) if t == 0 else base
            pids[m, t] = p
    anything = False
    k = 0
    for m in mods:
        for ts in files[m]:
            if cfg.get('present') == 'all':
                counts = [P] * len(ts)
            else:
                counts = [P * S.choose('h%d_%d' % (m, t), [1, 0]) for t in ts]
            anything = anything or any(counts)
            slow = None
            if cfg.get('what') == 'slow':
                sc = [S.choose('sl%d_%d' % (m, t), [1, 0]) for t in ts]
                slow = dict(data=('f4', (2,)), counts=sc, firsts=[sum(sc[:i]) for i in range(len(sc))])
            D.add('RAW-R0001-LPD%02d-S%05d.h5' % (m, k), m, [tids[t] for t in ts], counts, [pids[m, t] for t in ts],
                  trailing=trailing, dtype=dtype, off=k % 2, pdim=cfg.get('pdim', ()), slow=slow,
                  extra={'calib.cellId': ('u2', ())}, style=cfg.get('style', 'count'))
            k += 1
    if not anything:
        return
    run = D.open()
    sel_t = list(tids)
    if cfg.get('select'):
        lo = S.choose('first', [0, 1])
        sel_t = tids[lo::2]
        run = run.select_trains(S.kd.by_index[lo::2])
        if not any(D.count(m, t) for m in mods for t in sel_t):
            return
    mm = cfg.get('min_modules', 1)
    used = [t for t in sel_t if sum(1 for m in mods if D.count(m, t)) >= mm]
    if not used:
        return
    det = D.iface(run, min_modules=mm)
    if cfg.get('what') == 'refuse':
        for bad in (3, [0, 1], slice(0, 2), S.kd.by_id[-1], S.kd.by_index[[0, -1]], S.kd.by_index[-1], S.kd.by_index[:-1], S.kd.by_index[::-1], S.kd.by_id[0:2:0]):
            S.check(not S.call(det.get_array, 'image.data', pulses=bad).ok, 'refused: %r' % (bad,))
        return
    if cfg.get('what') == 'slow':
        want = {m: [(t, f, d) for t, f, c, d in D.slow[m] if c and any(t is u for u in used)] for m in mods}
        if not all(want.values()):
            return
        arr = det.get_array('detector.a.b')
        S.check(tuple(arr.dims)[:2] == ('module', 'trainId'), 'slow data: dimensions')
        tr = S.elems(arr.coords['trainId'].values)[1]
        shp, els, dt = S.elems(arr.values)
        S.check(tuple(shp) == (len(mods), len(tr), 2), 'slow data: shape')
        conds = []
        for mi, m in enumerate(mods):
            seen = 0
            for i, t in enumerate(tr):
                got = els[(mi * len(tr) + i) * 2:][:2]
                w = [(f, d) for u, f, d in want[m] if S.fork(t == u)]
                if w:
                    seen += 1
                    conds += [g == v for g, v in zip(got, w[0][1].row(w[0][0]))]
                else:
                    S.check(all(is_nan(g) for g in got), 'slow data: missing value')
            S.check(seen == len(want[m]), 'slow data: every train of each module')
        S.check(S.And(*conds), 'slow data: stored values')
        return
    key = cfg.get('key', 'data')
    sel = Sel(S, cfg['by'], cfg['form'], cfg.get('hi', 4), cfg.get('lo', 0))
    arr = det.get_array('image.' + key, pulses=sel.arg)
    want = {m: D.cells(m, key, sel, used) for m in mods}
    if key == 'calib.cellId':
        trailing, dtype = (), 'u2'
    elif len(trailing) > 1 and trailing[0] == 1:
        trailing = trailing[1:]
    check_cells(S, arr, mods, want, trailing, dtype)
