"""C16: iterating over detector trains gives the selected pulses of each module."""
from .det import *

BOUNDS = ('2 modules in 1 to 3 files of 1 to 3 trains with any train IDs, 0 or 2 frames and 0 to 2 entries of slow data '
          'per train, pulse IDs any increasing ones in 0..4; pulse selections by ID and position: all, slices with any '
          'bounds in 0..4 and steps 1 to 3, lists and arrays of two in any order and single numbers'
          '; also trains of 520 frames and pulse IDs up to 2600')
WALL = {'quick': 300, 'thorough': 850}


def configs(tier):
    out = []
    forms = [('index', 'all'), ('index', 'slice'), ('index', 'step'), ('index', 'list'), ('index', 'int'),
             ('id', 'all'), ('id', 'slice'), ('id', 'step'), ('id', 'list'), ('id', 'int')]
    for by, form in forms:
        out.append(dict(by=by, form=form, trains=2, layout='one', pids='train' if by == 'id' else 'fixed',
                        present='all' if by == 'id' else ''))
    out.append(dict(by='index', form='all', trains=3, layout='gap', pids='fixed'))
    out.append(dict(by='id', form='slice', trains=3, layout='split', pids='fixed', present='all'))
    out.append(dict(by='id', form='int', trains=2, layout='one', pids='module', present='all'))
    out.append(dict(by='index', form='int', trains=2, layout='one', pids='fixed', trailing=(1, 2, 1), pdim=(1,)))
    out.append(dict(by='id', form='int', trains=2, layout='one', pids='fixed', trailing=(2, 1, 2), pdim=(1,)))
    out.append(dict(by='index', form='int', trains=2, layout='one', pids='fixed', slow=2, present='all'))
    out.append(dict(by='index', form='all', trains=3, layout='gap', pids='fixed', slow=1, present='all'))
    out.append(dict(by='index', form='all', trains=2, layout='one', pids='fixed', other=1))
    out.append(dict(by='id', form='from', trains=1, layout='one', pids='fixed', present='all', base=[600, 2600],
                    lo=599, hi=602))
    out.append(dict(by='index', form='from', trains=1, layout='one', pids='fixed', present='all', P=520, mods=[3],
                    base=list(range(0, 1040, 2)), hi=1, trailing=(2, 1)))
    for by in ('id', 'index'):
        out.append(dict(by=by, form='list', trains=3, layout='one', pids='fixed', rowgap=2, present='all'))
    out.append(dict(by='index', form='all', trains=3, layout='one', pids='fixed', rowgap=1))
    if tier == 'thorough':
        for by, form in forms:
            out.append(dict(by=by, form=form, trains=3, layout='gap', pids='train'))
            out.append(dict(by=by, form=form, trains=3, layout='split', pids='fixed'))
            out.append(dict(by=by, form=form, trains=2, layout='one', pids='fixed', P=3))
    return out


def scenario(S, cfg):
    n = cfg['trains']
    tids = S.tids(n)
    mods = cfg.get('mods') or ([0, 3] if cfg['layout'] != 'split' else [3, 10])
    if cfg['layout'] == 'one':
        files = {m: [list(range(n))] for m in mods}
    elif cfg['layout'] == 'gap':
        sub = S.choose('lack', [[0, 2], [1, 2], [0, 1], [1]])
        files = {mods[0]: [[0, 1, 2]], mods[1]: [sub]}
    else:
        files = {mods[0]: [[0], list(range(1, n))], mods[1]: [list(range(n - 1)), [n - 1]]}
    P = cfg.get('P', 2)
    trailing = cfg.get('trailing', (2, 1))
    D = Det(S)
    pids = {}
    base = cfg.get('base', [1, 3, 4])[:P]
    for m in mods:
        for t in range(n):
            if cfg['pids'] == 'fixed':
                p = base
            elif cfg['pids'] == 'train':
                p = pids.get((mods[0], t)) or pulse_ids(S, P, 'p%d_' % t)
            else:
                p = pulse_ids(S, P, 'p%d_%d_' % (m, t)) if t == 0 else base
            pids[m, t] = p
    anything = False
    k = 0
    for m in mods:
        for ts in files[m]:
            if cfg.get('present') == 'all':
                counts = [P] * len(ts)
            else:
                counts = [P * S.choose('h%d_%d' % (m, t), [1, 0]) for t in ts]
            anything = anything or any(counts)
            slow = None
            if cfg.get('slow'):
                sc = [S.choose('sl%d_%d' % (m, t), list(range(cfg['slow'] + 1))) for t in ts]
                slow = dict(data=('f4', (2,)), counts=sc, firsts=[sum(sc[:i]) for i in range(len(sc))])
            D.add('RAW-R0001-LPD%02d-S%05d.h5' % (m, k), m, [tids[t] for t in ts], counts, [pids[m, t] for t in ts],
                  trailing=trailing, off=k % 2, pdim=cfg.get('pdim', ()), slow=slow, gap=cfg.get('rowgap', 0), extra={'calib.cellId': ('u2', ())})
            k += 1
    if not anything:
        return
    if cfg.get('other'):
        # sources besides the detector don't matter
        D.paths.append(Run(S).add('RAW-R0001-DA01-S00000.h5', tids[:1],
                                  ctrl={XGM: {'a.value': ('i4', ())}}).path)
    det = D.iface()
    with_data = [m for m in mods if any(any(t is u for u in tids) and any(
        D.count(mm, t) for mm in mods) for t, f, p, ks in D.frames[m])]
    sel = Sel(S, cfg['by'], cfg['form'], cfg.get('hi', 4), cfg.get('lo', 0))
    want = []
    for t in tids:
        if not any(D.count(m, t) for m in mods):
            continue
        ok = all(D.count(m, t) for m in with_data)
        if cfg.get('slow'):
            ok = ok and all(any(u is t and c for u, f, c, d in D.slow[m]) for m in with_data)
        if ok:
            want.append(t)
    got = []
    for tid, data in det.trains(pulses=sel.arg):
        S.check(len(got) < len(want), 'only trains for which all modules have data')
        t = want[len(got)]
        got.append(tid)
        S.check(tid == t, 'trains in order')
        keys = {'image.data', 'image.pulseId', 'image.calib.cellId'} | ({'detector.a.b'} if cfg.get('slow') else set())
        S.check(set(data) == keys, 'an array for each key')
        for key in sorted(keys):
            arr = data[key]
            if key == 'detector.a.b':
                cs = {m: [(f, c, d) for u, f, c, d in D.slow[m] if u is t][0] for m in with_data}
                if len({c for f, c, d in cs.values()}) > 1:
                    continue
                S.eq_array(arr.values, [e for m in with_data for f, c, d in [cs[m]] for j in range(c)
                                        for e in d.row(f + j)], 'slow data')
                S.eq_array(arr.coords['module'].values, with_data, 'slow data: modules')
                continue
            ka = key.partition('.')[2]
            cells = {m: D.cells(m, ka, sel, [t]) for m in with_data}
            tr, dt = ((), 'u2') if ka == 'calib.cellId' else ((), 'u8') if ka == 'pulseId' else (trailing, 'u2')
            if len(tr) > 1 and tr[0] == 1:
                tr = tr[1:]
            if not any(cells.values()):
                S.check(S.elems(arr.values)[1] == [], 'nothing if no pulse is selected')
                continue
            if cfg['pdim'] if 'pdim' in cfg else False:
                cells = {m: [(a, b, [x[0] if isinstance(x, list) else x for x in v]) for a, b, v in c]
                         for m, c in cells.items()}
            check_cells(S, arr, with_data, cells, tr, dt, key)
    S.check(len(got) == len(want), 'every train for which all modules have data')
