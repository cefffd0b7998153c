"""C04: get_series / get_dataframe / get_data_counts line up with the index."""
from .common import *

BOUNDS = ('up to 4 trains in up to 3 files given in two orders (including files without trains or without data), '
          '0..2 entries per train stored back to back from row 0, control and instrument fields, fields with one '
          'pulse per row, sources recorded in different files for different trains, train selections; train IDs 2^20..2^50')


def configs(tier):
    out = []
    for order in (0, 1):
        out.append(dict(what='counts', kind='ctrl', files=[2, 1], order=order))
        out.append(dict(what='counts', kind='inst', files=[2, 1], order=order))
        out.append(dict(what='counts', kind='inst', files=[1, 0, 2], order=order))
        out.append(dict(what='series', kind='ctrl', files=[2, 1], order=order))
        out.append(dict(what='series', kind='inst', files=[1, 2], order=order, maxc=1))
        out.append(dict(what='series', kind='pulse', files=[1, 1], order=order))
        out.append(dict(what='series', kind='pulse', files=[2], order=order))
    out.append(dict(what='series', kind='inst', files=[1, 1, 1], order=1, maxc=1, sel=1))
    out.append(dict(what='series', kind='pulse', files=[1, 1], order=1, sel=1))
    out.append(dict(what='series', kind='ctrl', files=[2, 0], order=1, sel=1))
    out.append(dict(what='counts', kind='inst', files=[2, 1], order=0, sel=1))
    out.append(dict(what='counts', kind='ctrl', files=[2, 1], order=1, sel=1))
    out.append(dict(what='counts', kind='inst', files=[3], order=0, sel=1, big=1))
    out.append(dict(what='series', kind='pulse', files=[2, 1], order=1, sel=1, big=1))
    out.append(dict(what='series', kind='name', files=[1], order=0))
    out.append(dict(what='frame', kind='frame', files=[2], order=0))
    out.append(dict(what='frame', kind='frame', files=[1, 1], order=1))
    out.append(dict(what='frame', kind='frame', files=[2], order=0, ts=1))
    out.append(dict(what='frame', kind='frame', files=[1, 1], order=0, fields=1))
    out.append(dict(what='frame', kind='frame', files=[1], order=0, names=1))
    out.append(dict(what='frame', kind='frame', files=[1, 1], order=0, apart=1))
    out.append(dict(what='frame', kind='frame', files=[2, 2], order=1, apart=1, inter=1))
    out.append(dict(what='frame', kind='frame', files=[1, 1, 1], order=0, apart=1))
    for kind in ('ctrl', 'inst', 'pulse'):
        out.append(dict(what='series', kind=kind, files=[2, 2], order=1, maxc=1, inter=1, sel=int(kind != 'pulse')))
    out.append(dict(what='counts', kind='inst', files=[2, 2], order=1, maxc=1, inter=1, sel=1))
    out.append(dict(what='series', kind='ctrl', files=[2, 1], order=1, lossy=1))
    out.append(dict(what='counts', kind='ctrl', files=[2, 1], order=1, lossy=1))
    out.append(dict(what='frame', kind='frame', files=[2], order=0, lossy=1))
    for kind in ('ctrl', 'inst', 'pulse'):
        for what in ('counts', 'series'):
            out.append(dict(what=what, kind=kind, files=[2, 1], order=1, maxc=1, sel=1, elsewhere=1))
    if True:
        for order in (0, 1):
            out.append(dict(what='counts', kind='inst', files=[2, 2], order=order, maxc=3, sel=1))
            out.append(dict(what='series', kind='pulse', files=[2, 2], order=order, maxc=2))
            out.append(dict(what='series', kind='pulse', files=[2, 1], order=order, maxc=3))
            out.append(dict(what='series', kind='inst', files=[2, 2], order=order, maxc=1, sel=1))
            out.append(dict(what='frame', kind='frame', files=[2, 1], order=order))
    return out


def build(S, cfg, R):
    own, tids = with_elsewhere(S, cfg, R)
    for k, ts in enumerate(spread(S, cfg, own)):
        m = len(ts)
        kind = cfg['kind']
        ctrl, inst = {}, {}
        big = {'counts': [300, 0, 270][-m:]} if cfg.get('big') else {}
        if kind in ('ctrl', 'frame', 'name'):
            ctrl = {XGM: {'a.b.value': ('f4', ()), 'a.b.timestamp': ('u8', ())}}
            if kind == 'frame':
                ctrl['SPB_XTD9/MOTOR/Z'] = {'pos.value': ('i4', ())}
            if cfg.get('apart'):
                ctrl = {list(ctrl)[k % 2]: ctrl[list(ctrl)[k % 2]]}
        if kind in ('inst', 'frame', 'name'):
            keys = {('image.timestamps' if kind == 'frame' else 'image.x.y'): ('u4', ())}
            if cfg.get('names'):
                keys.update({'image.xtimestamp': ('u4', ()), 'image.values': ('u2', ()), 'xvalue': ('f4', ())})
            inst = {CAMO: {'data': dict(keys=keys, maxc=cfg.get('maxc', 1), hi=0, **big)}}
        if cfg.get('apart'):
            inst = {}
        if kind == 'pulse':
            maxc = cfg.get('maxc', 2)
            cap = max(1, m * maxc) if not cfg.get('big') else 600
            # pulse IDs: one per row, in no order over the trains
            pid = FnData(S, 'u8', [[3 * r % 7] for r in range(cap + 1)], (1,))
            pid.rows = None
            inst = {DET0: {'image': dict(keys={'cellId': ('u2', (1,)), 'pulseId': pid},
                                         maxc=maxc, hi=0, **big)}}
        kw = {}
        if cfg.get('lossy'):
            kw['ctrl_index'] = {XGM: lossy_index(S, m, 'x%d_' % k)}
        R.add('f%d.h5' % k, ts, ctrl=ctrl, inst=inst, pad=1 if m == 0 else 0, **kw)
    return tids


def choose_trains(S, tids):
    pick = [S.choose('p%d' % i, [0, 1]) for i in range(len(tids))]
    sel = [t for t, p in zip(tids, pick) if p]
    if not sel:
        sel = [tids[0]]
    return sel


def scenario(S, cfg):
    R = Run(S)
    tids = build(S, cfg, R)
    paths = R.paths[::-1] if cfg['order'] else R.paths
    run = S.kd.DataCollection.from_paths(paths)
    sel = list(tids)
    if cfg.get('sel'):
        sel = choose_trains(S, tids)
        run = run.select_trains(S.kd.by_id[sel])
    kind = cfg['kind']
    src, key = {'ctrl': (XGM, 'a.b.value'), 'inst': (CAMO, 'data.image.x.y'), 'name': (XGM, 'a.b.value'),
                'pulse': (DET0, 'image.cellId'), 'frame': (None, None)}[kind]
    if cfg.get('elsewhere') and not any(R.where(src, t)[0] is not None for t in sel):
        return      # the collection has no file of the source any more
    if cfg['what'] == 'counts':
        ser = run.get_data_counts(src, key)
        sel = [t for t in sel if R.where(src, t)[0] is not None]
        S.eq_array(ser.index.values, sel, 'data counts: one label per selected train, in order',
                   shape=(len(sel),))
        S.eq_array(ser.values, [R.count(src, key, t) for t in sel],
                   'data counts are the numbers of entries in the index', shape=(len(sel),))
        return
    if cfg['what'] == 'frame':
        kw = {}
        if cfg.get('ts'):
            kw['timestamps'] = True
        fields = {(s, k) for s in R.sources() for k in R.keys(s)}
        if cfg.get('fields'):
            form = S.choose('fields', ['list', 'dict', 'pats'])
            fields = {(XGM, 'a.b.value')} | ({(XGM, 'a.b.timestamp')} if form != 'pats' else set())
            if form == 'dict':
                fields.add((CAMO, 'data.image.timestamps'))
            if S.fork(S.bool('ts')):
                kw['timestamps'] = True
            df = run.get_dataframe(**kw, fields={'list': [('*XGM*', 'a.*')], 'pats': [('*XGM*', 'a.b'), (XGM, '*.value')],
                                           'dict': {XGM: set(), CAMO: {'data.image.timestamps'}}}[form])
        else:
            df = run.get_dataframe(**kw)
        if not cfg.get('ts') and not kw:
            fields = {(s, k) for s, k in fields if not k.endswith('.timestamp')}
        names = {}
        for s, k in fields:
            nm = s + '/' + k
            names[nm[:-6] if nm.endswith('.value') else nm] = (s, k)
        S.check(set(df.columns) == set(names), 'one column per field')
        S.check(len(df.columns) == len(names), 'one column per field, no duplicates')
        # all control fields have every train
        got = S.elems(df.index.values)[1]
        if cfg.get('apart'):
            S.check(S.And(*[a != b for i, a in enumerate(got) for b in got[:i]]), 'one row per train')
        if not cfg.get('lossy'):
            S.check(len(got) == len(sel), 'one row per train')
            S.check(S.And(*[S.Or(*[g == t for g in got]) for t in sel]), 'dataframe index holds the train IDs')
        for nm, (s, k) in sorted(names.items()):
            col = df[nm].dropna()
            exp = R.expected(s, k, sel)
            labs, vals = S.elems(col.index.values)[1], S.elems(col.values)[1]
            S.check(len(labs) == len(exp), 'number of values in a column')
            S.check(S.And(*[S.Or(*[S.And(g == t, v == e[0]) for g, v in zip(labs, vals)]) for t, e in exp]),
                    'every entry of the field is in the row of its train')
        return
    ser = run.get_series(src, key)
    exp = R.expected(src, key, sel)
    if kind == 'name':
        S.check(ser.name == src + '/a.b', 'series name drops .value')
        S.check(run.get_series(CAMO, 'data.image.x.y').name == CAMO + '/data.image.x.y', 'series name')
    S.check(ser.name == src + '/' + (key[:-6] if key.endswith('.value') else key), 'series name')
    S.eq_array(ser.values, flat(exp), 'series values in train order', shape=(len(exp),),
               dtype=R.trailing(src, key)[1])
    if not exp:
        return
    if kind == 'pulse':
        # where a train has several entries the pulse ID is part of the label
        multi = len(ser.index.names) == 2
        if any(S.conc(R.count(src, key, t)) > 1 for t in sel):
            S.check(multi, 'pulse IDs label trains with several entries')
        if multi:
            S.check(list(ser.index.names) == ['trainId', 'pulseId'], 'labels: train and pulse IDs')
            lab = ser.index.get_level_values('trainId').values
            S.eq_array(ser.index.get_level_values('pulseId').values,
                       flat(R.expected(src, 'image.pulseId', sel)), 'pulse ID labels', shape=(len(exp),))
        else:
            lab = ser.index.values
    else:
        lab = ser.index.values
        S.check(ser.index.name == 'trainId', 'index is named trainId')
    S.eq_array(lab, [t for t, _ in exp], 'train ID labels', shape=(len(exp),))
