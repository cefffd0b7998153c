"""C01: train_from_id / train_from_index return exactly the rows the index
assigns to that train."""
from .common import *

BOUNDS = ('3 trains in 1-3 files (opened in both orders), up to 2 entries per train and group with independent '
          'arbitrary first rows 0..70000, 2 sources of each kind, first/count and first/last/status indexes; train '
          'IDs 2^20..2^50; dataset rows otherwise unbounded')


def configs(tier):
    out = []
    for style in ('count', 'status'):
        out.append(dict(layout='split', style=style, order=0))
        out.append(dict(layout='split', style=style, order=1))
    out.append(dict(layout='one', style='count', order=0))
    out.append(dict(layout='one', style='status', order=0, version='1.0', pad=1))
    out.append(dict(layout='many', style='count', order=0))
    out.append(dict(layout='many', style='count', order=1))
    out.append(dict(layout='split', style='count', order=0, sel=1))
    out.append(dict(layout='lossy', style='count', order=0))
    out.append(dict(layout='split', style='count', order=1, cut=1))
    out.append(dict(layout='one', style='status', order=0, big=1))
    if tier == 'thorough':
        out.append(dict(layout='split', style='count', order=1, maxc=3))
        out.append(dict(layout='long', style='count', order=0, maxc=2))
        out.append(dict(layout='many', style='status', order=1, maxc=3))
    return out


def build(S, cfg, R):
    style, maxc = cfg['style'], cfg.get('maxc', 2)
    kw = dict(version=cfg.get('version', '0.5'), pad=cfg.get('pad', 0))

    def ctrl():
        return {XGM: {'a.b.value': ('f8', ()), 'v.value': ('i4', (2,))}}

    def inst(src, free=True, n=None):
        return {src: {'image': dict(keys={'data': ('u4', (2,)), 'pulseId': ('u8', ())}, style=style,
                                    maxc=maxc, free=free, hi=70000, **({'counts': [300, 270, 0][:n]} if cfg.get('big') else {})),
                      'image2': dict(keys={'x.id': ('f4', ())}, style=style, maxc=1, free=True, hi=50)}}
    lay = cfg['layout']
    if lay == 'one':
        tids = S.tids(3)
        R.add('a.h5', tids, ctrl=ctrl(), inst=inst(DET0, n=3), **kw)
    elif lay == 'lossy':
        tids = S.tids(3)
        R.add('a.h5', tids, ctrl=ctrl(), inst=inst(DET0), ctrl_index={XGM: lossy_index(S, 3, 'x')}, **kw)
    elif lay == 'long':
        tids = S.tids(5)
        R.add('a.h5', tids[:3], ctrl=ctrl(), inst=inst(DET0), **kw)
        R.add('b.h5', tids[3:], ctrl=ctrl(), inst=inst(DET0), **kw)
    elif lay == 'split':
        tids = S.tids(3)
        R.add('a.h5', tids[:2], ctrl=ctrl(), inst=inst(DET0), **kw)
        R.add('b.h5', tids[2:], inst=inst(DET0), **kw)
    else:
        tids = S.tids(3)
        R.add('a.h5', tids[:2], ctrl=ctrl(), **kw)
        R.add('b.h5', tids[1:], inst=inst(DET0), **kw)
        R.add('c.h5', [tids[0], tids[2]], inst={DET1: {'image': dict(keys={'data': ('i2', ())}, style=style,
                                                                     maxc=1, free=True, hi=20)}}, **kw)
    return tids


def scenario(S, cfg):
    R = Run(S)
    tids = build(S, cfg, R)
    paths = R.paths[::-1] if cfg['order'] else R.paths
    run = S.kd.H5File(paths[0]) if len(paths) == 1 else S.kd.DataCollection.from_paths(paths)
    w = S.choose('which', list(range(len(tids))))
    sel = None
    devices = None
    if cfg.get('cut'):
        # of a selection of trains: the others are no longer known
        k = S.choose('cut', [0, 1])
        run = run.select_trains(S.kd.by_index[1:] if k == 0 else S.kd.by_id[[tids[0], tids[2]]])
        gone = [tids[k]]
        for t in gone:
            S.check(S.call(run.train_from_id, t).raised(KeyError), 'a train which was not selected raises KeyError')
            S.check(S.call(run.train_from_index, 2).raised(IndexError), 'a position beyond the selection is an error')
        tids = [t for t in tids if not any(t is g for g in gone)]
        w = S.choose('whichcut', [0, 1])
    if cfg.get('sel'):
        devices = S.choose('dev', [[(DET0, 'image.data')], [('*XGM*', '*')],
                                   {DET0: {'image2.x.id'}, XGM: {'a.b.value'}}])
        sel = {0: {DET0: {'image.data'}}, 1: {XGM: R.keys(XGM)},
               2: {DET0: {'image2.x.id'}, XGM: {'a.b.value'}}}[S.choose('dev', [0, 1, 2])]
    by = S.choose('by', ['id', 'index', 'negindex', 'unknown'])
    if by == 'id':
        tid, data = run.train_from_id(tids[w], devices=devices)
    elif by == 'index':
        tid, data = run.train_from_index(w, devices=devices)
    elif by == 'negindex':
        tid, data = run.train_from_index(w - len(tids), devices=devices)
    else:
        u = S.int('u', 1, 2 ** 50)
        for t in tids:
            S.assume(u != t)
        r = S.call(run.train_from_id, u, devices=devices)
        S.check(r.raised(KeyError), 'a train ID which is not in the data raises KeyError')
        return
    S.check(tid == tids[w], "returned train id")
    check_train(S, R, data, tids[w], sel=sel)
