"""C02: trains() yields the selected trains in order, with the content
train_from_id gives; require_all drops exactly the incomplete trains."""
from .common import *

BOUNDS = ('3 trains in 1-3 files (two orders), counts 0..2 (0..1 where several groups vary), arbitrary first rows '
          '0..100, control + up to two instrument sources, selections of keys and trains, require_all both ways')


def configs(tier):
    out = []
    for ra in (0, 1):
        out.append(dict(layout='one', order=0, require=ra, style='count'))
        out.append(dict(layout='split', order=0, require=ra, style='count'))
        out.append(dict(layout='split', order=1, require=ra, style='status'))
        out.append(dict(layout='alt', order=0, require=ra, style='count'))
        out.append(dict(layout='alt', order=1, require=ra, style='count'))
        out.append(dict(layout='split', order=0, require=ra, style='count', sel=1))
        out.append(dict(layout='split', order=0, require=ra, style='count', range=1))
        out.append(dict(layout='lossy', order=0, require=ra, style='count', maxc=1))
    if tier == 'thorough':
        for ra in (0, 1):
            out.append(dict(layout='alt', order=1, require=ra, style='status', maxc=3))
            out.append(dict(layout='split', order=1, require=ra, style='count', sel=1, range=1, maxc=3))
            out.append(dict(layout='long', order=1, require=ra, style='count'))
    return out


def build(S, cfg, R):
    style, maxc = cfg['style'], cfg.get('maxc', 2)

    def ctrl():
        return {XGM: {'a.b.value': ('f8', ())}}

    def inst(src, c=maxc, two=False):
        g = {'image': dict(keys={'data': ('u4', (2,)), 'cellId': ('u2', ())}, style=style, maxc=c,
                           free=True, hi=100)}
        if two:
            g['image2'] = dict(keys={'x.id': ('f4', ())}, style=style, maxc=1, free=True, hi=50)
        return {src: g}
    lay = cfg['layout']
    if lay == 'one':
        tids = S.tids(3)
        R.add('a.h5', tids, ctrl=ctrl(), inst=inst(DET0, two=True))
    elif lay == 'split':
        tids = S.tids(3)
        R.add('a.h5', tids[:2], ctrl=ctrl(), inst=inst(DET0))
        R.add('b.h5', tids[2:], inst=inst(DET0))
    elif lay == 'lossy':
        tids = S.tids(3)
        R.add('a.h5', tids, ctrl=ctrl(), inst=inst(DET0), ctrl_index={XGM: lossy_index(S, 3, 'x')})
    elif lay == 'long':
        tids = S.tids(5)
        R.add('a.h5', tids[:3], ctrl=ctrl(), inst=inst(DET0))
        R.add('b.h5', tids[3:], ctrl=ctrl(), inst=inst(DET0))
    else:
        # the files of a source alternate: 1st and 3rd train in one, 2nd in another
        tids = S.tids(3)
        R.add('a.h5', [tids[0], tids[2]], ctrl=ctrl(), inst=inst(DET0))
        R.add('b.h5', [tids[1]], ctrl=ctrl(), inst=inst(DET0))
        R.add('c.h5', tids[1:], inst={DET1: {'image': dict(keys={'data': ('i2', ())}, style=style,
                                                           maxc=1, free=True, hi=20)}})
    return tids


def scenario(S, cfg):
    R = Run(S)
    tids = build(S, cfg, R)
    paths = R.paths[::-1] if cfg['order'] else R.paths
    run = S.kd.DataCollection.from_paths(paths)
    kw = {}
    sel = {s: R.keys(s) for s in R.sources()}
    want = list(tids)
    if cfg.get('sel'):
        k = S.choose('sel', [0, 1])
        if k == 0:
            kw['devices'] = [(DET0, 'image.data')]
            sel = {DET0: {'image.data'}}
        else:
            run = run.select({DET0: {'image.cellId'}, XGM: set()})
            sel = {DET0: {'image.cellId'}, XGM: R.keys(XGM)}
    if cfg.get('range'):
        k = S.choose('range', [0, 1, 2])
        n = len(tids)
        if k == 0:
            kw['train_range'] = S.kd.by_index[1:]
            want = tids[1:]
        elif k == 1:
            kw['train_range'] = S.kd.by_id[tids[0]:tids[n - 1]]
            want = tids[:n - 1]
        else:
            run = run.select_trains(S.kd.by_id[[tids[n - 1], tids[0]]])
            want = [tids[0], tids[n - 1]]
    if cfg['require']:
        kw['require_all'] = True
    got = list(run.trains(**kw))
    if cfg['require']:
        keep = []
        for t in want:
            full = True
            for s, keys in sorted(sel.items()):
                for g in sorted(set(k.partition('.')[0] for k in keys)):
                    key = sorted(k for k in keys if k.partition('.')[0] == g)[0]
                    c = R.count(s, key, t)
                    if not S.fork(c > 0):
                        full = False
            if full:
                keep.append(t)
        want = keep
    S.check(len(got) == len(want), 'number of trains yielded')
    for (tid, data), t in zip(got, want):
        S.check(tid == t, 'train IDs in order')
        check_train(S, R, data, t, sel=sel, msg='iterated train')
