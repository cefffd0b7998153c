"""C06: select_trains keeps exactly the trains asked for."""
from .common import *

BOUNDS = ('up to 4 (thorough 6) trains in up to 3 files; slices with arbitrary integer bounds (train IDs 1..2^50, '
          'positions -7..7) or open ends and steps 1..3; lists of up to 2 arbitrary IDs, up to 3 positions; up to '
          'two selections in a row')


def configs(tier):
    out = []
    for files in ([4], [2, 1], [1, 1, 1]):
        out.append(dict(mode='id', files=files, then=None))
        out.append(dict(mode='idx', files=files, then=None))
    out.append(dict(mode='ids', files=[2, 1], then=None))
    out.append(dict(mode='idxs', files=[2, 1], then=None))
    out.append(dict(mode='idsarr', files=[2, 1], then=None))
    out.append(dict(mode='idxsarr', files=[2, 1], then=None))
    out.append(dict(mode='idxfew', files=[2, 1], then='id'))
    out.append(dict(mode='idxfew', files=[1, 1, 1], then='idxs'))
    out.append(dict(mode='ids', files=[2, 1], then='id'))
    out.append(dict(mode='bad', files=[2], then=None))
    if tier == 'thorough':
        out.append(dict(mode='id', files=[3, 3], then=None))
        out.append(dict(mode='idx', files=[3, 3], then=None))
        out.append(dict(mode='id', files=[2, 2], then='idx'))
        out.append(dict(mode='id', files=[2, 1], then='id'))
        out.append(dict(mode='idxs', files=[2, 2], then='ids'))
    return out


def select(S, run, have, mode, pre):
    """-> (run, kept) or None if the selection was (rightly) refused"""
    by_id, by_index = S.kd.by_id, S.kd.by_index
    if mode == 'id':
        oa, ob = S.bool(pre + 'openA'), S.bool(pre + 'openB')
        oa, ob = S.fork(oa), S.fork(ob)
        a = None if oa else S.int(pre + 'a', 1, 2 ** 50)
        b = None if ob else S.int(pre + 'b', 1, 2 ** 50)
        step = S.choose(pre + 'step', [None, 2])
        r = S.call(run.select_trains, by_id[a:b:step] if step is not None else by_id[a:b])
        if (b is not None and S.fork(b <= have[0])) or (a is not None and S.fork(a > have[-1])):
            # wholly before or after: an error (an end equal to the first train may give an empty result)
            if b is not None and S.fork(b == have[0]) and r.ok:
                S.check(len(r.value.train_ids) == 0, 'slice ending at the first train is empty')
                return None
            S.check(r.raised(ValueError), 'a slice wholly before or after the trains is an error')
            return None
        kept = [t for t in have if (a is None or S.fork(t >= a)) and (b is None or S.fork(t < b))]
        kept = kept[::step]
    elif mode == 'idx':
        oa, ob = S.fork(S.bool(pre + 'openA')), S.fork(S.bool(pre + 'openB'))
        a = None if oa else S.int(pre + 'a', -6, 6)
        b = None if ob else S.int(pre + 'b', -6, 6)
        step = S.choose(pre + 'step', [None, 2, 3])
        r = S.call(run.select_trains, by_index[a:b:step])
        ca = None if a is None else S.conc(a)
        cb = None if b is None else S.conc(b)
        kept = have[slice(ca, cb, step)]
    elif mode == 'idxfew':
        sl = S.choose(pre + 'few', [slice(1, None), slice(None, 2), slice(None, None, 2)])
        r = S.call(run.select_trains, by_index[sl])
        kept = have[sl]
    elif mode in ('ids', 'idsarr'):
        k = S.choose(pre + 'n', [1, 2])
        req = [S.int(pre + 'r%d' % i, 2 ** 20, 2 ** 50) for i in range(k)]
        sel = list(req)
        if mode == 'idsarr':
            sel = S.array(sel, 'u8')
        r = S.call(run.select_trains, by_id[sel])
        kept = [t for t in have if any(S.fork(q == t) for q in req)]
        if not kept:
            S.check(r.raised(ValueError), 'a list of unknown train IDs only is an error')
            return None
    elif mode in ('idxs', 'idxsarr'):
        k = S.choose(pre + 'n', [1, 2, 3] if mode == 'idxs' else [1, 2])
        n = len(have)
        req = [S.int(pre + 'r%d' % i, -n - 1, n) for i in range(k)]
        r = S.call(run.select_trains, by_index[list(req) if mode == 'idxs' else S.array(req, 'i8')])
        pos = [S.conc(q) for q in req]
        if any(p >= n or p < -n for p in pos):
            S.check(r.raised(IndexError), 'a position outside the collection is an error')
            return None
        pos = set(p % n for p in pos)
        kept = [t for i, t in enumerate(have) if i in pos]
    S.check(r.ok, 'a valid selection of trains is accepted')
    return r.value, kept


def check(S, R, run, sel, kept, before, snap, msg=''):
    S.check(len(sel.train_ids) == len(kept), msg + 'number of trains kept')
    S.check(S.And(*[a == b for a, b in zip(sel.train_ids, kept)]), msg + 'trains kept, in increasing order')
    names = set(f.filename for f in sel.files)
    want = set(f.path for f in R.files if any(t is k for t in f.tids for k in kept))
    S.check(names == want, msg + 'files without selected trains are dropped')
    S.check(len(sel.files) == len(names), msg + 'no file twice')
    for s in R.sources():
        inany = any((s in f.ctrl or s in f.inst) and f.path in want for f in R.files)
        S.check((s in sel.all_sources) == inany, msg + 'sources of the remaining files')
    S.check(len(run.train_ids) == len(before) and S.And(*[a == b for a, b in zip(run.train_ids, before)]),
            msg + 'the original collection keeps its trains')
    S.check([f.filename for f in run.files] == snap, msg + 'the original collection keeps its files')


def scenario(S, cfg):
    R = Run(S)
    tids = S.tids(sum(cfg['files']))
    pos = 0
    for k, n in enumerate(cfg['files']):
        R.add('f%d.h5' % k, tids[pos:pos + n], ctrl={XGM: {'a.value': ('f8', ())}},
              inst={DET0: {'image': dict(keys={'data': ('u2', ())}, counts=[1] * n, firsts=list(range(n)))}}
              if k != 1 else None)
        pos += n
    run = S.kd.DataCollection.from_paths(R.paths)
    S.check(len(run.train_ids) == len(tids), 'all trains')
    snap = [f.filename for f in run.files]
    if cfg['mode'] == 'bad':
        for bad in (3, by_id_int(S), S.kd.by_index[0], [1, 2]):
            S.check(S.call(run.select_trains, bad).raised(TypeError), 'other arguments are refused')
        return
    r = select(S, run, tids, cfg['mode'], 'A')
    if r is None:
        return
    sel, kept = r
    check(S, R, run, sel, kept, tids, snap)
    if cfg['then'] and kept:
        snap2 = [f.filename for f in sel.files]
        r = select(S, sel, kept, cfg['then'], 'B')
        if r is None:
            return
        check(S, R, sel, r[0], r[1], kept, snap2, 'second selection: ')


def by_id_int(S):
    return S.kd.by_id[3]
