"""C08: union merges sources and trains; conflicting files are refused."""
from .common import *

BOUNDS = ('two or three files with two trains each whose IDs are in any relation (including equal IDs across files), '
          'sources shared by all, some or no files; unions of up to three collections, of whole files or of '
          'selections of sources, keys and trains of one run or of two files')

MOT = 'SPB_XTD9/MOTOR/Z'


def configs(tier):
    out = []
    for share in ('same', 'mixed', 'none'):
        out.append(dict(mode='files', n=2, share=share))
        out.append(dict(mode='open', n=2, share=share))
    out.append(dict(mode='files3', n=3, share='mixed'))
    out.append(dict(mode='open3', n=3, share='mixed'))
    out.append(dict(mode='files3', n=3, share='same', each=1))
    out.append(dict(mode='open3', n=3, share='same', each=1))
    out.append(dict(mode='files3', n=3, share='same', each=[1, 2, 1]))
    out.append(dict(mode='open3', n=3, share='same', each=[1, 2, 1]))
    out.append(dict(mode='unselected', n=2, share='mixed'))
    out.append(dict(mode='subsets', n=2))
    out.append(dict(mode='again', n=1))
    if tier == 'thorough':
        out.append(dict(mode='files3', n=3, share='same'))
        out.append(dict(mode='open3', n=3, share='same'))
        out.append(dict(mode='subsets', n=3))
    return out


def keyset(run):
    return {s: set(run.keys_for_source(s)) for s in run.all_sources}


def check_union(S, R, u, parts, sel, alltids, dropped=()):
    want = []
    for t in alltids:
        if not any(S.fork(t == o) for o in want):
            want.append(t)
    S.check(len(u.train_ids) == len(want), 'trains of the union, without duplicates')
    got = list(u.train_ids)
    S.check(S.And(*[a < b for a, b in zip(got, got[1:])]), 'trains in increasing order')
    S.check(S.And(*[S.Or(*[g == t for g in got]) for t in want]), 'all trains of all collections')
    ks = keyset(u)
    for s in dropped:
        # selected in a collection whose trains have no file of that source: may reappear in the union
        if s in ks:
            S.check(ks[s] <= R.keys(s), 'keys of the union')
            ks.pop(s), sel.pop(s, None)
    S.check(ks == sel, 'sources and keys of the union')


def build_files(S, cfg, R):
    """files whose train IDs are unrelated"""
    share = cfg['share']
    for i in range(cfg['n']):
        each = cfg.get('each', 2 if i < 2 else 1)
        ts = S.tids(each[i] if isinstance(each, list) else each, prefix='f%dt' % i)
        ctrl, inst = {}, {}
        if share == 'same':
            ctrl[XGM] = {'a.value': ('f8', ())}
        elif share == 'mixed':
            if i != 1:
                ctrl[XGM] = {'a.value': ('f8', ())}
            if i != 0:
                inst[DET0] = {'image': dict(keys={'data': ('u2', ())}, maxc=1, hi=0, counts=[1] * len(ts),
                                            firsts=list(range(len(ts))))}
        else:
            ctrl[['A/B/C', 'D/E/F', 'G/H/I'][i]] = {'a.value': ('f8', ())}
        R.add('f%d.h5' % i, ts, ctrl=ctrl, inst=inst)


def conflict(S, R):
    """is there a source with the same train in two files?"""
    for i, f in enumerate(R.files):
        for g in R.files[:i]:
            if (set(f.ctrl) | set(f.inst)) & (set(g.ctrl) | set(g.inst)):
                if any(S.fork(a == b) for a in f.tids for b in g.tids):
                    return True
    return False


def scenario(S, cfg):
    R = Run(S)
    DC = S.kd.DataCollection
    if cfg['mode'] in ('files', 'files3', 'open', 'open3'):
        build_files(S, cfg, R)
        if cfg['mode'].startswith('files'):
            parts = [S.kd.H5File(p) for p in R.paths]
            order = S.choose('order', [0, 1])
            ps = parts[::-1] if order else parts
            r = S.call(ps[0].union, *ps[1:])
        else:
            parts = []
            order = S.choose('order', [0, 1])
            r = S.call(DC.from_paths, R.paths[::-1] if order else R.paths)
        if conflict(S, R):
            S.check(r.raised(ValueError), 'the same source and train in two files is refused')
            return
        S.check(r.ok, 'files without conflicting data are accepted')
        u = r.value
        sel = {s: R.keys(s) for s in R.sources()}
        check_union(S, R, u, parts, sel, [t for f in R.files for t in f.tids])
        # read a train of the first or second file
        fi = S.choose('file', list(range(cfg['n'])))
        f = R.files[fi]
        ti = S.choose('train', list(range(len(f.tids))))
        tid, data = u.train_from_id(f.tids[ti])
        for s in set(f.ctrl) | set(f.inst):
            for k in R.keys(s):
                d = f.ctrl[s][k] if s in f.ctrl else f.inst[s]['image'].keys['data']
                S.check(k in data[s], 'data of the train is in the union')
                S.eq_array(data[s][k], d.row(ti), 'same data as the file has for this train')
        for s in R.sources():
            if s in f.ctrl or s in f.inst:
                continue
            # another file may have this train as well
            there = any(S.fork(t == f.tids[ti]) for g in R.files if (s in g.ctrl or s in g.inst) for t in g.tids)
            S.check((len(data[s]) > 1) == there, 'data from other files exactly for the trains they have')
        return
    if cfg['mode'] == 'unselected':
        # both files have a source which is left out of the collections joined
        for i in (0, 1):
            ts = S.tids(2, prefix='f%dt' % i)
            R.add('f%d.h5' % i, ts, ctrl={XGM: {'a.value': ('f8', ())}, ['A/B/C', 'D/E/F'][i]: {'a.value': ('f8', ())}})
        parts = [S.kd.H5File(p) for p in R.paths]
        keep = S.choose('keep', [0, 1])
        ps = [p.deselect(XGM) if keep or i else p for i, p in enumerate(parts)]
        r = S.call(ps[0].union, ps[1])
        if conflict(S, R):
            S.check(r.raised(ValueError), 'the same source and train in two files is refused')
            return
        S.check(r.ok, 'files without conflicting data are accepted')
        sel = {s: R.keys(s) for s in R.sources() if s != XGM or not keep}
        if not keep:
            got = keyset(r.value)
            S.check(got == sel, 'sources and keys of the union')
        else:
            check_union(S, R, r.value, parts, sel, [t for f in R.files for t in f.tids])
        return
    # selections of the same run
    tids = S.tids(3)
    n = cfg['n']

    def inst(m, src=DET0):
        return {src: {'image': dict(keys={'data': ('u2', ()), 'cellId': ('u2', ())}, counts=[1] * m,
                                    firsts=list(range(m)))}}
    ctrl = {'a.value': ('f8', ()), 'b.value': ('f8', ())}
    R.add('a.h5', tids[:2], ctrl={XGM: ctrl}, inst=inst(2))
    R.add('b.h5', tids[2:], inst=inst(1))
    run = DC.from_paths(R.paths)
    if cfg['mode'] == 'again':
        # the same file opened twice is not a conflict
        other = DC.from_paths(R.paths[:1])
        r = S.call(run.union, other)
        S.check(r.ok, 'joining a collection with one using the same file')
        check_union(S, R, r.value, [], {s: R.keys(s) for s in R.sources()}, tids)
        S.check(len(r.value.files) == 2, 'each file once')
        check_train(S, R, r.value.train_from_id(tids[1])[1], tids[1])
        return
    parts, sel, alltids, kept, dropped = [], {}, [], [], set()
    full = {s: R.keys(s) for s in R.sources()}
    for i in range(n):
        k = S.choose('part%d' % i, [0, 1, 2, 3, 4, 5])
        p, q, ts = run, dict(full), list(tids)
        if k == 1:
            p, q = run.select(DET0, 'image.data'), {DET0: {'image.data'}}
        elif k == 2:
            p, q = run.select({DET0: {'image.cellId'}, XGM: set()}), {DET0: {'image.cellId'}, XGM: full[XGM]}
        elif k == 3:
            p, q = run.select(XGM, 'a.*'), {XGM: {'a.value'}}
        if k == 4 or (k in (1, 2) and S.fork(S.bool('cut%d' % i))):
            j = S.choose('cutat%d' % i, [0, 1, 2])
            p, ts = p.select_trains(S.kd.by_index[j:j + 1]), [tids[j]]
            if j == 2:
                if XGM in q:
                    dropped = {XGM}
                q = {s: v for s, v in q.items() if s != XGM}
        if k == 5:
            p, q, ts = S.kd.H5File(R.paths[1]), {DET0: full[DET0]}, [tids[2]]
        parts.append(p)
        kept.append((q, ts))
        for s, v in q.items():
            sel[s] = sel.get(s, set()) | v
        alltids += ts
    before = [(keyset(p), list(p.train_ids)) for p in parts]
    u = parts[0].union(*parts[1:])
    check_union(S, R, u, parts, sel, [t for t in tids if any(t is x for x in alltids)], dropped)
    for p, (ks, ts) in zip(parts, before):
        S.check(keyset(p) == ks and len(p.train_ids) == len(ts), 'the joined collections are not changed')
    w = S.choose('w', [0, 1, 2])
    t = tids[w]
    if not any(t is x for x in alltids):
        return
    data = u.train_from_id(t)[1]
    for s, d in data.items():
        S.check(d['metadata']['source'] == s, 'metadata')
        for k in d:
            if k != 'metadata':
                ds, f, c = R.rows(s, k, t)
                S.eq_array(d[k], ds.row(f), 'data in the union is the stored data')
    for (q, ts), p in zip(kept, parts):
        if not any(t is x for x in ts):
            continue
        for s, ks in q.items():
            for k in ks:
                if S.conc(R.count(s, k, t)):
                    S.check(k in data[s], 'the union has the data which the joined collection has')
