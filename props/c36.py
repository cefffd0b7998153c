"""C36: exactly the trains, sources and keys of a collection can be read from it."""
from .common import *

BOUNDS = ('2 files with 4 trains of any train IDs, 4 sources with 8 fields and 0..1 entries per train; collections made by up to two '
          'selections, deselections, train selections or unions drawn from 16; asked for every field of the files and near misses of '
          'their names, any train ID 0..2^51, positions -6..6')

CAMX = CAMO + 'X'
FIELDS = [(XGM, 'a.value'), (XGM, 'a.timestamp'), (XGM, 'b.c.value'), (CAM, 'a.value'), (CAMO, 'data.x'), (CAMO, 'data.y'),
          (CAMO, 'other.x'), (CAMX, 'data.x')]
NEAR = [(XGM, 'a'), (XGM, 'b.c'), (XGM, 'A.value'), (XGM, 'a/value'), (XGM, ''), (XGM, 'metadata'), (CAMO, 'data'), (CAMO, 'data.'),
        (CAMO, 'x'), (CAMO, 'data.x.value'), (CAMO, 'a.value'), (CAMX, 'data.y'), (XGM.lower(), 'a.value'), (XGM + '/', 'a.value'),
        ('', 'a.value'), ('*', '*'), (XGM.rpartition('/')[0], 'a.value'), ('CONTROL/' + XGM, 'a.value'), (CAM + ':', 'data.x')]
METHODS = ['get_array', 'get_dask_array', 'get_series', 'get_data_counts', 'get_virtual_dataset', 'keys_for_source']

# name: (what it does to the run, which fields remain, which trains remain (positions) or None for all)
def _only(*pairs):
    return lambda have: {f for f in have if f in pairs or (f[0], None) in pairs}


def _not(*pairs):
    return lambda have: {f for f in have if not (f in pairs or (f[0], None) in pairs)}


OPS = {
    'glob': (lambda S, r, t: r.select('*', '*.x'), _only((CAMO, 'data.x'), (CAMO, 'other.x'), (CAMX, 'data.x'))),
    'src': (lambda S, r, t: r.select('*XGM*'), _only((XGM, None))),
    'list': (lambda S, r, t: r.select([('*XGM*', 'a'), ('*Output', 'data.*')]),
             _only((XGM, 'a.value'), (CAMO, 'data.x'), (CAMO, 'data.y'))),
    'dict': (lambda S, r, t: r.select({XGM: {'a.value', 'b.c.value'}, CAMO: set()}),
             _only((XGM, 'a.value'), (XGM, 'b.c.value'), (CAMO, None))),
    'deglob': (lambda S, r, t: r.deselect('*', 'data.*'), _not((CAMO, 'data.x'), (CAMO, 'data.y'), (CAMX, 'data.x'))),
    'desrc': (lambda S, r, t: r.deselect('*XGM*'), _not((XGM, None))),
    'dekey': (lambda S, r, t: r.deselect(XGM, 'a.value'), _not((XGM, 'a.value'))),
    'dedict': (lambda S, r, t: r.deselect({CAMO: {'other.x'}, CAM: set()}), _not((CAMO, 'other.x'), (CAM, None))),
}
# trains kept, as positions among those of the collection
TRAINS = {
    'first': lambda n: [0], 'tail': lambda n: list(range(1, n)), 'ends': lambda n: sorted({0, n - 1}), 'none': lambda n: [],
}


def configs(tier):
    out = []
    names = list(OPS)
    for i, a in enumerate(names):
        out.append(dict(ops=[a], ask='fields'))
        out.append(dict(ops=[a, names[(3 * i + 4) % len(names)]], ask='fields', same=1))
        out.append(dict(ops=[a, list(TRAINS)[i % 3]], ask='fields', same=1))
    for a in ('list', 'dict', 'dekey'):
        out.append(dict(ops=[a, 'src'], ask='fields', same=1))
    out.append(dict(ops=['glob', 'desrc'], ask='fields', same=1))
    out.append(dict(ops=['dedict', 'deglob'], ask='fields', same=1))
    out.append(dict(ops=[], ask='fields'))
    out.append(dict(ops=['union'], ask='fields'))
    out.append(dict(ops=['dekey', 'union'], ask='fields'))
    for a in TRAINS:
        out.append(dict(ops=[a], ask='train'))
    out.append(dict(ops=[], ask='train'))
    out.append(dict(ops=['tail', 'ends'], ask='train'))
    out.append(dict(ops=['src', 'tail'], ask='train'))
    out.append(dict(ops=['first', 'union'], ask='train'))
    out.append(dict(ops=['dict', 'ends'], ask='train'))
    out.append(dict(ops=['desrc', 'tail'], ask='train'))
    for a in ('dict', 'dekey', 'desrc', 'list', 'glob'):
        out.append(dict(ops=[a], ask='devices'))
    if tier == 'thorough':
        for a in names:
            for b in names:
                out.append(dict(ops=[a, b], ask='fields', same=1))
            for b in TRAINS:
                out.append(dict(ops=[b, a], ask='train'))
            out.append(dict(ops=[a, 'union'], ask='train'))
            out.append(dict(ops=[a, 'union'], ask='fields'))
    return out


def build(S, cfg, R):
    tids = S.tids(4)
    for k, ts in enumerate((tids[:2], tids[2:])):
        n = len(ts)
        ctrl = {XGM: {k: ('f4' if k != 'a.timestamp' else 'u8', ()) for s, k in FIELDS if s == XGM}, CAM: {'a.value': ('i4', ())}}
        inst = {CAMO: {'data': dict(keys={'x': ('u2', ()), 'y': ('f4', ())}, counts=[1] * n if cfg.get('same') or cfg['ask'] != 'fields' else None, maxc=1,
                                    hi=0),
                       'other': dict(keys={'x': ('u2', ())}, counts=[1] * n, firsts=list(range(n)))}}
        if k == 1 or any(o in TRAINS or o == 'union' for o in cfg['ops']):
            # (a source in none of the files with selected trains may be dropped)
            inst[CAMX] = {'data': dict(keys={'x': ('u2', ())}, counts=[1] * n, firsts=list(range(n)))}
        R.add('f%d.h5' % k, ts, ctrl=ctrl, inst=inst)
    return tids


def derive(S, cfg, R, tids):
    """-> (collection, its fields, its trains)"""
    whole = S.kd.DataCollection.from_paths(R.paths)
    run, have, trains = whole, set(FIELDS), list(tids)
    for i, op in enumerate(cfg['ops']):
        if op in OPS:
            make, keep = OPS[op]
            new = keep(have)
            r = S.call(make, S, run, tids)
            if op in ('dict', 'dedict', 'list', 'dekey', 'src', 'desrc', 'glob', 'deglob') and not r.ok:
                # what is asked for isn't part of the collection: refused, see C07
                S.check(r.raised(KeyError, ValueError), 'a selection is accepted or refused for what it names')
                S.check(i > 0, 'a selection from the whole run is accepted')
                continue
            run, have = r.value, new
        elif op in TRAINS:
            pick = TRAINS[op](len(trains))
            how = S.choose('how%d' % i, ['index', 'slice'] if op == 'none' else ['ids', 'index'])
            if op == 'none':
                run = run.select_trains(S.kd.by_index[:0] if how == 'index' else S.kd.by_index[4:])
            elif how == 'ids':
                run = run.select_trains(S.kd.by_id[[trains[j] for j in pick]])
            else:
                run = run.select_trains(S.kd.by_index[pick])
            trains = [trains[j] for j in pick]
        elif op == 'union':
            # with another selection from the same run
            other = whole.select({CAM: set(), XGM: {'a.timestamp'}}).select_trains(S.kd.by_index[[1, 3]])
            run = run.union(other) if S.fork(S.bool('swap%d' % i)) else other.union(run)
            have = have | {f for f in FIELDS if f[0] == CAM} | {(XGM, 'a.timestamp')}
            trains = [t for t in tids if any(t is u for u in trains + [tids[1], tids[3]])]
    return run, have, trains


def same(S, a, b):
    return S.And(len(a) == len(b), *[x == y for x, y in zip(a, b)])


def ask_field(S, run, have, src, key, method, number):
    srcs = {s for s, k in have}
    if method == 'keys_for_source':
        r = S.call(run.keys_for_source, src)
        if src in srcs:
            S.check(r.ok and set(r.value) == {k for s, k in have if s == src}, 'the keys of a source are those of the collection')
        else:
            S.check(r.raised(KeyError), 'keys of a source outside the collection: refused')
        return
    args = ()
    if method == 'get_virtual_dataset':
        args = (S.path('virtual%d.h5' % number),)
    r = S.call(getattr(run, method), src, key, *args)
    if (src, key) in have:
        S.check(r.ok, '%s: a field of the collection can be read' % method)
        if method == 'get_virtual_dataset':
            r.value.file.close()
        return
    if src not in srcs:
        S.check(r.raised('SourceNameError') and r.raised(KeyError), '%s: a source outside the collection is refused' % method)
        S.check(r.exc.source == src and src in str(r.exc), '%s: the error names the source' % method)
    else:
        S.check(r.raised('PropertyNameError') and r.raised(KeyError), '%s: a key outside the collection is refused' % method)
        S.check(r.exc.source == src and r.exc.prop == key and src in str(r.exc) and key in str(r.exc),
                '%s: the error names the source and the key' % method)
    if method == 'get_virtual_dataset':
        S.check(not S.call(S.kd.H5File, args[0]).ok, 'nothing is written for a field outside the collection')


def scenario(S, cfg):
    R = Run(S)
    tids = build(S, cfg, R)
    run, have, trains = derive(S, cfg, R, tids)
    S.check(len(run.train_ids) == len(trains), 'number of trains of the collection')
    S.check(same(S, list(run.train_ids), trains), 'trains of the collection')
    if cfg['ask'] == 'fields':
        method = S.choose('method', METHODS)
        pool = FIELDS + NEAR
        some = S.choose('part', [0, 1, 2])
        for i, (src, key) in enumerate(pool[some::3]):
            ask_field(S, run, have, src, key, method, i)
    elif cfg['ask'] == 'train':
        way = S.choose('way', ['id', 'index', 'info', 'select', 'devices'])
        if way == 'index':
            i = S.conc(S.int('i', -6, 6))
            r = S.call(run.train_from_index, i)
            if not -len(trains) <= i < len(trains):
                S.check(r.raised(IndexError), 'a position outside the collection is refused')
                return
            S.check(r.ok, 'a position in the collection is accepted')
            t = trains[i]
        else:
            t = S.int('t', 0, 2 ** 51)
            inside = S.fork(S.Or(*[t == u for u in trains])) if trains else False
            if way == 'info':
                r, text = S.capture(run.train_info, t)
                S.check(r.ok if inside else r.raised(ValueError), 'the summary of a train is shown for trains of the collection only')
                return
            if way == 'select':
                r = S.call(run.select_trains, S.kd.by_id[[t]])
                S.check(r.ok if inside else r.raised(ValueError), 'a list of trains without any of the collection is refused')
                return
            r = S.call(run.train_from_id, t, *([{s: set() for s, k in have}] if way == 'devices' else []))
            if not inside:
                S.check(r.raised('TrainIDError') and r.raised(KeyError), 'a train outside the collection is refused')
                S.check(S.And(r.exc.train_id == t), 'the error names the train')
                return
            S.check(r.ok, 'a train of the collection can be read')
        tid, data = r.value
        S.check(tid == t, 'the train asked for is returned')
        fi = [f for f in R.files if any(S.fork(u == t) for u in f.tids)]
        S.check(len(fi) == 1, 'a train is in one file')
        got = {(s, k) for s, d in data.items() for k in d if k != 'metadata'}
        S.check(got <= have, 'only fields of the collection are read')
        S.check({f for f in have if f[0] in (XGM, CAM)} <= got, 'control fields of the collection are read')
    else:
        src, key = S.choose('asked', [f for f in FIELDS + NEAR[:12] if f not in have] + [(XGM + '/', None), ('*', None)])
        sel = {src: {key} if key else set()}
        mine = sorted(k for s, k in have if s == src)
        if mine and key and S.fork(S.bool('with')):
            sel[src] = {mine[0], key}
        if S.fork(S.bool('more')):
            s, k = sorted(have)[0]
            if s != src:
                sel = dict([(s, {k})] + list(sel.items())) if S.fork(S.bool('before')) else dict(list(sel.items()) + [(s, {k})])
        via = S.choose('via', ['train', 'index', 'trains', 'select', 'deselect'])
        if via == 'train':
            r = S.call(run.train_from_id, tids[2], sel)
        elif via == 'index':
            r = S.call(run.train_from_index, 1, devices=sel)
        elif via == 'trains':
            r = S.call(lambda: list(run.trains(sel)))
        else:
            r = S.call(getattr(run, via), sel)
        if src in {s for s, k in have} and key:
            S.check(r.raised('PropertyNameError'), 'keys outside the collection are refused as devices')
            S.check(r.exc.source == src and r.exc.prop == key, 'the error names the source and the key')
        elif key or src not in {s for s, k in have}:
            S.check(r.raised('SourceNameError'), 'sources outside the collection are refused as devices')
            S.check(r.exc.source == src, 'the error names the source')
