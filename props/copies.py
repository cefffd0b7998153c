"""Scenario shared by C10 (written copies) and C11 (virtual copies)"""
from .common import *

MOT = 'SPB_XTD9/MOTOR/Z'


def build(S, cfg, R):
    files = cfg['files']
    tids = S.tids(sum(files)) if not cfg.get('known') else [1 << 40 | 3 * i for i in range(sum(files))]
    kind = cfg['kind']
    maxc = cfg.get('maxc', 2)
    for k, ts in enumerate(spread(S, cfg, tids)):
        ctrl, inst, kw = {}, {}, {}
        if kind in ('ctrl', 'mixed', 'miss'):
            ctrl = {XGM: {'a.b.value': ('f8', (2,)), 'a.b.timestamp': ('u8', ())}}
            if cfg.get('lossy'):
                kw['ctrl_index'] = {XGM: lossy_index(S, len(ts), 'x%d_' % k)}
        if kind == 'ctrl':
            ctrl[XGM]['c.value'] = ('f4', (1, 2))
        if kind == 'miss' and k == 1:        # this file lacks the control source
            ctrl = {MOT: {'pos.value': ('u1', (1,))}}
        if kind in ('inst', 'mixed', 'two', 'miss'):
            inst = {DET0: {'image': dict(keys={'data': ('u4' if cfg.get('big') else 'u2', (2,)), 'pulseId': ('u8', ())}, maxc=maxc,
                                         style=cfg.get('style', 'count'),
                                         **({'counts': [cfg['big'], 270, 2][-len(ts):]} if cfg.get('big') else {}),
                                         **({'hi': 0} if cfg.get('known') else {}))}}
            if kind == 'two':
                inst[DET0]['rawHead'] = dict(keys={'id': ('i4', ()), 'sub.id': ('i1', ())}, maxc=1, hi=20)
                if k == 0:
                    inst[CAMO] = {'data': dict(keys={'image.x': ('f2', (1,))}, maxc=1)}
        R.add('f%d.h5' % k, ts, ctrl=ctrl, inst=inst, pad=0 if ts else 1, **kw)
    return tids


def configs(tier):
    out = []
    out.append(dict(kind='ctrl', files=[2, 1], order=1))
    out.append(dict(kind='ctrl', files=[3], order=0, sel=1))
    out.append(dict(kind='ctrl', files=[2, 1], order=0, lossy=1))
    out.append(dict(kind='inst', files=[2, 1], order=1, sel=1, big=300))
    out.append(dict(kind='inst', files=[3], order=0, big=66000, known=1))
    out.append(dict(kind='ctrl', files=[280], order=0, known=1))
    out.append(dict(kind='inst', files=[2, 1], order=1))
    out.append(dict(kind='inst', files=[3], order=0, sel=1, maxc=1, style='status'))
    out.append(dict(kind='inst', files=[2, 2], order=1, sel=1, maxc=1))
    out.append(dict(kind='inst', files=[1, 0, 1], order=1))
    out.append(dict(kind='ctrl', files=[2, 2], order=1, inter=1))
    out.append(dict(kind='inst', files=[2, 2], order=1, inter=1, maxc=1))
    out.append(dict(kind='miss', files=[1, 2], order=0, maxc=1))
    out.append(dict(kind='miss', files=[2, 1], order=1, maxc=1, sel=1))
    out.append(dict(kind='two', files=[1, 1], order=0))
    out.append(dict(kind='mixed', files=[2], order=0, keys=1))
    out.append(dict(kind='two', files=[1, 1], order=1, keys=1, maxc=1))
    if tier == 'thorough':
        out.append(dict(kind='inst', files=[2, 2], order=1, sel=1))
        out.append(dict(kind='inst', files=[2, 2], order=1, inter=1, sel=1))
        out.append(dict(kind='inst', files=[2, 1], order=1, maxc=4))
        out.append(dict(kind='inst', files=[1, 1, 1, 1], order=1))
        out.append(dict(kind='miss', files=[1, 2, 1], order=1, sel=1))
        out.append(dict(kind='two', files=[2, 1], order=1))
    return out


def select(S, cfg, R, run, tids):
    sel = list(tids)
    if cfg.get('sel'):
        pick = [S.choose('p%d' % i, [0, 1]) for i in range(len(tids))]
        sel = [t for t, p in zip(tids, pick) if p] or [tids[0]]
        run = run.select_trains(S.kd.by_id[sel])
    keys = {s: R.keys(s) for s in R.sources()}
    if cfg.get('keys'):
        if S.choose('k', [0, 1]):
            run = run.select([('*DET*', 'image.*')])
            keys = {DET0: {'image.data', 'image.pulseId'}}
        else:
            run = run.select({DET0: {'image.pulseId'}})
            keys = {DET0: {'image.pulseId'}}
    return run, sel, keys


def check_copy(S, R, copy, sel, keys, msg, big=False):
    S.eq_array(copy.train_ids, sel, msg + ': train IDs', shape=(len(sel),))
    got = set(copy.all_sources)
    S.check(got <= set(keys), msg + ': no other sources')
    ck = {}
    for s in keys:
        have = {k for k in keys[s] if any(S.conc(R.count(s, k, t)) for t in sel)}
        if s not in got:
            S.check(not have, msg + ': every source with data')
            continue
        S.check((s in copy.control_sources) == any(s in f.ctrl for f in R.files), msg + ': kind of source')
        ck[s] = set(copy.keys_for_source(s))
        S.check(have <= ck[s], msg + ': every key with data')
        S.check(ck[s] <= keys[s], msg + ': no other keys')
    w = S.choose('which', list(range(len(sel)) if sum(len(f.tids) for f in R.files) <= 20 and not big else [len(sel) - 1]))
    tid, data = copy.train_from_id(sel[w])
    S.check(tid == sel[w], msg + ': train ID')
    check_train(S, R, data, sel[w], sel=ck, msg=msg)
    return ck
