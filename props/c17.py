"""C17: a detector interface uses the right modules, trains and frame count."""
from .det import *

BOUNDS = ('up to 3 modules of the detector (one or two digits), optionally other detectors of the same or another type, '
          'other instrument and control sources; 1 to 3 trains with any IDs, any number of frames from 0 to 2 in each '
          'train of each module (or 0, 44, 256 or 300), files lacking trains; any required number of modules from 1 to 4; by type or by name, '
          'with and without choosing modules')
WALL = {'quick': 300, 'thorough': 850}

AGIPD = 'SPB_DET_AGIPD1M-1'
CLS = {'LPD1M': 'FXE_DET_LPD1M-1', 'AGIPD1M': AGIPD, 'DSSC1M': 'SCS_DET_DSSC1M-1'}


def configs(tier):
    out = []
    for cls in CLS:
        out.append(dict(what='one', cls=cls, mods=[0, 12], trains=2))
    out.append(dict(what='one', cls='LPD1M', mods=[2, 10, 1], trains=1))
    out.append(dict(what='one', cls='AGIPD1M', mods=[5, 3], trains=3, gap=1, maxc=1))
    for cls in CLS:
        out.append(dict(what='others', cls=cls, mods=[1, 11], trains=1))
    # names which contain each other, or look alike as patterns
    out.append(dict(what='others', cls='DSSC1M', mods=[1, 11], trains=1, second='X_SCS_DET_DSSC1M-1'))
    out.append(dict(what='others', cls='LPD1M', mods=[11], trains=1, name='FXE_DET_LPD1M.1', second='FXE_DET_LPD1Mx1'))
    out.append(dict(what='one', cls='LPD1M', mods=[0, 12], trains=2, elsewhere=1))
    # large frame counts
    out.append(dict(what='one', cls='LPD1M', mods=[0, 12], trains=2, maxc=256, many=1))
    out.append(dict(what='modules', cls='LPD1M', mods=[1, 11, 4], trains=1))
    out.append(dict(what='none', cls='LPD1M', mods=[], trains=1))
    if tier == 'thorough':
        out.append(dict(what='one', cls='LPD1M', mods=[2, 10, 1], trains=2))
        out.append(dict(what='one', cls='DSSC1M', mods=[2, 10], trains=3, gap=1))
        out.append(dict(what='others', cls='LPD1M', mods=[1, 11], trains=2))
        out.append(dict(what='modules', cls='DSSC1M', mods=[1, 11, 4], trains=2))
    return out


def scenario(S, cfg):
    n = cfg['trains']
    tids = S.tids(n + (2 if cfg.get('elsewhere') else 0))
    apart = []
    if cfg.get('elsewhere'):
        # trains which are only recorded by other sources
        apart, tids = [tids[0], tids[2]], [tids[1]] + tids[3:]
    name = cfg.get('name', CLS[cfg['cls']])
    R = Run(S)
    count = {}

    def module(det, m, ts, tag):
        if cfg.get('many'):
            cs = [S.choose('c%s%d_%d' % (tag, m, i), [0, 256, 44, 300]) for i in range(len(ts))]
        else:
            cs = S.counts(len(ts), cfg.get('maxc', 2), 'c%s%d_' % (tag, m))
        src = '%s/DET/%dCH0:xtdf' % (det, m)
        R.add('RAW-R0001-%s%02d-S00000.h5' % (tag, m), [tids[t] for t in ts], inst={src: {
            'image': dict(keys={'data': ('u2', (2,)), 'pulseId': ('u8', ())}, counts=cs),
            'detector': dict(keys={'data': ('f4', ())}, counts=[1] * len(ts), firsts=list(range(len(ts))))}})
        count[src] = {t: c for t, c in zip(ts, cs)}
        return src

    mine = {}
    for k, m in enumerate(cfg['mods']):
        ts = list(range(n))
        if cfg.get('gap') and k:
            ts = S.choose('ts%d' % k, [[0, 2], [2], [0, 1]])
        mine[module(name, m, ts, 'M')] = m
    second = None
    if cfg['what'] in ('others', 'none'):
        other = AGIPD if name != AGIPD else CLS['DSSC1M']
        if S.choose('other', [1, 0]):
            module(other, 3, [0], 'O')
        if cfg['what'] == 'others' and S.choose('second', [1, 0]):
            second = cfg.get('second') or name[:-1] + '2'
            module(second, 1, [0], 'S')
        R.add('RAW-R0001-DA01-S00000.h5', tids, ctrl={XGM: {'a.value': ('i4', ())}},
              inst={CAMO: {'data': dict(keys={'image': ('u2', (2,))}, counts=[1] * n, firsts=list(range(n)))}})
    if apart:
        R.add('RAW-R0001-DA02-S00000.h5', apart, ctrl={XGM + '2': {'a.value': ('i4', ())}})
    run = S.kd.DataCollection.from_paths(R.paths)
    C = getattr(S.module('components'), cfg['cls'])
    kw = {}
    mm = 1
    use = dict(mine)
    named = None
    if cfg['what'] == 'one':
        mm = S.int('mm', 1, 3)
        kw['min_modules'] = mm
    elif cfg['what'] == 'others':
        named = S.choose('named', [None, name, 'NO_DET_LPD1M-9'])
        if named is not None:
            kw['detector_name'] = named
    elif cfg['what'] == 'modules':
        ms = S.choose('ms', [[1], [11, 4], [1, 4, 11], [2], [0, 1], []])
        kw['modules'] = ms
        use = {s: m for s, m in mine.items() if m in ms}
        mm = S.int('mm', 1, 2)
        kw['min_modules'] = mm
    if second and named is None:
        # nothing else to refuse
        S.assume(S.And(*[c == 1 for cs in count.values() for c in cs.values()]))
    r = S.call(C, run, **kw)

    # should it be refused?
    if named == 'NO_DET_LPD1M-9' or not use:
        S.check(r.raised('SourceNameError', 'KeyError'), 'no such detector or modules: refused')
        return
    if second and named is None:
        S.check(r.raised('ValueError'), 'several detectors: refused')
        return
    cs = [c for s in use for c in count[s].values()]
    P = [c for c in cs if S.fork(c > 0)]
    if not P:
        S.check(r.raised('ValueError'), 'no data: refused')
        return
    if not S.fork(S.And(*[c == P[0] for c in P])):
        S.check(r.raised('ValueError'), 'differing frame counts: refused')
        return
    keep = []
    for t in range(n):
        k = sum(1 for s in use if t in count[s] and S.fork(count[s][t] > 0))
        if S.fork(k >= mm):
            keep.append(t)
    if not keep:
        S.check(r.raised('ValueError'), 'not enough modules in any train: refused')
        return
    S.check(r.ok, 'accepted: %r' % (r.exc,))
    det = r.value
    S.check(det.frames_per_train == P[0], 'frames per train')
    S.eq_array(S.array(list(det.train_ids)), [tids[t] for t in keep], 'trains with enough modules', shape=(len(keep),))
    S.check(det.detector_name == name, 'name of the detector')
    got = dict(det.source_to_modno.items())
    S.check(all(s in use and use[s] == m for s, m in got.items()), 'only the sources asked for, with their number')
    S.check(all(s in got for s in use if any(t in count[s] for t in keep)), 'every source asked for')
    S.check({m: s for s, m in got.items()} == dict(det.modno_to_source.items()), 'modules by number')
    S.check(set(det.data.instrument_sources) <= set(got), 'no data of other sources')
    S.check(set(det.data.control_sources) == set(), 'no control data')
    for s in got:
        if any(t in count[s] for t in keep):
            S.check(set(det.data.keys_for_source(s)) == {'image.data', 'image.pulseId', 'detector.data'}, 'all keys')
