"""C07: select / deselect follow set algebra on (source, key) pairs."""
import fnmatch
import re

from .common import *

BOUNDS = ('4 sources (2 control, 2 instrument) in 2 files, 13 fields of which up to 3 may be absent; 13 source and 18 '
          'key patterns (also in lists of two or three and as dictionaries of sets or lists); up to two selections or deselections in a row')

MOT = 'SPB_XTD9/MOTOR/Z'
SRC = ['*', '*XGM*', '*/DET/*', XGM, 'SPB_*/[MX]?TOR/Z', 'nothing*', '*xgm*', 'SA1_XTD2_XGM/DOOCS', 'DET',
       'XGM/*', '[!S]*', '*_DET_AGIPD1M-1/DET/0CH0:xtdf', 'SPB*']
KEY = ['*', 'a', 'a*', 'a.value', '*.timestamp', 'image.*', '*[ad]', 'b?', 'image.data', 'A', 'header.id', 'image.a', 'avalue', '*value',
       'data', 'mage.*', 'a?value', '']


def configs(tier):
    out = [dict(ops=['glob'], presence=1), dict(ops=['list'], presence=0), dict(ops=['dict'], presence=1),
           dict(ops=['deglob'], presence=1), dict(ops=['delist'], presence=0), dict(ops=['dedict'], presence=0),
           dict(ops=['glob2', 'glob2'], presence=0), dict(ops=['glob2', 'deglob2'], presence=0),
           dict(ops=['deglob2', 'glob2'], presence=0), dict(ops=['dict', 'glob2'], presence=0),
           dict(ops=['glob2', 'dict'], presence=0), dict(ops=['deglob2', 'dedict'], presence=0),
           dict(ops=['list3'], presence=0), dict(ops=['delist3'], presence=0),
           dict(ops=['bad'], presence=0)]
    if tier == 'thorough':
        for a in ('glob', 'deglob', 'dict', 'dedict'):
            for b in ('glob', 'deglob', 'dict', 'dedict'):
                out.append(dict(ops=[a, b], presence=0))
        out.append(dict(ops=['glob2', 'deglob2', 'glob2'], presence=0))
        out.append(dict(ops=['list', 'deglob2'], presence=1))
    return out


def matches(key, glob, ctrl):
    return fnmatch.fnmatchcase(key, glob) or (ctrl and fnmatch.fnmatchcase(key, glob + '.value'))


def pairs_of(run):
    return {(s, k) for s in run.all_sources for k in run.keys_for_source(s)}


def op(S, run, have, kind, pre):
    """-> (result outcome, expected pairs or exception)"""
    de = kind.startswith('de')
    base = kind[2:] if de else kind
    f = run.deselect if de else run.select
    srcs = {s for s, k in have}
    if base in ('glob', 'glob2', 'list', 'list3'):
        few = base == 'glob2'
        pats = []
        for j in range({'list': 2, 'list3': 3}.get(base, 1)):
            sg = S.choose('%ss%d' % (pre, j), [0, 2] if base == 'list3' else
                          [0, 1, 2, 3] if few or base == 'list' else list(range(len(SRC))))
            kg = S.choose('%sk%d' % (pre, j), [1, 8, 10, 0] if base == 'list3' else
                          [0, 1, 5, 6] if few or base == 'list' else list(range(len(KEY))))
            pats.append((SRC[sg], KEY[kg]))
        if base.startswith('list'):
            r = S.call(f, pats)
        elif pats[0][1] == '*' and S.fork(S.bool(pre + 'default')):
            r = S.call(f, pats[0][0])
        else:
            r = S.call(f, *pats[0])
        got = set()
        for sg, kg in pats:
            m = {(s, k) for s, k in have if fnmatch.fnmatchcase(s, sg)
                 and matches(k, kg, s in (XGM, MOT))}
            if not m:
                return r, ValueError
            got |= m
    else:
        s = S.choose(pre + 'src', [XGM, DET0, 'NOT/THERE/X'])
        ks = S.choose(pre + 'keys', [set(), {'a.value'}, {'image.data', 'header.id'}, {'image.nothing'}])
        d = {s: (list if S.fork(S.bool(pre + 'aslist')) else set)(ks)}
        if S.fork(S.bool(pre + 'more')):
            d[DET1] = set()
        r = S.call(f, d)
        got = set()
        for s, ks in d.items():
            all_ = {k for t, k in have if t == s}
            if not all_:
                return r, KeyError
            if set(ks) - all_:
                return r, KeyError
            got |= {(s, k) for k in (ks or all_)}
    return r, (have - got if de else got)


def scenario(S, cfg):
    R = Run(S)
    tids = S.tids(3)
    pres = [True] * 3
    if cfg['presence']:
        pres = [S.fork(S.bool('pres%d' % i)) for i in range(3)]
    c = {'a.value': ('f8', ()), 'a.timestamp': ('u8', ()), 'avalue.value': ('f4', ()), 'axvalue.value': ('f4', ()),
         'a-value': ('f4', ())}
    if not pres[0]:
        del c['avalue.value']
    img = {'data': ('u2', ()), 'cellId': ('u2', ()), 'a.value': ('u2', ())}
    if not pres[1]:
        del img['data']
    m = {'bc.value': ('f8', ())}
    if pres[2]:
        m['a.value'] = ('f8', ())

    def inst(src, n, header=True):
        d = {'image': dict(keys=dict(img), counts=[1] * n, firsts=list(range(n)))}
        if header:
            d['header'] = dict(keys={'id': ('u4', ())}, counts=[1] * n, firsts=list(range(n)))
        return {src: d}
    R.add('a.h5', tids[:2], ctrl={XGM: c}, inst=inst(DET0, 2))
    R.add('b.h5', tids[1:], ctrl={MOT: m}, inst=inst(DET1, 2, False))
    run = S.kd.DataCollection.from_paths(R.paths)
    have = {(s, k) for s in R.sources() for k in R.keys(s)}
    S.check(pairs_of(run) == have, 'all sources and keys are there to begin with')
    if cfg['ops'] == ['bad']:
        for bad in (3, None):
            S.check(S.call(run.select, bad).raised(TypeError), 'other selections are refused')
            S.check(S.call(run.deselect, bad).raised(TypeError), 'other deselections are refused')
        return
    for i, kind in enumerate(cfg['ops']):
        r, exp = op(S, run, have, kind, 'op%d' % i)
        if not isinstance(exp, set):
            S.check(r.raised(exp), 'a selection which matches nothing is an error')
            return
        S.check(r.ok, 'a valid selection is accepted')
        new = r.value
        S.check(pairs_of(new) == exp, 'exactly the matching sources and keys')
        S.check({s for s, k in exp} <= set(new.all_sources) <= {s for s, k in have}, 'sources of the selection')
        S.check(set(new.control_sources) == {s for s in new.all_sources if s in (XGM, MOT)}, 'control sources')
        S.check(not (set(new.control_sources) & set(new.instrument_sources)), 'categories')
        S.check(len(new.train_ids) == 3 and S.And(*[a == b for a, b in zip(new.train_ids, tids)]),
                'selecting sources keeps all trains')
        S.check(pairs_of(run) == have, 'the original collection is not changed')
        if exp:
            w = S.choose('w%d' % i, [0, 2])
            tid, data = new.train_from_id(tids[w])
            S.check({(s, k) for s, d in data.items() for k in d if k != 'metadata'} ==
                    {(s, k) for s, k in exp if R.where(s, tids[w])[0] is not None},
                    'only the selected fields are read')
        run, have = new, exp
        if not have:
            return
