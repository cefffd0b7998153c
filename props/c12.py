"""C12: the validator reports a file exactly when its index is inconsistent."""
from .common import *

BOUNDS = ('files with up to 4 trains, train ID datasets with any values 0..2^50 in any order, one group with any index '
          'values 0..2^64-1 (first/count or first/last/status) and two datasets of any length up to 2^40 rows, index '
          'datasets of any length 0..n+1 or 2D, two groups or sources; runs of up to 3 files with consistent or '
          'inconsistent indexes, unreadable files, and cached file information that agrees, differs or is absent, folder names with and without '
          'characters special in patterns; the command line tool on the same runs')

BIG = 2 ** 64 - 1


def configs(tier):
    out = []
    for n in (0, 1, 3):
        out.append(dict(what='tids', n=n))
    out.append(dict(what='tids', n=4))
    out.append(dict(what='index', n=1, style='count'))
    out.append(dict(what='index', n=2, style='count', hi=41))
    out.append(dict(what='index', n=2, style='count', one=1, bigat=1))
    out.append(dict(what='index', n=3, style='count', one=1, hi=41))
    out.append(dict(what='index', n=1, style='status'))
    out.append(dict(what='index', n=2, style='status', one=1, hi=41))
    out.append(dict(what='index', n=0, style='count'))
    out.append(dict(what='index', n=0, style='status'))
    out.append(dict(what='lengths', n=2, style='count'))
    out.append(dict(what='lengths', n=2, style='status'))
    out.append(dict(what='2d', n=2, style='count'))
    out.append(dict(what='2d', n=2, style='status'))
    out.append(dict(what='several', n=2))
    out.append(dict(what='run', files=2, dirs=3))
    out.append(dict(what='run', files=1, cache=1))
    out.append(dict(what='run', files=2, cache=1))
    out.append(dict(what='run', files=0))
    if tier == 'thorough':
        out.append(dict(what='tids', n=5))
        out.append(dict(what='index', n=2, style='count'))
        out.append(dict(what='index', n=3, style='count', hi=41))
        out.append(dict(what='index', n=2, style='status'))
        out.append(dict(what='lengths', n=3, style='status'))
        out.append(dict(what='run', files=3, cache=1))
    return out


def verdict(S, fv):
    """-> whether problems are reported (the same from run_checks and validate)"""
    problems = fv.run_checks()
    r = S.call(fv.validate)
    S.check(r.ok == (not problems), 'validate() raises exactly if there are problems')
    if problems:
        S.check(r.raised('ValidationError'), 'validate() raises ValidationError')
        S.check(bool(str(r.exc)), 'the problems can be shown')
        S.check(all('msg' in p for p in problems), 'every problem has a message')
    return bool(problems)


def index_ds(S, src, g, style, firsts, counts, lasts=None, status=None):
    p = 'INDEX/%s/%s/' % (src, g)
    out = [(p + 'first', 'vec', ('u8', firsts))]
    if style == 'count':
        out.append((p + 'count', 'vec', ('u8', counts)))
    else:
        out.append((p + 'last', 'vec', ('u8', lasts)))
        out.append((p + 'status', 'vec', ('u4', status)))
    return out


def bad_index(S, firsts, counts, dims):
    """the index is inconsistent (mathematical integers)"""
    probs = []
    for i, (f, c) in enumerate(zip(firsts, counts)):
        probs.append(c < 0)
        for d in dims:
            probs.append(f + c > d)
        if i == 0:
            probs.append(f != 0)
        else:
            probs.append(f != firsts[i - 1] + counts[i - 1])
    return S.Or(*probs)


def scenario(S, cfg):
    val = S.module('validation')
    what = cfg['what']
    if what == 'run':
        return run_scenario(S, cfg, val)
    n = cfg['n']
    src = DET0
    ds = [('METADATA/dataSourceId', 'bytes', [b'INSTRUMENT/' + (src + '/image').encode()])]
    if what == 'tids':
        tids = [S.int('t%d' % i, 0, 2 ** 50) for i in range(n)]
        ds.append(('INDEX/trainId', 'vec', ('u8', tids)))
        ds += index_ds(S, src, 'image', 'count', list(range(n)), [1] * n)
        ds.append(('INSTRUMENT/%s/image/data' % src, 'data', (Data(S, 'u2', (), 0), n)))
        fv = val.FileValidator(S.kd.FileAccess(S.write_h5('a.h5', ds)))
        got = verdict(S, fv)
        # zeros only at the end, increasing before them
        bad = False
        seen0 = False
        last = None
        for t in tids:
            if S.fork(t == 0):
                seen0 = True
                continue
            if seen0:
                bad = True
            if last is not None and S.fork(t <= last):
                bad = True
            last = t
        S.check(got == bad, 'train IDs are reported exactly if they are not increasing or contain zeros')
        return
    tids = S.tids(n)
    pad = 1 if n == 0 else 0
    ds.append(('INDEX/trainId', 'vec', ('u8', list(tids) + [0] * pad)))
    style = cfg.get('style', 'count')
    if what == 'several':
        return several(S, cfg, val, ds, tids)
    d1 = S.int('rows1', 0, 2 ** 40)
    d2 = S.int('rows2', 0, 2 ** 40) if not cfg.get('one') else d1
    hi = 2 ** cfg['hi'] if cfg.get('hi') else BIG
    if what == 'index':
        if cfg.get('bigat'):
            w = S.choose('bigat', [0, 1])
        fs = [S.int('f%d' % i, 0, 2 ** 41 if cfg.get('bigat') and not (w == 0 and i == n - 1) else hi)
              for i in range(n)]
        if style == 'count':
            cs = [S.int('c%d' % i, 0, 2 ** 41 if cfg.get('bigat') and not (w == 1 and i == n - 1) else hi)
                  for i in range(n)]
            ds += index_ds(S, src, 'image', style, fs + [0] * pad, cs + [0] * pad)
        else:
            ls = [S.int('l%d' % i, 0, hi) for i in range(n)]
            st = [S.int('s%d' % i, 0, 1) for i in range(n)]
            for l, f in zip(ls, fs):
                # (no number of entries would be a whole turn around 2^64)
                S.assume(S.Not(S.And(l == BIG, f == 0)))
            cs = [S.If(s == 1, l - f + 1, 0) for f, l, s in zip(fs, ls, st)]
            ds += index_ds(S, src, 'image', style, fs + [0] * pad, None, ls + [0] * pad, st + [0] * pad)
        bad = bad_index(S, fs, cs, (d1, d2))
    elif what == 'lengths':
        names = ['first', 'count'] if style == 'count' else ['first', 'last', 'status']
        lens = {nm: S.choose('len_' + nm, list(range(n + 2))) for nm in names}
        val_ = {'first': [0, 1, 2, 3, 4], 'count': [1] * 5, 'last': [0, 1, 2, 3, 4], 'status': [1] * 5}
        p = 'INDEX/%s/image/' % src
        for nm in names:
            ds.append((p + nm, 'vec', ('u4' if nm == 'status' else 'u8', val_[nm][:lens[nm]])))
        S.assume(S.And(d1 >= n, d2 >= n))
        bad = any(l < n for l in lens.values())
    else:
        p = 'INDEX/%s/image/' % src
        names = ['first', 'count'] if style == 'count' else ['first', 'last', 'status']
        flat_ = S.choose('flat', names + ['none'])
        for nm in names:
            row = {'first': list(range(n)), 'count': [1] * n, 'last': list(range(n)), 'status': [1] * n}[nm]
            dt = 'u4' if nm == 'status' else 'u8'
            if nm == flat_:
                ds.append((p + nm, 'vec', (dt, row)))
            else:
                ds.append((p + nm, 'data', (FnData(S, dt, [[v] for v in row], (1,)), n)))
        S.assume(S.And(d1 >= n, d2 >= n))
        bad = True
    ds.append(('INSTRUMENT/%s/image/data' % src, 'data', (Data(S, 'u2', (2,), 0), d1)))
    if not cfg.get('one'):
        ds.append(('INSTRUMENT/%s/image/calib/cellId' % src, 'data', (Data(S, 'u2', (), 0), d2)))
    fv = val.FileValidator(S.kd.FileAccess(S.write_h5('a.h5', ds)))
    r = S.call(verdict, S, fv)
    S.check(r.ok, 'validation reports problems instead of failing')
    S.check(S.Not(bad) if not r.value else bad, 'the index is reported exactly if it is inconsistent')


def several(S, cfg, val, ds, tids):
    """inconsistencies in one of several groups are found, others are not blamed"""
    n = cfg['n']
    where = [(DET0, 'image'), (DET0, 'header'), (DET1, 'image')]
    ds[0] = ('METADATA/dataSourceId', 'bytes', [('INSTRUMENT/%s/%s' % w).encode() for w in where] +
             [b'CONTROL/' + XGM.encode()])
    ds += [('INDEX/%s/first' % XGM, 'vec', ('u8', list(range(n)))), ('INDEX/%s/count' % XGM, 'vec', ('u8', [1] * n)),
           ('CONTROL/%s/a/value' % XGM, 'data', (Data(S, 'f4', (), 0), n))]
    bads = []
    for i, (s, g) in enumerate(where):
        gap, rows = S.int('gap%d' % i, -1, 1), S.int('rows%d' % i, 0, 4)
        cs = [1] * n
        fs = [0] + [j + gap for j in range(1, n)]
        ds += index_ds(S, s, g, 'count', fs, cs)
        ds.append(('INSTRUMENT/%s/%s/x' % (s, g), 'data', (Data(S, 'u2', (), 0), rows)))
        bads.append(bad_index(S, fs, cs, (rows,)))
    fv = val.FileValidator(S.kd.FileAccess(S.write_h5('a.h5', ds)))
    got = verdict(S, fv)
    S.check(S.Or(*bads) if got else S.Not(S.Or(*bads)), 'one inconsistent group is enough to be reported')


def run_scenario(S, cfg, val):
    fs = S.osfs()
    name_ = 'raw/' + S.choose('dir', ['r0001', 'r0001 [dark]', 'r*?'][:cfg.get('dirs', 2)])
    d = S.path(name_)
    fs.mkdir_(d)
    bads = []
    docs = []
    tids = S.tids(2)
    for k in range(cfg['files']):
        state = S.choose('state%d' % k, ['good', 'gap', 'corrupt', 'notids'])
        # any file with this extension belongs to the run
        name = ('RAW-R0001-DA%02d-S00000.h5' if k < 1 or cfg.get('cache') else 'more%d.h5') % k
        if state == 'corrupt':
            S.corrupt_file(name_ + '/' + name)
            bads.append(True)
            continue
        gap = S.int('gap%d' % k, 1, 5) if state == 'gap' else 0
        src = 'FXE_DET_LPD1M-1/DET/%dCH0:xtdf' % k
        ds = [('METADATA/dataSourceId', 'bytes', [('INSTRUMENT/%s/image' % src).encode()]),
              ('INSTRUMENT/%s/image/data' % src, 'data', (Data(S, 'u2', (), 0), 10))]
        if state != 'notids':
            ds.append(('INDEX/trainId', 'vec', ('u8', tids)))
        ds += index_ds(S, src, 'image', 'count', [0, 1 + gap], [1, 1])
        path = S.write_h5(name_ + '/' + name, ds)
        mtime = S.int('mtime%d' % k, 4096 * 10 ** 9, 8192 * 10 ** 9)
        fs.put_h5(path, mtime, k)
        bads.append(state != 'good')
        if cfg.get('cache') and state != 'notids':
            how = S.choose('cache%d' % k, ['same', 'tids', 'ctrl', 'inst', 'stale', 'absent'])
            doc = dict(filename=name, mtime=fs.mtime(mtime), size=fs.size(k), train_ids=[S.plain(t) for t in tids],
                       control_sources=[], instrument_sources=[src])
            if how == 'tids':
                other = S.int('other%d' % k, 1, 2 ** 50)
                doc['train_ids'] = [other, S.plain(tids[1])]
                bads.append(other != tids[0])
            elif how == 'ctrl':
                doc['control_sources'] = [XGM]
                bads.append(True)
            elif how == 'inst':
                doc['instrument_sources'] = [src, CAMO]
                bads.append(True)
            elif how == 'stale':
                doc['mtime'] = fs.mtime(mtime + 1)
                doc['train_ids'] = []
            if how != 'absent':
                docs.append(doc)
    if cfg.get('cache'):
        fs.put_json(d + '/karabo_data_map.json', docs)
    r = S.call(val.RunValidator, d)
    S.check(r.ok, 'a run can be validated whatever its files')
    got = verdict(S, r.value)
    bad = S.Or(*bads) if bads else True
    usable = True
    S.check(bad if got else S.Not(bad), 'a run is reported exactly if one of its files is')
    # the command
    o, text = S.capture(val.main, [d])
    S.check(o.ok, 'the command checks a run')
    if o.ok:
        S.check(bool(o.value) == got, 'exit status of the command')
        S.check(('No problems found' in text) == (not got), 'verdict shown by the command')
