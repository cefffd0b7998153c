"""C13: the cached map of a run never changes what is read."""
from .common import *

BOUNDS = ('runs of up to 3 files with 1 or 2 trains each, cache written when all or only some files existed, then every '
          'file kept, touched, replaced by a file with other trains and sources (any other modification time in '
          'steps of 1/4096 s, or size), or deleted, and a file added or not; also a file replaced between being '
          'read and the cache being saved; one or two rounds of changes')
WALL = {'quick': 400, 'thorough': 850}

SRC = ['FXE_DET_LPD1M-1/DET/%dCH0:xtdf' % k for k in range(8)]


def configs(tier):
    out = []
    for first in ('all', 'some', 'none'):
        out.append(dict(what='change', files=2, first=first))
    for op in ('keep', 'replace'):
        for add in (0, 1):
            if tier == 'thorough' or op == 'keep' or not add:
                out.append(dict(what='change', files=1, first='all', rounds=2, ops=['keep', 'replace'], op0=op, add0=add))
    out.append(dict(what='race', files=2))
    out.append(dict(what='map', files=2))
    out.append(dict(what='foreign', files=1))
    if tier == 'thorough':
        out.append(dict(what='change', files=3, first='all', ops=['keep', 'replace']))
        for op in ('keep', 'replace', 'touch', 'delete'):
            for add in (0, 1):
                out.append(dict(what='change', files=1, first='all', rounds=2, op0=op, add0=add))
                out.append(dict(what='change', files=2, first='some', rounds=2, op0=op, add0=add))
    return out


class World:
    def __init__(self, S, cfg):
        self.S, self.cfg = S, cfg
        self.fs = S.osfs()
        self.d = S.path('raw/r0001')
        self.fs.mkdir_(self.d)
        self.files = {}       # name -> (tids, ctrl source or None, inst sources, mtime, extra)
        self.n = 0
        self.base = {}

    def make(self, name, base, mtime=None, extra=None):
        S = self.S
        self.n += 1
        self.base[name] = base
        v = self.n
        n = 1 + v % 2
        # versions of files in train order, starting anywhere (also sharing trains
        # where two versions of one file exist one after the other)
        lo = (base + 1) * 2 ** 40
        tids = S.tids(n, 'v%d_t' % v, lo=lo, hi=lo + 2 ** 30)
        inst = [SRC[base]] if v % 3 else [SRC[base], SRC[base + 4]]
        ctrl = [XGM + str(base)] if v % 2 else []
        ds = [('METADATA/dataSourceId', 'bytes', [('CONTROL/' + c).encode() for c in ctrl] +
               [('INSTRUMENT/%s/image' % s).encode() for s in inst]),
              ('INDEX/trainId', 'vec', ('u8', list(tids) + [0]))]
        for c in ctrl:
            ds += [('INDEX/%s/first' % c, 'vec', ('u8', list(range(n)))), ('INDEX/%s/count' % c, 'vec', ('u8', [1] * n)),
                   ('CONTROL/%s/a/value' % c, 'data', (Data(S, 'i4', (), 1000 * v), n))]
        for i, s in enumerate(inst):
            ds += [('INDEX/%s/image/first' % s, 'vec', ('u8', list(range(n)))),
                   ('INDEX/%s/image/count' % s, 'vec', ('u8', [1] * n)),
                   ('INSTRUMENT/%s/image/data' % s, 'data', (Data(S, 'i4', (), 1000 * v + 100 * (i + 1)), n))]
        path = S.write_h5('raw/r0001/' + name, ds)
        if mtime is None:
            mtime = S.int('m%d' % v, 4096 * 10 ** 9, 4096 * 10 ** 9 + 8192)
            extra = S.int('x%d' % v, 0, 3)
        self.fs.put_h5(path, mtime, extra)
        self.files[name] = (tids, ctrl, inst, mtime, extra, v)
        return path

    def paths(self):
        return [self.d + '/' + n for n in sorted(self.files)]

    def change(self, name, base, how):
        S = self.S
        old = self.files[name]
        if how == 'keep':
            return
        if how == 'delete':
            self.fs.delete(self.d + '/' + name)
            del self.files[name]
            return
        m2 = S.int('n%d' % self.n, 4096 * 10 ** 9, 4096 * 10 ** 9 + 8192)
        if how == 'touch':
            self.files[name] = old[:3] + (m2,) + old[4:]
            self.fs.put_h5(self.d + '/' + name, m2, old[4])
            return
        x2 = S.int('y%d' % self.n, 0, 3)
        # a file which has changed differs in size or modification time
        S.assume(S.Not(S.And(m2 == old[3], x2 == old[4])))
        self.make(name, base, m2, x2)

    def check(self, run, msg):
        S = self.S
        tids = {}
        want = []
        for name in sorted(self.files):
            ts = self.files[name][0]
            for t in ts:
                want.append(t)
        got = S.elems(run.train_ids)[1]
        S.check(S.And(*[S.Or(*[g == t for g in got]) for t in want]), msg + ': every train of the files')
        S.check(S.And(*[S.Or(*[g == t for t in want]) for g in got]), msg + ': no other trains')
        S.check(S.And(*[a < b for a, b in zip(got, got[1:])]), msg + ': trains in order, once')
        ctrl = {s for f in self.files.values() for s in f[1]}
        inst = {s for f in self.files.values() for s in f[2]}
        S.check(set(run.control_sources) == ctrl, msg + ': control sources')
        S.check(set(run.instrument_sources) == inst, msg + ': instrument sources')
        for name in sorted(self.files):
            ts, cs, ins, _, _, v = self.files[name]
            arr = run.get_array(ins[0], 'image.data')
            S.eq_array(arr.values, [1000 * v + 100 + i for i in range(len(ts))], msg + ': data')
            S.eq_array(arr.coords['trainId'].values, ts, msg + ': train IDs of the data')


def scenario(S, cfg):
    W = World(S, cfg)
    rfm = S.module('run_files_map')
    names = ['RAW-R0001-DA%02d-S00000.h5' % k for k in range(cfg['files'])]
    what = cfg['what']
    if what == 'map':
        # saving & loading preserves the information of each file
        for k, nm in enumerate(names):
            W.make(nm, k)
        run = S.kd.RunDirectory(W.d)
        m = rfm.RunFilesMap(W.d)
        for nm in names:
            info = m.get(W.d + '/' + nm)
            S.check(info is not None, 'an entry for each file')
            tids, ctrl, inst = W.files[nm][:3]
            S.eq_array(info['train_ids'], tids, 'cached train IDs', shape=(len(tids),), dtype='u8')
            S.check(set(info['control_sources']) == set(ctrl), 'cached control sources')
            S.check(set(info['instrument_sources']) == set(inst), 'cached instrument sources')
        S.check(m.get(S.path('raw/r0002/' + names[0])) is None if W.fs.mkdir_(S.path('raw/r0002')) is None else True,
                'no entry for files of another directory')
        return
    if what == 'foreign':
        # a cache file for which nothing is as it was: entries must be ignored
        W.make(names[0], 0)
        tids, ctrl, inst, m, x, v = W.files[names[0]]
        m2, x2 = S.int('cm', 4096 * 10 ** 9, 4096 * 10 ** 9 + 8192), S.int('cx', 0, 3)
        S.assume(S.Not(S.And(m2 == m, x2 == x)))
        W.fs.put_json(W.d + '/karabo_data_map.json', [
            dict(filename=names[0], mtime=W.fs.mtime(m2), size=W.fs.size(x2), train_ids=[5, 6, 7],
                 control_sources=['NO/SUCH/SOURCE'], instrument_sources=[]),
            dict(filename='RAW-R0001-DA07-S00000.h5', mtime=W.fs.mtime(m2), size=W.fs.size(x2), train_ids=[9],
                 control_sources=['NOT/HERE/EITHER'], instrument_sources=[])])
        W.check(S.kd.RunDirectory(W.d), 'with an outdated cache')
        W.check(S.kd.RunDirectory(W.d), 'opened again')
        return
    if what == 'race':
        for k, nm in enumerate(names):
            W.make(nm, k)
        m = rfm.RunFilesMap(W.d)
        run = S.kd.DataCollection.from_paths(W.paths(), m)
        W.change(names[0], 0, S.choose('race', ['replace', 'touch']))
        m.save(run.files)
        W.check(S.kd.RunDirectory(W.d), 'after a file was replaced while the run was opened')
        return
    first = cfg['first']
    for k, nm in enumerate(names):
        if k and first == 'some':
            break
        W.make(nm, k)
    if first != 'none':
        run0 = S.kd.RunDirectory(W.d)
        W.check(run0, 'opened first')
    if first == 'some':
        for k, nm in enumerate(names[1:]):
            W.make(nm, k + 1)
    for r in range(cfg.get('rounds', 1)):
        for k, nm in enumerate(list(W.files)):
            opts = cfg.get('ops', ['keep', 'replace', 'touch', 'delete']) if first != 'none' else ['keep']
            W.change(nm, W.base[nm], cfg['op0'] if 'op0' in cfg and not (r or k) else
                     S.choose('r%d_%d' % (r, k), opts))
        if cfg['add0'] if 'add0' in cfg and not r else S.choose('add%d' % r, [0, 1]):
            W.make('RAW-R0001-DA1%d-S00000.h5' % r, cfg['files'] + r)
        if not W.files:
            S.check(S.call(S.kd.RunDirectory, W.d).raised('Exception'), 'no files: error')
            return
        W.check(S.kd.RunDirectory(W.d), 'with the cache')
        W.check(S.kd.RunDirectory(W.d), 'opened again')
