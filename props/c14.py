"""C14: writing the cached map is atomic, and never keeps a run from being opened."""
from .common import *

BOUNDS = ('a run of 2 files (1 train each, any modification time and size), with and without a scratch directory for the '
          'proposal; previously no cache, a complete one of the first file, garbled text or bytes, or one which may not '
          'be read; any single operation (create, open, either half of each write, flush, replace, remove, mkdir, read) '
          'interrupted (crash), overtaken by another process which finds one more file and opens the run too, or failing with each of 5 errors or Ctrl-C; any location denied permanently')
WALL = {'quick': 300, 'thorough': 850}

SRC = 'FXE_DET_LPD1M-1/DET/%dCH0:xtdf'


def configs(tier):
    out = []
    for scratch in (0, 1):
        for prior in ('absent', 'old', 'garbled', 'bytes', 'empty', 'unreadable'):
            out.append(dict(prior=prior, scratch=scratch, what='none'))
            out.append(dict(prior=prior, scratch=scratch, what='deny'))
        for prior in ('absent', 'old', 'garbled'):
            out.append(dict(prior=prior, scratch=scratch, what='crash'))
            out.append(dict(prior=prior, scratch=scratch, what='fault'))
            out.append(dict(prior=prior, scratch=scratch, what='intr'))
            out.append(dict(prior=prior, scratch=scratch, what='other'))
    return out


class Files:
    def __init__(self, S, d, fs):
        self.S, self.d, self.fs = S, d, fs
        self.tids, self.stat = {}, {}

    def vals(self, k):
        S, lo = self.S, (k + 1) * 2 ** 40
        return (S.int('t%d' % k, lo, lo + 2 ** 30), S.int('m%d' % k, 4096 * 10 ** 9, 4096 * 10 ** 9 + 8192),
                S.int('x%d' % k, 0, 3))

    def make(self, k):
        S = self.S
        name = 'RAW-R0450-LPD%02d-S00000.h5' % k
        t, m, x = self.vals(k)
        s = SRC % k
        path = S.write_h5(S_rel(self.d, S) + '/' + name, [
            ('METADATA/dataSourceId', 'bytes', [('INSTRUMENT/%s/image' % s).encode()]),
            ('INDEX/trainId', 'vec', ('u8', [t, 0])),
            ('INDEX/%s/image/first' % s, 'vec', ('u8', [0])),
            ('INDEX/%s/image/count' % s, 'vec', ('u8', [1])),
            ('INSTRUMENT/%s/image/data' % s, 'data', (Data(S, 'i4', (), 1000 * (k + 1)), 1))])
        self.fs.put_h5(path, m, x)
        self.tids[name], self.stat[name] = t, (m, x)
        return name

    def entry(self, name):
        k = sorted(self.tids).index(name)
        m, x = self.stat[name]
        return dict(filename=name, mtime=self.fs.mtime(m), size=self.fs.size(x), train_ids=[self.tids[name]],
                    control_sources=[], instrument_sources=[SRC % k])


def S_rel(d, S):
    root = S.path('x')[:-1]
    return d[len(root):]


def check_run(S, run, F):
    names = sorted(F.tids)
    S.eq_array(run.train_ids, [F.tids[n] for n in names], 'the run as it is on disk')
    S.check(set(run.instrument_sources) == {SRC % k for k in range(len(names))}, 'its sources')


def complete(S, fs, path, F, names):
    """the cache at this path describes all files of the run"""
    st, doc = fs.load_json(path)
    if st != 'ok':
        return False
    want = [F.entry(n) for n in names]
    if not isinstance(doc, list) or len(doc) != len(want):
        return False
    conds = []
    for n, w in zip(names, want):
        g = [e for e in doc if e['filename'] == n]
        if len(g) != 1 or set(g[0]['instrument_sources']) != set(w['instrument_sources']) or g[0]['control_sources']:
            return False
        if len(g[0]['train_ids']) != 1:
            return False
        conds += [g[0]['train_ids'][0] == w['train_ids'][0], g[0]['mtime'] == w['mtime'], g[0]['size'] == w['size']]
    return S.And(*conds)


def scenario(S, cfg):
    fs = S.osfs()
    rfm = S.module('run_files_map')
    prop = 'FXE/201830/p900023'
    d = S.path('exp/raw/%s/r0450' % prop)
    fs.mkdir_(d)
    rfm.SCRATCH_ROOT_DIR = S.path('gpfs')
    fs.mkdir_(S.path('gpfs'))
    locs = [d + '/karabo_data_map.json']
    if cfg['scratch']:
        fs.mkdir_(S.path('gpfs/%s/scratch' % prop))
        locs.append(S.path('gpfs/%s/scratch/.karabo_data_maps/raw_r0450.json' % prop))
    where = S.choose('where', list(range(len(locs)))) if cfg['prior'] != 'absent' else 0
    F = Files(S, d, fs)
    first = F.make(0)
    prior = cfg['prior']
    if prior in ('old', 'unreadable'):
        fs.put_json(locs[where], [F.entry(first)])
    elif prior == 'garbled':
        fs.put_text(locs[where], '[{"filename": "RAW')
    elif prior == 'bytes':
        fs.put_text(locs[where], b'\x89HDF\r\n\xff\xfe')
    elif prior == 'empty':
        fs.put_text(locs[where], '')
    if prior == 'unreadable':
        fs.plan.deny.append(('open_r', locs[where], 'perm'))
    F.make(1)
    before = {p: fs.raw(p) for p in locs}
    listed = {p: fs.listing(p.rsplit('/', 1)[0]) for p in locs if fs.is_there(p.rsplit('/', 1)[0])}

    what = cfg['what']
    denied = []
    if what == 'deny':
        denied = S.choose('denied', [[0], [1], [0, 1]] if cfg['scratch'] else [[0]])
        exc = S.choose('exc', ['perm', 'rofs', 'nospc'])
        for k in denied:
            for op in ('create', 'open_w', 'mkdir', 'replace'):
                fs.plan.deny.append((op, locs[k].rsplit('/', 1)[0], exc))
    elif what != 'none':
        op = S.choose('op', ['create', 'open_w', 'write', 'flush', 'replace', 'mkdir', 'open_r', 'unlink'])
        nth = S.choose('nth', [1, 2, 3, 4] if op == 'write' else [1, 2])
        exc = None
        if what == 'fault':
            exc = S.choose('exc', ['perm', 'rofs', 'nospc', 'io', 'notdir'])
        elif what == 'intr':
            exc = 'intr'
        fs.plan.at = (op, nth, what if what in ('crash', 'other') else 'fault', exc)

    names = [sorted(F.tids)]
    if what == 'other':
        F.vals(2)

        def hook():
            F.make(2)
            names.append(sorted(F.tids))
            S.kd.RunDirectory(d)
        fs.plan.hook = hook

    r = fs.run(S.kd.RunDirectory, d)

    # what is in each place now?
    new = []
    for p in locs:
        dirname, base = p.rsplit('/', 1)
        same = fs.raw(p) == before[p]
        full = S.Or(*[complete(S, fs, p, F, n) for n in names])
        S.check(S.Or(same, full), 'each cache file has its previous or the complete new content')
        if not same:
            new.append(p)
        if not r.crashed and fs.is_there(dirname):
            S.check([n for n in fs.listing(dirname) if n != base and not n.endswith('.h5') and n not in listed.get(p, [])] == [],
                    'no temporary file left behind')
    if r.crashed:
        S.check(what == 'crash', 'no crash otherwise')
    elif what == 'intr' and not r.ok:
        S.check(r.raised('KeyboardInterrupt'), 'only the interruption is passed on')
    else:
        S.check(r.ok, 'the run can be opened: %r' % (None if r.ok else r.exc))
        if what != 'other':
            check_run(S, r.value, F)
        if what in ('none', 'deny'):
            free = [k for k in range(len(locs)) if k not in denied]
            S.check(new == [locs[k] for k in free[:1]], 'the cache is written to the first location possible')
    # whatever happened: opening again gives the run
    fs.plan.at, fs.plan.deny = None, []
    r = fs.run(S.kd.RunDirectory, d)
    S.check(r.ok, 'the run can be opened afterwards')
    check_run(S, r.value, F)
