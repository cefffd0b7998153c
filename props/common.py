"""Shared pieces of the scenarios: a run described once, from which files are
built and against which results are judged."""
import numpy as np

from symex.session import Data, FnData

XGM = 'SA1_XTD2_XGM/DOOCS/MAIN'
CAM = 'FXE_XAD_GEC/CAM/CAMERA'
CAMO = 'FXE_XAD_GEC/CAM/CAMERA:daqOutput'
DET0 = 'FXE_DET_LPD1M-1/DET/0CH0:xtdf'
DET1 = 'FXE_DET_LPD1M-1/DET/1CH0:xtdf'


class Grp:
    """One INSTRUMENT data group of one source in one file"""
    def __init__(self, keys, firsts, counts):
        self.keys, self.firsts, self.counts = keys, firsts, counts


class FileModel:
    def __init__(self, path, tids, ctrl, inst, ctrl_index=None):
        self.path, self.tids, self.ctrl, self.inst = path, tids, ctrl, inst
        # {src: (firsts, counts)} where control data doesn't have one row per train
        self.ctrl_index = ctrl_index or {}


class Run:
    """files: [FileModel]; what the data should be"""
    def __init__(self, S):
        self.S = S
        self.files = []
        self._k = 0

    def data(self, dtype, trailing=(), rows=None):
        self._k += 1
        dt = np.dtype(dtype)
        step = 7 if dt.itemsize == 1 else 100 if dt == np.dtype('f2') else 2000 if dt.itemsize == 2 else 100000
        return Data(self.S, dt, trailing, step * self._k, rows)

    def add(self, name, tids, ctrl=None, inst=None, version='0.5', pad=0, **kw):
        """ctrl: {src: {key: (dtype, trailing)}}
        inst: {src: {group: dict(keys={key: (dtype, trailing)}, maxc=, minc=, counts=, firsts=,
                                 style=, free=bool, hi=, tie=(src, group))}}
        ctrl_index: {src: (firsts, counts)}"""
        S = self.S
        fi = len(self.files)
        c = {s: {k: self.data(*d) for k, d in keys.items()} for s, keys in (ctrl or {}).items()}
        i = {}
        spec = {}
        for src, groups in (inst or {}).items():
            i[src] = {}
            spec[src] = {}
            for g, o in groups.items():
                pre = 'F%d.%s.%s.' % (fi, src.split('/')[-1].replace(':', '_'), g)
                n = len(tids)
                counts = o.get('counts')
                if o.get('tie'):
                    ts, tg = o['tie']
                    counts = i[ts][tg].counts
                    firsts = i[ts][tg].firsts
                else:
                    if counts is None:
                        counts = S.counts(n, o.get('maxc', 2), pre + 'c', lo=o.get('minc', 0))
                    firsts = o.get('firsts')
                    if firsts is None:
                        firsts, _ = S.firsts(counts, pre + 'f', hi=o.get('hi', 300),
                                             contiguous=not o.get('free'))
                        if o.get('free'):
                            pass
                keys = {k: self.data(*d) if type(d) is tuple else d
                        for k, d in o['keys'].items()}
                i[src][g] = Grp(keys, firsts, counts)
                spec[src][g] = dict(keys=keys, firsts=firsts, counts=counts,
                                    style=o.get('style', 'count'))
                if 'nrows' in o:
                    spec[src][g]['nrows'] = o['nrows']
        path = S.add_file(name, tids=tids, ctrl=c, inst=spec, version=version, pad=pad,
                          rows_slack=kw.pop('rows_slack', 1), **kw)
        fm = FileModel(path, list(tids), c, i, kw.get('ctrl_index'))
        self.files.append(fm)
        return fm

    @property
    def paths(self):
        return [f.path for f in self.files]

    def open(self):
        dc = self.S.kd.DataCollection
        if len(self.files) == 1:
            return self.S.kd.H5File(self.paths[0])
        return dc.from_paths(self.paths)

    # --- oracle
    def all_tids(self):
        """train IDs in increasing order (scenarios create them so)"""
        out = []
        for f in self.files:
            for t in f.tids:
                if not any(t is o for o in out):
                    out.append(t)
        return out

    def sources(self):
        s = set()
        for f in self.files:
            s |= set(f.ctrl) | set(f.inst)
        return s

    def keys(self, src):
        for f in self.files:
            if src in f.ctrl:
                return set(f.ctrl[src])
            if src in f.inst:
                return {g + '.' + k for g, o in f.inst[src].items() for k in o.keys}

    def split(self, key):
        g, _, k = key.partition('.')
        return g, k

    def where(self, src, tid):
        """-> (file, position) holding this train for the source (by identity)"""
        for f in self.files:
            if src in f.ctrl or src in f.inst:
                for i, t in enumerate(f.tids):
                    if t is tid:
                        return f, i
        return None, None

    def count(self, src, key, tid):
        f, i = self.where(src, tid)
        if f is None:
            return 0
        if src in f.ctrl_index:
            return f.ctrl_index[src][1][i]
        if src in f.ctrl:
            return 1
        g, k = self.split(key)
        return f.inst[src][g].counts[i]

    def rows(self, src, key, tid):
        """-> (Data, first row, count) for this train"""
        f, i = self.where(src, tid)
        if f is None:
            return None, 0, 0
        if src in f.ctrl_index:
            return f.ctrl[src][key], f.ctrl_index[src][0][i], f.ctrl_index[src][1][i]
        if src in f.ctrl:
            return f.ctrl[src][key], i, 1
        g, k = self.split(key)
        o = f.inst[src][g]
        return o.keys[k], o.firsts[i], o.counts[i]

    def expected(self, src, key, tids):
        """rows for these trains in order: [(tid, [elements])], forking on counts"""
        out = []
        for t in tids:
            d, f, c = self.rows(src, key, t)
            for j in range(self.S.conc(c)):
                out.append((t, d.row(f + j)))
        return out

    def trailing(self, src, key):
        for f in self.files:
            if src in f.ctrl:
                return f.ctrl[src][key].trailing, f.ctrl[src][key].dtype
            if src in f.inst:
                g, k = self.split(key)
                d = f.inst[src][g].keys[k]
                return d.trailing, d.dtype


def flat(rows):
    return [e for _, r in rows for e in r]


def tid_list(S, x):
    return S.elems(x)[1]


def check_train(S, R, data, tid, sel=None, empty_present=False, msg='train data'):
    """data: the dict for one train; sel {source: set(keys)}"""
    sel = sel if sel is not None else {s: R.keys(s) for s in R.sources()}
    S.check(set(data) == set(sel), msg + ': sources')
    for src, keys in sel.items():
        d = data[src]
        S.check(d['metadata']['source'] == src, msg + ': metadata source')
        S.check(d['metadata']['timestamp.tid'] == tid, msg + ': metadata train ID')
        for key in sorted(keys):
            ds, f, c = R.rows(src, key, tid)
            c = S.conc(c)
            if c == 0:
                S.check(key not in d, msg + ': no entry for a key without data in this train')
                continue
            S.check(key in d, msg + ': key present')
            if c == 1:
                S.eq_array(d[key], ds.row(f), msg + ': values', shape=ds.trailing, dtype=ds.dtype)
            else:
                S.eq_array(d[key], [e for j in range(c) for e in ds.row(f + j)],
                           msg + ': values of several entries', shape=(c,) + ds.trailing,
                           dtype=ds.dtype)
        S.check(set(k for k in d if k != 'metadata') <= set(keys), msg + ': no other keys')


def spread(S, cfg, tids):
    """Trains for each file: in runs, or alternating between files"""
    assign = [k for k, n in enumerate(cfg['files']) for _ in range(n)]
    if cfg.get('inter'):
        assign = S.choose('assign', [[0, 1, 1, 0], [0, 1, 0, 1]])
    return [[t for t, f in zip(tids, assign) if f == k] for k in range(len(cfg['files']))]


def with_elsewhere(S, cfg, R):
    """-> (trains of the files of the source, all trains): with 'elsewhere', another file has other sources,
    recorded for a further train and for the first one of the source"""
    n = sum(cfg['files'])
    if not cfg.get('elsewhere'):
        tids = S.tids(n)
        return tids, tids
    whole = S.tids(n + 1)
    k = S.choose('apart', sorted({0, n - 1, n}))
    tids = whole[:k] + whole[k + 1:]
    both = sorted([k, 1 if k == 0 else 0])
    R.add('other.h5', [whole[i] for i in both], ctrl={'SPB_XTD9/MOTOR/OTHER': {'pos.value': ('i4', ())}},
          inst={'SPB_XTD9/CAM/OTHER:out': {'data': dict(keys={'x': ('u2', ())}, counts=[1, 1], firsts=[0, 1])}})
    return tids, whole


def lossy_index(S, n, prefix):
    """An index of control data where some trains have no row"""
    counts = S.counts(n, 1, prefix)
    firsts = []
    pos = 0
    for c in counts:
        firsts.append(pos)
        pos = pos + c
    return firsts, counts
