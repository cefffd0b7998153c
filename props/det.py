"""Detector data shared by C15 - C19: modules in files, with frames per train."""
from .common import *

LPD = 'FXE_DET_LPD1M-1'


class Frames:
    """the frames of one train in one file of a module"""
    def __init__(self, tid, first, pids):
        self.tid, self.first, self.pids = tid, first, pids


class Det:
    def __init__(self, S, name=LPD, cls='LPD1M', nfmt='%s/DET/%dCH0:xtdf'):
        self.S, self.name, self.cls, self.nfmt = S, name, cls, nfmt
        self.frames = {}     # modno -> [Frames]
        self.data = {}       # (modno, tid id) -> {key: Data}
        self.slow = {}       # modno -> [(tid, first, count, Data)]
        self.paths = []
        self.R = Run(S)

    def src(self, m):
        return self.nfmt % (self.name, m)

    def add(self, fname, m, tids, counts, pids, trailing=(2,), dtype='u2', off=0, pdim=(), extra=None,
            slow=None, style='count', more=None, index_from=None, gap=0):
        """counts: concrete frames per train; pids: one list per train"""
        S = self.S
        firsts, rows, pos = [], [0] * off, off
        for c, p in zip(counts, pids):
            firsts.append(pos)
            rows += list(p)[:c] + [7] * gap     # (rows of no train after each one)
            pos += c + gap
        rows.append(0)
        keys = {'data': self.R.data(dtype, trailing, len(rows)),
                'pulseId': FnData(S, 'u8', [[p] for p in rows] if pdim else rows, pdim)}
        for k, d in (extra or {}).items():
            keys[k] = self.R.data(*d, len(rows))
        inst = {'image': dict(keys=keys, firsts=firsts, counts=list(counts), nrows=len(rows), style=style)}
        if slow:
            inst['detector'] = dict(keys={'a.b': self.R.data(*slow['data'])}, counts=slow['counts'],
                                    firsts=slow['firsts'])
        fm = self.R.add(fname, list(tids), inst={self.src(m): inst, **(more or {})})
        self.paths.append(fm.path)
        for t, f, c, p in zip(tids, firsts, counts, pids):
            self.frames.setdefault(m, []).append((t, f, list(p)[:c], keys))
        if slow:
            d = fm.inst[self.src(m)]['detector'].keys['a.b']
            for t, f, c in zip(tids, slow['firsts'], slow['counts']):
                self.slow.setdefault(m, []).append((t, f, c, d))
        return fm

    def open(self):
        return self.S.kd.DataCollection.from_paths(self.paths)

    def iface(self, run=None, **kw):
        C = getattr(self.S.module('components'), self.cls)
        return C(self.open() if run is None else run, **kw)

    def count(self, m, tid):
        return sum(len(p) for t, f, p, k in self.frames[m] if t is tid)

    def cells(self, m, key, sel, tids=None):
        """[(tid, pulse ID, [elements])] of the pulses selected"""
        out = []
        for t, f, pids, keys in self.frames[m]:
            if tids is not None and not any(t is u for u in tids):
                continue
            for i in sel.pick(pids):
                out.append((t, pids[i], keys[key].row(f + i)))
        return out


class Sel:
    """A selection of pulses: by 'id' or 'index', with a slice, a list or a number"""
    def __init__(self, S, by, form, hi=4, lo=0):
        self.S, self.by, self.form = S, by, form
        mk = S.kd.by_id if by == 'id' else S.kd.by_index
        if form == 'all':
            self.arg = mk[:]
        elif form == 'slice':
            self.a, self.b = S.int('sel_a', 0, hi), S.int('sel_b', 0, hi)
            self.st = 1
            self.arg = mk[self.a:self.b]
        elif form == 'step':
            self.a, self.b = S.int('sel_a', 0, hi - 1), hi + 1
            self.st = S.choose('sel_st', [2, 3])
            self.arg = mk[self.a:self.b:self.st]
        elif form == 'from':
            self.a = S.int('sel_a', lo, hi)
            self.arg = mk[self.a:]
        elif form == 'list':
            x, y = S.int('sel_x', 0, hi), S.int('sel_y', 0, hi)
            how = S.choose('sel_list', ['any', 'array'])
            if how != 'any':
                S.assume(x < y)
            self.items = [x, y]
            self.arg = mk[S.array([x, y]) if how == 'array' else [x, y]]
        elif form == 'int':
            x = S.int('sel_x', 0, hi)
            self.items = [x]
            self.arg = mk[x]
        else:
            raise ValueError(form)

    def has(self, v):
        S = self.S
        if self.form == 'all':
            return True
        if self.form == 'from':
            return v >= self.a
        if self.form in ('slice', 'step'):
            c = S.And(v >= self.a, v < self.b) if self.form == 'slice' else v >= self.a
            if self.st != 1:
                c = S.And(c, (v - self.a) % self.st == 0)
            return c
        return S.Or(*[v == x for x in self.items])

    def pick(self, pids):
        """positions of the selected pulses in a train with these pulse IDs"""
        if self.by == 'id':
            return [i for i, p in enumerate(pids) if self.S.fork(self.has(p))]
        return [i for i in range(len(pids)) if self.S.fork(self.has(i))]


def pulse_ids(S, n, prefix, hi=4):
    out = []
    for i in range(n):
        p = S.int('%s%d' % (prefix, i), 0, hi)
        if out:
            S.assume(out[-1] < p)
        out.append(p)
    return out


def is_nan(v):
    return isinstance(v, float) and v != v


def check_cells(S, arr, mods, want, trailing, dtype, msg='array', dims=None):
    """arr(module, train, pulse, ...) has exactly the wanted cells
    want: {modno: [(tid, pid, [elements])]}"""
    dims = tuple(arr.dims)
    S.check(dims[:3] == ('module', 'train', 'pulse'), msg + ': dimensions')
    have = [int(m) for m in S.elems(arr.coords['module'].values)[1]]
    S.check(have == [m for m in mods if m in have] and all(m in have for m in mods if want[m]),
            msg + ': modules in order')
    tr = S.elems(arr.coords['train'].values)[1]
    pu = S.elems(arr.coords['pulse'].values)[1]
    shp, els, dt = S.elems(arr.values)
    S.check(tuple(shp) == (len(have), len(tr), len(pu)) + tuple(trailing), msg + ': shape')
    S.check(S.And(*[S.Not(a == b) for i, a in enumerate(tr) for b in tr[:i]]), msg + ': each train once')
    S.check(S.And(*[S.Not(a == b) for i, a in enumerate(pu) for b in pu[:i]]), msg + ': each pulse once')
    n = int(np.prod(trailing)) if trailing else 1
    used_t, used_p = [False] * len(tr), [False] * len(pu)
    cells = {}
    for mi, m in enumerate(have):
        for tid, pid, vals in want[m]:
            hit = [(i, j) for i, t in enumerate(tr) for j, p in enumerate(pu) if S.fork(S.And(t == tid, p == pid))]
            S.check(len(hit) == 1, msg + ': every selected pulse is in the array')
            i, j = hit[0]
            used_t[i] = used_p[j] = True
            cells[mi, i, j] = vals
    S.check(all(used_t) and all(used_p), msg + ': no other trains or pulses')
    conds, empty = [], True
    for mi in range(len(have)):
        for i in range(len(tr)):
            for j in range(len(pu)):
                at = ((mi * len(tr) + i) * len(pu) + j) * n
                got = els[at:at + n]
                if (mi, i, j) in cells:
                    conds += [g == v for g, v in zip(got, cells[mi, i, j])]
                else:
                    empty = empty and all(is_nan(g) for g in got)
    S.check(empty, msg + ': missing value where there is no data')
    S.check(S.And(*conds), msg + ': stored values at their coordinates')
    if len(cells) == len(have) * len(tr) * len(pu) and cells:
        S.check(dt == np.dtype(dtype), msg + ': dtype')
