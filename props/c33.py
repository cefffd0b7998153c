"""C33: leaving a with block closes the files that were opened."""
from .common import *

BOUNDS = ('runs of 1 to 3 files of 1 or 2 trains with any train IDs, opened as a file, by their paths or as a '
          'folder; sequences of up to 2 (quick) or 3 (thorough) of 16 operations in the block, left normally or by an exception')
WALL = {'quick': 300, 'thorough': 850}

OPS = ['nothing', 'train', 'train_last', 'loop', 'loop_part', 'array', 'dask', 'series', 'select', 'union', 'write', 'info', 'counts', 'inner',
       'twice', 'meta']


def configs(tier):
    out = []
    for how in ('file', 'paths', 'dir'):
        for i, op in enumerate(OPS):
            out.append(dict(how=how, ops=[op, OPS[(i * 5 + 3) % len(OPS)]] + ([OPS[(i * 7 + 2) % len(OPS)]] if tier != 'quick' else []),
                            files=1 if how == 'file' else 2 + i % 2))
    for how in ('paths', 'dir'):
        out.append(dict(how=how, ops=['info', 'train'], files=2, hollow=1))
    out.append(dict(how='derived', files=2))
    out.append(dict(how='other', files=2))
    return out


class Stop(Exception):
    pass


def build(S, n, d, hollow=0):
    R = Run(S)
    tids = S.tids(2 * n - 1 if n > 1 else 2)
    for i in range(n + hollow):
        mine = tids[2 * i:2 * i + 2]
        R.add('%s/RAW-R0001-DA01-S%05d.h5' % (d, i), mine, ctrl={XGM: {'a.value': ('i4', ()), 'b.value': ('f4', (2,))}},
              inst={DET0: {'image': dict(keys={'data': ('u2', (2,))}, counts=[1, 2][:len(mine)], maxc=2),
                           'header': dict(keys={'id': ('u8', ())}, counts=[1] * len(mine))}},
              pad=0 if mine else 1)
    return R, tids


def use(S, run, R, tids, op, d, k):
    kd = S.kd
    if op in ('train', 'train_last'):
        t = tids[0 if op == 'train' else -1]
        tid, data = run.train_from_id(t)
        check_train(S, R, data, t, msg='train read in the block')
    elif op == 'loop':
        S.check(len(list(run.trains())) == len(tids), 'every train read in the block')
    elif op == 'loop_part':
        it = iter(run.select([(DET0, '*')]).trains())
        next(it)
        return it
    elif op == 'array':
        arr = run.get_array(DET0, 'image.data')
        S.check(arr.shape[0] == sum(R.count(DET0, 'image.data', t) for t in tids), 'rows read in the block')
    elif op == 'dask':
        arr = run.get_dask_array(DET0, 'header.id')
        S.check(arr.shape[0] == len(tids), 'rows of a lazy array')
        return arr
    elif op == 'series':
        S.check(len(run.get_series(XGM, 'a.value')) == len(tids), 'series read in the block')
    elif op == 'select':
        sel = run.select('*XGM*').select_trains(kd.by_index[:1])
        tid, data = sel.train_from_index(0)
        S.check(set(data) == {XGM}, 'selection read in the block')
        S.check(not S.call(sel.__enter__).ok, 'a selection cannot be used in a with statement')
    elif op == 'union':
        both = run.select([(XGM, '*')]).union(run.select([(DET0, '*')]))
        both.train_from_index(0)
        S.check(not S.call(both.__enter__).ok, 'a union cannot be used in a with statement')
    elif op == 'write':
        run.write(S.path('copy%d.h5' % k))
    elif op == 'info':
        S.capture(run.info)
        S.capture(run.train_info, tids[0])
    elif op == 'counts':
        run.get_data_counts(DET0, 'image.data')
    elif op == 'inner':
        with run as again:
            again.train_from_index(0)
    elif op == 'twice':
        with open_(S, R, 'file', d) as other:
            other.train_from_index(0)
    elif op == 'meta':
        run.keys_for_source(DET0)


def open_(S, R, how, d):
    if how == 'file':
        return S.kd.H5File(R.paths[0])
    if how == 'paths':
        return S.kd.DataCollection.from_paths(R.paths)
    return S.kd.RunDirectory(S.path(d))


def still(S, R):
    """the files of the run which are open"""
    return [p for p in S.open_files() if p in R.paths]


def scenario(S, cfg):
    fs = S.osfs()
    d = 'raw/r0001'
    fs.mkdir_(S.path(d))
    R, tids = build(S, cfg['files'], d, cfg.get('hollow', 0))
    how = cfg['how']
    if how == 'derived':
        return derived(S, R, tids, d)
    if how == 'other':
        return other(S, R, tids, d)
    run = open_(S, R, how, d)
    fail = S.choose('end', [None] + list(range(len(cfg['ops']) + 1)))
    held = []    # what the user still holds
    try:
        with run as r:
            S.check(r is run, 'the block has the run itself')
            for i, op in enumerate(cfg['ops']):
                if fail == i:
                    raise Stop
                held.append(use(S, run, R, tids, op, d, i))
            if fail == len(cfg['ops']):
                raise Stop
    except Stop:
        S.check(fail is not None, 'an exception is passed on')
    else:
        S.check(fail is None, 'an exception is passed on')
    S.check(not still(S, R), 'all files are closed after the block')
    t = S.choose('again', [tids[0], tids[-1]])
    tid, data = run.train_from_id(t)
    check_train(S, R, data, t, msg='train read after the block')


def derived(S, R, tids, d):
    kd = S.kd
    how = S.choose('how', ['file', 'paths', 'dir'])
    run = open_(S, R, how, d)
    op = S.choose('op', ['select', 'deselect', 'trains', 'all', 'union', 'self', 'chain'])
    sel = {'select': lambda: run.select('*XGM*'), 'deselect': lambda: run.deselect('*XGM*'), 'all': lambda: run.select('*'),
           'trains': lambda: run.select_trains(kd.by_index[0:1]), 'union': lambda: run.union(open_(S, R, 'file', d)),
           'self': lambda: run.union(), 'chain': lambda: run.select('*').select_trains(kd.by_id[tids[0]:])}[op]()
    r = S.call(sel.__enter__)
    S.check(not r.ok, 'a selection or union cannot be used in a with statement')
    with run:
        run.train_from_index(0)
    S.check(not still(S, R), 'all files are closed after the block')


def other(S, R, tids, d):
    """two collections of the same files"""
    a = open_(S, R, S.choose('a', ['file', 'paths', 'dir']), d)
    b = open_(S, R, S.choose('b', ['file', 'paths', 'dir']), d)
    a.train_from_index(0)
    ta, tb = S.choose('early', [0, 1]), None
    if ta:
        b.train_from_index(0)
    with a:
        a.train_from_index(0)
    tid, data = b.train_from_id(tids[0])
    check_train(S, R, data, tids[0], msg='train read through another collection of the same files')
    with b:
        pass
    S.check(not still(S, R), 'all files are closed after the block')
