"""C32: the command for virtual CXI files uses the run, detector, trains and file asked for."""
from .det import *

BOUNDS = ('runs with an AGIPD, an LPD, both or no detector; 2 trains with any IDs and 2 frames in each of 2 or 10 modules '
          '(of 2 x 1 pixels) with data in the second train for any 7 to 10 of them; run folders given as a path in several forms, or as a '
          'proposal folder and a run number of up to 5 digits with or without leading zeros')
WALL = {'quick': 300, 'thorough': 850}

DETS = {'agipd': ('SPB_DET_AGIPD1M-1', 'AGIPD1M'), 'lpd': ('FXE_DET_LPD1M-1', 'LPD1M')}


def configs(tier):
    out = []
    for det in ('agipd', 'lpd', 'both', 'none'):
        out.append(dict(what='path', det=det, mods=2, mm=1))
    out.append(dict(what='path', det='lpd', mods=10, mm=None))
    out.append(dict(what='path', det='agipd', mods=10, mm='any'))
    out.append(dict(what='two'))
    for k, z in ((1, 0), (2, 1), (3, 0), (4, 0), (5, 0), (2, 2), (3, 2)):
        out.append(dict(what='num', det='agipd' if k % 2 else 'lpd', mods=2, mm=1, digits=(k, z), out=k % 2 == 0))
    return out


def command(S, main, argv):
    def run():
        try:
            st = main(argv)
        except SystemExit as e:
            st = e.code
        if st not in (None, 0):
            raise RuntimeError('exit status %r' % (st,))
    return S.call(run)


def check_file(S, out, tids, used, pids):
    f = S.h5file(out)
    S.eq_array(f['entry_1/trainId'][:], [tids[t] for t in used for i in range(2)], 'train ID of each frame', shape=(2 * len(used),))
    S.eq_array(f['entry_1/pulseId'][:], [p for t in used for p in pids[t]], 'pulse ID of each frame', shape=(2 * len(used),))


def two(S, cfg, fs, main):
    """raw and processed data of one run"""
    scratch = S.path('p002012/scratch')
    order = S.choose('order', [('raw', 'proc'), ('proc', 'raw')])
    runs = {}
    for i, d in enumerate(order):
        runs[d] = write_run(S, fs, 'p002012/%s/r0007' % d, 'agipd', 2, 2 ** (21 + i), 1)
    old = set(fs.listing(scratch))
    for d in order:
        p = 'p002012/%s/r0007' % d
        o = command(S, main, [S.path('p002012') + p[7:], '--min-modules', '2'])
        S.check(o.ok, 'the command writes a file: %r' % (o.exc,))
        new = set(fs.listing(scratch)) - old
        S.check(len(new) == 1, "each run has its own file in the scratch folder")
        old |= new
        tids, have = runs[d]
        runs[d] += (sorted(new)[0], [t for t in (0, 1) if all(t in have['agipd'][m] for m in (0, 1))], PID[p, 'agipd'])
    for tids, have, name, used, pids in runs.values():
        check_file(S, scratch + '/' + name, tids, used, pids)


PID = {}


def write_run(S, fs, path, det, mods, base, vary=False, fixed=False):
    """-> (train IDs, {detector: {module: trains with data}})"""
    fs.mkdir_(S.path(path))
    tids = [base, base + S.int('gap%d' % base, 1, 2 ** 20)]
    have = {}
    for di, d in enumerate(('agipd', 'lpd')):
        if det not in (d, 'both'):
            continue
        D = Det(S, *DETS[d])
        have[d] = {}
        pid = PID[path, d] = ([[11 + 4 * di, 13 + 4 * di], [12 + 4 * di, 14 + 4 * di]] if fixed else
                              [pulse_ids(S, 2, '%s%d_%d_' % (d, base, t), 2700) for t in range(2)])
        for m in range(mods):
            two = vary is False or m >= vary or S.fork(S.bool('has_%s%d' % (d, m)))
            D.add('%s/RAW-R0001-%s%02d-S00000.h5' % (path, d.upper(), m), m, tids, [2, 2 if two else 0], pid, trailing=(2, 2, 1),
                  extra={'cellId': ('u2', ())})
            have[d][m] = [0, 1] if two else [0]
    S.add_file(path + '/RAW-R0001-DA01-S00000.h5', tids=tids, ctrl={'SA1_XTD2_XGM/DOOCS/M': {'a.value': Data(S, 'i4', (), 7)}})
    return tids, have


def scenario(S, cfg):
    fs = S.digit_fs() if cfg['what'] == 'num' else S.osfs()
    C = S.module('components')
    for cls in (C.AGIPD1M, C.LPD1M):
        cls.module_shape = (2, 1)
    main = S.module('cli.make_virtual_cxi').main
    fs.mkdir_(S.path('p002012/scratch'))
    fs.mkdir_(S.path('elsewhere'))
    if cfg['what'] == 'two':
        return two(S, cfg, fs, main)
    args, opts = [], []
    if cfg['mm'] is None:
        mm = 9
    else:
        mm = cfg['mm'] if cfg['mm'] != 'any' else S.choose('mm', [8, 10, 1, 9])
        opts = ['--min-modules', str(mm)]
    if cfg['what'] == 'path':
        form = S.choose('form', ['p002012/raw/r0007', 'p002012/proc/r0012/', 'p002012/proc/../raw/r0007', 'elsewhere/run', 'p002012/raw/r0007x',
                                 'p002012/raw/none'] if cfg['mods'] == 2 else ['p002012/proc/r0012'])
        rel = form.rstrip('/').replace('proc/../', '')
        fs.mkdir_(S.path('p002012/proc'))
        std = rel in ('p002012/raw/r0007', 'p002012/proc/r0012')
        there = rel != 'p002012/raw/none'
        if there:
            path = rel
            tids, have = write_run(S, fs, rel, cfg['det'], cfg['mods'], 2 ** 21, 3 if cfg['mods'] > 2 else 1)
        if rel != 'p002012/raw/r0008':
            write_run(S, fs, 'p002012/raw/r0008', 'agipd', 1, 2 ** 22)
        args = [S.path('p002012') + form[7:] if form.startswith('p002012/') else S.path(form)]
    else:
        k, z = cfg['digits']
        txt, R = S.digits(k, 'R', lead_zero=k == 4)
        r1txt, R1 = S.digits(4, 'r1') if k < 5 else S.digits(5, 'r1', lead_zero=False)
        path = 'p002012/proc/r' + r1txt
        tids, have = write_run(S, fs, path, cfg['det'], cfg['mods'], 2 ** 21, fixed=True)
        write_run(S, fs, 'p002012/raw/r' + r1txt, cfg['det'], 1, 2 ** 22, fixed=True)
        there, std = S.fork(R == R1), True
        args = [S.path('p002012'), '0' * z + txt]
    o_kind = S.choose('out', ['default', 'given', 'long', 'nodir'])
    before = set(fs.listing(S.path('p002012/scratch')))
    out = None
    if o_kind != 'default':
        out = S.path('elsewhere') + ('/none/x.cxi' if o_kind == 'nodir' else '/x.cxi')
        opts += ['-o' if o_kind == 'given' else '--output', out]
    argv = opts + args if cfg['mods'] == 2 and S.choose('order', [0, 1]) else args + opts
    o = command(S, main, argv)
    new = set(fs.listing(S.path('p002012/scratch'))) - before
    fail = (not there or cfg['det'] == 'none' or o_kind == 'nodir' or (o_kind == 'default' and not std))
    if fail:
        S.check(not o.ok, 'a run, detector or output folder which is not there is an error')
        S.check(not new and not fs.is_there(S.path('elsewhere/x.cxi')), 'no file is written when there is an error')
        return
    S.check(o.ok, 'the command writes a file: %r' % (o.exc,))
    if out is None:
        S.check(len(new) == 1, "one file is written in the proposal's scratch folder")
        out = S.path('p002012/scratch') + '/' + sorted(new)[0]
    else:
        S.check(not new, 'only the output file is written')
    det = 'agipd' if 'agipd' in have else 'lpd'
    used = [t for t in (0, 1) if sum(1 for m in have[det] if t in have[det][m]) >= mm]
    check_file(S, out, tids, used, PID[path, det])
