"""C27: proposal and run identifiers open the intended directory and files."""
import fnmatch

from .common import *

BOUNDS = ('proposal and run numbers of up to 7 and 5 digits, each given as a number, digits with and without leading zeros, '
          'prefixed name or path; two proposals with any numbers in different folders, two raw runs and a processed run of any '
          'numbers, and folders of the same names elsewhere; run folders of up to six entries, each present or not: HDF5 files, '
          'files which are not HDF5 or lack the index, a folder, other files, with twelve file name patterns')
WALL = {'quick': 300, 'thorough': 850}

NAMES = [('RAW-R0001-DA01-S00000.h5', 'data'), ('RAW-R0001-DA01-S00001.h5', 'data'), ('RAW-R0001-AGIPD00-S00000.h5', 'data'),
         ('CORR-R0001-DA01-S00000.h5', 'data'), ('raw-r0001-da02-s00000.h5', 'data'), ('x.h5', 'data')]
OTHER = [('RAW-R0001-DA03-S00000.h5', 'junk'), ('RAW-R0001-LPD07-S00000.h5', 'junk'), ('RAW-R0001-DA04-S00000.h5', 'noindex'),
         ('RAW-R0001-DA01.h5', 'dir'), ('RAW-R0001-DA01-S00000.h5.part', 'data'), ('RAW-R0001-DA01-S00000.hdf5', 'data'),
         ('notes.txt', 'text'), ('DA01h5', 'data')]
PATTERNS = ['*', '*DA*', 'RAW-*', '*S00000*', '*S0000[1-9]*', '*da*', '*.h5', 'RAW-R0001-DA0?-S00000.h5', 'x.h5', '*DA01*',
            '*[!0].h5', 'none*', 'RAW-R0001-DA01-S00000']


def configs(tier):
    out = []
    prop = [('int', 0, 0), ('path', 6, 0), ('pre', 6, 0), ('pre', 7, 0)]
    prop += [('digits', k, z) for k in range(1, 8) for z in ((0, 1, 6 - k) if k < 6 else (0,)) if 0 <= z <= 6 - k or k > 6]
    prop = sorted(set(prop))
    run = [('int', 0, 0), ('pre', 4, 0), ('pre', 5, 0)]
    run += sorted({('digits', k, z) for k in range(1, 6) for z in ((0, 1, 4 - k) if k < 4 else (0,)) if 0 <= z <= 4 - k or k > 4})
    for i, p in enumerate(prop):
        out.append(dict(what='open', prop=p, run=run[i % len(run)], data=['raw', 'proc', None][i % 3]))
    for i, r in enumerate(run):
        for j in range(1 if tier == 'quick' else len(prop)):
            out.append(dict(what='open', prop=prop[(5 * i + 3 + j) % len(prop)], run=r, data=['proc', None, 'raw'][(i + j) % 3]))
    for i in range(6):
        out.append(dict(what='dir', files=[NAMES[i % 6], NAMES[(i + 1) % 6], NAMES[(i + 3) % 6], OTHER[i], OTHER[(i + 3) % 8]],
                        pats=PATTERNS[i % 2::2] if tier == 'quick' else PATTERNS, via=i % 2))
    out.append(dict(what='dir', files=OTHER[:4], pats=PATTERNS, via=0))
    if tier == 'thorough':
        for i in range(6):
            out.append(dict(what='dir', files=NAMES[:3] + OTHER[i:i + 3], pats=PATTERNS, via=i % 2))
            out.append(dict(what='dir', files=NAMES[3:] + (OTHER + OTHER)[i + 3:i + 6], pats=PATTERNS, via=i % 2))
    return out


def make(S, name, k, kind='data'):
    if kind == 'junk':
        return S.corrupt_file(name)
    if kind == 'noindex':
        return S.write_h5(name, [('METADATA/dataSourceId', 'bytes', [b'CONTROL/SA1_XTD2_XGM/DOOCS/MAIN'])])
    return S.add_file(name, tids=[2 ** 21 + 10 * k, 2 ** 21 + 10 * k + 3],
                      ctrl={'SA1_XTD2_XGM/DOOCS/M%d' % k: {'a.value': Data(S, 'i4', (), 100 * k)}})


def opened(run, ks):
    return (set(run.all_sources) == {'SA1_XTD2_XGM/DOOCS/M%d' % k for k in ks} and
            sorted(run.train_ids) == sorted(t for k in ks for t in (2 ** 21 + 10 * k, 2 ** 21 + 10 * k + 3)))


def scenario(S, cfg):
    if cfg['what'] == 'dir':
        return run_dir(S, cfg)
    fs = S.digit_fs()
    root = S.path('exp')
    S.module('read_machinery').DATA_ROOT_DIR = root
    F = 'RAW-R0001-DA01-S00000.h5'

    def run(k, path):
        fs.mkdir_(S.path('exp/' + path))
        make(S, 'exp/%s/%s' % (path, F), k)

    pn, rn = cfg['prop'], cfg['run']
    nb = 7 if pn[1] == 7 or pn[0] == 'int' and cfg['data'] == 'proc' else 6
    nr = 5 if rn[1] == 5 or rn[0] == 'int' and cfg['data'] == 'raw' else 4
    atxt, A = S.digits(6, 'A')
    btxt, B = S.digits(nb, 'B', lead_zero=nb == 6)
    S.assume(A != B)
    r1txt, R1 = S.digits(4, 'r1')
    r2txt, R2 = S.digits(nr, 'r2', lead_zero=nr == 4)
    S.assume(R1 != R2)
    where = {('A', 'raw', 1): 1, ('A', 'raw', 2): 2, ('A', 'proc', 1): 3, ('B', 'raw', 2): 4, ('B', 'proc', 1): 5}
    dirs = {'A': 'SPB/201830/p' + atxt, 'B': 'FXE/201901/p' + btxt}
    for (p, d, r), k in where.items():
        run(k, '%s/%s/r%s' % (dirs[p], d, (None, r1txt, r2txt)[r]))
    # the same names elsewhere
    run(11, 'SPB/p%s/raw/r%s' % (atxt, r1txt))
    run(12, 'FXE/201830/old/p%s/raw/r%s' % (atxt, r1txt))
    run(13, 'FXE/201830/p%s_old/raw/r%s' % (atxt, r1txt))
    run(14, 'MID/201830/u%s/raw/r%s' % (atxt, r1txt))
    run(15, 'SPB/201830/p%s/raw/r%s_old' % (atxt, r1txt))
    run(16, 'SPB/201830/p%s/raw/x%s' % (atxt, r2txt))
    run(17, 'SPB/201830/p%s/scratch/r%s' % (atxt, r1txt))

    def ident(form, name, pre, hi):
        kind, k, z = form
        if kind == 'int':
            N = S.int(name, 1, hi)
            return N, N, None
        txt, N = S.digits(k, name, lead_zero=kind != 'digits' and k == (6 if pre == 'p' else 4))
        return {'digits': '0' * z, 'pre': pre, 'path': pre}[kind] + txt, N, txt
    prop, P, ptxt = ident(pn, 'P', 'p', 9999999)
    if pn[0] == 'path':
        prop = S.path('exp/SPB/201830/' + prop) if S.fork(S.bool('slash')) else S.path('exp/SPB/201830/') + prop + '/'
    rid, R, _ = ident(rn, 'R', 'r', 99999)
    data = cfg['data'] or 'raw'
    o = S.call(S.kd.open_run, prop, rid, **({'data': data} if cfg['data'] else {}))
    p = 'A' if S.fork(P == A) else 'B' if pn[0] != 'path' and S.fork(P == B) else None
    r = 1 if S.fork(R == R1) else 2 if S.fork(R == R2) else None
    k = where.get((p, data, r))
    if k is None:
        S.check(not o.ok, "opening a %s which does not exist gave data" % ('proposal' if p is None else 'run'))
        return
    S.check(o.ok, "opening an existing run failed: %r" % (o.exc,))
    if o.ok:
        S.check(opened(o.value, [k]), "another proposal, run or kind of data was opened")


def run_dir(S, cfg):
    fs = S.osfs()
    d = 'exp/SPB/201830/p002012/raw/r0007'
    if not cfg['via']:
        d += ' [dark]*?'
    root = S.path('exp')
    S.module('read_machinery').DATA_ROOT_DIR = root
    fs.mkdir_(S.path(d))
    good, bad = [], []
    pat = S.choose('pat', [None] + cfg['pats'])
    for k, (name, kind) in enumerate(cfg['files']):
        if not S.fork(S.bool('has%d' % k)):
            continue
        if kind == 'dir':
            fs.mkdir_(S.path(d + '/' + name))
        elif kind == 'text':
            fs.put_text(S.path(d + '/' + name), 'some notes')
        else:
            make(S, d + '/' + name, k, kind)
        if name.endswith('.h5') and (pat is None or fnmatch.fnmatchcase(name, pat)):
            if kind == 'data':
                good.append(k)
            else:
                bad.append(name)
    kw = {} if pat is None else {'include': pat}
    if cfg['via']:
        o, text = S.capture(S.kd.open_run, 2012, 7, **kw)
    else:
        o, text = S.capture(S.kd.RunDirectory, S.path(d), **kw)
    if not good:
        S.check(not o.ok, "opening a run without usable files matching the pattern did not fail")
        return
    S.check(o.ok, "opening a run with usable files failed: %r" % (o.exc,))
    if not o.ok:
        return
    S.check(opened(o.value, good), "files opened are not those matching the pattern")
    for name in bad:
        S.check(name in text, "a file which cannot be opened is not reported")
    for k in good:
        S.check(cfg['files'][k][0] not in text.split(), "a usable file is reported as unusable")
