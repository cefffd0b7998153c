"""C29: run and file summaries report the true contents."""
import datetime
import re
import types

from .common import *

BOUNDS = ('runs of 2 to 5 files (0 to 2 detector modules of up to 2 segments, control and camera files of up to 2 segments) with 1 '
          'to 3 trains each of any IDs within 2^40 and up to 3 frames per train of any number; any subset of the sources and any '
          'range of trains selected (also none); a run of 12 files per source; any train ID asked for; the listing given one file, one run, a proposal with and '
          'without raw folder, and several paths of every kind')
WALL = {'quick': 300, 'thorough': 850}
AG, LPD, DSSC = 'SPB_DET_AGIPD1M-1', 'FXE_DET_LPD1M-1', 'SCS_DET_DSSC1M-1'


class Span:
    """datetime.timedelta of a symbolic time"""
    UNITS = dict(days=86400, seconds=1, microseconds=1e-6, milliseconds=1e-3, minutes=60, hours=3600, weeks=604800)

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        from symex.values import cast_py_float
        t = 0.
        for v, u in ((days, 86400), (seconds, 1), (minutes, 60), (hours, 3600), (weeks, 604800)):
            t = t + v * u
        for v, u in ((milliseconds, 1000), (microseconds, 10 ** 6)):
            t = t + v / u
        self.t = t

    def total_seconds(self):
        return self.t

    def __str__(self):
        if isinstance(self.t, float):
            return str(datetime.timedelta(seconds=self.t))
        return '<span>%s</span>' % (self.t,)

    def __format__(self, spec):
        return str(self)


def extra_modules(cfg):
    m = types.ModuleType('datetime')
    for k in dir(datetime):
        if not k.startswith('__'):
            setattr(m, k, getattr(datetime, k))
    m.timedelta = Span
    return {'datetime': m}


def seconds_of(S, txt):
    """the time a printed duration denotes, in seconds"""
    txt = txt.strip()
    m = re.fullmatch(r'<span>(.*)</span>', txt)
    if m:
        from symex.tokens import parse_token
        v = parse_token(m.group(1))
        return v[0] if v is not None else float(m.group(1))
    m = re.fullmatch(r'(?:(\d+) days?, )?(\d+):(\d\d):(\d\d)(\.\d+)?', txt)
    if not m:
        return None
    d, h, mi, s, f = m.groups()
    return ((int(d or 0) * 24 + int(h)) * 60 + int(mi)) * 60 + int(s) + float(f or 0)


def configs(tier):
    out = []
    for what in ('info', 'detinfo'):
        for det in (AG, LPD, DSSC):
            for lay in range(4) if det == LPD else range(3):
                out.append(dict(what=what, det=det, lay=lay))
    out.append(dict(what='info', det=None, lay=0))
    for lay in range(4):
        out.append(dict(what='train', det=LPD, lay=lay))
    for det in (AG, LPD, DSSC):
        for old in (0, 1):
            out.append(dict(what='file', det=det, old=old, n=2 + old))
    for src in ('DA01', 'DA02', 'JNGFR01', 'SPECTRO'):
        out.append(dict(what='file', src=src, n=1 + len(src) % 3))
    for how in ('one', 'slash', 'two', 'data', 'prop', 'runs', 'mixed', 'odd', 'many'):
        out.append(dict(what='list', how=how))
    return out


def line_after(text, label):
    m = re.search(r'^\s*%s(.*)$' % re.escape(label), text, re.M)
    return m.group(1).strip() if m else None


def listed(text, label):
    """-> (the number before a label, the items listed below it)"""
    lines = text.split('\n')
    for i, l in enumerate(lines):
        m = re.match(r'\s*(\d+) %s' % label, l)
        if m:
            items = []
            for k in lines[i + 1:]:
                if not re.match(r'\s*-', k):
                    break
                items.append(k.strip().lstrip('-').strip())
            return int(m.group(1)), items
    return None, []


def build(S, cfg):
    """files of a run; -> (paths, [(tids, ctrl, inst, {det source: (counts, dims)})])"""
    lay = cfg['lay']
    det = cfg['det']
    trail = {AG: (2, 3, 2), LPD: (1, 3, 4), DSSC: (1, 2, 5)}.get(det)
    n = [[2, 0], [2, 1], [1, 2], [2, 1]][lay]
    tids = S.tids(sum(n), hi=2 ** 40)
    segs = [tids[:n[0]]] + ([tids[n[0]:]] if n[1] else [])
    if lay == 3:
        # the trains of one file lie between those of the other
        segs = [[tids[0], tids[2]], [tids[1]]]
    fpt = S.int('fpt', 1, 3)
    files = []
    R = Run(S)

    def det_file(m, s):
        if det is None:
            return
        src = '%s/DET/%dCH0:xtdf' % (det, m)
        cs = [S.If(S.bool('some%d_%d_%d' % (m, s, i)), fpt, 0) for i in range(len(segs[s]))]
        firsts = []
        pos = 0
        for c in cs:
            firsts.append(pos)
            pos = pos + c
        tr = trail if lay != 1 else trail[1:]
        fm = R.add('RAW-R0001-%s%02d-S%05d.h5' % (re.search('DET_([A-Z]+)', det).group(1), m, s), segs[s], inst={
            src: {'image': dict(keys={'data': ('u2', tr)}, counts=cs, firsts=firsts, style='count' if m < 9 else 'status')}})
        files.append((fm.path, segs[s], set(), {src}, {src: (cs, tr[-2:])}))

    ctrl = ['SA1_XTD2_XGM/DOOCS/MAIN', 'A/B/C'] if lay != 2 else ['A/B/C']
    for s in range(len(segs)):
        det_file(2, s)
        if lay != 2:
            det_file(10, s)
        if lay == 2 and s == 0 or lay == 3 and s == 1:
            continue
        cam = 'FXE_XAD_GEC/CAM/CAMERA:daqOutput'
        fm = R.add('RAW-R0001-DA01-S%05d.h5' % s, segs[s], ctrl={c: {'x.value': ('i4', ())} for c in ctrl},
                   inst={cam: {'data': dict(keys={'x': ('i4', ())}, counts=[1] * len(segs[s]), firsts=list(range(len(segs[s]))))}})
        files.append((fm.path, segs[s], set(ctrl), {cam}, {}))
    return R, tids, files, fpt


def scenario(S, cfg):
    globals()['do_' + cfg['what']](S, cfg)


def check_info(S, text, tids, ctrl, inst, det_files, fpt):
    """text of info() on these trains and sources"""
    n = len(tids)
    S.check(S.text_is(line_after(text, '# of trains:') or '', [n]), "number of trains in the summary")
    if n:
        S.check(S.text_is(line_after(text, 'First train ID:') or '', [tids[0]]), "first train ID in the summary")
        S.check(S.text_is(line_after(text, 'Last train ID:') or '', [tids[-1]]), "last train ID in the summary")
        d = seconds_of(S, line_after(text, 'Duration:') or '')
        S.check(d is not None, "duration in the summary")
        if d is not None:
            S.check(S.And(d - (tids[-1] - tids[0]) / 10 < .001, (tids[-1] - tids[0]) / 10 - d < .001), "duration in the summary")
    dets = {s for s in inst if s in det_files}
    m = re.search(r'^(\d+) detector modules \((.*)\)', text, re.M)
    S.check(m and int(m.group(1)) == len(dets) and
            m.group(2) == ','.join(sorted({s.split('/')[0] for s in dets})), "detector modules in the summary")
    if dets:
        m = re.search(r'e\.g\. module (\S+) (\d+) : (\d+) x (\d+) pixels\n\s*(\S+)\n\s*(\S+) frames per train, up to (\S+) frames total',
                      text)
        S.check(m, "details of a detector module in the summary")
        if m:
            src = m.group(5)
            S.check(src in dets and src == '%s/DET/%sCH0:xtdf' % m.group(1, 2), "the module described is not in the selection")
            if src in dets:
                S.check(tuple(map(int, m.group(3, 4))) == det_files[src][0][1], "dimensions of a detector module")
                frames(S, m.group(6), m.group(7), det_files[src], fpt, n)
    k, items = listed(text, 'instrument sources')
    S.check(k == len(inst - dets) and items == sorted(inst - dets), "instrument sources in the summary")
    k, items = listed(text, 'control sources')
    S.check(k == len(ctrl) and items == sorted(ctrl), "control sources in the summary")


def frames(S, got, total, files, fpt, n):
    """texts of frames per train and of the total"""
    nonezero = S.Or(*[S.And(*[c == 0 for c in cs]) for cs, _ in files])
    S.check(S.Or(S.text_is(got, [fpt]), S.And(nonezero, S.text_is(got, [0]))), "frames per train")
    S.check(S.Or(S.And(S.text_is(got, [fpt]), S.text_is(total, [fpt * n])),
                 S.And(S.text_is(got, [0]), S.text_is(total, [0]))), "total number of frames")


def do_info(S, cfg):
    R, tids, files, fpt = build(S, cfg)
    run = S.kd.DataCollection.from_paths([f[0] for f in files])
    ctrl = set().union(*[f[2] for f in files])
    inst = set().union(*[f[3] for f in files])
    sel = run
    mode = S.choose('mode', ['all', 'sources', 'trains', 'both'])
    if mode in ('sources', 'both'):
        keep = {s for i, s in enumerate(sorted(ctrl | inst)) if S.fork(S.bool('keep%d' % i))}
        if not keep:
            return
        sel = sel.select([(s, '*') for s in sorted(keep)])
    if mode in ('trains', 'both'):
        a = S.conc(S.int('a', 0, len(tids)))
        b = S.conc(S.int('b', 0, len(tids)))
        if b < a or mode == 'both' and (a, b) not in ((0, 1), (1, 3)):
            return
        sel = sel.select_trains(S.kd.by_index[a:b])
        tids = tids[a:b]
    ctrl, inst = set(sel.control_sources), set(sel.instrument_sources)
    dets = {}
    for f in files:
        for s, d in f[4].items():
            dets.setdefault(s, []).append(d)
    o, text = S.capture(sel.info)
    S.check(o.ok, "summary failed: %r" % (o.exc,))
    if o.ok:
        check_info(S, text, tids, ctrl, inst, dets, fpt)


def do_detinfo(S, cfg):
    R, tids, files, fpt = build(S, cfg)
    run = S.kd.DataCollection.from_paths([f[0] for f in files])
    if S.fork(S.bool('some')):
        a = S.conc(S.int('a', 0, len(tids) - 1))
        run, tids = run.select_trains(S.kd.by_index[a:]), tids[a:]
    dets = {}
    for f in files:
        for s, d in f[4].items():
            dets.setdefault(s, []).append(d)
    for src in sorted(set(dets) & set(run.all_sources)):
        d = run.detector_info(src)
        S.check(tuple(d['dims']) == dets[src][0][1], "dimensions of a detector module")
        nonezero = S.Or(*[S.And(*[c == 0 for c in cs]) for cs, _ in dets[src]])
        n = d['frames_per_train']
        S.check(S.Or(n == fpt, S.And(nonezero, n == 0)), "frames per train")
        S.check(d['total_frames'] == n * len(tids), "total number of frames")


def do_train(S, cfg):
    R, tids, files, fpt = build(S, cfg)
    run = S.kd.DataCollection.from_paths([f[0] for f in files])
    if S.fork(S.bool('some')):
        a = S.conc(S.int('a', 0, len(tids) - 1))
        run, sel = run.select_trains(S.kd.by_index[a:]), tids[a:]
    else:
        sel = tids
    t = S.int('t', 0, 2 ** 40)
    o, text = S.capture(run.train_info, t)
    if not S.fork(S.Or(*[t == x for x in sel])):
        S.check(o.raised(ValueError), "details of a train which is not in the data")
        return
    S.check(o.ok, "details of a train failed: %r" % (o.exc,))
    if not o.ok:
        return
    k = [i for i, x in enumerate(tids) if S.fork(t == x)][0]
    ctrl, inst = set(), set()
    for p, ts, c, i, _ in files:
        if any(x is tids[k] for x in ts):
            ctrl |= c
            inst |= i
    m = re.search(r'Train \[(.*)\]', text)
    S.check(m and S.text_is(m.group(1), [t]), "train ID in the details of a train")
    parts = re.split(r'^\s*(Instruments|Controls)\s*$', text, flags=re.M)
    got = {parts[i]: [l.strip().lstrip('-').strip() for l in parts[i + 1].split('\n') if l.strip()]
           for i in range(1, len(parts), 2)}
    S.check([x for x in got.get('Instruments', [None]) if x != ''] == sorted(inst), "instrument sources of a train")
    S.check([x for x in got.get('Controls', [None]) if x != ''] == sorted(ctrl), "control sources of a train")


def one_file(S, name, tids, src=None, det=None, old=0, tag='', fpt=None, mod=7):
    """-> (path, sources)"""
    R = Run(S)
    if det:
        cs = [S.If(S.bool('some%s%d' % (tag, i)), fpt, 0) for i in range(len(tids))]
        firsts, pos = [], 0
        for c in cs:
            firsts.append(pos)
            pos = pos + c
        tr = (2, 3, 2) if not old else (4, 3)
        s = '%s/DET/%dCH0:xtdf' % (det, mod)
        fm = R.add(name, tids, inst={s: {'image': dict(keys={'data': ('u2', tr)}, counts=cs, firsts=firsts,
                                                        style='status' if old else 'count')}})
        return fm.path, (set(), {s}, cs, tr[-2:])
    ctrl, inst = {'A/B/' + tag, 'A/X/Z' + tag}, {'FXE_XAD_GEC/CAM/CAMERA%s:daqOutput' % tag}
    if tag == 'b':
        inst = set()
    fm = R.add(name, tids, ctrl={c: {'x.value': ('i4', ())} for c in ctrl}, version='1.0' if old else '0.5',
               inst={c: {'data': dict(keys={'x': ('i4', ())}, counts=[1] * len(tids), firsts=list(range(len(tids))))} for c in inst})
    return fm.path, (ctrl, inst, None, None)


def ftype(name):
    return name.split('-')[2]


def do_file(S, cfg):
    lsx = S.module('lsxfel')
    fs = S.osfs()
    fs.mkdir_(S.path('d'))
    tids = S.tids(cfg['n'], hi=2 ** 40)
    fpt = S.int('fpt', 1, 3)
    src = cfg.get('src') or re.search('DET_([A-Z]+)', cfg['det']).group(1) + '07'
    name = 'RAW-R0012-%s-S00003.h5' % src
    path, what = one_file(S, 'd/' + name, tids, det=cfg.get('det'), old=cfg.get('old', 0), fpt=fpt, tag='a')
    many = S.fork(S.bool('many'))
    if many:
        n2 = 'RAW-R0012-DA03-S00000.h5'
        p2, w2 = one_file(S, 'd/' + n2, tids, tag='b')
        paths = [path, p2] if S.fork(S.bool('order')) else [p2, path]
        o, text = S.capture(lsx.main, paths)
        listing(S, o, text)
        files = [(name, what), (n2, w2)]
        for nm, w in files:
            m = re.search(r'^%s :.*\n\s*(\S+) trains, (.*)$' % re.escape(nm), text, re.M)
            S.check(m, "a file is not listed")
            if m:
                S.check(S.text_is(m.group(1), [len(tids)]), "number of trains of a file")
                file_line(S, m.group(2), w, fpt, len(tids))
        return
    o, text = S.capture(lsx.main, [path])
    listing(S, o, text)
    m = re.search(r'^%s :(.*)' % re.escape(name), text)
    S.check(m, "name of the file")
    if m:
        S.check({'DA': 'Aggregated data'}.get(src[:2], src.rstrip('0123456789')) in m.group(1) and '{' not in m.group(1),
                "kind of data of the file")
    m = re.search(r'^(\S+) trains', text, re.M)
    S.check(m and S.text_is(m.group(1), [len(tids)]), "number of trains of a file")
    ctrl, inst, cs, dims = what
    if cs is not None:
        m = re.search(r'^(\d+) × (\d+) pixels\n(\S+) frames per train, (\S+) total', text, re.M)
        S.check(m and tuple(map(int, m.group(1, 2))) == dims, "dimensions of a detector module")
        if m:
            frames(S, m.group(3), m.group(4), [(cs, dims)], fpt, len(tids))
    else:
        k, items = listed(text, 'instrument sources')
        S.check(k == len(inst) and items == sorted(inst), "instrument sources of a file")
        k, items = listed(text, 'control sources')
        S.check(k == len(ctrl) and items == sorted(ctrl), "control sources of a file")


def file_line(S, rest, w, fpt, n):
    if w[2] is None:
        S.check(rest.strip() == '%d sources' % len(w[0] | w[1]), "number of sources of a file")
    else:
        m = re.match(r'(\S+) frames/train, (\S+) total frames', rest)
        S.check(m, "frames of a detector file")
        if m:
            frames(S, m.group(1), m.group(2), [(w[2], None)], fpt, n)


def listing(S, o, text, code=0):
    S.check(o.ok, "the listing failed: %r" % (o.exc,))
    if o.ok:
        S.check((o.value or 0) == code, "exit status of the listing")


def do_list(S, cfg):
    lsx = S.module('lsxfel')
    fs = S.osfs()
    how = cfg['how']
    fpt = S.int('fpt', 1, 3)
    runs = {}

    def run(d, r, tag):
        """a run of a chosen layout"""
        lay = S.choose('lay' + tag, ['two', 'det', 'plain'])
        n = S.choose('n' + tag, [1, 2])
        if cfg['how'] == 'many':
            # one train in each of many files of the same source
            n = 11
        tids = S.tids(n + 1, 't' + tag, hi=2 ** 40)
        segs = [tids[:n], tids[n:]] if lay != 'plain' else [tids]
        if cfg['how'] == 'many' and lay != 'plain':
            segs = [[t] for t in tids]
        p = d + '/' + r
        fs.mkdir_(S.path(p))
        nd = no = 0
        ctrl, inst, dets = set(), set(), {}
        for s, ts in enumerate(segs):
            if lay == 'det':
                for m in (0, 3):
                    _, w = one_file(S, '%s/RAW-%s-LPD%02d-S%05d.h5' % (p, r.upper(), m, s), ts, det=LPD, fpt=fpt,
                                    tag='%s%d%d' % (tag, m, s), mod=m)
                    dets.setdefault('%s/DET/%dCH0:xtdf' % (LPD, m), []).append(w[2:])
                    nd += 1
                    inst |= w[1]
            _, w = one_file(S, '%s/RAW-%s-DA01-S%05d.h5' % (p, r.upper(), s), ts, tag=tag)
            no += 1
            ctrl |= w[0]
            inst |= w[1]
            if lay == 'plain':
                _, w = one_file(S, '%s/RAW-%s-DA02-S%05d.h5' % (p, r.upper(), s), ts, tag=tag + 'x')
                no += 1
                ctrl |= w[0]
                inst |= w[1]
        runs[r] = (tids, nd, no, ctrl, inst, dets)

    def check_runs(text, names, order=True):
        got = re.findall(r'^(.*?) : Run of\s+(\S+) trains, with\s+(\d+) detector files and\s+(\d+) others', text, re.M)
        S.check(sorted(g[0].strip() for g in got) == sorted(names) and (
            not order or [g[0].strip() for g in got] == sorted(names)), "runs listed")
        for g in got:
            if g[0].strip() in runs:
                tids, nd, no = runs[g[0].strip()][:3]
                S.check(S.text_is(g[1], [len(tids)]), "number of trains of a run")
                S.check((int(g[2]), int(g[3])) == (nd, no), "number of files of a run")

    def check_run(text, r):
        tids, nd, no, ctrl, inst, dets = runs[r]
        S.check(re.match(r'%s : Run directory' % r, text), "name of the run")
        check_info(S, text, tids, ctrl, inst, dets, fpt)

    if how in ('one', 'slash'):
        run('p1/raw', 'r0004', 'a')
        o, text = S.capture(lsx.main, [S.path('p1/raw/r0004') + ('/' if how == 'slash' else '')])
        listing(S, o, text)
        if o.ok:
            check_run(text, 'r0004')
    elif how == 'many':
        run('p002012/raw', 'r0010', 'a')
        o, text = S.capture(lsx.main, [S.path('p002012')])
        listing(S, o, text)
        check_runs(text, ['r0010'])
    elif how in ('data', 'prop', 'two', 'runs'):
        d = 'p002012/raw' if how != 'runs' else 'p002012'
        run(d, 'r0010', 'a')
        run(d, 'r0009', 'b')
        if how != 'two':
            fs.mkdir_(S.path('p002012/usr'))
            fs.put_text(S.path(d + '/runs.h5.txt'), 'text')
            if S.fork(S.bool('odd')):
                fs.put_text(S.path(d + '/r0011.txt'), 'text')
        if how == 'two':
            sl = '/' if S.fork(S.bool('slash')) else ''
            o, text = S.capture(lsx.main, [S.path(d + '/r0010') + sl, S.path(d + '/r0009') + sl])
        else:
            o, text = S.capture(lsx.main, [S.path('p002012' if how != 'data' else d)])
        listing(S, o, text)
        check_runs(text, ['r0009', 'r0010'], how != 'two')
    elif how == 'mixed':
        run('p002012/raw', 'r0010', 'a')
        run('p002012/raw', 'r0009', 'b')
        tids = S.tids(2, 'f', hi=2 ** 40)
        name = 'CORR-R0012-LPD01-S00003.h5'
        fp, w = one_file(S, 'd/' + name, tids, det=LPD, fpt=fpt, tag='a')
        o, text = S.capture(lsx.main, [fp, S.path('p002012/raw')])
        listing(S, o, text)
        check_runs(text, ['r0009', 'r0010'], False)
        m = re.search(r'^%s :.*\n\s*(\S+) trains, (.*)$' % name, text, re.M)
        S.check(m, "a file is not listed")
        if m:
            S.check(S.text_is(m.group(1), [len(tids)]), "number of trains of a file")
            file_line(S, m.group(2), w, fpt, len(tids))
    else:
        fs.mkdir_(S.path('d/empty'))
        fs.put_text(S.path('d/notes.txt'), 'text')
        tids = S.tids(2, 'f', hi=2 ** 40)
        fp, w = one_file(S, 'd/RAW-R0012-DA01-S00003.h5', tids, tag='a')
        odd = S.choose('which', ['d/notes.txt', 'd/nothing', 'd/empty', 'd/nothing.h5'])
        alone = S.fork(S.bool('alone'))
        o, text = S.capture(lsx.main, [S.path(odd)] if alone else [S.path(odd), fp])
        S.check(o.ok, "the listing failed: %r" % (o.exc,))
        if o.ok and not (alone and odd == 'd/empty'):
            S.check(o.value == 2, "exit status for something which cannot be listed")
        if not alone:
            m = re.search(r'^RAW-R0012-DA01-S00003.h5 :.*\n\s*(\S+) trains, (.*)$', text, re.M)
            S.check(m, "a file is not listed after another one which cannot be")
            if m:
                S.check(S.text_is(m.group(1), [2]), "number of trains of a file")
                file_line(S, m.group(2), w, fpt, 2)
