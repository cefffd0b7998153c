"""C21: streaming delivers every train once, in order, to the requesting clients."""
from .common import *
from .c20 import decode
from symex.sched import Scheduler, Client, Redundant, Deadlock, network

BOUNDS = ('every interleaving of one feeding thread, the serving thread and one or two clients, for up to 3 trains, 3 or 4 '
          'requests and a queue of length 1 or 2, with at most one invalid request; serving a run of up to 4 trains in one or '
          'two files with every set of trains with data, by function and by command line')
WALL = {'quick': 300, 'thorough': 850}


def configs(tier):
    out = []
    for maxlen in (1, 2):
        for n, clients in ((2, (2,)), (3, (2,)), (2, (3,)), (3, (4,)), (2, (1, 1)), (2, (2, 1))) + (
                ((3, (2, 2)), (4, (5,)), (2, (1, 1, 1))) if tier == 'thorough' else ()):
            out.append(dict(what='feed', n=n, maxlen=maxlen, clients=clients))
        out.append(dict(what='bad', n=2, maxlen=maxlen, clients=(2,)))
        out.append(dict(what='bad', n=1, maxlen=maxlen, clients=(1, 1)))
        out.append(dict(what='stop', n=2, maxlen=maxlen, clients=(3,)))
        out.append(dict(what='serve', n=2, maxlen=maxlen, clients=(3,)))
        if tier == 'thorough':
            out.append(dict(what='serve', n=3, maxlen=maxlen, clients=(4,)))
            out.append(dict(what='serve', n=2, maxlen=maxlen, clients=(2, 1)))
    out.append(dict(what='files', n=3, files=1))
    out.append(dict(what='files', n=4, files=2))
    return out


def extra_modules():
    from symex import wire, sched
    return dict(wire.modules(), **sched.modules())


def conc_modules():
    from symex import sched
    return sched.modules()


def number_of(S, W, parts):
    """the number in a train sent, or None if this isn't one"""
    if len(parts) < 2:
        return None
    h = W.unpack(W.wire(parts[0]))
    S.check(h['source'] == 'SRC' and len(parts) == 2, 'one train per reply')
    return W.unpack(W.wire(parts[1]))['i']


def scenario(S, cfg):
    import contextlib, os
    if cfg['what'] == 'files':
        return serve_files(S, cfg, fixed=True)
    if cfg['what'] == 'serve':
        try:
            return serve_files(S, cfg)
        except Redundant:
            return
    ex = S.module('export')
    W = S.wire()
    n, maxlen = cfg['n'], cfg['maxlen']
    bad_at = None
    if cfg['what'] == 'bad':
        bad_at = (S.choose('badc', list(range(len(cfg['clients'])))), S.choose('badr', list(range(cfg['clients'][0]))),
                  S.choose('badreq', [b'', b'Next', b'next ', b'foo']))
    st = ex.ZMQStreamer(4711, maxlen=maxlen)
    try:
        with Scheduler(S.choose) as sch:
            net = network()
            asked, got = [], []

            def client(c, cl, nreq):
                for r in range(nreq):
                    bad = bad_at is not None and bad_at[:2] == (c, r)
                    asked.append((cl, bad))
                    cl.request(bad_at[2] if bad else b'next')
                    m = number_of(S, W, cl.reply())
                    S.check(not bad or m is None, 'an invalid request is not answered with data')
                    got.append((c, m))

            st.start()
            clients = []
            for c, nreq in enumerate(cfg['clients']):
                cl = Client(net, '4711', 'client%d' % c)
                clients.append(sch.spawn('client%d' % c, lambda c=c, cl=cl, nreq=nreq: client(c, cl, nreq)))

            def outstanding():
                return len(asked) - len(net.sent)

            fed = 0
            blocked = None
            for i in range(n):
                try:
                    st.feed({'SRC': {'i': i}})
                except Deadlock as e:
                    blocked = str(e)
                    break
                fed += 1
                S.check(fed - len(net.sent) <= maxlen + (1 if outstanding() else 0), 'no more trains wait than configured')
            stopped = False
            if blocked is None:
                if cfg['what'] == 'stop':
                    try:
                        st.stop()
                        stopped = True
                    except Deadlock as e:
                        blocked = str(e)
                else:
                    sch.run_others()
            if stopped:
                sch.run_others()
            for t in clients:
                if t.exc is not None:
                    raise t.exc
            sent = [number_of(S, W, p) for c, p in net.sent]
            data = [m for m in sent if m is not None]
            S.check(data == list(range(len(data))), 'trains are answered in order, each once')
            # what a client has received
            S.check([m for c, m in got if m is not None] == sorted(m for c, m in got if m is not None)
                    if len(clients) == 1 else True, 'a client receives trains in order')
            waits = sum(1 for c, bad in asked if not bad) - len(data)
            S.check(len(data) == len([1 for c, m in got if m is not None]), 'every reply arrives')
            if bad_at is not None:
                return
            if blocked is not None and not stopped and cfg['what'] != 'stop':
                S.check(waits == 0 and fed - len(data) == maxlen, 'feeding waits only for requests: ' + blocked)
            elif cfg['what'] == 'stop':
                S.check(len(data) == n or waits == 0, 'trains fed before stopping are served')
                S.check(not stopped or len(data) == n, 'trains fed before stopping are served')
            else:
                S.check(len(data) == min(n, len(asked)), 'each request is answered')
    except Redundant:
        return


SRCS = ('A/DET/X:out', 'B/DET/X:out')


def serve_files(S, cfg, fixed=False):
    ex = S.module('export')
    W = S.wire()
    S.osfs()
    n = cfg['n']
    tids = S.tids(n)
    nfiles = cfg.get('files', 1)
    per = n // nfiles
    counts = [S.conc(c) for c in S.counts(n, 1, lo=0 if fixed else 1)]
    data = {}
    for f in range(nfiles):
        t, c = tids[f * per:(f + 1) * per], counts[f * per:(f + 1) * per]
        first = [sum(c[:i]) for i in range(len(c))]
        d = Data(S, 'i4', (2,), base=100 * f)
        e = Data(S, 'i4', (), base=500 + 100 * f)
        g = Data(S, 'i4', (), base=900)
        for i, tid in enumerate(t):
            if c[i]:
                data[f * per + i] = (d.row(first[i]), e.elem(first[i]))
        S.add_file('run/RAW-R0001-DA01-S0000%d.h5' % f, tids=t, inst={
            'A/DET/X:out': {'image': dict(counts=c, firsts=first, keys={'rawData': d, 'e': e})},
            'B/DET/X:out': {'image': dict(counts=[0] * len(c), firsts=[0] * len(c), keys={'data': g})}})
    sel = S.choose('sel', [('*', '*'), ('A*', '*.rawD*'), ('B*', '*')] if fixed else [('*', '*')])
    keys = {'*': {'image.rawData', 'image.e'}, '*.rawD*': {'image.rawData'}}[sel[1]]
    src = 'B/DET/X:out' if sel[0] == 'B*' else 'A/DET/X:out'
    if sel[0] == 'B*':
        data, keys = {}, {}
    # (trains without data are served too, with metadata only)
    how = S.choose('how', ['dir', 'file', 'cli'] if nfiles == 1 else ['dir', 'cli']) if fixed else 'dir'
    path = S.path('run/RAW-R0001-DA01-S00000.h5') if how == 'file' else S.path('run')
    nreq = (n + 1,) if fixed else cfg['clients']
    done = False
    choose = (lambda name, options: options[S.choose('order', [0, -1])]) if fixed else S.choose
    with Scheduler(choose, reduce=not fixed, max_steps=400) as sch:
        net = network()
        got = []

        def client(cl, k):
            for r in range(k):
                cl.request(b'next')
                got.append(cl.reply())
        for c, k in enumerate(nreq):
            cl = Client(net, '4711', 'client%d' % c)
            sch.spawn('client%d' % c, lambda cl=cl, k=k: client(cl, k))
        try:
            if how == 'cli':
                ex.main([path, '4711', '--source', sel[0], '--key', sel[1]])
            else:
                kw = {} if cfg.get('maxlen') is None else {'maxlen': cfg['maxlen']}
                if sel != ('*', '*'):
                    kw.update(source_glob=sel[0], key_glob=sel[1])
                ex.serve_files(path, 4711, **kw)
            done = True
        except Deadlock as e:
            S.check(len(network().sent) == n, 'serving goes on until everything was delivered: %s' % e)
        sch.run_others()
        S.check(len(got) == len(net.sent), 'replies arrive')
        S.check(len(got) == n, 'every train is served, nothing else')
        for i, parts in enumerate(p for c, p in net.sent):
            got_data, meta = decode(S, W, parts, '2.2')
            S.check(set(meta) == (set(SRCS) if sel[0] == '*' else {src}), 'the selected sources')
            S.check(all(m['timestamp.tid'] == tids[i] for m in meta.values()), 'trains in order')
            for s, v in got_data.items():
                v = {k: w for k, w in v.items() if k != 'metadata'}
                if s != 'A/DET/X:out' or i not in data:
                    S.check(not v, 'no data')
                    continue
                S.check(set(v) == keys, 'the selected keys')
                S.eq_array(v['image.rawData'], data[i][0], 'data', np.dtype('i4'), (2,))
                if 'image.e' in v:
                    S.check(S.plain(v['image.e']) == data[i][1], 'number')
