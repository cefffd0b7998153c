"""C20: streamed messages decode to the data that was fed in."""
from .common import *

BOUNDS = ('messages of 1 to 3 sources with up to 3 values each: integers, floats, text, booleans, lists, numpy numbers of '
          'ten types, arrays of eight types and 0 to 3 dimensions in six memory layouts, with any values (floats as exact '
          'reals); metadata in the data, separate, or absent; both protocol versions; with and without dummy timestamps')

ARR = ('u1', 'i2', '>i4', 'i8', 'u8', 'f4', 'f8', '>f8')
NUM = ('i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8')


def configs(tier):
    out = []
    for ver in ('2.2', '1.0'):
        for sh in ((), (0,), (2,), (2, 0), (2, 2), (1, 2, 2)):
            out.append(dict(what='array', ver=ver, shape=sh))
        out.append(dict(what='values', ver=ver))
        for dummy in (0, 1):
            out.append(dict(what='meta', ver=ver, dummy=dummy))
    return out


def decode(S, W, parts, ver):
    """by the published bridge protocol -> (data, metadata)"""
    parts = [W.wire(p) for p in parts]
    if ver == '1.0':
        S.check(len(parts) == 1, 'protocol 1.0: one part')
        data = W.unpack(parts[0], numpy=True)
        return data, {k: v.get('metadata', {}) for k, v in data.items()}
    data, meta = {}, {}
    S.check(len(parts) % 2 == 0, 'parts come in pairs')
    for h, payload in zip(parts[::2], parts[1::2]):
        md = W.unpack(h)
        src = md['source']
        S.check(md['content'] in ('msgpack', 'array'), 'content type')
        if md['content'] == 'msgpack':
            S.check(src not in data, 'each source once')
            data[src] = W.unpack(payload)
            meta[src] = md.get('metadata', {})
        else:
            S.check(src in data and md['path'] not in data[src], 'each array once')
            data[src][md['path']] = W.from_buffer(payload, md['dtype'], md['shape'])
    return data, meta


def lo_hi(dt):
    i = np.iinfo(dt)
    return int(i.min), int(i.max)


def number(S, name, dt):
    if np.dtype(dt).kind == 'f':
        return S.real(name, dt=dt)
    return S.int(name, *lo_hi(dt), dt=dt)


def same_value(S, got, want, msg):
    if isinstance(want, (list, tuple)):
        S.check(isinstance(got, (list, tuple)) and len(got) == len(want), msg)
        for g, w in zip(got, want):
            same_value(S, g, w, msg)
    elif isinstance(want, dict):
        S.check(isinstance(got, dict) and set(got) == set(want), msg)
        for k in want:
            same_value(S, got[k], want[k], msg)
    elif isinstance(want, (str, bytes, bool)) or want is None:
        S.check(type(got) is type(want) and got == want, msg)
    else:
        S.check(not isinstance(got, (str, bytes, bool)) and got is not None and got == want, msg)


def streamer(S, cfg, **kw):
    ex = S.module('export')
    return ex.ZMQStreamer(4711, protocol_version=cfg['ver'], **kw)


def parts_of(S, st, data, meta):
    """the parts a client receives"""
    from symex.sched import Scheduler, Client, network
    with Scheduler(lambda name, options: options[0]) as sch:
        cl = Client(network(), '4711', 'client')
        st.start()
        if meta is None:
            st.feed(data)
        else:
            st.feed(data, meta)
        cl.request(b'next')
        return cl.reply()


def scenario(S, cfg):
    W = S.wire()
    if cfg['what'] == 'array':
        shape = tuple(cfg['shape'])
        dt = S.choose('dt', list(ARR))
        n = int(np.prod(shape))
        vals = [number(S, 'v%d' % i, np.dtype(dt).newbyteorder('=').str[1:]) for i in range(n)]
        for v in vals:
            if np.dtype(dt).kind == 'f':
                S.assume(S.And(v >= -4, v <= 4))
        a = S.array(vals, np.dtype(dt)).reshape(shape)
        orders = ['C'] + (['F', 'T'] if len(shape) > 1 else []) + (['rev', 'part'] if shape else [])
        a = S.layout(a, S.choose('order', orders))
        b = S.array([1, 2, 3], 'i4')
        data = {'A/B/C': {'x.y': a, 'n': 5, 'z': b}, 'D': {'only': S.layout(a, S.choose('order2', ['C'] + orders[1:2]))}}
        got, meta = decode(S, W, parts_of(S, streamer(S, cfg), data, None), cfg['ver'])
        S.check(set(got) == {'A/B/C', 'D'} and set(got['A/B/C']) == {'x.y', 'n', 'z'} and set(got['D']) == {'only'},
                'same sources and keys')
        for g in (got['A/B/C']['x.y'], got['D']['only']):
            S.eq_array(g, vals, 'array', np.dtype(dt), shape)
        S.eq_array(got['A/B/C']['z'], [1, 2, 3], 'array', np.dtype('i4'), (3,))
        same_value(S, got['A/B/C']['n'], 5, 'number')
        return
    if cfg['what'] == 'values':
        dt = S.choose('dt', list(NUM))
        v = number(S, 'v', dt)
        p = S.int('p', -2 ** 63, 2 ** 64 - 1)
        f = S.real('f', dt='py')
        props = {'a.value': v, 'b': p, 'c': f}
        props.update(S.choose('more', [{}, {'t': 'text \u00e4', 'u': True, 'l': [1, 'x', 2.5], 'none': None},
                                       {'by': b'\x00\xff', 'empty': '', 'el': [], 'tup': (1, 2)}]))
        data = {'S/1/X': props, 'S/1/X:out': {'q': p}}
        if S.choose('swap', [0, 1]):
            data = dict(reversed(list(data.items())))
        got, meta = decode(S, W, parts_of(S, streamer(S, cfg), data, None), cfg['ver'])
        want = {k: dict(w) for k, w in data.items()}
        S.check(set(got) == set(want), 'same sources')
        for s in want:
            S.check(set(got[s]) == set(want[s]), 'same keys')
            for k in want[s]:
                g = got[s][k]
                S.check(not S.is_array(g), 'a number stays a number')
                same_value(S, S.plain(g), S.plain(want[s][k]) if k in 'a.value b c q'.split() else want[s][k], 'value')
        return
    # metadata and timestamps
    tid = S.int('tid', 0, 2 ** 63 - 1)
    ts = S.real('ts', dt='py')
    inside = S.choose('inside', [0, 1])
    given = S.choose('given', [0, 1, 2]) if cfg['ver'] == '2.2' or not inside else 0
    data = {'B': {'x': 1}, 'A': {'x': 2, 'arr': S.array([1, 2], 'i4')}, 'C': {}}
    expected = {}
    for i, s in enumerate(data):
        how = S.choose('m%d' % i, ['none', 'tid', 'stamped'])
        md = {'source': s}
        if how != 'none':
            md['timestamp.tid'] = tid
        if how == 'stamped':
            md.update({'timestamp': ts, 'timestamp.sec': '12', 'timestamp.frac': '500000000000000000'})
        expected[s] = md
    meta = {} if given == 2 else None          # (no metadata, just as None)
    given = given == 1
    if given:
        meta = {s: dict(m) for s, m in expected.items()}
    if inside:
        for s in data:
            data[s]['metadata'] = dict(expected[s]) if not given else {'source': s, 'other': 1}
    has = {s: bool(given or inside) for s in data}
    if cfg['ver'] == '1.0' and not inside:
        has = {s: False for s in data}      # carries only metadata which is part of the data
    want = {s: dict(expected[s]) if has[s] else {} for s in data}
    plain = {s: set(d) for s, d in data.items()}
    st = streamer(S, cfg, dummy_timestamps=bool(cfg['dummy'])) if cfg['dummy'] or S.choose('kw', [0, 1]) else streamer(S, cfg)
    for again in (0, 1):
        got, gm = decode(S, W, parts_of(S, st, data, meta), cfg['ver'])
        S.check(set(got) == set(data) and set(gm) == set(data), 'same sources')
        for s in data:
            S.check(set(got[s]) - {'metadata'} == plain[s] - {'metadata'}, 'same keys')
            same_value(S, S.plain(got[s].get('x', 0)), {'B': 1, 'A': 2, 'C': 0}[s], 'value')
            m = dict(gm[s])
            stamped = 'timestamp' in want[s]
            if cfg['dummy'] and not stamped and (cfg['ver'] != '1.0' or inside):
                S.check({'timestamp', 'timestamp.sec', 'timestamp.frac'} <= set(m), 'dummy timestamp added')
                t, sec, frac = m.pop('timestamp'), m.pop('timestamp.sec'), m.pop('timestamp.frac')
                S.check(isinstance(sec, str) and sec.isdigit() and isinstance(frac, str) and len(frac) == 18
                        and frac.isdigit() and abs(int(sec) - t + int(frac) / 1e18) < 1e-4, 'dummy timestamp consistent')
            same_value(S, m, want[s], 'metadata')
        S.eq_array(got['A']['arr'], [1, 2], 'array', np.dtype('i4'), (2,))
        if cfg['dummy']:
            break


CLOCK = [1500000000.25]


def extra_modules():
    from symex import wire, sched
    return dict(wire.modules(), **sched.modules(clock=lambda: CLOCK[0]))


def conc_modules():
    from symex import sched
    return sched.modules(clock=lambda: CLOCK[0])
