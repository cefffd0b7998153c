"""C19: stacked detector data has each module in its place."""
from .common import *

BOUNDS = ('detectors of 3 modules, each present, missing the key, empty, absent or (one) of another shape, dtype or number; '
          'arrays of 1 to 3 dimensions of 1 to 2 with any values; any stacking axis; views indexed with integers, '
          'slices (with bounds of both signs, and empty ones) and Ellipsis, once or twice')
WALL = {'quick': 300, 'thorough': 850}


def configs(tier):
    out = []
    for shape in ((2, 2, 1), (2, 1), (2,)):
        for dt in ('f4', 'i4', 'u2'):
            out.append(dict(what='stack', shape=shape, dt=dt))
    out.append(dict(what='stack', shape=(2, 1), dt='?'))
    out.append(dict(what='refuse', shape=(2, 1), dt='i4'))
    for shape in ((2, 2, 1), (2, 2)):
        for n in (1, 2, 3):
            for ell in ((0, 1) if n < 3 else (0,)):
                for axis in range(len(shape) + 1):
                    out.append(dict(what='view', shape=shape, dt='f8', n=n, ell=ell, axis=axis))
    for axis in range(4):
        out.append(dict(what='view', shape=(2, 2, 1), dt='f8', n=4, ell=0, kinds='is', axis=axis))
        out.append(dict(what='again', shape=(2, 2, 1), dt='i8', axis=axis))
        out.append(dict(what='view', shape=(2, 2, 1), dt='f8', n=4, ell=0, kinds='nf', axis=axis))
    out.append(dict(what='devices', shape=(2, 1), dt='f4'))
    if tier == 'thorough':
        out = [dict(c, rich=1) if c['what'] in ('view', 'again') and c.get('n', 0) < 4 else c for c in out]
    return out


SRC = 'SPB_DET_AGIPD1M-1/DET/%dCH0:xtdf'


def arr(S, shape, dt, tag):
    n = int(np.prod(shape))
    kind = np.dtype(dt).kind
    vals = [S.int('%s_%d' % (tag, i), 0, 1 if kind == 'b' else 60000) if kind != 'f' else S.real('%s_%d' % (tag, i), dt=dt) for i in range(n)]
    if kind == 'f':
        for v in vals:
            S.assume(S.And(v >= -1000, v <= 1000))
    return vals, S.array(vals, np.dtype(dt)).reshape(shape)


def expected(mods, nm, shape, axis, fill):
    """the stacked array as (shape, [elements])"""
    nd = len(shape) + 1
    ax = axis % nd
    out_shape = shape[:ax] + (nm,) + shape[ax:]
    out = []
    for ix in np.ndindex(*out_shape):
        m = ix[ax]
        inner = ix[:ax] + ix[ax + 1:]
        if m in mods:
            out.append(mods[m][int(np.ravel_multi_index(inner, shape))] if shape else mods[m][0])
        else:
            out.append(fill)
    return out_shape, out


def same(S, a, b):
    if is_nan(a) or is_nan(b):
        return is_nan(a) and is_nan(b)
    return a == b


def is_nan(v):
    return isinstance(v, float) and v != v


def check_arr(S, got, want, msg, dtype=None):
    shp, els, dt = S.elems(got)
    S.check(tuple(shp) == tuple(want[0]), msg + ': shape')
    if dtype is not None:
        S.check(dt == np.dtype(dtype), msg + ': dtype')
    S.check(S.And(*[same(S, a, b) for a, b in zip(els, want[1])]), msg + ': values')


def index_of(S, k, kinds='is', rich=False):
    """-> an index expression for one dimension (both as used and concrete)"""
    kind = S.choose('k%d' % k, list(kinds))
    if kind == 'i':
        i = S.choose('i%d' % k, [0, 1, -1, -2] if rich else [0, -1])
        return i, i
    if kind == 'n':
        return np.int64(-1), -1
    if kind == 'f':
        return slice(None), slice(None)
    a, b = S.choose('ab%d' % k, [(None, 1), (1, None), (-1, None), (1, 1)] + (
        [(-3, 1), (0, 5), (2, 1), (None, -1)] if rich else []))
    return slice(a, b), slice(a, b)


def scenario(S, cfg):
    st = S.module('stacking')
    shape, dt = tuple(cfg['shape']), cfg['dt']
    NM = 3
    if cfg['what'] == 'devices':
        # other devices are ordered by the numbers in their names
        names = S.choose('names', [['A_12_1', 'B_7_0', 'A_12_0'], ['X2Y', 'X10Y', 'X1Y'], ['P/9/Z', 'Q/10/A'],
                                   ['M_1', 'M_1_1', 'M_0_5', 'M']])
        order = sorted(range(len(names)), key=lambda i: [int(x) for x in ''.join(
            c if c.isdigit() else ' ' for c in names[i]).split()])
        skip = S.choose('skip', [0, 1])
        axis = S.choose('axis', list(range(-len(shape) - 1, len(shape) + 1)))
        train, vals = {}, []
        for i, nm in enumerate(names):
            v, a = arr(S, shape, dt, 'd%d' % i)
            train[nm] = {'value': a, 'metadata': {'source': nm}}
            vals.append(v)
        got = st.stack_data(train, 'value', axis=axis, xcept=names[:skip])
        mods = {k: vals[i] for k, i in enumerate([i for i in order if i >= skip])}
        check_arr(S, got, expected(mods, len(mods), shape, axis, 0), 'devices stacked', dt)
        S.check(S.call(st.stack_data, train, 'value', xcept=names).raised('ValueError'), 'nothing left: refused')
        bad = dict(train)
        bad['Z_3'] = {'value': arr(S, shape, 'i4', 'z')[1]}
        S.check(S.call(st.stack_data, bad, 'value', axis=axis).raised('ValueError'), 'differing dtypes: refused')
        bad['Z_3'] = {'value': arr(S, (1,) + shape, dt, 'y')[1]}
        S.check(S.call(st.stack_data, bad, 'value').raised('ValueError'), 'differing shapes: refused')
        return
    mods, train = {}, {}
    states = []
    if cfg['what'] in ('view', 'again'):
        pattern = S.choose('absent', [0, 1])
    for m in range(NM):
        if cfg['what'] == 'stack':
            s = S.choose('m%d' % m, ['data', 'absent', 'nokey', 'empty'])
        elif cfg['what'] == 'refuse':
            s = S.choose('m%d' % m, ['data', 'absent'])
        else:
            s = 'absent' if m == pattern else 'data'
        states.append(s)
        src = SRC % m
        v, a = arr(S, shape, dt, 'v%d' % m)
        if s == 'data':
            mods[m] = v
            train[src] = {'image.data': a}
        elif s == 'nokey':
            train[src] = {'header.x': 1}
        elif s == 'empty':
            train[src] = {'image.data': S.array([], np.dtype(dt)).reshape((0,) + shape[1:])}
    if not mods:
        if not train:
            S.check(not S.call(st.stack_detector_data, train, 'image.data', modules=NM).ok, 'no data: refused')
        return
    isf = np.dtype(dt).kind == 'f'
    fill = float('nan') if isf else 0
    if cfg['what'] == 'refuse':
        how = S.choose('how', ['number', 'dtype', 'shape', 'name', 'two'])
        train = dict(train)
        mno = S.choose('free', [2, 3, 15])
        if how == 'number':
            train[SRC % mno] = {'image.data': arr(S, shape, dt, 'w')[1]}
            r = S.call(st.stack_detector_data, train, 'image.data', modules=NM, real_array=S.choose('real', [True, False]))
            S.check(r.ok if mno < NM else r.raised('IndexError'), 'module number out of range: refused')
            return
        if how == 'dtype':
            train[SRC % 2] = {'image.data': arr(S, shape, 'u2', 'w')[1]}
            if not any(s != SRC % 2 for s in train):
                return
        elif how == 'shape':
            other = S.choose('oshape', [(1, 1), (2, 2), (2,), (2, 1, 1), (0, 2)])
            train[SRC % 2] = {'image.data': S.array([0] * int(np.prod(other)), np.dtype(dt)).reshape(other)}
            if not any(s != SRC % 2 for s in train):
                return
        elif how == 'name':
            train['SPB_XTD9/MOTOR/X'] = {'image.data': arr(S, shape, dt, 'w')[1]}
        else:
            # an empty one and two others which differ
            order = S.choose('order', [(2, 1, 0), (0, 2, 1), (1, 0, 2)])
            train = {}
            for m, n in zip(order, (0, 3, 1)):
                train[SRC % m] = {'image.data': arr(S, (n,) + shape[1:], dt, 'w%d' % n)[1] if n else
                                  S.array([], np.dtype(dt)).reshape((0,) + shape[1:])}
        S.check(S.call(st.stack_detector_data, train, 'image.data', modules=NM).raised('ValueError'),
                'differing shapes or dtypes, or other sources: refused')
        return
    if cfg['what'] == 'stack':
        axis = S.choose('axis', list(range(-len(shape) - 1, len(shape) + 1)))
        kw = {}
        if S.choose('fv', [0, 1]):
            kw['fillvalue'] = fill = 1 if dt == '?' else 7
        want = expected(mods, NM, shape, axis, fill)
        got = st.stack_detector_data(train, 'image.data', axis=axis, modules=NM, **kw)
        check_arr(S, got, want, 'stacked', dt)
        view = st.stack_detector_data(train, 'image.data', axis=axis, modules=NM, real_array=False, **kw)
        S.check(tuple(view.shape) == tuple(want[0]) and view.ndim == len(want[0]), 'view: shape')
        check_arr(S, view.asarray(), want, 'view as array', dt)
        return
    axis = cfg['axis']
    nd = len(shape) + 1
    view = st.stack_detector_data(train, 'image.data', axis=axis, modules=NM, real_array=False)
    if axis - nd == -3 and pattern:
        view = st.stack_detector_data(train, 'image.data', modules=NM, real_array=False)
    wshape, wvals = expected(mods, NM, shape, axis, fill)
    # positions in the stacked array, to index for real
    pos = np.arange(len(wvals)).reshape(wshape)

    def pick(view, pos, tag, n, ell, ax):
        """index the view -> (result, positions, axis of modules left or None)"""
        used, conc = [], []
        n = min(n, pos.ndim)
        before = S.choose('ell%s' % tag, list(range(n + 1))) if ell else None
        slots = []
        for k in range(n):
            if ell and k == before:
                slots.append(None)
            slots.append(k)
        if ell and before == n:
            slots.append(None)
        left = pos.ndim - n
        d = 0
        newax, keep = None, 0
        for s in slots:
            if s is None:
                used.append(Ellipsis)
                conc.append(Ellipsis)
                for _ in range(left):
                    if d == ax:
                        newax = keep
                    keep += 1
                    d += 1
                continue
            if d == ax:
                m = S.choose('mod%s' % tag, [slice(None), 0, 2, -1])
                used.append(m)
                conc.append(m)
                if not isinstance(m, int):
                    newax = keep
                    keep += 1
            else:
                u, c = index_of(S, 10 * len(tag) + d, cfg.get('kinds', 'isf'), cfg.get('rich'))
                if isinstance(c, int) and not -pos.shape[d] <= c < pos.shape[d]:
                    c = u = 0 if pos.shape[d] else slice(None)
                used.append(u)
                conc.append(c)
                if not isinstance(c, int):
                    keep += 1
            d += 1
        for _ in range(pos.ndim - d):
            if d == ax:
                newax = keep
            keep += 1
            d += 1
        key = tuple(used)
        if len(key) == 1 and S.choose('bare%s' % tag, [0, 1]):
            key = key[0]
        r = view[key]
        return r, pos[tuple(conc)], newax

    def check(r, p, msg):
        if hasattr(r, 'asarray'):
            S.check(tuple(r.shape) == p.shape, msg + ': shape of the view')
            r = r.asarray()
        check_arr(S, r, (p.shape, [wvals[i] for i in p.flat]), msg)

    if cfg['what'] == 'view':
        r, p, ax = pick(view, pos, 'a', cfg['n'], cfg['ell'], axis)
        check(r, p, 'part of the view')
        check(view, pos, 'view unchanged')
        for bad in (NM, -NM - 1):
            S.check(not S.call(lambda: view[(slice(None),) * axis + (bad,)]).ok, 'module out of range: refused')
        check(view, pos, 'view unchanged')
    else:
        r, p, ax = pick(view, pos, 'a', 2, 0, axis)
        if ax is not None and hasattr(r, 'asarray'):
            r, p, ax = pick(r, p, 'bb', 1, 0, ax)
        check(r, p, 'part of part of the view')
