"""C03: get_array returns every row of the selected trains, in train order,
labelled with the right train ID, with the ROI applied."""
from .common import *


BOUNDS = ('up to 4 trains in up to 3 files given in two orders (in sequence or alternating), trains of other sources only, 0..2 entries per train stored '
          'back to back from any row 0..300, train selections by ID and position; regions of interest of up to two '
          'dimensions: numbers and slice bounds of either sign, steps 1 and 2, Ellipsis; train IDs 2^20..2^50')


def configs(tier):
    out = []
    for kind in ('ctrl', 'inst'):
        out.append(dict(kind=kind, files=[2, 1], order=0))
        out.append(dict(kind=kind, files=[1, 2], order=1))
        out.append(dict(kind=kind, files=[1, 1], order=1, roi='s'))
    out.append(dict(kind='inst', files=[3], order=0, roi='i', style='status'))
    out.append(dict(kind='inst', files=[1, 1, 1], order=1, roi='2d'))
    out.append(dict(kind='ctrl', files=[2, 1], order=1, roi='i'))
    out.append(dict(kind='inst', files=[1, 1], order=0, roi='mix'))
    out.append(dict(kind='inst', files=[4], order=0, sel='idx'))
    out.append(dict(kind='inst', files=[2, 2], order=1, sel='id'))
    out.append(dict(kind='inst', files=[3], order=0, sel='id', big=1))
    out.append(dict(kind='inst', files=[1, 2], order=1, big=1))
    for kind in ('ctrl', 'inst'):
        out.append(dict(kind=kind, files=[2, 2], order=1, sel='id', inter=1))
        out.append(dict(kind=kind, files=[3], order=0, sel='id'))
        out.append(dict(kind=kind, files=[2, 1], order=0, sel='id', elsewhere=1))
        out.append(dict(kind=kind, files=[3], order=0, sel='id', elsewhere=1))
    if tier == 'thorough':
        out.append(dict(kind='inst', files=[5], order=0, sel='id'))
        out.append(dict(kind='inst', files=[3, 2], order=1, sel='id', style='status'))
        out.append(dict(kind='inst', files=[2, 3], order=0, sel='id', inter=1))
        out.append(dict(kind='inst', files=[2, 2], order=1, sel='id', roi='2d'))
    return out


def scenario(S, cfg):
    R = Run(S)
    own, tids = with_elsewhere(S, cfg, R)
    roi = cfg.get('roi')
    trailing = {None: (2,), 's': (3,), 'i': (3,), '2d': (2, 2), 'mix': (2, 3)}[roi]
    for k, ts in enumerate(spread(S, cfg, own)):
        if cfg['kind'] == 'ctrl':
            R.add('f%d.h5' % k, ts, ctrl={XGM: {'a.b.value': ('i4', trailing), 'a.b.timestamp': ('u8',)}})
        else:
            R.add('f%d.h5' % k, ts, inst={DET0: {'image': dict(
                keys={'raw.data': ('u2', trailing)}, style=cfg.get('style', 'count'),
                **({'counts': [300, 0, 270][-len(ts):]} if cfg.get('big') else {}))}})
    paths = R.paths[::-1] if cfg['order'] else R.paths
    run = S.kd.DataCollection.from_paths(paths)
    src, key = (XGM, 'a.b.value') if cfg['kind'] == 'ctrl' else (DET0, 'image.raw.data')
    sel = list(tids)
    by_index, by_id = S.kd.by_index, S.kd.by_id
    if cfg.get('sel') == 'idx':
        lo, hi = S.choose('lo', [0, 1, 2]), S.choose('hi', [2, 3, 4])
        run = run.select_trains(by_index[lo:hi])
        sel = tids[lo:hi]
        if not sel:
            return
    elif cfg.get('sel') == 'id':
        pick = [S.choose('p%d' % i, [0, 1]) for i in range(len(tids))]
        sel = [t for t, p in zip(tids, pick) if p]
        if not sel:
            return
        run = run.select_trains(by_id[sel])
    if cfg.get('elsewhere') and not any(R.where(src, t)[0] is not None for t in sel):
        return      # the collection has no file of the source any more
    if roi is None:
        arr = run.get_array(src, key)
        idx = list(range(2))
        oshape = trailing
    elif roi == 's':
        a, b = S.int('ra', -3, 4), S.int('rb', -3, 4)
        step = S.choose('step', [None, 1, 2])
        arr = run.get_array(src, key, roi=by_index[a:b] if step is None else by_index[a:b:step])
        ca, cb = S.conc(a), S.conc(b)
        idx = list(range(3))[ca:cb:step]
        oshape = (len(idx),)
    elif roi == 'i':
        a = S.int('ra', -3, 2)
        arr = run.get_array(src, key, roi=by_index[a])
        idx = [S.conc(a) % 3]
        oshape = ()
    elif roi == 'mix':
        a, b = S.int('ra', -2, 1), S.int('rb', -3, 2)
        form = S.choose('form', ['is', 'si', 'ei', 'ie', 'ii', 'e'])
        ca, cb = S.conc(a) % 2, S.conc(b) % 3
        ex, ix, oshape, dims = {
            'is': (lambda: by_index[a, b:], (ca, slice(cb, None)), (3 - cb,), ('dim_0',)),
            'si': (lambda: by_index[:, b], (slice(None), cb), (2,), ('dim_0',)),
            'ei': (lambda: by_index[..., b], (slice(None), cb), (2,), ('dim_0',)),
            'ie': (lambda: by_index[a, ...], (ca, slice(None)), (3,), ('dim_0',)),
            'ii': (lambda: by_index[a, b], (ca, cb), (), ()),
            'e': (lambda: by_index[a:, ..., ::2], (slice(ca, None), slice(None, None, 2)), (2 - ca, 2),
                  ('dim_0', 'dim_1'))}[form]
        arr = run.get_array(src, key, roi=ex())
        S.check(tuple(arr.dims) == ('trainId',) + dims, 'dimensions left by the region of interest')
        idx = list(np.arange(6).reshape(2, 3)[ix].ravel())
    else:
        a, b = S.int('ra', 0, 2), S.int('rb', 0, 1)
        arr = run.get_array(src, key, extra_dims=['p', 'q'], roi=by_index[a:, b:])
        ca, cb = S.conc(a), S.conc(b)
        idx = [2 * i + j for i in range(2)[ca:] for j in range(2)[cb:]]
        oshape = (2 - ca, 2 - cb)
    rows = R.expected(src, key, sel)
    S.check(arr.dims[0] == 'trainId', 'first dimension is trainId')
    if roi == '2d':
        S.check(tuple(arr.dims) == ('trainId', 'p', 'q'), 'extra dims are named')
    S.eq_array(arr.values, [r[i] for _, r in rows for i in idx], 'rows in train order',
               shape=(len(rows),) + tuple(oshape), dtype=R.trailing(src, key)[1])
    if rows:
        S.eq_array(arr.coords['trainId'].values, [t for t, _ in rows], 'train ID labels',
                   shape=(len(rows),))
