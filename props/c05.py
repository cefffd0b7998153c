"""C05: the dask array has the same content as the array read directly."""
from .common import *

BOUNDS = ('up to 4 trains in up to 3 files in two orders (including files without trains), 0..2 entries per train '
          'stored back to back from any row 0..300 in datasets of any length, train selections by ID; train IDs '
          '2^20..2^50')


def configs(tier):
    out = []
    for order in (0, 1):
        out.append(dict(kind='ctrl', files=[2, 1], order=order))
        out.append(dict(kind='inst', files=[2, 1], order=order))
        out.append(dict(kind='inst', files=[1, 0, 1], order=order))
        out.append(dict(kind='inst', files=[2, 2], order=order, sel=1, maxc=1))
    out.append(dict(kind='inst', files=[4], order=0, sel=1))
    out.append(dict(kind='inst', files=[3], order=0, sel=1, style='status'))
    out.append(dict(kind='ctrl', files=[3], order=0, sel=1))
    out.append(dict(kind='inst', files=[3], order=0, sel=1, big=1))
    out.append(dict(kind='inst', files=[1], order=0, norows=1))
    out.append(dict(kind='bad', files=[1], order=0))
    out.append(dict(kind='inst', files=[2, 2], order=1, sel=1, maxc=1, inter=1))
    for kind in ('ctrl', 'inst'):
        out.append(dict(kind=kind, files=[2, 1], order=1, sel=1, maxc=1, elsewhere=1))
        out.append(dict(kind=kind, files=[3], order=1, sel=1, maxc=1, elsewhere=1))
    if tier == 'thorough':
        out.append(dict(kind='inst', files=[2, 2], order=1, sel=1, maxc=2))
        out.append(dict(kind='inst', files=[1, 2, 1], order=1, sel=1, maxc=2))
        out.append(dict(kind='inst', files=[5], order=0, sel=1))
        out.append(dict(kind='inst', files=[2, 1], order=1, maxc=4))
    return out


def scenario(S, cfg):
    R = Run(S)
    own, tids = with_elsewhere(S, cfg, R)
    for k, ts in enumerate(spread(S, cfg, own)):
        n = len(ts)
        if cfg['kind'] == 'ctrl':
            R.add('f%d.h5' % k, ts, ctrl={XGM: {'a.value': ('f4', (2,))}}, pad=0 if n else 1)
        else:
            R.add('f%d.h5' % k, ts, inst={DET0: {'image': dict(
                keys={'data': ('u2', (2,))}, style=cfg.get('style', 'count'), maxc=cfg.get('maxc', 2),
                **({'counts': [0] * n, 'firsts': [0] * n, 'nrows': 0} if cfg.get('norows') else {'counts': [300, 0, 270]} if cfg.get('big') else {}))}},
                rows_slack=0 if cfg.get('norows') else S.int('slack%d' % k, 0, 5), pad=0 if n else 1)
    paths = R.paths[::-1] if cfg['order'] else R.paths
    run = S.kd.DataCollection.from_paths(paths)
    src, key = (XGM, 'a.value') if cfg['kind'] == 'ctrl' else (DET0, 'image.data')
    if cfg['kind'] == 'bad':
        S.check(S.call(run.get_dask_array, 'NO/SUCH/SOURCE', 'a.value').raised('SourceNameError'),
                'an unknown source is an error')
        S.check(S.call(run.get_dask_array, src, 'image.nothing').raised('PropertyNameError'),
                'an unknown key is an error')
    sel = list(tids)
    if cfg.get('sel'):
        pick = [S.choose('p%d' % i, [0, 1]) for i in range(len(tids))]
        sel = [t for t, p in zip(tids, pick) if p]
        if not sel:
            return
        run = run.select_trains(S.kd.by_id[sel])
    if cfg.get('elsewhere') and not any(R.where(src, t)[0] is not None for t in sel):
        return      # the collection has no file of the source any more
    arr = run.get_dask_array(src, key)
    rows = R.expected(src, key, sel)
    S.check(arr.dtype == np.dtype(R.trailing(src, key)[1]), 'dtype of the lazy array')
    S.check(tuple(S.conc(n) for n in arr.shape) == (len(rows), 2), 'shape of the lazy array')
    S.eq_array(arr.compute(), flat(rows), 'computed rows in train order', shape=(len(rows), 2),
               dtype=R.trailing(src, key)[1])
    direct = run.get_array(src, key)
    S.check(tuple(direct.shape) == (len(rows), 2), 'same shape as the array read directly')
    S.eq_array(direct.values, flat(rows), 'same values as the array read directly')
