"""C11: virtual datasets show the same data as the selection."""
from .common import *
from .copies import configs as base_configs, build, select, check_copy

BOUNDS = ('up to 4 trains in up to 3 files in two orders (in sequence, or alternating, or without trains), control '
          'data with or without gaps, 0..2 entries per train stored back to back from any row, up to 4 sources, '
          'selections of trains and keys; train IDs 2^20..2^50; one file with 66272 rows and one with 280 trains (fixed IDs)')
WALL = {'quick': 400, 'thorough': 850}


def configs(tier):
    out = []
    for c in base_configs(tier):
        out.append(dict(c, how='file'))
        if c['kind'] in ('ctrl', 'inst'):
            out.append(dict(c, how='dataset'))
    out.append(dict(kind='inst', files=[1, 1], order=1, again=1, how='file'))
    out.append(dict(kind='mixed', files=[1, 1], order=0, again=1, lossy=1, sel=1, maxc=1, how='file'))
    return out


def scenario(S, cfg):
    R = Run(S)
    tids = build(S, cfg, R)
    run = S.kd.DataCollection.from_paths(R.paths[::-1] if cfg['order'] else R.paths)
    run, sel, keys = select(S, cfg, R, run, tids)
    out = S.path('virtual.h5')
    if cfg['how'] == 'file':
        run.write_virtual(out)
        copy = S.kd.H5File(out)
        if cfg.get('again'):
            # a virtual copy of the virtual copy
            out = S.path('virtual2.h5')
            copy.write_virtual(out)
            copy = S.kd.H5File(out)
        ck = check_copy(S, R, copy, sel, keys, 'virtual copy', big=cfg.get('known'))
        f = S.h5file(out)
        for s in sorted(ck):
            for k in sorted(ck[s]):
                rows = R.expected(s, k, sel)
                sec = 'CONTROL' if s in copy.control_sources else 'INSTRUMENT'
                ds = f['%s/%s/%s' % (sec, s, k.replace('.', '/'))]
                S.check(ds.is_virtual or not rows, 'the data is linked, not copied')
                tr, dt = R.trailing(s, k)
                S.eq_array(ds[:], flat(rows), 'rows of the virtual dataset', shape=(len(rows),) + tr, dtype=dt)
        return
    s, k = (XGM, 'a.b.value') if cfg['kind'] == 'ctrl' else (DET0, 'image.data')
    rows = R.expected(s, k, sel)
    r = S.call(run.get_virtual_dataset, s, k, filename=out)
    tr, dt = R.trailing(s, k)
    if not r.ok:
        S.check(not rows, 'a virtual dataset can be made of data with entries')
        return
    ds = r.value
    S.eq_array(ds[:], flat(rows), 'rows of the virtual dataset', shape=(len(rows),) + tr, dtype=dt)
    S.check(ds.is_virtual or not rows, 'the data is linked, not copied')
    copy = S.kd.H5File(out)
    S.eq_array(copy.train_ids, sel, 'trains of the virtual file', shape=(len(sel),))
    S.check(set(copy.all_sources) <= {s}, 'only the source asked for')
    w = S.choose('which', list(range(len(sel))))
    tid, data = copy.train_from_id(sel[w])
    check_train(S, R, data, sel[w], sel={s: {k}} if rows else {x: set() for x in copy.all_sources},
                msg='train read through the virtual dataset')
