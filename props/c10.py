"""C10: a written copy reads back the same as the selection."""
from .common import *
from .copies import configs as base_configs, build, select, check_copy

BOUNDS = ('up to 4 trains in up to 3 files in two orders (in sequence, or alternating, or without trains), control '
          'data with or without gaps, 0..2 entries per train stored back to back from any row, up to 4 sources, '
          'selections of trains and keys; train IDs 2^20..2^50; one file with 66272 rows and one with 280 trains (fixed IDs)')
WALL = {'quick': 400, 'thorough': 850}


def configs(tier):
    out = base_configs(tier)
    out.append(dict(kind='inst', files=[1, 1], order=1, again=1))
    out.append(dict(kind='mixed', files=[1, 1], order=0, again=1, lossy=1, sel=1, maxc=1))
    return out


def scenario(S, cfg):
    R = Run(S)
    tids = build(S, cfg, R)
    run = S.kd.DataCollection.from_paths(R.paths[::-1] if cfg['order'] else R.paths)
    run, sel, keys = select(S, cfg, R, run, tids)
    out = S.path('copy.h5')
    run.write(out)
    copy = S.kd.H5File(out)
    if cfg.get('again'):
        # a copy of the copy
        out = S.path('copy2.h5')
        copy.write(out)
        copy = S.kd.H5File(out)
    ck = check_copy(S, R, copy, sel, keys, 'copy', big=cfg.get('known'))
    # the same data in one go
    for s in sorted(ck):
        for k in sorted(ck[s]):
            rows = R.expected(s, k, sel)
            tr, dt = R.trailing(s, k)
            S.eq_array(copy.get_array(s, k).values, flat(rows), 'array read from the copy',
                       shape=(len(rows),) + tr, dtype=dt)
