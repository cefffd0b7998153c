#!/usr/bin/env python3
"""Decide one property: check.py C03 [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 + a VIOLATION line: broken.
Exit 2: no verdict (error of the check)."""
import os
import sys

PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('VERIF_REEXEC') != '1':
    env = dict(os.environ, PYTHONHASHSEED='0', VERIF_REEXEC='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, HERE)
os.chdir(HERE)

import argparse          # noqa: E402
import importlib         # noqa: E402
import json              # noqa: E402
import re                # noqa: E402
import time              # noqa: E402
from collections import Counter, OrderedDict   # noqa: E402

import numpy             # noqa: E402,F401
import pandas            # noqa: E402,F401
import xarray            # noqa: E402,F401
import h5py              # noqa: E402,F401
import z3                # noqa: E402,F401

from symex import runner, engine    # noqa: E402

KNOWN = os.path.join(HERE, 'known_findings.txt')


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d['property'] == pid:
                out.append(d)
    return out


def matches_known(known, cfg, msg, values):
    for k in known:
        if not re.search(k['msg'], msg):
            continue
        if any(cfg.get(a) != b for a, b in k.get('config', {}).items()):
            continue
        cond = k.get('when')
        if cond is not None:
            try:
                if not eval(cond, {'__builtins__': {'any': any, 'all': all, 'len': len, 'int': int}},
                            dict(v=values, cfg=cfg)):
                    continue
            except Exception:
                continue
        return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    args = ap.parse_args()
    pid = args.property.upper()
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    modname = 'props.' + pid.lower()
    mod = importlib.import_module(modname)

    if args.replay:
        d = json.load(open(args.replay))
        r = runner.run_jobs([runner.Job('r', runner.replay, (modname, d['config'], d['values']), 300)])
        print(r['r'])
        return 1 if r['r'][0] == 'ok' and r['r'][1][0] == 'fail' else 0

    t0 = time.time()
    cfgs = mod.configs(tier)
    wall = getattr(mod, 'WALL', {}).get(tier, 240 if tier == 'quick' else 2400)
    per = getattr(mod, 'BUDGET', {}).get(tier, 120 if tier == 'quick' else 1200)
    mem = getattr(mod, 'MEM', 6)
    nsamp = 3 if tier == 'quick' else 6
    deadline = time.monotonic() + wall
    # exploration ------------------------------------------------------
    jobs = [runner.Job(i, runner.explore_config, (modname, c, c.get('budget', per), seed, nsamp),
                       c.get('budget', per) + 150) for i, c in enumerate(cfgs)]
    results = runner.run_jobs(jobs, nproc=args.jobs, mem=mem, deadline=deadline)
    # replays ----------------------------------------------------------
    rjobs = []
    stats = engine.Stats()
    functions = set()
    cfg_report = []
    errors = []
    vacuous = []
    for i, c in enumerate(cfgs):
        res = results.get(i, ('timeout', 'not started'))
        if res[0] != 'ok':
            errors.append((i, res[0], res[1]))
            cfg_report.append(dict(config=c, error=str(res[1])[-300:]))
            continue
        r = res[1]
        stats.merge(r['stats'])
        functions.update(r['functions'])
        st = r['stats']
        cfg_report.append(dict(config=c, complete=r['complete'], paths=st.paths, undecided=st.paths_undecided,
                               narrowed=st.narrowed, checks=st.checks, wall=round(r['wall'], 2),
                               why=r['why']))
        if st.paths and not st.checks and not r['candidates']:
            vacuous.append(i)
        n = Counter()
        for j, (kind, msg, vals) in enumerate(r['candidates']):
            n[kind] += 1
            if n[kind] > (24 if kind != 'undecided' else 12):
                continue
            rjobs.append(runner.Job(('cand', i, j), runner.replay, (modname, c, vals), 200))
        for j, vals in enumerate(r['samples']):
            rjobs.append(runner.Job(('sample', i, j), runner.replay, (modname, c, vals), 200))
    # findings recorded earlier are replayed as well
    known = load_known(pid)
    for j, k in enumerate(known):
        rjobs.append(runner.Job(('known', j, 0), runner.replay,
                                (modname, k['replay']['config'], k['replay']['values']), 200))
    rres = runner.run_jobs(rjobs, nproc=args.jobs, mem=8)

    violations = OrderedDict()
    unreproduced = []
    validated = 0
    vsamples = []
    undecided_ok = 0
    known_seen = {}
    discarded = 0
    for job in rjobs:
        key, (mn, c, vals) = job.key, job.args
        kind, i, j = key
        st, rr = rres.get(key, ('error', 'not run'))
        if kind == 'known':
            if st == 'ok' and rr[0] == 'fail':
                known_seen[i] = rr[1].splitlines()[0]
            continue
        origin, msg = 'sample', ''
        if kind == 'cand':
            origin, msg, _ = results[i][1]['candidates'][j]
        if st == 'timeout':
            if 'did not finish' in str(results[i][1]['stats'].unsupported):
                rr = ('fail', 'the code does not terminate (within 200 s)')
            else:
                unreproduced.append((i, msg or kind, 'replay timed out'))
                continue
        elif st != 'ok':
            unreproduced.append((i, msg or kind, 'replay error: ' + str(rr)[-400:]))
            continue
        if rr[0] == 'fail':
            m = rr[1].splitlines()[0]
            k = matches_known(known, c, rr[1], vals)
            if k is not None:
                known_seen[known.index(k)] = m
                continue
            violations.setdefault(m, []).append((i, c, vals, rr[1], origin, msg))
        elif rr[0] == 'discard':
            discarded += 1
            if origin not in ('sample', 'undecided'):
                unreproduced.append((i, msg, 'values discarded on replay: %s' % rr[1]))
        elif kind == 'sample':
            validated += 1
            if len(vsamples) < 4:
                vsamples.append(dict(config=c, values=vals))
        elif origin == 'undecided':
            undecided_ok += 1
        else:
            unreproduced.append((i, msg, 'held on replay with the real libraries'))

    # report -------------------------------------------------------------
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    lines = []
    for n, (m, occ) in enumerate(violations.items()):
        i, c, vals, full, origin, msg = min(occ, key=lambda o: len(json.dumps(o[2])))
        path = os.path.join(HERE, 'evidence', 'replays', '%s-%d.json' % (pid, n))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, config=c, values=vals, failure=full, found_by=origin,
                           solver_claim=msg), f, indent=1)
        if n < 5:
            print('--- %s\n    config %s\n    values %s' % (m, c, str(vals)[:600]))
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    for j, k in enumerate(known):
        if j in known_seen:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    decided = stats.paths - stats.paths_undecided
    cov = dict(
        states=stats.paths, transitions=stats.decisions + stats.forced,
        traces_validated_against_impl=validated, samples=vsamples or [dict(config=c) for c in cfgs[:1]],
        paths_decided=decided, paths_undecided=stats.paths_undecided,
        undecided_models_replayed_ok=undecided_ok, paths_narrowed=stats.narrowed,
        assertions=stats.checks, assertions_discharged_by_solver=stats.checks_discharged,
        assertions_trivially_true=stats.checks_trivial,
        solver_queries=stats.queries, solver_time_s=round(stats.solver_time, 2),
        solver_unknown=stats.unknown, max_decision_depth=stats.depth_max,
        assertion_reachability=stats.reached, unsupported=stats.unsupported,
        functions_encoded=sorted(functions), bounds=getattr(mod, 'BOUNDS', ''),
        configurations=cfg_report, exhaustive=all(r.get('complete') for r in cfg_report),
        unreproduced=[str(u)[:300] for u in unreproduced],
        config_errors=[str(e)[:600] for e in errors], vacuous_configs=vacuous,
    )
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  'numpy, h5py, pandas, xarray, dask and OS behaviour as modelled (DESIGN.md); '
                  'models of passing paths are replayed on the real libraries in this run',
                  'real arithmetic is exact: floating-point rounding is outside the claim'],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d configurations, %d paths (%d decided, %d undecided), %d assertions, %d queries, '
          'solver %.1f s, %d traces validated, wall %.1f s' % (
              pid, tier, len(cfgs), stats.paths, decided, stats.paths_undecided, stats.checks,
              stats.queries, stats.solver_time, validated, time.time() - t0))
    if not cov['exhaustive']:
        print('note: exploration incomplete in %d configurations' %
              sum(not r.get('complete') for r in cfg_report))
    for k, v in stats.unsupported.items():
        print('undecided (%d): %s' % (v, k))
    for u in unreproduced[:10]:
        print('NOT REPRODUCED:', str(u)[:500])
    for e in errors[:5]:
        print('CONFIG ERROR:', e[0], e[1], str(e[2])[-1500:])
    for l in lines:
        print(l)
    if lines:
        return 1
    if not decided or vacuous:
        print('no verdict: %s' % ('vacuous configurations %s' % vacuous if vacuous else 'nothing decided'))
        return 2
    if len(errors) * 2 > len(cfgs):
        print('no verdict: most configurations failed')
        return 2
    if stats.paths_undecided > decided:
        print('note: most paths could not be decided symbolically; their models held on replay')
    return 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
