"""Running scenarios: symbolic exploration in forked workers, replay of
counterexamples on the real code in forked workers."""
import json
import multiprocessing
import os
import pickle
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


def _limit_memory(gb):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2 ** 30), int(gb * 2 ** 30)))


# ------------------------------------------------------------ worker pool
class Job:
    def __init__(self, key, fn, args, timeout):
        self.key, self.fn, self.args, self.timeout = key, fn, args, timeout


def _child(fn, args, conn, mem):
    try:
        if mem:
            _limit_memory(mem)
        r = fn(*args)
        data = pickle.dumps(('ok', r))
    except BaseException as e:
        data = pickle.dumps(('error', ''.join(traceback.format_exception(e))[-4000:]))
    try:
        conn.send_bytes(data)
        conn.close()
    except Exception:
        pass
    os._exit(0)


def run_jobs(jobs, nproc=8, mem=6, on_result=None, deadline=None):
    """Run jobs in forked children, at most nproc at a time."""
    ctx = multiprocessing.get_context('fork')
    pending = list(jobs)
    running = {}
    out = {}
    while pending or running:
        while pending and len(running) < nproc:
            j = pending.pop(0)
            if deadline is not None and time.monotonic() > deadline:
                out[j.key] = ('timeout', 'not started: time budget of the check used up')
                continue
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(j.fn, j.args, w, mem))
            p.start()
            w.close()
            running[p.sentinel] = (j, p, r, time.monotonic())
        conns = [v[2] for v in running.values()]
        if not conns:
            continue
        ready = multiprocessing.connection.wait(conns, timeout=0.5)
        now = time.monotonic()
        for s, (j, p, r, t0) in list(running.items()):
            res = None
            if r in ready:
                try:
                    res = pickle.loads(r.recv_bytes())
                except EOFError:
                    p.join(5)
                    res = ('error', 'worker died (exit code %s)' % p.exitcode)
            elif now - t0 > j.timeout:
                p.kill()
                res = ('timeout', 'worker exceeded %.0f s' % j.timeout)
            if res is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                r.close()
                del running[s]
                out[j.key] = res
                if on_result:
                    on_result(j.key, res)
    return out


# --------------------------------------------------------------- symbolic
def load_symbolic(extra_modules=None):
    from . import loader, npshim, h5shim, label, envshim
    w = loader.world
    w.modules.clear()
    w.modules['numpy'] = npshim.numpy_shim
    w.modules['h5py'] = h5shim
    w.modules.update(envshim.modules())
    w.modules.update(label.modules())
    if extra_modules:
        w.modules.update(extra_modules)
    w.open = envshim.open_model
    loader.install()
    loader.trace_functions()
    import logging
    logging.disable(logging.CRITICAL)
    import karabo_data
    assert karabo_data.__file__.startswith(REPO), karabo_data.__file__
    return karabo_data


def explore_config(prop_mod_name, cfg, budget, seed, max_samples):
    import importlib
    import warnings
    warnings.simplefilter('ignore')
    from . import engine as E, loader
    from .session import SymSession, CheckFailed
    sys.setrecursionlimit(5000)
    mod = importlib.import_module(prop_mod_name)
    t0 = time.monotonic()
    extra = None
    if hasattr(mod, 'extra_modules'):
        import inspect
        extra = (mod.extra_modules(cfg) if inspect.signature(mod.extra_modules).parameters
                 else mod.extra_modules())
    kd = load_symbolic(extra)
    eng = E.Engine(deadline=time.monotonic() + budget,
                   max_paths=cfg.get('max_paths', 10 ** 9))
    scen = getattr(mod, cfg.get('scenario', 'scenario'))
    tb_seen = {}

    def run():
        if eng.path_state:
            eng.path_state.clear()
        loader.world.printed = []
        S = SymSession(kd, cfg)
        try:
            scen(S, cfg)
        except E.EngineSignal:
            raise
        except Exception as e:
            # the code under test (or the engine) raised where the property
            # needs a result: hand a model to the replay
            k = '%s: %s' % (type(e).__name__, str(e)[:200])
            if k not in tb_seen:
                tb_seen[k] = ''.join(traceback.format_exception(e))[-3000:]
            vals = eng.small_model()
            if vals is None:
                eng.unknown_on_path += 1
            else:
                eng.path_candidates.append(E.Candidate(
                    'unexpected exception ' + k, vals, kind='exception'))

    path_limit = cfg.get('path_limit', 100)

    def alarm(signum, frame):
        raise E.Unsupported("path did not finish within %d s" % path_limit)
    signal.signal(signal.SIGALRM, alarm)
    run0 = run

    def run():
        signal.setitimer(signal.ITIMER_REAL, path_limit)
        try:
            run0()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    rnd = random.Random(seed)
    samples = []

    def on_path(en, outcome):
        if outcome == 'ok' and not en.path_candidates:
            n = en.stats.paths_ok
            if len(samples) < max_samples:
                vals = en.small_model()
                if vals is not None:
                    samples.append((n, vals))
            elif rnd.random() < 0.02:
                vals = en.small_model()
                if vals is not None:
                    samples[rnd.randrange(len(samples))] = (n, vals)

    eng.explore(run, on_path)
    # deduplicate candidates, keep a few per message
    per = {}
    cands = []
    for c in eng.candidates:
        k = (c.kind, c.msg)
        per[k] = per.get(k, 0) + 1
        if per[k] <= (4 if c.kind != 'undecided' else 30):
            cands.append((c.kind, c.msg, c.values))
    return dict(stats=eng.stats, candidates=cands, ncand=sum(per.values()),
                samples=[v for _, v in samples], complete=eng.complete,
                why=getattr(eng, 'why_incomplete', ''),
                functions=sorted(loader.executed), tracebacks=tb_seen,
                narrow=eng.narrow_reasons, wall=time.monotonic() - t0)


# --------------------------------------------------------------- concrete
def install_stubs(stubs):
    """karabo_data (and nothing else) sees these modules"""
    import builtins
    real = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in stubs and globals is not None and str(
                globals.get('__name__')).split('.')[0] == 'karabo_data':
            top = name.split('.')[0]
            return stubs[name] if fromlist or top not in stubs else stubs[top]
        return real(name, globals, locals, fromlist, level)
    builtins.__import__ = imp
    for n in [n for n in sys.modules if n.split('.')[0] == 'karabo_data']:
        del sys.modules[n]


def replay(prop_mod_name, cfg, values):
    """-> ('ok', n checks) | ('fail', message) | ('discard', why)"""
    import importlib
    import io
    import contextlib
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from . import osmodel
    osmodel.install_wrappers()
    mod = importlib.import_module(prop_mod_name)
    if hasattr(mod, 'conc_modules'):
        install_stubs(mod.conc_modules())
    import karabo_data
    assert os.path.abspath(karabo_data.__file__).startswith(REPO), karabo_data.__file__
    from .session import ConcSession, CheckFailed, Discard
    scen = getattr(mod, cfg.get('scenario', 'scenario'))
    S = ConcSession(karabo_data, cfg, values)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            scen(S, cfg)
        return ('ok', S.checks)
    except CheckFailed as e:
        return ('fail', str(e))
    except Discard as e:
        return ('discard', str(e))
    except Exception as e:
        return ('fail', 'unexpected exception %s: %s\n%s' % (
            type(e).__name__, e, ''.join(traceback.format_exception(e))[-2500:]))
    finally:
        S.cleanup()
