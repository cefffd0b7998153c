"""Path-exploring symbolic execution core.

The code under test is executed for real by CPython; the values it computes
with may be symbolic (``SV`` / ``SymBool`` wrap z3 terms).  When control flow
depends on a symbolic condition the engine asks z3 which outcomes are possible
under the current path condition and explores all of them, depth first, by
re-executing with a recorded decision prefix.  Assertions are discharged by z3
for *all* values satisfying the path condition.
"""
import re
import sys
import time

import numpy as np
import z3

z3.set_param('smt.random_seed', 0)


class EngineSignal(BaseException):
    """Base of everything used to steer execution (never caught by code)."""


class PathAbort(EngineSignal):
    """The path condition became unsatisfiable (assume failed)."""


class Unsupported(EngineSignal):
    """The engine cannot represent what the code did on this path."""


class Budget(EngineSignal):
    """Time or path budget used up."""


class Nondeterminism(EngineSignal):
    """Re-execution diverged from the recorded prefix."""


_cur = None      # current Engine


def cur():
    if _cur is None:
        raise RuntimeError("no symbolic engine active")
    return _cur


def active():
    return _cur is not None


class Event:
    __slots__ = ('kind', 'ast', 'val', 'alt', 'key')

    def __init__(self, kind, ast, val=None, alt=None, key=None):
        self.kind = kind
        self.ast = ast
        self.val = val
        self.alt = alt       # model of the unexplored side, or None
        self.key = key


class Candidate:
    """A (potential) counterexample: values for every symbolic input."""

    def __init__(self, msg, values, kind='check', config=None):
        self.msg = msg
        self.values = values
        self.kind = kind
        self.config = config


class Stats:
    def __init__(self):
        self.paths = 0
        self.paths_ok = 0
        self.paths_undecided = 0
        self.aborted = 0
        self.decisions = 0
        self.forced = 0
        self.queries = 0
        self.solver_time = 0.0
        self.unknown = 0
        self.checks = 0
        self.checks_trivial = 0
        self.checks_discharged = 0
        self.narrowed = 0
        self.reached = {}
        self.unsupported = {}
        self.depth_max = 0

    def merge(self, o):
        for k, v in o.__dict__.items():
            mine = getattr(self, k)
            if isinstance(v, dict):
                for kk, vv in v.items():
                    mine[kk] = mine.get(kk, 0) + vv
            elif k == 'depth_max':
                self.depth_max = max(mine, v)
            else:
                setattr(self, k, mine + v)
        return self


class Engine:
    def __init__(self, deadline=None, max_paths=10 ** 9, query_timeout_ms=15000):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.events = []
        self.pos = 0
        self.model = None
        self.facts = {}
        self.keep = []
        self.inputs = {}         # name -> (term, kind, lo, hi)
        self.input_order = []
        self.stats = Stats()
        self.deadline = deadline
        self.max_paths = max_paths
        self.candidates = []
        self.path_candidates = []
        self.tokens = {}
        self.token_terms = []
        self.path_state = {}
        self.sample_models = []
        self.narrow_on_path = 0
        self.narrow_reasons = {}
        self.functions = {}
        self.unknown_on_path = 0

    # -- solver access ---------------------------------------------------
    def _check(self, *assumptions):
        self.stats.queries += 1
        t0 = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_time += time.perf_counter() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Budget("deadline")
        return r

    # -- inputs ----------------------------------------------------------
    def fresh_int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if name not in self.inputs:
            self.input_order.append(name)
        # the same name may stand for another kind of value on another path
        self.inputs[name] = (t, 'int', lo, hi)
        if lo is not None:
            self.assume_term(t >= lo)
        if hi is not None:
            self.assume_term(t <= hi)
        return t

    def fresh_real(self, name, lo=None, hi=None):
        t = z3.Real(name)
        if name not in self.inputs:
            self.input_order.append(name)
        # the same name may stand for another kind of value on another path
        self.inputs[name] = (t, 'real', lo, hi)
        if lo is not None:
            self.assume_term(t >= lo)
        if hi is not None:
            self.assume_term(t <= hi)
        return t

    def fresh_bool(self, name):
        t = z3.Bool(name)
        if name not in self.inputs:
            self.input_order.append(name)
        self.inputs[name] = (t, 'bool', None, None)
        return t

    # -- event log -------------------------------------------------------
    def _next_event(self, kinds, ast):
        """Return the recorded event if we are replaying a prefix"""
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev.kind not in kinds or not ev.ast.eq(ast):
                raise Nondeterminism(
                    "replay mismatch at %d: %s %s vs %s %s" % (
                        self.pos, ev.kind, ev.ast, kinds, ast))
            self.pos += 1
            return ev
        return None

    def assume_term(self, t):
        if t is True:
            return
        if t is False:
            raise PathAbort()
        ev = self._next_event(('assume',), t)
        if ev is None:
            self.solver.add(t)
            self.events.append(Event('assume', t))
            self.pos += 1
            ok = False
            if self.model is not None:
                ok = z3.is_true(self.model.eval(t, model_completion=True))
            if not ok:
                r = self._check()
                if r == z3.sat:
                    self.model = self.solver.model()
                elif r == z3.unsat:
                    raise PathAbort()
                else:
                    self.model = None
        self.facts[t.get_id()] = True
        self.keep.append(t)

    def known(self, t):
        return self.facts.get(t.get_id())

    def fork(self, t):
        """Decide boolean term t on this path, exploring both outcomes."""
        if t is True or t is False:
            return t
        k = self.facts.get(t.get_id())
        if k is not None:
            return k
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        ev = self._next_event(('fork', 'forced'), t)
        if ev is None:
            ev = self._decide(t)
        self.facts[t.get_id()] = ev.val
        self.keep.append(t)
        return ev.val

    def _decide(self, t):
        side = None
        if self.model is not None:
            v = self.model.eval(t, model_completion=True)
            if z3.is_true(v):
                side = True
            elif z3.is_false(v):
                side = False
        nt = z3.Not(t)
        if side is None:
            r = self._check(t)
            if r == z3.sat:
                side = True
                self.model = self.solver.model()
            elif r == z3.unsat:
                r2 = self._check(nt)
                if r2 == z3.unsat:
                    raise PathAbort()
                if r2 == z3.sat:
                    self.model = self.solver.model()
                ev = Event('forced', t, False)
                self.events.append(ev)
                self.pos += 1
                self.stats.forced += 1
                return ev
            else:
                side = True
                self.unknown_on_path += 1
        other = nt if side else t
        r = self._check(other)
        if r == z3.unsat:
            ev = Event('forced', t, side)
            self.stats.forced += 1
            self.events.append(ev)
            self.pos += 1
            return ev
        alt = self.solver.model() if r == z3.sat else 'unknown'
        self.stats.decisions += 1
        ev = Event('fork', t, side, alt)
        self.events.append(ev)
        self.pos += 1
        self.solver.push()
        self.solver.add(t if side else nt)
        return ev

    def entailed(self, t):
        """True if the path condition implies t (recorded, but no fork)."""
        if t is True or t is False:
            return t
        k = self.facts.get(t.get_id())
        if k is not None:
            return k
        ev = self._next_event(('ent',), t)
        if ev is None:
            val = None
            if self.model is not None and z3.is_false(
                    self.model.eval(t, model_completion=True)):
                val = False
            if val is None:
                val = self._check(z3.Not(t)) == z3.unsat
            ev = Event('ent', t, val)
            self.events.append(ev)
            self.pos += 1
        if ev.val:
            self.facts[t.get_id()] = True
            self.keep.append(t)
        return ev.val

    # -- concretisation ---------------------------------------------------
    def concretise(self, t, limit=40, why='concretise'):
        """Turn an int term into a Python int, forking over its values.

        If the term has more than *limit* feasible values on this path the
        exploration is narrowed to those seen; this is recorded."""
        if isinstance(t, (int, float, bool)):
            return t
        n = 0
        while True:
            ts = z3.simplify(t)
            if z3.is_int_value(ts):
                return ts.as_long()
            v = self._pick_value(t)
            n += 1
            if n > limit:
                # narrow: only this value is followed any further
                self.narrow(why)
                self.assume_term(t == v)
                return v
            if self.fork(t == v):
                return v

    def _pick_value(self, t):
        """A feasible value of t (recorded, so that replays pick the same)"""
        ev = self._next_event(('pick',), t)
        if ev is not None:
            return ev.val
        if self.model is None:
            r = self._check()
            if r != z3.sat:
                raise Unsupported("solver unknown in concretise")
            self.model = self.solver.model()
        v = self.model.eval(t, model_completion=True)
        if z3.is_int_value(v):
            v = v.as_long()
        elif not z3.is_rational_value(v):
            raise Unsupported("cannot concretise %s" % t)
        self.events.append(Event('pick', t, v))
        self.pos += 1
        return v

    def narrow(self, why):
        self.narrow_on_path += 1
        self.narrow_reasons[why] = self.narrow_reasons.get(why, 0) + 1

    # -- properties --------------------------------------------------------
    def check(self, t, msg, decided=True):
        """Assert t on this path: z3 must show it for every value."""
        self.stats.checks += 1
        self.stats.reached[msg] = self.stats.reached.get(msg, 0) + 1
        if t is True or (not isinstance(t, bool) and z3.is_true(t)):
            self.stats.checks_trivial += 1
            return
        if t is False or z3.is_false(t):
            self._candidate(msg, None)
            raise PathAbort()
        if self.pos < len(self.events):
            # replaying a prefix: this assertion was discharged (or reported)
            # before, on the same path prefix
            ev = self._next_event(('checked', 'assume'), t)
            self.facts[t.get_id()] = True
            self.keep.append(t)
            return
        if self.facts.get(t.get_id()) is True:
            self.stats.checks_trivial += 1
            self.events.append(Event('checked', t))
            self.pos += 1
            return
        r = self._check(z3.Not(t))
        if r == z3.unsat:
            self.stats.checks_discharged += 1
            self.events.append(Event('checked', t))
            self.pos += 1
            self.facts[t.get_id()] = True
            self.keep.append(t)
            return
        if r == z3.unknown:
            self.unknown_on_path += 1
            self.events.append(Event('checked', t))
            self.pos += 1
            return
        self._candidate(msg, z3.Not(t))
        # carry on with the remaining values
        self.assume_term(t)

    def fail(self, msg):
        self.check(False, msg)

    def _candidate(self, msg, extra):
        vals = self.small_model(extra)
        if vals is None:
            self.unknown_on_path += 1
            return
        self.path_candidates.append(Candidate(msg, vals))

    def small_model(self, extra=None):
        """A model of the path condition, preferring small values.  Greedily
        adds soft bounds; returns {name: value}."""
        self.solver.push()
        try:
            if extra is not None:
                self.solver.add(extra)
            r = self._check()
            if r != z3.sat:
                return None
            m = self.solver.model()
            for bound in (64, 1000, 100000, 2 ** 31):
                soft = []
                for name in self.input_order:
                    t, kind, lo, hi = self.inputs[name]
                    if kind == 'int':
                        soft.append(z3.And(t <= max(bound, (lo or 0) + bound),
                                           t >= min(-bound, (hi or 0) - bound)
                                           if (lo is None or lo < 0) else True))
                self.solver.push()
                self.solver.add(*soft)
                r = self._check()
                if r == z3.sat:
                    m = self.solver.model()
                    self.solver.pop()
                    break
                self.solver.pop()
            return self.model_values(m)
        finally:
            self.solver.pop()

    def model_values(self, m):
        out = {}
        for name in self.input_order:
            t, kind, lo, hi = self.inputs[name]
            v = m.eval(t, model_completion=True)
            if kind == 'int':
                out[name] = v.as_long()
            elif kind == 'bool':
                out[name] = z3.is_true(v)
            else:
                if z3.is_rational_value(v):
                    out[name] = [str(v.numerator_as_long()),
                                 str(v.denominator_as_long())]
                else:
                    v = v.approx(20)
                    out[name] = [str(v.numerator_as_long()),
                                 str(v.denominator_as_long())]
        return out

    # -- exploration --------------------------------------------------------
    def _begin_path(self):
        self.pos = 0
        self.facts = {}
        self.keep = []
        self.tokens = {}
        self.token_terms = []
        self.path_state = {}
        self.narrow_on_path = 0
        self.unknown_on_path = 0
        self.path_candidates = []

    def _backtrack(self):
        while self.events:
            ev = self.events[-1]
            if ev.kind == 'fork':
                self.solver.pop()
                if ev.alt is not None:
                    alt, ev.alt = ev.alt, None
                    self.solver.push()
                    ev.val = not ev.val
                    self.solver.add(ev.ast if ev.val else z3.Not(ev.ast))
                    self.model = alt if alt != 'unknown' else None
                    return True
            self.events.pop()
        return False

    def explore(self, fn, on_path=None):
        """Run fn() once per feasible path.  fn raises nothing on success."""
        global _cur
        prev, _cur = _cur, self
        try:
            self.solver.push()
            while True:
                self._begin_path()
                outcome = 'ok'
                try:
                    fn()
                except PathAbort:
                    outcome = 'abort'
                except Unsupported as e:
                    outcome = 'unsupported'
                    k = re.sub(r'\d{3,}', 'N', str(e)[:160])
                    self.stats.unsupported[k] = self.stats.unsupported.get(k, 0) + 1
                except RecursionError:
                    outcome = 'unsupported'
                    self.stats.unsupported['recursion'] = \
                        self.stats.unsupported.get('recursion', 0) + 1
                if outcome == 'abort' and not self.path_candidates:
                    self.stats.aborted += 1
                else:
                    self.stats.paths += 1
                    self.stats.depth_max = max(self.stats.depth_max,
                                               len(self.events))
                    if self.narrow_on_path:
                        self.stats.narrowed += 1
                    if outcome == 'unsupported' or self.unknown_on_path:
                        self.stats.paths_undecided += 1
                        # hand a model of the path to the concrete replay
                        try:
                            vals = self.small_model()
                        except Budget:
                            vals = None
                        if vals is not None:
                            self.path_candidates.append(Candidate(
                                'undecided path', vals, kind='undecided'))
                    elif not self.path_candidates:
                        self.stats.paths_ok += 1
                    if on_path is not None:
                        on_path(self, outcome)
                    self.candidates.extend(self.path_candidates)
                if self.pos < len(self.events):
                    # path ended before consuming its prefix: only possible
                    # when behaviour is not deterministic
                    raise Nondeterminism("path shorter than its prefix")
                if self.stats.paths >= self.max_paths:
                    raise Budget("max paths")
                if self.deadline is not None and time.monotonic() > self.deadline:
                    raise Budget("deadline")
                if not self._backtrack():
                    break
            self.complete = True
        except Budget as e:
            self.complete = False
            self.why_incomplete = str(e)
        finally:
            _cur = prev
        return self
