"""Path exploration: depth-first re-execution, z3 decides which branches are feasible.

Every branch on a symbolic condition goes through Engine.decide; every claim through Engine.prove.
A path is a list of decisions; alternatives that z3 reports satisfiable are explored until none is left, so a
completed exploration covers every value of the symbolic inputs admitted by the harness' assumptions.
"""

import time

import z3

from sx.dom import Dom


class Control(BaseException):
    """Engine-internal control flow; never caught by `except Exception` in the code under test."""


class Infeasible(Control):
    """The current path contradicts an assumption."""


class Unsupported(Control):
    """The code did something the engine has no model for."""


class Inconclusive(Control):
    """z3 answered unknown, or a budget ran out."""


class LoopBound(Control):
    """The path ran more loop iterations/calls than the harness' bound admits."""


class StopCase(Control):
    """Enough counterexamples were found for this case."""


E = None  # the current engine
CONFIRM_MIN_S, CONFIRM_SHARE = 1.0, 0.25  # time for confirming what the value tables decide


def cur():
    return E


class Engine:
    def __init__(self, seed=1, query_ms=60000, max_steps=60000, max_paths=200000, deadline=None):
        global E
        E = self
        z3.set_param("smt.random_seed", seed % 100000)
        z3.set_param("sat.random_seed", seed % 100000)
        self.solver = z3.SolverFor("QF_UFBV")
        self.solver.set("timeout", query_ms)
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.deadline = deadline
        self.trace = []  # [value, has_alternative, pushed, kind]
        self.pos = 0
        self.model = None
        self.base_depth = 0
        self.stats = dict(
            queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, paths=0, infeasible=0, claims=0, claims_solver=0, branches=0, facts=0, facts_confirmed=0
        )
        self.functions = set()
        self.steps = 0
        self.fresh_n = 0
        self.pins = 0
        self.allow_pin = False
        self.path_state = {}
        self.uf = {}
        self.active = False
        self.dom = Dom()
        self.facts = {}
        self.confirm_s = 0.0
        self.started = time.time()

    # -- solver ---------------------------------------------------------------------------------
    def _check(self, *assumptions):
        st = self.stats
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive("deadline")
        t = time.time()
        r = self.solver.check(*assumptions)
        st["solver_s"] += time.time() - t
        st["queries"] += 1
        if r == z3.sat:
            st["sat"] += 1
            self.model = self.solver.model()
            return True
        if r == z3.unsat:
            st["unsat"] += 1
            return False
        st["unknown"] += 1
        raise Inconclusive("z3 unknown: " + self.solver.reason_unknown())

    def get_model(self):
        """A model of the current path condition."""
        if self.model is None:
            if not self._check():
                raise Infeasible()
        return self.model

    def ev(self, term):
        return self.get_model().eval(term, model_completion=True)

    def tri(self, cond):
        """truth value by the tables of remaining values; what they decide is put to the solver when the path ends"""
        r = self.dom.tri(cond)
        if r is not None:
            self.facts[cond.get_id()] = (cond, r)
        return r

    def confirm(self):
        """Ask the solver whether everything the tables decided on this path follows from the path condition."""
        n = len(self.facts)
        if not n:
            return
        self.stats["facts"] += n
        if self.confirm_s > max(CONFIRM_MIN_S, CONFIRM_SHARE * (time.time() - self.started)):
            return
        t = time.time()
        saved = self.model
        try:
            if self._check(z3.Or([z3.Not(c) if v else c for c, v in self.facts.values()])):
                raise RuntimeError("the value tables disagree with the solver")
            self.stats["facts_confirmed"] += n
        except Inconclusive:
            pass
        self.model = saved
        self.confirm_s += time.time() - t

    def push_add(self, cond):
        self.solver.push()
        self.solver.add(cond)

    # -- branching ------------------------------------------------------------------------------
    def decide(self, cond):
        """Return the truth value of cond on this path, forking when both are feasible."""
        if cond is True or cond is False:
            return cond
        r = self.tri(cond)
        if r is not None:
            self.dom.pruned += 1
            return r
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        r = self._decide(cond)
        self.dom.narrow(cond, r)
        return r

    def _decide(self, cond):
        if self.pos < len(self.trace):
            ent = self.trace[self.pos]
            self.pos += 1
            return ent[0]
        self.stats["branches"] += 1
        m = self.get_model()
        mv = m.eval(cond, model_completion=True)
        if z3.is_true(mv):
            known = True
        elif z3.is_false(mv):
            known = False
        else:
            known = None
        if known is None:
            t = self._check(cond)
            tm = self.model
            f = self._check(z3.Not(cond))
            if not t and not f:
                raise Infeasible()
            first, both = (True, f) if t else (False, False)
            model = tm if t else self.model
        else:
            other = self._check(z3.Not(cond) if known else cond)
            first, both, model = known, other, m
        self.model = model
        if both:
            self.push_add(cond if first else z3.Not(cond))
            self.trace.append([first, cond, True])
        else:
            self.trace.append([first, None, False])
        self.pos += 1
        return first

    def note(self, fn):
        """Record a model-dependent value in the trace so that re-execution sees the same one."""
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
            self.pos += 1
            return v
        v = fn()
        self.trace.append([v, None, False])
        self.pos += 1
        return v

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        cond = z3.simplify(cond)
        self._assume(cond)
        self.dom.narrow(cond, True)

    def _assume(self, cond):
        if self.pos < len(self.trace):
            ent = self.trace[self.pos]
            self.pos += 1
            if ent[0] is None:
                raise Infeasible()
            return
        if z3.is_true(cond):
            self.trace.append([True, None, False])
            self.pos += 1
            return
        if z3.is_false(cond):
            self.trace.append([None, None, False])
            self.pos += 1
            raise Infeasible()
        mv = self.model.eval(cond, model_completion=True) if self.model is not None else None
        ok = True if (mv is not None and z3.is_true(mv)) else self._check(cond)
        self.solver.push()
        self.solver.add(cond)
        self.trace.append([True if ok else None, None, True])
        self.pos += 1
        if not ok:
            self.model = None
            raise Infeasible()

    def prove(self, cond):
        """None if cond holds on the whole path, else a model violating it (path condition included)."""
        self.stats["claims"] += 1
        if cond is True:
            return None
        if cond is False:
            return self.get_model()
        saved = self.model
        self.stats["claims_solver"] += 1
        if self._check(z3.Not(cond)):
            m = self.model
            self.model = saved
            return m
        self.model = saved
        return None

    def backtrack(self):
        """Move to the next unexplored decision; False when exploration is complete."""
        while self.trace:
            ent = self.trace.pop()
            val, cond, pushed = ent
            if pushed:
                self.solver.pop()
            if cond is not None:
                new = not val
                self.push_add(cond if new else z3.Not(cond))
                self.trace.append([new, None, True])
                self.model = None
                return True
        return False

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise LoopBound(str(self.steps))

    def explore(self, fn, on_path):
        """Run fn over every feasible path. on_path(kind, payload) is called at the end of each path."""
        self.active = True
        try:
            while True:
                self.pos = 0
                self.steps = 0
                self.fresh_n = 0
                self.path_state = {}
                self.dom.reset()
                self.facts = {}
                self.uf = {}
                kind, payload = "ok", None
                try:
                    fn()
                except Infeasible:
                    kind = "infeasible"
                except LoopBound as e:
                    kind, payload = "loopbound", str(e)
                except Unsupported as e:
                    kind, payload = "unsupported", _where(e)
                if kind == "infeasible":
                    self.stats["infeasible"] += 1
                else:
                    self.stats["paths"] += 1
                    if kind == "ok":
                        self.confirm()
                    on_path(kind, payload)
                if self.stats["paths"] > self.max_paths:
                    raise Inconclusive("path budget")
                if not self.backtrack():
                    return
        finally:
            self.active = False


def _where(e):
    import traceback

    tb = traceback.extract_tb(e.__traceback__)
    locs = ["%s:%s %s" % (f.filename.rsplit("/", 1)[-1], f.lineno, f.name) for f in tb if "/sx/" not in f.filename]
    inner = ["%s:%s %s" % (f.filename.rsplit("/", 1)[-1], f.lineno, f.name) for f in tb if "/sx/" in f.filename]
    return "%s @ %s <- %s" % (e, " > ".join(locs[-2:]), " > ".join(inner[-3:]))
