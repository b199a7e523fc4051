"""Path exploration and the solver.

One `Engine` explores one harness: the harness (and, through the import hook of instrument.py, the code
under check) is executed over and over; every time a symbolic truth value is needed a decision node is
appended to the trail, and depth-first backtracking visits the other feasible side in a later execution.
The path condition lives in one incremental z3 solver that is kept in step with the trail by push/pop.

An execution always follows a model of its own path condition, so taking the first side of a branch needs
no query; every other side costs exactly one `check`.  `check_holds` asks the solver for a model of
(path condition and not property): `unsat` discharges the obligation for every value on that path.
"""

import time

import z3


class Control(BaseException):
    """Steering exceptions: never caught by the code under check, which only catches Exception."""


class PathCut(Control):
    """The current path is given up: infeasible assumption, or a documented cut."""


class BudgetExceeded(Control):
    pass


class EngineError(Control):
    """The engine itself is in trouble (non-determinism, unsupported construct)."""


class Node:
    __slots__ = ("kind", "sig", "chosen", "alts", "model", "pushed", "depth")

    def __init__(self, kind, sig, chosen, alts, model, pushed):
        self.kind = kind
        self.sig = sig
        self.chosen = chosen
        self.alts = alts
        self.model = model
        self.pushed = pushed


class Stats:
    FIELDS = (
        "paths", "cut_paths", "decisions", "branches", "choices", "queries", "sat", "unsat", "unknown",
        "obligations", "discharged_by_solver", "discharged_concretely", "realizations", "realization_cuts",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = round(self.solver_s, 3)
        return d


CURRENT = None  # the engine of the running exploration


class Engine:
    def __init__(self, seed=1, query_timeout_ms=10000, max_paths=None, deadline=None, realize_limit=24):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.solver.set("random_seed", seed % (2**31))
        self.stats = Stats()
        self.trail = []
        self.pos = 0
        self.model = None
        self.max_paths = max_paths
        self.deadline = deadline
        self.realize_limit = realize_limit
        self.cuts = {}
        self.inconclusive = []
        # per-path state
        self.known = {}
        self.keep = []
        self.consts = {}
        self.inputs = {}
        self.lazies = {}
        self.opaque_events = []
        self.observations = []
        self.coverage = {}
        self.functions = set()
        self.violations = []

    # -- solver -----------------------------------------------------------------------------------

    def _check(self, *extra):
        t0 = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t0
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def eval_bool(self, e):
        """Truth of *e* in the current model (which satisfies the path condition)."""
        if self.model is None:
            if self._check() != z3.sat:
                raise EngineError("path condition without a model")
            self.model = self.solver.model()
        v = self.model.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        r = self._check(e)
        if r == z3.sat:
            self.model = self.solver.model()
            return True
        if r == z3.unsat:
            return False
        self.note_inconclusive("unknown while evaluating a condition")
        raise PathCut

    def next_value(self, e):
        """A value for *e* that is possible on this path; recorded so that replays agree."""
        if self.pos < len(self.trail):
            node = self.trail[self.pos]
            if node.kind != "v" or not node.sig.eq(e):
                raise EngineError(f"non-deterministic replay: expected {node.sig}, got value of {e}")
            self.pos += 1
            return node.chosen
        self.eval_bool(z3.BoolVal(True))
        v = self.model.eval(e, model_completion=True)
        self.trail.append(Node("v", e, v, [], self.model, False))
        self.pos += 1
        self.keep.append(v)
        return v

    def note_inconclusive(self, why):
        if len(self.inconclusive) < 50:
            self.inconclusive.append(why)

    # -- decisions --------------------------------------------------------------------------------

    def _tick(self):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise BudgetExceeded("time")

    def branch(self, e):
        """Decide the z3 Bool *e* on this path."""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        neg = False
        while z3.is_not(e):
            e = e.arg(0)
            neg = not neg
        k = self.known.get(e.get_id())
        if k is not None:
            return k != neg
        self.keep.append(e)
        if self.pos < len(self.trail):
            node = self.trail[self.pos]
            if node.kind != "b" or not node.sig.eq(e):
                raise EngineError(f"non-deterministic replay: expected {node.sig}, got {e}")
            self.pos += 1
            v = node.chosen
        else:
            self._tick()
            v = self.eval_bool(e)
            self.solver.push()
            self.solver.add(e if v else z3.Not(e))
            node = Node("b", e, v, [not v], self.model, True)
            self.trail.append(node)
            self.pos += 1
            self.stats.decisions += 1
            self.stats.branches += 1
        self._learn(e, v)
        return v != neg

    def _learn(self, e, v):
        self.known[e.get_id()] = v
        if v:
            if z3.is_eq(e):
                a, b = e.arg(0), e.arg(1)
                if z3.is_string_value(b) and not z3.is_string_value(a):
                    self.consts[a.get_id()] = b
                    self.keep.append(a)
                elif z3.is_string_value(a) and not z3.is_string_value(b):
                    self.consts[b.get_id()] = a
                    self.keep.append(b)
                elif z3.is_int_value(b) and not z3.is_int_value(a):
                    self.consts[a.get_id()] = b
                    self.keep.append(a)
            elif z3.is_and(e):
                for c in e.children():
                    self.keep.append(c)
                    self._learn(c, True)

    def choose(self, n, sig):
        """A free choice among *n* structural alternatives (no solver query: every one is feasible)."""
        if n <= 0:
            raise PathCut
        if n == 1:
            return 0
        if self.pos < len(self.trail):
            node = self.trail[self.pos]
            if node.kind != "c" or node.sig != (n, sig):
                raise EngineError(f"non-deterministic replay: expected {node.sig}, got {(n, sig)}")
            self.pos += 1
            return node.chosen
        self._tick()
        node = Node("c", (n, sig), 0, list(range(1, n)), self.model, False)
        self.trail.append(node)
        self.pos += 1
        self.stats.decisions += 1
        self.stats.choices += 1
        return 0

    def assume(self, e):
        """Restrict the path to *e*; give the path up when that is infeasible."""
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathCut
        k = self.known.get(e.get_id())
        if k is True:
            return
        if k is False:
            raise PathCut
        self.keep.append(e)
        if self.pos < len(self.trail):
            node = self.trail[self.pos]
            if node.kind != "a" or not node.sig.eq(e):
                raise EngineError(f"non-deterministic replay: expected {node.sig}, got assume {e}")
            self.pos += 1
            if node.chosen is False:
                raise PathCut
        else:
            self._tick()
            ok = self.eval_bool(e)
            model = self.model
            if not ok:
                r = self._check(e)
                if r == z3.sat:
                    self.model = model = self.solver.model()
                    ok = True
                elif r == z3.unknown:
                    self.note_inconclusive(f"unknown for an assumption: {str(e)[:200]}")
            if ok:
                self.solver.push()
                self.solver.add(e)
            self.trail.append(Node("a", e, ok, [], model, ok))
            self.pos += 1
            if not ok:
                raise PathCut
        self._learn(e, True)

    def refute(self, e, extra=()):
        """Look for a model of the path condition in which *e* is false.  Returns (verdict, model)."""
        self.stats.obligations += 1
        if z3.is_true(e):
            self.stats.discharged_concretely += 1
            return "holds", None
        ne = z3.Not(e)
        if not extra and not z3.is_false(e):
            if not self.eval_bool(e):
                return "violated", self.model
        r = self._check(ne, *extra)
        if r == z3.unsat:
            self.stats.discharged_by_solver += 1
            return "holds", None
        if r == z3.sat:
            return "violated", self.solver.model()
        self.note_inconclusive(f"unknown for an obligation: {str(e)[:200]}")
        return "unknown", None

    def check_holds(self, e, on_violation):
        """Decide *e* for every value on the current path, once per trail position; afterwards assume it."""
        if self.pos < len(self.trail):
            node = self.trail[self.pos]
            if node.kind != "k" or not node.sig.eq(e):
                raise EngineError(f"non-deterministic replay: expected {node.sig}, got obligation {e}")
            self.pos += 1
            ok = node.chosen
        else:
            self._tick()
            verdict, model = self.refute(e)
            if verdict == "violated":
                on_violation(model)
            ok = not z3.is_false(e)
            pushed = False
            model = self.model
            if verdict != "holds" and ok:
                if not self.eval_bool(e):
                    r = self._check(e)
                    ok = r == z3.sat
                    if ok:
                        model = self.model = self.solver.model()
                if ok:
                    self.solver.push()
                    self.solver.add(e)
                    pushed = True
            self.trail.append(Node("k", e, ok, [], model, pushed))
            self.pos += 1
        if not ok:
            raise PathCut
        self.keep.append(e)
        if not z3.is_true(e):
            self._learn(e, True)

    def cut(self, why):
        self.cuts[why] = self.cuts.get(why, 0) + 1
        raise PathCut

    # -- exploration ------------------------------------------------------------------------------

    def _begin(self):
        self.pos = 0
        self.known = {}
        self.keep = []
        self.consts = {}
        self.inputs = {}
        self.lazies = {}
        self.opaque_events = []
        self.observations = []
        self.path_notes = {}

    def _backtrack(self):
        """Move to the next unexplored alternative.  False when the tree is exhausted."""
        while self.trail:
            node = self.trail[-1]
            if node.pushed:
                self.solver.pop()
                node.pushed = False
            while node.alts:
                alt = node.alts.pop(0)
                if node.kind == "c":
                    node.chosen = alt
                    self.model = node.model
                    return True
                e = node.sig if alt else z3.Not(node.sig)
                self.solver.push()
                self.solver.add(e)
                r = self._check()
                if r == z3.sat:
                    node.chosen = alt
                    node.pushed = True
                    node.model = self.model = self.solver.model()
                    return True
                self.solver.pop()
                if r == z3.unknown:
                    self.note_inconclusive(f"unknown for a branch: {str(e)[:200]}")
            self.trail.pop()
        return False

    def explore(self, run_path):
        """Run *run_path(engine)* once per path.  Returns True iff every feasible path was executed."""
        global CURRENT
        prev, CURRENT = CURRENT, self
        try:
            while True:
                self._begin()
                try:
                    run_path(self)
                    self.stats.paths += 1
                except PathCut:
                    self.stats.cut_paths += 1
                except BudgetExceeded:
                    return False
                if self.max_paths is not None and self.stats.paths >= self.max_paths:
                    return not self._backtrack()
                if self.deadline is not None and time.monotonic() > self.deadline:
                    return not self._backtrack()
                if not self._backtrack():
                    return True
        finally:
            CURRENT = prev
