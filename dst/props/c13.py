"""C13: decoders answer every syndrome rightly, whoever shares them, whatever they decoded before."""

from __future__ import annotations

import copy
import itertools
import json
import random
import threading
import warnings

import cvxpy
import galois
import numpy as np

from dst import life, objs, sim, world
from dst.core import Result, Violation

PROPERTY = "C13"
RUNS = {"quick": 1800, "thorough": 40000}
RULE = (
    "seeded plans: one to three parity check matrices over small fields (plain or symplectic), one to four decoders of"
    " them (lookup table, generalized union-find, integer program, BP+OSD, BP+LSD, belief find, matching, or the"
    " default; used directly, blockwise, as direct decoders, or made by decode()), one to three threads that share"
    " them, with preemptions, interrupts, allocation failures and solver faults; non-trivial = a decoder decoded more"
    " than once, an action fired or a fault struck; distinct by matrices, decoders, operations and schedule"
)
REAL = ["qldpc.decoders", "qldpc.codes.common", "qldpc.math", "galois, numpy, ldpc, pymatching, cvxpy and its solvers"]
STUB = ["thread scheduler", "results of the integer-program solver, when a fault is injected", "GAP and disk cache (unused)"]
ASSUMPTIONS = [
    "parity check matrices have no zero rows and are not modified while a decoder is in use",
    "syndromes are integer arrays",
    "belief propagation (external) is only required to be repeatable, and with ordered statistics to match the syndrome",
]

SOLVER = ["fail", "infeasible", "unbounded", "nan", "noise", "inaccurate", "limit"]
FATAL = {"fail", "infeasible", "unbounded", "nan", "limit"}


# ---------------------------------------------------------------------------------------------
# the solver seam
# ---------------------------------------------------------------------------------------------

_real_unpack = cvxpy.Problem.unpack
_session = None


def _unpack(problem, solution):
    """Hand over the solution of a solver, or what a faulty solver says."""
    s = _session
    if s is None:
        return _real_unpack(problem, solution)
    sim.seam("solver returns")
    s.solves += 1
    fault = s.solver_faults.get(s.solves)
    if fault is not None:
        s.result.faults[f"solver:{fault}"] += 1
        s.struck[threading.get_ident()] = fault
        if fault in ("fail", "limit"):
            raise cvxpy.error.SolverError(f"solver stopped: {fault} (simulated)")
        solution = copy.copy(solution)
        if fault in ("infeasible", "unbounded"):
            solution.status = fault
            solution.opt_val = np.inf if fault == "infeasible" else -np.inf
            solution.primal_vars, solution.dual_vars = {}, {}
        elif fault == "inaccurate":
            if solution.status == "optimal":
                solution.status = "optimal_inaccurate"
        elif solution.primal_vars:
            values = {}
            for n, (key, value) in enumerate(solution.primal_vars.items()):
                value = np.array(value, dtype=float)
                if fault == "nan":
                    value[...] = np.nan
                else:
                    signs = np.array([1 if (n + i) % 3 else -1 for i in range(value.size)]).reshape(value.shape)
                    value = value + 1e-5 * signs
                values[key] = value
            solution.primal_vars = values
    try:
        return _real_unpack(problem, solution)
    finally:
        sim.seam("solver returned")


def warm() -> None:
    world.install()
    sim.warm()
    cvxpy.Problem.unpack = _unpack
    x = cvxpy.Variable(2, boolean=True)
    cvxpy.Problem(cvxpy.Minimize(cvxpy.norm(x, 1)), [x[0] + x[1] == 1]).solve()


# ---------------------------------------------------------------------------------------------
# plans
# ---------------------------------------------------------------------------------------------


def draw_matrix(rng):
    """[field, symplectic, rows]; no zero rows."""
    if rng.random() < 0.25:  # symplectic
        q = rng.choice([2, 2, 2, 3, 4])
        n = rng.randint(1, {2: 4, 3: 3, 4: 2}[q])
        rows = [r for r in life.random_stabilizers(rng, q, n, rng.randint(1, n + 1)) if any(r)]
        return [q, True, rows]
    if rng.random() < 0.3:  # graph-like: every bit in at most two checks (fit for matching)
        n, m = rng.randint(2, 8), rng.randint(1, 5)
        rows = np.zeros((m, n), dtype=int)
        for bit in range(n):
            rows[rng.sample(range(m), min(m, rng.choice([1, 2, 2, 2]))), bit] = 1
        rows = [r.tolist() for r in rows if r.any()]
        return [2, False, rows]
    q = rng.choice([2, 2, 2, 3, 3, 4, 5])
    n = rng.randint(1, {2: 8, 3: 5, 4: 4, 5: 4}[q])
    while True:
        rows = [r for r in life.random_matrix(rng, q, rng.randint(1, n + 1), n, rng.choice([0.3, 0.5, 0.8])) if any(r)]
        if rows:
            return [q, False, rows]


def options(rng, matrix):
    q, symplectic, rows = matrix
    sympl = {"symplectic": True} if symplectic else {}
    menu = [
        ["lookup", {"max_weight": rng.choice([0, 1, 2, 3]), **sympl}],
        ["lookup", {"max_weight": rng.choice([1, 2]), **sympl}],
        ["lookup", dict(sympl)],
        ["guf", dict(sympl)],
        ["guf", {"max_weight": rng.choice([0, 1, 2]), **sympl}],
    ]
    if not symplectic:
        if q != 4:
            menu += [["ilp", {}], ["ilp", {}], ["ilp", {}]]
        if q == 2:
            menu += [["osd", {}], ["lsd", {}], ["default", {}]]
            if np.all(np.sum(rows, axis=0) <= 2):
                menu += [["mwpm", {}], ["mwpm", {}], *([["bf", {}]] if np.all(np.sum(rows, axis=0)) else [])]
        else:
            menu += [["default", {}]]
    return rng.choice(menu)


FLAGS = {"lookup": "with_lookup", "guf": "with_GUF", "ilp": "with_ILP", "osd": "with_BP_OSD", "lsd": "with_BP_LSD", "bf": "with_BF", "mwpm": "with_MWPM"}


def plan(rng, tier):
    matrices = [draw_matrix(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    decoders = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        m = rng.randrange(len(matrices))
        decoders.append([m, *options(rng, matrices[m])])
    threads = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        ops = []
        for _ in range(rng.choice([2, 4, 8])):
            d = rng.randrange(len(decoders))
            s = rng.randrange(10**6)
            kind = rng.random()
            if decoders[d][1] == "guf" and rng.random() < 0.2:
                ops.append(["weight", d, s, rng.choice([0, 0, 1, 2])])
            elif kind < 0.55:
                ops.append(["decode", d, s, rng.choice(["error", "error", "error", "any", "zero"]), rng.random() < 0.5])
            elif kind < 0.65:
                ops.append(["block", d, s, rng.randint(1, 3)])
            elif kind < 0.8:
                ops.append(["direct", d, s])
            elif kind < 0.9:
                ops.append(["once", d, s, rng.choice(["error", "any"])])
            elif kind < 0.95:
                ops.append(["make", d])
            else:
                ops.append(["weight", d, s, rng.choice([0, 1, 2])])
        threads.append(ops)
    out = {
        "matrices": matrices,
        "decoders": decoders,
        "threads": threads,
        "entropy": rng.randrange(100),
        "faults": [],
        "actions": [],
        "_keep": ["matrices", "decoders"],
    }
    if any(d[1] == "ilp" for d in decoders) and rng.random() < 0.6:
        out["faults"] = sorted([["solver", rng.randint(1, 8), rng.choice(SOLVER), 0] for _ in range(rng.choice([1, 1, 2, 4]))])
    try:
        traces = run(out, True)[1]
    except Exception:
        return out
    kinds = ["switch"] * 4 if len(threads) > 1 else []
    kinds += ["interrupt"] if rng.random() < 0.5 or len(threads) == 1 else []
    kinds += ["memory"] if rng.random() < 0.3 else []
    out["actions"] = sim.choose_actions(rng, traces, rng.choice([0, 1, 2, 4, 8]), kinds, bias=lambda s: "decoders.py" in s or "solver" in s)
    return out


# ---------------------------------------------------------------------------------------------
# oracles: every error of a small space, by weight
# ---------------------------------------------------------------------------------------------


class Problem:
    """One parity check matrix, and for every syndrome the weight of its lightest errors."""

    def __init__(self, spec):
        self.q, self.symplectic, rows = spec
        self.f = galois.GF(self.q)
        self.rows = np.array(rows, dtype=int)
        self.cols = self.rows.shape[1]
        self.n = self.cols // 2 if self.symplectic else self.cols
        self.checks = self.f(self.rows)
        if self.symplectic:  # P -> [-P_z | P_x]
            self.checks = self.f(np.hstack([np.asarray(-self.f(self.rows[:, self.n :])), self.rows[:, : self.n]]))
        self.lightest: dict = {}
        errors = np.array(list(itertools.product(range(self.q), repeat=self.cols)), dtype=int)
        syndromes = np.asarray(self.f(errors) @ self.checks.T)
        for syndrome, weight in zip(map(tuple, syndromes.tolist()), self.weights(errors)):
            old = self.lightest.get(syndrome)
            if old is None or weight < old:
                self.lightest[syndrome] = int(weight)
        # half the distance of the code, for look-up tables without a given weight
        self.default_weight = None

    def weights(self, errors):
        errors = np.asarray(errors).reshape(-1, self.cols)
        if self.symplectic:
            return np.sum((errors[:, : self.n] != 0) | (errors[:, self.n :] != 0), axis=1)
        return np.sum(errors != 0, axis=1)

    def syndrome(self, error):
        return tuple(np.asarray(self.checks @ self.f(np.asarray(error).astype(int))).tolist())

    def array(self):
        return self.f(self.rows) if self.q != 2 or self.symplectic else self.rows.copy()


class Session:
    def __init__(self, p, node, result):
        self.p, self.node, self.result = p, node, result
        self.problems = [Problem(m) for m in p["matrices"]]
        self.solves = 0
        self.solver_faults = {n: kind for _, n, kind, _ in p["faults"]}
        self.struck: dict = {}
        self.decoders = [self.make(d) for d in p["decoders"]]
        self.answers: dict = {}

    def bad(self, kind, text):
        raise Violation(kind, text)

    def args(self, d):
        m, kind, opts = d
        return {**({FLAGS[kind]: True} if kind in FLAGS else {}), **opts}

    def make(self, d):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return self.node.decoders.get_decoder(self.problems[d[0]].array(), **self.args(d))

    def table_weight(self, d):
        """How heavy the errors in a look-up table are."""
        m, kind, opts = d
        if opts.get("max_weight") is not None:
            return opts["max_weight"]
        problem = self.problems[m]
        if problem.default_weight is None:
            kind = "qudit" if problem.symplectic else "classical"
            distance = life.Truth(problem.rows.tolist(), problem.q, kind).distance()
            problem.default_weight = (int(distance) - 1) // 2 if distance not in (None, "nan") and distance == distance else 0
        return problem.default_weight

    def draw(self, problem, s, how, kind=""):
        rng = random.Random(s)
        if kind in ("lsd", "bf") and how == "any":
            how = "error"  # these (external) decoders may search for ever for a solution that does not exist
        if how == "zero":
            return np.zeros(len(problem.rows), dtype=int)
        if how == "any":
            return np.array([rng.randrange(problem.q) for _ in problem.rows], dtype=int)
        error = [0] * problem.cols
        for i in rng.sample(range(problem.cols), rng.randint(0, min(4, problem.cols))):
            error[i] = rng.randrange(problem.q)
        return np.array(problem.syndrome(error), dtype=int)

    # -- what a decoder must answer ------------------------------------------------------------

    def check(self, d, syndrome, answer, what, repeatable=True):
        """`answer` is an array or an exception."""
        m, kind, opts = d
        problem = self.problems[m]
        key = tuple(int(x) for x in syndrome)
        lightest = problem.lightest.get(key)
        name = f"{kind}{json.dumps(opts)} over GF({problem.q}) of {problem.rows.tolist()}, {what}, syndrome {list(key)}"
        fault = self.struck.pop(threading.get_ident(), None)
        if isinstance(answer, BaseException):
            if kind == "ilp" and (lightest is None or fault in FATAL) and isinstance(answer, (ValueError, cvxpy.error.SolverError)):
                return
            if kind == "mwpm" and lightest is None and isinstance(answer, ValueError):
                return
            raise answer
        if kind == "ilp" and fault in FATAL and lightest is not None:
            self.bad("not-an-error", f"{name}: the solver failed ({fault}), but an answer was returned: {np.asarray(answer).tolist()}")
        if isinstance(answer, tuple) or np.shape(answer) != (problem.cols,):
            self.bad("wrong-correction", f"{name}: not a vector of {problem.cols} entries: {answer}")
        answer = np.asarray(answer).astype(int)
        if np.any(answer < 0) or np.any(answer >= problem.q):
            self.bad("wrong-correction", f"{name}: not a vector over the field: {answer.tolist()}")
        weight = int(problem.weights(answer)[0])
        got = problem.syndrome(answer)
        name += f", answered {answer.tolist()}"
        if kind == "lookup":
            if lightest is not None and lightest <= self.table_weight(d):
                if got != key or weight != lightest:
                    self.bad("wrong-correction", f"{name}, but the lightest error has weight {lightest}")
            elif answer.any():
                self.bad("wrong-correction", f"{name}, but no error in the table has this syndrome")
        elif kind == "ilp":
            if lightest is None:
                self.bad("wrong-correction", f"{name}, but the syndrome has no solution")
            if got != key or weight != lightest:
                self.bad("wrong-correction", f"{name}, but the lightest error has weight {lightest}")
        elif kind == "guf" or (kind == "default" and problem.q > 2):
            if lightest is None:
                if answer.any():
                    self.bad("wrong-correction", f"{name}, but the syndrome has no solution")
            elif got != key:
                self.bad("wrong-correction", f"{name}, which has syndrome {list(got)}")
        elif kind in ("osd", "default") and lightest is not None and got != key:
            self.bad("wrong-correction", f"{name}, which has syndrome {list(got)}")
        elif kind == "mwpm" and lightest is not None and (got != key or weight != lightest):
            self.bad("wrong-correction", f"{name}, but the lightest error has weight {lightest}")
        if kind != "ilp" and repeatable:
            first = self.answers.setdefault((json.dumps(d), key), answer.tolist())
            if first != answer.tolist():
                self.bad("history", f"{name}, but another time it answered {first}")

    def decode(self, d, call, syndrome, what):
        self.struck.pop(threading.get_ident(), None)
        given = syndrome.copy()
        try:
            answer = call()
        except (ValueError, cvxpy.error.SolverError) as err:
            answer = err
        with sim.masked():
            self.check(d, given, answer, what)
            if not np.array_equal(given, syndrome):
                self.bad("changed-array", f"{what}: the given syndrome was changed from {given.tolist()} to {syndrome.tolist()}")
        return answer

    def operate(self, tid, n, op):
        kind, i = op[0], op[1]
        d = self.p["decoders"][i]
        problem = self.problems[d[0]]
        what = f"thread {tid} operation {n}"
        decoders = self.node.decoders
        if kind == "make":
            decoder = self.make(d)
            with sim.masked():
                self.decoders[i] = decoder
        elif kind == "decode":
            decoder = self.decoders[i]
            syndrome = self.draw(problem, op[2], op[3], d[1])
            answer = self.decode(d, lambda: decoder.decode(syndrome), syndrome, what)
            if op[4] and isinstance(answer, np.ndarray):
                with sim.masked():
                    answer[...] = 1 - (answer[...] != 0)  # the answer is the caller's: do anything to it
        elif kind == "once":
            syndrome = self.draw(problem, op[2], op[3], d[1])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.decode(d, lambda: decoders.decode(problem.array(), syndrome, **self.args(d)), syndrome, what)
        elif kind == "weight":
            if d[1] != "guf":
                return
            syndrome = self.draw(problem, op[2], "error")
            plain = self.decode(d, lambda: self.decoders[i].decode(syndrome), syndrome, what)
            light = self.decoders[i].decode(syndrome, max_weight=op[3])
            self.decode(d, lambda: self.decoders[i].decode(syndrome), syndrome, what)
            with sim.masked():
                self.check([d[0], "guf", {"call": op[3]}], syndrome, light, what, repeatable=False)
                free = d[2].get("max_weight") is None
                if free and problem.weights(light)[0] > problem.weights(plain)[0]:
                    self.bad("wrong-correction", f"{what}: asked for weight {op[3]}, union-find found {light.tolist()}, heavier than {plain.tolist()}")
        elif kind == "block":
            parts = [self.draw(problem, op[2] + j, "error") for j in range(op[3])]
            decoder = decoders.BlockDecoder(len(problem.rows), self.decoders[i])
            whole = np.concatenate(parts)
            self.struck.pop(threading.get_ident(), None)
            try:
                answer = decoder.decode(whole)
            except (ValueError, cvxpy.error.SolverError) as err:
                with sim.masked():
                    self.check(d, parts[0], err, what)
                return
            with sim.masked():
                if np.shape(answer) != (problem.cols * op[3],):
                    self.bad("wrong-correction", f"{what}: {np.shape(answer)} entries for {op[3]} blocks of {problem.cols}")
                if self.struck.get(threading.get_ident()) in FATAL:
                    self.bad("not-an-error", f"{what}: the solver failed, but an answer was returned")
                for j, part in enumerate(parts):
                    self.check(d, part, answer[j * problem.cols : (j + 1) * problem.cols], f"{what}, block {j}")
        elif kind == "direct":
            rng = random.Random(op[2])
            word = np.array([rng.randrange(problem.q) for _ in range(problem.cols)], dtype=int)
            matrix = problem.checks if problem.q != 2 or problem.symplectic else problem.rows
            if problem.q != 2 or problem.symplectic:
                word = word.astype(np.uint8)
            given = word.copy()
            decoder = decoders.DirectDecoder.from_indirect(self.decoders[i], matrix)
            syndrome = problem.syndrome(word)
            self.struck.pop(threading.get_ident(), None)
            try:
                answer = decoder.decode(word)
            except (ValueError, cvxpy.error.SolverError) as err:
                with sim.masked():
                    self.check(d, syndrome, err, what)
                return
            with sim.masked():
                if not np.array_equal(given, word):
                    self.bad("changed-array", f"{what}: the given word was changed")
                f = problem.f
                self.check(d, syndrome, np.asarray(f(given.astype(int)) - f(np.asarray(answer).astype(int))), f"{what} (word {given.tolist()})")

    def body(self, tid, ops):
        for n, op in enumerate(ops):
            for _ in range(12):
                try:
                    self.operate(tid, n, op)
                    break
                except (KeyboardInterrupt, MemoryError) as err:
                    if "simulated" not in str(err):
                        raise

    def finish(self):
        """Decoders with a history answer like fresh ones."""
        for d, decoder in zip(self.p["decoders"], self.decoders):
            if d[1] in ("guf", "lookup"):
                for s in range(6):
                    syndrome = self.draw(self.problems[d[0]], s + self.p["entropy"], "error")
                    self.decode(d, lambda: decoder.decode(syndrome), syndrome, "afterwards")
        for key, value in list(self.answers.items()):
            d = json.loads(key[0])
            if "call" in d[2]:
                continue
            syndrome = np.array(key[1], dtype=int)
            fresh = np.asarray(self.make(d).decode(syndrome)).astype(int)
            if fresh.tolist() != value:
                self.bad("history", f"{d[1]} of {self.problems[d[0]].rows.tolist()} answered {value} to {list(key[1])}, and a new one {fresh.tolist()}")


def run(p, record=False):
    global _session
    result = Result()
    w = world.World(result=result)
    w.truth = objs.truth()
    with w:
        node = sim.fresh("p", p["entropy"])
        session = Session(p, node, result)
        s = sim.Sim(p["actions"], budget=8_000_000, record=record)
        for tid, ops in enumerate(p["threads"]):
            s.spawn(lambda tid=tid, ops=ops: session.body(tid, ops), node)
        try:
            _session = session
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                s.run()
        finally:
            _session = None
        if not record:
            session.finish()
            result.note("answers", objs.sha(sorted([[k[0], list(k[1]), v] for k, v in session.answers.items()])))
        result.steps = s.total
        result.faults.update(f"sched:{x}" for x in s.fired)
        for switch in s.switches:
            result.note("switch", *map(str, switch))
        for ops in p["threads"]:
            for op in ops:
                result.probes[op[0]] += 1
                result.probes[f"decoder:{p['decoders'][op[1]][1]}"] += 1
        result.nontrivial = bool(s.fired) or bool(result.faults) or sum(map(len, p["threads"])) > 1
        result.interleaving = objs.sha([p["matrices"], p["decoders"], p["threads"], p["faults"], [str(x) for x in s.switches]])
    return result, [t.trace for t in s.threads]


def execute(p):
    return run(p)[0]
