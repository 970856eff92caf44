"""C14: bounds of distances never exceed the truth the wrong way, whatever decoders do."""

from __future__ import annotations

import json
import random

import numpy as np

from dst import life, objs, sim, world
from dst.core import Result, Violation
from dst.props.c11 import Scripted, valid_basis

PROPERTY = "C14"
RUNS = {"quick": 1600, "thorough": 60000}
RULE = (
    "seeded plans: one code (classical, CSS, CSS subsystem) over a small field, one to three threads that ask for bounds"
    " of its distance (or of the distance of a vector to it) with decoders that first return zeros, garbage, heavy"
    " solutions or buffers they reuse, or raise, and for exact distances, with preemptions, interrupts and allocation"
    " failures; non-trivial = a decoder misbehaved, an action fired, or two questions were asked; distinct by code,"
    " questions and schedule"
)
REAL = ["qldpc.codes.common", "qldpc.codes.distance", "qldpc.decoders", "qldpc.math", "galois, numpy, ldpc"]
STUB = ["thread scheduler", "misbehaving decoders (scripted)", "GAP and disk cache (unused)"]
ASSUMPTIONS = ["a misbehaving decoder eventually returns solutions where they exist"]

BEHAVIOURS = ["zero", "garbage", "raise", "reuse", "good", "heavy", "heavy", "ones", "partial"]
CALLS = 400  # of a decoder that behaves again, per question


def warm() -> None:
    world.install()
    sim.warm()


class Decoder(Scripted):
    """Also: all ones; a solution with its last entry dropped.  Counts what it is asked after it behaves."""

    good = 0

    def decode(self, matrix, syndrome):
        with sim.masked():
            if self.script and self.script[0] in ("ones", "partial"):
                what = self.script.pop(0)
                self.counts[f"decoder:{what}"] += 1
                if what == "ones":
                    return np.ones(matrix.shape[1], dtype=int)
                held, self.script = self.script, []
                out = np.array(super().decode(matrix, syndrome))
                self.script = held
                where = np.flatnonzero(out)
                if len(where):
                    out[where[-1]] = 0
                return out
            if not self.script:
                self.good += 1
                if self.good > CALLS:
                    raise Violation("no-progress", f"a decoder that solves every syndrome was asked {CALLS} times for one bound")
        return super().decode(matrix, syndrome)


def draw_long(rng):
    """Codes of more bits than a machine word has, with few words; CSS codes with small spaces of operators."""
    kind = rng.random()
    n = rng.choice([rng.randint(17, 40), rng.randint(60, 70), rng.randint(120, 132)])
    if kind < 0.2:
        return ["plain", ["repetition", rng.choice([64, 65, 128, 200, 255, 256, 257, 300]), None]]
    if kind < 0.6:
        rows = life.random_matrix(rng, 2, rng.randint(1, 5), n, rng.choice([0.2, 0.5, 0.9]))
        if not all(any(row) for row in rows):
            return ["plain", ["repetition", n, None]]
        return ["gen", 2, rows] if len(rows) == 1 or objs.rank(life.galois.GF(2), rows) == len(rows) else ["gen", 2, rows[:1]]
    if kind < 0.8:
        # more than 2**15 words
        n = rng.randint(17, 24)
        return ["cmat", 2, life.random_matrix(rng, 2, n - rng.randint(9, 13), n)]
    n = rng.randint(12, 19)
    x = life.random_matrix(rng, 2, rng.randint(1, 4), n)
    kernel = objs.null_space(life.galois.GF(2), x)
    z = [[int(v) for v in row] for row in np.asarray(kernel)[: rng.randint(1, len(kernel))]] if len(kernel) else [[0] * n]
    return ["cssmat", 2, x, z]


def plan(rng, tier):
    long = rng.random() < 0.12
    while True:
        spec = draw_long(rng) if long else rng.choice([life.draw_classical, life.draw_css, life.draw_css])(rng)
        out = {"code": spec, "threads": [], "entropy": rng.randrange(100), "actions": [], "_keep": ["code"]}
        w = world.World()
        w.truth = objs.truth()
        with w:
            node = sim.fresh("plan", out["entropy"])
            code = life.build(node, spec)
            kind = life.family(node, code)
            truth = life.truth_of(spec, code, kind)
        if (truth.n > 14 and not long) or not len(truth.matrix):
            continue
        if truth.k or rng.random() < 0.15:
            break
    for _ in range(rng.choice([1, 1, 2, 3])):
        asks = []
        for _ in range(rng.choice([2, 4, 6])):
            s = rng.randrange(10**6)
            script = [rng.choice(BEHAVIOURS) for _ in range(rng.choice([0, 1, 2, 4, 7]))]
            how = rng.choice(["script", "script", "script", "script", "default", "guf", "static"])
            trials = rng.choice([1, 1, 2, 3])
            cutoff = rng.choice([None, None, None, 1, 2, 3])
            menu = [["bound", rng.choice(["X", "Z", None]), s, how, script, trials, cutoff]] * 4
            menu += [["via-distance", rng.choice(["X", "Z", None]), s, how, script, trials, None]]
            menu += [["one", rng.choice(["X", "Z", None]), s, how, script, 1, None], ["params", None, s, how, script, trials, None]]
            menu += [["exact", rng.choice(["X", "Z", None])], ["function", s]]
            if long:
                menu = [["exact", rng.choice(["X", "Z", None])]] * 4 + [["function", s], ["bound", "X", s, "static", script, 1, None]]
            if kind == "classical":
                menu += [["vector", rng.choice([True, False]), s, how, script, trials, cutoff]] * 4
            elif truth.k:
                menu += [["set", s]]
            asks.append(rng.choice(menu))
        out["threads"].append(asks)
    # only the first thread changes the code
    out["threads"][1:] = [[a for a in asks if a[0] != "set"] or [["exact", None]] for asks in out["threads"][1:]]
    try:
        traces = run(out, True)[1]
    except Exception:
        return out
    threads = len(out["threads"])
    kinds = ["switch"] * 4 if threads > 1 else []
    kinds += ["interrupt"] if rng.random() < 0.6 or threads == 1 else []
    kinds += ["memory"] if rng.random() < 0.3 else []
    out["actions"] = sim.choose_actions(rng, traces, rng.choice([0, 1, 2, 4, 8]), kinds, bias=lambda s: "common.py" in s)
    return out


class Session:
    def __init__(self, p, node, result):
        self.p, self.node, self.result = p, node, result
        self.spec = p["code"]
        self.code = life.build(node, self.spec)
        self.kind = life.family(node, self.code)
        self.truth = life.truth_of(self.spec, self.code, self.kind)
        self.distances: dict = {}
        self.answers: list = []

    def bad(self, kind, text):
        raise Violation(kind, f"{json.dumps(self.spec)[:300]}: {text}")

    def distance(self, pauli):
        if pauli not in self.distances:
            with sim.masked():
                self.distances[pauli] = self.truth.distance(pauli)
        return self.distances[pauli]

    def vector_distance(self, vector):
        words = self.truth.words()
        return None if words is None else int(np.count_nonzero(words != vector, axis=1).min())

    def function(self, s):
        """Distances of spans of given operators."""
        module = self.node.codes.distance
        with sim.masked():
            rng = random.Random(s)
            quantum = rng.random() < 0.6
            n = rng.choice([rng.randint(1, 20), rng.randint(30, 34), rng.randint(62, 66), rng.randint(126, 130), rng.randint(250, 260), 300])
            homogeneous = rng.random() < 0.5
            cols = n if homogeneous or not quantum else 2 * n
            density = rng.choice([0.1, 0.5, 0.9, 1])
            rows: list = []
            for row in life.random_matrix(rng, 2, rng.randint(1, 9), cols, density):
                if objs.rank(life.galois.GF(2), [*rows, row]) > len(rows):
                    rows.append(row)
            if not rows:
                rows = [[1] * cols]
            inner = rng.randint(0, len(rows) - 1) if quantum else 0
            block = rng.choice([15, 15, rng.randint(0, 16), len(rows)])
            block = max(block, (cols + 63) // 64)
            as_list = rng.random() < 0.3
            ops, stabs = np.array(rows[inner:]), np.array(rows[:inner], dtype=int).reshape(-1, cols)
            words = life.all_sums(np.array(rows, dtype=np.uint8))[2**inner :]
            if quantum and not homogeneous:
                words = words[:, :n] | words[:, n:]
            want = int(np.count_nonzero(words, axis=1).min())
            given = (ops.tolist(), stabs.tolist() if len(stabs) else stabs) if as_list else (ops.copy(), stabs.copy())
        if quantum:
            value = module.get_distance_quantum(*given, block_size=block, homogeneous=homogeneous)
        else:
            value = module.get_distance_classical(given[0], block_size=block)
        with sim.masked():
            if value != want:
                self.bad("wrong-distance", f"the distance of {len(ops)} operators of {n} (qu)bits and {len(stabs)} stabilizers (seed {s}) is {want}, not {value}")
            if not (np.array_equal(given[0], ops) and np.array_equal(given[1], stabs)):
                self.bad("changed-array", "operators whose distance was computed were changed")

    def exact(self, tid, n, pauli):
        query = ["distance", pauli] if pauli and self.kind == "css" else ["distance"]
        if self.truth.n > 14:
            if (self.distance(pauli) is None or not pauli) if self.kind == "css" else self.truth.k > 17:
                return
        elif not life.allowed(self.truth, query):
            return
        value = life.answer(self.node, self.code, query)
        with sim.masked():
            life.check_answer(self.truth, self.spec, query, value)

    def ask(self, tid, n, op):
        code, truth = self.code, self.truth
        if op[0] == "exact":
            return self.exact(tid, n, op[1])
        if op[0] == "function":
            return self.function(op[1])
        if op[0] == "set":
            with sim.masked():
                given = valid_basis(truth, self.kind, np.asarray(code.get_logical_ops()).astype(int), op[1])
            return code.set_logical_ops(given)
        kind, pauli, s, how, script, trials, cutoff = op
        what = f"question {n} of thread {tid}, {op}"
        args, made = {}, None
        if how in ("script", "static"):
            made = Decoder(script, s, self.result.faults)
            args = {"decoder_constructor": made}
        elif how == "guf":
            args = {"with_GUF": True}
        elif truth.q > 2:
            args = {}
        if how == "guf" and any(not np.any(row) for row in np.asarray(truth.matrix)):
            return
        if how != "script" and how != "static" and truth.q > 2 and any(not np.any(row) for row in np.asarray(truth.matrix)):
            return
        vector = None
        if kind == "vector":
            rng = random.Random(s)
            vector = np.array([rng.randrange(truth.q) for _ in range(truth.n)], dtype=int)
            given = vector.copy() if pauli else vector.tolist()
            args = {**args, "vector": given}
        P = {"X": self.node.objects.Pauli.X, "Z": self.node.objects.Pauli.Z, None: None}
        sector = {"pauli": P[pauli]} if self.kind == "css" and pauli in ("X", "Z") else {}
        try:
            if kind in ("bound", "vector"):
                value = code.get_distance_bound(trials, cutoff=cutoff, **sector, **args)
            elif kind == "via-distance":
                value = code.get_distance(bound=trials if trials > 1 else True, **sector, **args)
            elif kind == "one":
                if not truth.k:
                    return
                value = code.get_one_distance_bound(**sector, **args)
            else:
                if self.kind == "classical" or not args:
                    params = code.get_code_params(bound=trials, **args)
                else:
                    params = code.get_code_params(bound=trials, **args)
                with sim.masked():
                    if list(params[:2]) != [truth.n, truth.k]:
                        self.bad("impossible-bound", f"{what}: {params} of a code with {truth.n} and {truth.k}")
                value = params[2]
        except ValueError as err:
            if "decoder failed (simulated)" not in str(err):
                raise
            return
        with sim.masked():
            if vector is not None:
                if not np.array_equal(vector, given):
                    self.bad("changed-array", f"{what}: the given vector changed")
                want = self.vector_distance(vector)
            else:
                want = self.distance(pauli if self.kind == "css" else None)
            self.answers.append([tid, n, life.number(value)])
            if want == "nan":
                if value == value and vector is None:
                    self.bad("impossible-bound", f"{what}: {value} for a code without words")
                return
            if value != value or value != int(value):
                self.bad("impossible-bound", f"{what}: {value}, but the distance is {want}")
            if want is not None and value < want:
                self.bad("impossible-bound", f"{what}: {value} is given as an upper bound of {want}")
            if value > truth.n:
                self.bad("impossible-bound", f"{what}: {value} of {truth.n}")

    def body(self, tid, asks):
        for n, op in enumerate(asks):
            for _ in range(12):
                try:
                    self.ask(tid, n, op)
                    break
                except (KeyboardInterrupt, MemoryError) as err:
                    if "simulated" not in str(err):
                        raise

    def finish(self):
        for query in [["distance"], *([["distance", "X"], ["distance", "Z"]] if self.kind == "css" else [])]:
            if self.truth.n <= 14 and life.allowed(self.truth, query):
                life.check_answer(self.truth, self.spec, query, life.answer(self.node, self.code, query))
        for query in [["matrix"], ["dimension"]] + ([["logical", None]] if self.kind == "css" else [["generator"]]):
            life.check_answer(self.truth, self.spec, query, life.answer(self.node, self.code, query))


def run(p, record=False):
    result = Result()
    w = world.World(result=result)
    w.truth = objs.truth()
    with w:
        node = sim.fresh("p", p["entropy"])
        random.seed(p["entropy"])
        np.random.seed(p["entropy"])
        session = Session(p, node, result)
        s = sim.Sim(p["actions"], budget=8_000_000, record=record)
        for tid, asks in enumerate(p["threads"]):
            s.spawn(lambda tid=tid, asks=asks: session.body(tid, asks), node)
        s.run()
        if not record:
            session.finish()
            result.note("answers", objs.sha(session.answers))
        result.steps = s.total
        result.faults.update(f"sched:{x}" for x in s.fired)
        for switch in s.switches:
            result.note("switch", *map(str, switch))
        for asks in p["threads"]:
            for op in asks:
                result.probes[op[0]] += 1
        result.probes[f"code:{p['code'][0]}"] += 1
        result.nontrivial = bool(s.fired) or bool(result.faults) or sum(map(len, p["threads"])) > 1
        result.interleaving = objs.sha([p["code"], p["threads"], [str(x) for x in s.switches]])
    return result, [t.trace for t in s.threads]


def execute(p):
    return run(p)[0]
