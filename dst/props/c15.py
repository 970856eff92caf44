"""C15: estimated logical error rates are what the decoder's verdicts imply."""

from __future__ import annotations

import itertools
import json
import math
import random

import numpy as np

from dst import life, objs, sim, world
from dst.core import Result, Violation

PROPERTY = "C15"
RUNS = {"quick": 700, "thorough": 20000}
RULE = (
    "seeded plans: one code (classical, CSS, CSS subsystem) over a small field, one to three threads that estimate its"
    " logical error rate with decoders of their own (that record what they are asked, fail, raise, reuse or modify"
    " arrays, or are real look-up decoders) for some sample number, maximal error rate and bias, evaluate what they got,"
    " or ask for other things, with preemptions, interrupts and allocation failures; non-trivial = a decoder failed on"
    " some samples, an action fired, or several estimates were made; distinct by code, operations and schedule"
)
REAL = ["qldpc.codes.common", "qldpc.decoders (dispatch, direct decoders, look-up)", "qldpc.math", "galois, numpy"]
STUB = ["thread scheduler", "decoders whose verdicts are scripted", "GAP and disk cache (unused)"]
ASSUMPTIONS = [
    "the decoder answers the same question in the same way",
    "statistical comparisons allow deviations that a right estimate exceeds with probability below 1e-11",
]
TINY = 1e-11  # probability of a false alarm, per comparison


def warm() -> None:
    world.install()
    sim.warm()


def chance(*key):
    """A number in [0, 1) that depends on the key alone."""
    return random.Random(json.dumps(key)).random()


# ---------------------------------------------------------------------------------------------
# decoders
# ---------------------------------------------------------------------------------------------


class Recorder:
    """Makes direct decoders that record the errors they see, and fix or spoil them as their verdict says."""

    def __init__(self, session, op):
        self.session, self.op = session, op
        self.made: list = []  # one list of [error, failed] per decoder
        self.matrices: list = []
        self.left = op["raise_after"]

    def __call__(self, matrix, **kwargs):
        with sim.masked():
            seen: list = []
            self.made.append(seen)
            self.matrices.append(objs.mat(matrix))
        owner = self

        def decode(word):
            with sim.masked():
                return owner.decode(seen, word)

        return self.session.node.decoders.DirectDecoder(decode)

    def decode(self, seen, word):
        s, op = self.session, self.op
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left = None
                s.result.faults["decoder:raise"] += 1
                raise ValueError("decoder failed (simulated)")
        if not isinstance(word, np.ndarray) or word.shape != (s.truth.n,):
            s.bad("wrong-sample", f"the decoder was given {type(word).__name__} of shape {getattr(word, 'shape', None)}")
        error = [int(x) for x in word]
        if not all(0 <= x < s.truth.q for x in error):
            s.bad("wrong-sample", f"the decoder was given {error}")
        failed = any(error) and self.verdict(error)
        seen.append([tuple(error), failed])
        if not any(error):
            return np.zeros(s.truth.n, dtype=int)
        pauli = self.pauli(seen)
        good, bad = s.residuals(pauli)
        pool = bad if failed else good
        rest = np.array(pool[int(chance(op["seed"], "residual", error) * len(pool))], dtype=int)
        if op["manners"] == "modify":
            word[:] = 1
            s.result.faults["decoder:modify"] += 1
        if op["manners"] == "readonly":
            rest.flags.writeable = False
        return rest

    def verdict(self, error):
        if not self.op["spoil"]:
            return False
        if self.session.kind == "css" and not self.session.truth.k:
            return False
        support = [int(x != 0) for x in error] if self.session.kind == "css" else error
        return chance(self.op["seed"], "verdict", support) < self.op["spoil"]

    def pauli(self, seen):
        """The type of errors a decoder is for: told by the only errors there are, or by its checks (maybe both)."""
        if self.session.kind == "classical":
            return None
        if self.op["bias"] == "X":
            return "X"
        if self.op["bias"] == "Z":
            return "Z"
        which = next(i for i, x in enumerate(self.made) if x is seen)
        return self.session.sector(self.matrices[which])


class Coset:
    """An indirect decoder: maps each syndrome to some error with that syndrome, chosen by the seed."""

    def __init__(self, session, seed):
        self.session, self.seed = session, seed

    def __call__(self, matrix, **kwargs):
        with sim.masked():
            table = self.session.cosets(objs.mat(matrix), self.seed)
        owner = self

        class Decoder:
            def decode(self, syndrome):
                with sim.masked():
                    return np.array(table[tuple(int(x) for x in syndrome)], dtype=int)

        return Decoder()


BIASES = {"X": [1, 0, 0], "Y": [0, 1, 0], "Z": [0, 0, 1]}


def draw_op(rng, kind, truth):
    num = rng.choice([1, 2, 5, 20, 60, 150])
    out = {
        "do": "rate",
        "num": num,
        "max": rng.choice([1, 0.9, 0.5, 0.3, 0.3, 0.3, 0.1, 0.02, 1e-4, None]),
        "seed": rng.randrange(10**6),
        "spoil": rng.choice([0, 0.3, 0.5, 0.5, 0.8, 1]),
        "manners": rng.choice(["good", "good", "modify", "readonly"]),
        "raise_after": rng.randrange(2 * num) if rng.random() < 0.15 else None,
        "bias": None,
        "scale": rng.choice([1, 1, 3, 0.25]),
        "style": rng.choice(["list", "array", "tuple"]),
        "at": [rng.random() for _ in range(3)],
    }
    if kind == "css":
        out["bias"] = rng.choice(["X", "Y", "Z"])
    if truth.q**truth.n <= 300 and rng.random() < 0.3:
        out["do"] = "coset" if rng.random() < 0.7 else "lookup"
        out["num"] = rng.choice([200, 600])
        if kind == "css":
            out["bias"] = rng.choice([None, None, "X", "Y", "Z", [1, 1, 0], [1, 0, 1], [0, 1, 3], [5, 1, 1], [1, 2, 6]])
    return out


def plan(rng, tier):
    while True:
        spec = rng.choice([life.draw_classical, life.draw_css])(rng)
        out = {"code": spec, "threads": [], "entropy": rng.randrange(10**6), "actions": [], "_keep": ["code"]}
        w = world.World()
        w.truth = objs.truth()
        with w:
            node = sim.fresh("plan", out["entropy"])
            code = life.build(node, spec)
            kind = life.family(node, code)
            truth = life.truth_of(spec, code, kind)
        if truth.n > 10 or not len(truth.matrix) or truth.q**truth.n > 5000:
            continue
        if truth.k or rng.random() < 0.1:
            break
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < 0.75:
                ops.append(draw_op(rng, kind, truth))
            elif kind == "css" and rng.random() < 0.5 and truth.k and not out["threads"]:
                ops.append({"do": "set", "seed": rng.randrange(10**6)})
            else:
                ops.append({"do": "ask", "what": rng.choice(life.QUERIES[kind])})
        out["threads"].append(ops)
    try:
        traces = run(out, True)[1]
    except Exception:
        return out
    kinds = ["switch"] * 4 if len(out["threads"]) > 1 else []
    kinds += ["interrupt"] if rng.random() < 0.6 or not kinds else []
    kinds += ["memory"] if rng.random() < 0.3 else []
    out["actions"] = sim.choose_actions(rng, traces, rng.choice([0, 1, 2, 4]), kinds, bias=lambda s: "common.py" in s)
    return out


class Session:
    def __init__(self, p, node, result, dry):
        self.p, self.node, self.result, self.dry = p, node, result, dry
        self.spec = p["code"]
        self.code = life.build(node, self.spec)
        self.kind = life.family(node, self.code)
        self.truth = life.truth_of(self.spec, self.code, self.kind)
        self.parts()
        self.kept: list = []  # functions that were made, and what they said
        self.answers: list = []
        self._cosets: dict = {}

    def bad(self, kind, text):
        raise Violation(kind, f"{json.dumps(self.spec)[:300]}: {text}")

    # -- what residual errors mean ----------------------------------------------------------------

    def parts(self):
        """Per type of error: checks that see it, harmless errors, and errors that no check sees."""
        t = self.truth
        f, n = t.f, t.n
        self.info = {}
        if self.kind == "classical":
            self.info[None] = [t.matrix, np.zeros((0, n), dtype=int), np.asarray(t.kernel)]
            return
        rows = np.asarray(t.matrix)
        gauge = {"X": rows[~np.any(rows[:, n:], axis=1)][:, :n], "Z": rows[~np.any(rows[:, :n], axis=1)][:, n:]}
        centre = np.asarray(t.centre).reshape(-1, 2 * n)
        cx, cz = centre[:, :n], centre[:, n:]
        stabs = {"X": cx[np.any(cx, axis=1)], "Z": cz[np.any(cz, axis=1)]}
        for pauli, other in (("X", "Z"), ("Z", "X")):
            seen = stabs[other].reshape(-1, n)
            self.info[pauli] = [seen, gauge[pauli].reshape(-1, n), np.asarray(objs.null_space(f, seen) if len(seen) else np.eye(n, dtype=int))]

    def combine(self, rows, limit=16):
        f = self.truth.f
        rows = f(np.asarray(rows, dtype=int).reshape(-1, self.truth.n))
        out = [[0] * self.truth.n]
        rng = random.Random(str(rows.tolist()))
        for _ in range(limit if len(rows) else 0):
            c = f([rng.randrange(f.order) for _ in range(len(rows))])
            out.append([int(x) for x in c @ rows])
        return out

    def harmless(self, pauli, vector):
        """Whether a residual error is no error of the logical information (None: it violates a check)."""
        f = self.truth.f
        if pauli is None:
            return not np.any(vector)
        return objs.in_span(f, self.info[pauli][1], vector) if len(self.info[pauli][1]) else not np.any(vector)

    def residuals(self, pauli):
        key = ("res", pauli)
        if key not in self._cosets:
            checks, gauge, kernel = self.info[pauli[0] if pauli else None]
            if pauli is None:
                good = [[0] * self.truth.n]
                bad = [v for v in self.combine(kernel, 24) if any(v)] or [[0] * (self.truth.n - 1) + [1]]
            else:
                good = [v for v in self.combine(gauge, 40) if all(self.harmless(x, v) for x in pauli)][:16]
                bad = [v for v in self.combine(kernel, 60) if not any(self.harmless(x, v) for x in pauli)]
            self._cosets[key] = good, bad
        good, bad = self._cosets[key]
        return good, bad or good

    def sector(self, matrix):
        rows = np.array(matrix, dtype=int).reshape(-1, self.truth.n)
        found = "".join(p for p in "XZ" if same_rows(self.truth.f, rows, self.info[p][0]))
        if not found:
            self.bad("wrong-decoder", f"a decoder was made for {matrix}, which are not the stabilizers")
        return found

    def cosets(self, matrix, seed):
        """Each syndrome and the error that the decoder takes it for."""
        key = (json.dumps(matrix), seed)
        if key not in self._cosets:
            t = self.truth
            v = t.vectors(t.n)
            rows = t.f(np.array(matrix, dtype=int).reshape(-1, t.n))
            syndromes = [tuple(map(int, s)) for s in np.asarray(v @ rows.T)] if len(rows) else [()] * len(v)
            found: dict = {}
            for s, e in zip(syndromes, np.asarray(v)):
                found.setdefault(s, []).append(tuple(map(int, e)))
            table = {}
            for s, errors in found.items():
                light = sorted(errors, key=lambda e: (sum(x != 0 for x in e), e))
                pick = chance(seed, light[0])
                table[s] = light[0] if pick < 0.6 else light[int(pick * 997) % len(light)]
            table[syndromes[0]] = tuple([0] * t.n)
            self._cosets[key] = table
        return self._cosets[key]

    # -- estimates -------------------------------------------------------------------------------

    def rate(self, tid, n, op):
        t, code = self.truth, self.code
        what = f"estimate {n} of thread {tid}, {json.dumps({k: v for k, v in op.items() if k not in ('at',)})}"
        given = None
        args: dict = {}
        if op["bias"] is not None:
            bias = BIASES[op["bias"]] if isinstance(op["bias"], str) else op["bias"]
            values = [x * op["scale"] for x in bias]
            given = {"list": list, "tuple": tuple, "array": lambda v: np.array(v, dtype=float)}[op["style"]](values)
            args["pauli_bias"] = given
        if op["max"] is not None:
            args["max_error_rate"] = op["max"]
        recorder = None
        if op["do"] == "rate":
            recorder = args["decoder_constructor"] = Recorder(self, op)
        elif op["do"] == "coset":
            args["decoder_constructor"] = Coset(self, op["seed"])
        else:
            args["with_lookup"] = True
            args["max_weight"] = 2
        try:
            function = code.get_logical_error_rate_func(op["num"], **args)
        except ValueError as err:
            if "decoder failed (simulated)" not in str(err):
                raise
            return
        top = 0.3 if op["max"] is None else op["max"]
        points = [0.0, top] + [x * top for x in op["at"]]
        values = [self.evaluate(function, p) for p in points]
        if top < 1:
            for beyond in (top * 1.001 + 1e-9, 1.0):
                try:
                    value = function(beyond)
                except ValueError:
                    continue
                self.bad("no-refusal", f"{what}: a rate for {beyond} was given: {value}")
        together = function(np.array(points[1:]))
        # everything below is checking
        if self.dry:
            return
        with sim.masked():
            if given is not None and list(given) != values_of(op):
                self.bad("changed-argument", f"{what}: the bias given became {given}")
            both = [[float(x) for x in part] for part in together]
            if both != [[v[0] for v in values[1:]], [v[1] for v in values[1:]]]:
                self.bad("other-answer", f"{what}: {both} for several rates at once, {values[1:]} one by one")
            if values[0] != [0.0, 0.0]:
                self.bad("wrong-rate", f"{what}: {values[0]} if there are no physical errors")
            for p, (rate, error) in zip(points, values):
                if not (-1e-9 <= rate <= 1 + 1e-9) or not (0 <= error <= 1):
                    self.bad("wrong-rate", f"{what}: {rate} +- {error} at {p}")
            self.kept.append([function, points, values, what])
            self.answers.append([tid, n, [v for pair in values for v in pair]])
            if recorder is not None:
                counts = self.read(recorder, op, what)
                self.exact(counts, op, points, values, what)
            else:
                self.likely(op, points, values, what, tid)

    def evaluate(self, function, p):
        rate, error = function(p)
        return [float(rate), float(error)]

    def read(self, recorder, op, what):
        """Samples and failures by weight, from what decoders saw."""
        t = self.truth
        logs = [[x for x in seen if any(x[0])] for seen in recorder.made]
        weight = lambda e: sum(x != 0 for x in e)
        if self.kind == "classical":
            if len(logs) != 1 or not same_rows(t.f, np.array(recorder.matrices[0]).reshape(-1, t.n), t.matrix):
                self.bad("wrong-decoder", f"{what}: {len(logs)} decoders were made, of {recorder.matrices}")
            samples, spoiled = logs[0], [x for x in logs[0] if x[1]]
        else:
            sectors = {}
            for log, matrix in zip(logs, recorder.matrices):
                if not log:
                    continue
                rows = np.array(matrix, dtype=int).reshape(-1, t.n)
                options = [p for p in "XZ" if same_rows(t.f, rows, self.info[p][0])]
                if not options:
                    self.bad("wrong-decoder", f"{what}: a decoder was made of {matrix}")
                if op["bias"] in ("X", "Z"):
                    if op["bias"] not in options:
                        self.bad("wrong-sample", f"{what}: the decoder of {matrix} was given errors")
                sectors.setdefault(tuple(options), []).append(log)
            found = [log for part in sectors.values() for log in part]
            if op["bias"] in ("X", "Z"):
                if len(found) > 1:
                    self.bad("wrong-sample", f"{what}: both decoders were given errors")
                samples = found[0] if found else []
                spoiled = [x for x in samples if x[1]]
            else:
                # the verdict depends on the support, which is the same for both types of errors
                found.sort(key=len)
                samples = found[-1] if found else []
                spoiled = [x for x in samples if x[1]]
                if len(found) != 2 and any(not x[1] for x in samples):
                    self.bad("wrong-sample", f"{what}: only one decoder was given errors")
                if len(found) == 2:
                    good = sorted(tuple(int(v != 0) for v in x[0]) for x in found[-1] if not x[1])
                    other = sorted(tuple(int(v != 0) for v in x[0]) for x in found[0] if not x[1])
                    if good != other:
                        self.bad("wrong-sample", f"{what}: the errors of one type are not where those of the other type are")
        if len(samples) < op["num"]:
            self.bad("few-samples", f"{what}: {len(samples)} errors were decoded")
        counts: dict = {}
        for error, _ in samples:
            counts.setdefault(weight(error), [0, 0])[0] += 1
        for error, _ in spoiled:
            counts[weight(error)][1] += 1
        if spoiled:
            self.result.probes["failures"] += len(spoiled)
        self.result.probes["samples"] += len(samples)
        top = max(counts)
        missing = [w for w in range(1, top + 1) if w not in counts]
        if missing:
            self.bad("missing-weight", f"{what}: errors of weights {missing} were not sampled, but those of weight {top}")
        self.uniform([e for e, _ in samples], what)
        return counts

    def uniform(self, errors, what):
        """Positions and values of errors are uniformly random."""
        t = self.truth
        expected = sum(sum(x != 0 for x in e) for e in errors) / t.n
        spread = math.sqrt(len(errors) * math.log(2 / TINY) / 2)
        for i in range(t.n):
            hits = sum(e[i] != 0 for e in errors)
            if abs(hits - expected) > spread:
                self.bad("biased-samples", f"{what}: bit {i} was in error {hits} times of {len(errors)}, instead of {expected:.0f}")
        if t.q > 2:
            values = [x for e in errors for x in e if x]
            spread = math.sqrt(len(values) * math.log(2 / TINY) / 2)
            for v in range(1, t.q):
                if abs(values.count(v) - len(values) / (t.q - 1)) > spread:
                    self.bad("biased-samples", f"{what}: {values.count(v)} of {len(values)} errors are {v}")

    def exact(self, counts, op, points, values, what):
        n = self.truth.n
        for p, (rate, error) in zip(points, values):
            want, variance = 1 - (1 - p) ** n, 0.0
            for w, (total, spoiled) in counts.items():
                q = math.comb(n, w) * p**w * (1 - p) ** (n - w)
                infidelity = spoiled / total
                want -= q * (1 - infidelity)
                variance += q * q * infidelity * (1 - infidelity) / total
            if abs(rate - want) > 1e-9:
                self.bad("wrong-rate", f"{what}: {rate} instead of {want} at {p}; samples and failures by weight {counts}")
            if abs(error - math.sqrt(variance)) > 1e-9:
                self.bad("wrong-error", f"{what}: +- {error} instead of {math.sqrt(variance)} at {p}; by weight {counts}")

    # -- comparisons with exact enumeration ------------------------------------------------------

    def spoils(self, pauli, matrix, op):
        """Whether each error of one type is decoded wrongly."""
        t = self.truth
        v = t.vectors(t.n)
        rows = t.f(np.asarray(matrix, dtype=int).reshape(-1, t.n))
        syndromes = np.asarray(v @ rows.T) if len(rows) else np.zeros((len(v), 0), dtype=int)
        if op["do"] == "coset":
            table = self.cosets(objs.mat(matrix), op["seed"])
        else:
            decoder = self.node.decoders.get_decoder_lookup(rows, max_weight=2)
            table = {tuple(map(int, s)): decoder.decode(s) for s in np.unique(syndromes, axis=0)}
        out = {}
        memo: dict = {}
        for e, s in zip(np.asarray(v), syndromes):
            rest = t.f(e) - t.f(np.asarray(table[tuple(map(int, s))], dtype=int))
            key = tuple(map(int, rest))
            if key not in memo:
                memo[key] = not self.harmless(pauli, np.asarray(rest))
            out[tuple(map(int, e))] = memo[key]
        return out

    def likely(self, op, points, values, what, tid):
        """The estimates are close to the rates that enumeration gives."""
        t, n = self.truth, self.truth.n
        weights: dict = {}  # weight: (probability of failure)
        if self.kind == "classical":
            spoiled = self.spoils(None, t.matrix, op)
            for w in range(1, n + 1):
                group = [f for e, f in spoiled.items() if sum(x != 0 for x in e) == w]
                weights[w] = sum(group) / len(group)
        else:
            # the decoders need the stabilizers in the code's own order
            P = self.node.objects.Pauli
            stabs = {p: np.asarray(self.code.get_stabilizer_ops(getattr(P, p), canonicalized=False), dtype=int) for p in "XZ"}
            half = lambda m, p: (m[:, : n] if p == "X" else m[:, n:]) if m.shape[1] == 2 * n else m
            bias = BIASES["Y"] if op["bias"] == "Y" else BIASES.get(op["bias"], op["bias"]) if isinstance(op["bias"], str) else op["bias"] or [1, 1, 1]
            bias = np.array(bias, dtype=float) / sum(bias)
            by_support: dict = {}
            for pauli, other in (("X", "Z"), ("Z", "X")):
                table = self.spoils(pauli, half(stabs[other], other), op)
                part: dict = {}
                for e, failed in table.items():
                    part.setdefault(tuple(int(x != 0) for x in e), []).append(failed)
                by_support[pauli] = {s: sum(v) / len(v) for s, v in part.items()}
            sums = {w: [0.0, 0.0] for w in range(n + 1)}
            for paulis in itertools.product(range(4), repeat=n):
                w = n - paulis.count(0)
                chance_of = float(np.prod([bias[x - 1] for x in paulis if x])) if w else 1.0
                if not chance_of:
                    continue
                x = by_support["X"][tuple(int(v in (1, 2)) for v in paulis)]
                z = by_support["Z"][tuple(int(v in (2, 3)) for v in paulis)]
                sums[w][0] += chance_of
                sums[w][1] += chance_of * (1 - (1 - x) * (1 - z))
            weights = {w: s[1] / s[0] for w, s in sums.items() if w and s[0]}
        allocation = self.allocation(op)
        for p, (rate, _) in zip(points, values):
            want, room = 0.0, 0.0
            for w in range(1, n + 1):
                q = math.comb(n, w) * p**w * (1 - p) ** (n - w)
                if w in allocation:
                    want += q * weights[w]
                    room += q * q / allocation[w]
                else:
                    want += q
            margin = math.sqrt(room * math.log(2 / TINY) / 2) + 1e-9
            if abs(rate - want) > margin:
                self.bad("wrong-rate", f"{what}: {rate} at {p}, but the decoder fails with probability {want} (+- {margin})")

    def allocation(self, op):
        """How many errors of each weight are sampled, from another estimate."""
        probe = dict(op, do="rate", spoil=0, manners="good", raise_after=None)
        args = {} if op["max"] is None else {"max_error_rate": op["max"]}
        if self.kind == "css":
            probe["bias"] = "Z"
            args["pauli_bias"] = BIASES["Z"]
        recorder = Recorder(self, probe)
        self.code.get_logical_error_rate_func(op["num"], decoder_constructor=recorder, **args)
        return {w: c[0] for w, c in self.read(recorder, probe, "allocation of samples").items()}

    # -- threads ---------------------------------------------------------------------------------

    def once(self, tid, n, op):
        if op["do"] == "ask":
            query = op["what"]
            if life.allowed(self.truth, query):
                value = life.answer(self.node, self.code, query)
                with sim.masked():
                    life.check_answer(self.truth, self.spec, query, value)
        elif op["do"] == "set":
            from dst.props.c11 import valid_basis

            with sim.masked():
                given = valid_basis(self.truth, self.kind, np.asarray(self.code.get_logical_ops()).astype(int), op["seed"])
            self.code.set_logical_ops(given)
        else:
            self.rate(tid, n, op)

    def body(self, tid, ops):
        for n, op in enumerate(ops):
            for _ in range(12):
                try:
                    self.once(tid, n, op)
                    break
                except (KeyboardInterrupt, MemoryError) as err:
                    if "simulated" not in str(err):
                        raise

    def finish(self):
        for function, points, values, what in self.kept:
            again = [self.evaluate(function, p) for p in points]
            if again != values:
                self.bad("other-answer", f"{what}: {again} later, {values} at first")
        for query in [["matrix"], ["dimension"]] + ([["logical", None]] if self.kind == "css" else [["generator"]]):
            life.check_answer(self.truth, self.spec, query, life.answer(self.node, self.code, query))


def values_of(op):
    bias = BIASES[op["bias"]] if isinstance(op["bias"], str) else op["bias"]
    return [x * op["scale"] for x in bias]


def same_rows(f, a, b):
    a, b = np.asarray(a, dtype=int), np.asarray(b, dtype=int)
    ra = objs.rank(f, a) if len(a) else 0
    rb = objs.rank(f, b) if len(b) else 0
    if ra != rb:
        return False
    return not ra or objs.rank(f, np.vstack([a, b])) == ra


def run(p, record=False):
    result = Result()
    w = world.World(result=result)
    w.truth = objs.truth()
    with w:
        node = sim.fresh("p", p["entropy"])
        random.seed(p["entropy"])
        np.random.seed(p["entropy"])
        session = Session(p, node, result, record)
        s = sim.Sim(p["actions"], budget=8_000_000, record=record)
        for tid, ops in enumerate(p["threads"]):
            s.spawn(lambda tid=tid, ops=ops: session.body(tid, ops), node)
        s.run()
        if not record:
            session.finish()
            result.note("answers", objs.sha(session.answers))
        result.steps = s.total
        result.faults.update(f"sched:{x}" for x in s.fired)
        for switch in s.switches:
            result.note("switch", *map(str, switch))
        for ops in p["threads"]:
            for op in ops:
                result.probes[op["do"]] += 1
        result.probes[f"code:{p['code'][0]}"] += 1
        estimates = sum(op["do"] in ("rate", "coset", "lookup") for ops in p["threads"] for op in ops)
        result.nontrivial = bool(s.fired) or bool(result.probes["failures"]) or estimates > 1
        result.interleaving = objs.sha([p["code"], p["threads"], [str(x) for x in s.switches]])
    return result, [t.trace for t in s.threads]


def execute(p):
    return run(p)[0]
