"""C11: bases of logical operators and code words stay valid, whoever sets, reduces, recomputes or inherits them."""

from __future__ import annotations

import copy
import json
import random

import numpy as np

from dst import life, objs, sim, world
from dst.core import Result, Violation

PROPERTY = "C11"
RUNS = {"quick": 1500, "thorough": 40000}
RULE = (
    "seeded plans: one code (classical, stabilizer, CSS, CSS subsystem over small fields), one thread that sets"
    " (validly and invalidly), reduces with decoders that fail, raise or reuse buffers, recomputes and derives codes,"
    " and up to two threads that read, with preemptions, interrupts and allocation failures; non-trivial = a change"
    " was made after a basis was read, an action fired or a decoder misbehaved; distinct by code, operations and schedule"
)
REAL = ["qldpc.codes.common", "qldpc.codes.quantum", "qldpc.math", "qldpc.decoders (dispatch, BP+OSD, union-find)", "galois, numpy, stim"]
STUB = ["thread scheduler", "misbehaving decoders (scripted)", "GAP and disk cache (unused)"]
ASSUMPTIONS = [
    "callers do not modify the arrays they give or are given",
    "one thread changes a code at a time (others may read it)",
    "a misbehaving decoder eventually returns a solution",
    "CSS codes are given operators of X type and Z type only",
]

BEHAVIOURS = ["zero", "garbage", "raise", "reuse", "good", "good", "heavy"]


def warm() -> None:
    world.install()
    sim.warm()


# ---------------------------------------------------------------------------------------------
# a decoder that misbehaves as scripted, and then solves
# ---------------------------------------------------------------------------------------------


class Scripted:
    """Solves syndromes by elimination, after misbehaving as its script says."""

    def __init__(self, script, seed, counts):
        self.script = list(script)
        self.rng = random.Random(seed)
        self.counts = counts
        self.buffer = None

    def __call__(self, matrix, **kwargs):
        owner = self

        class Decoder:
            def decode(self, syndrome):
                return owner.decode(matrix, syndrome)

        return Decoder()

    def decode(self, matrix, syndrome):
        with sim.masked():
            field = type(matrix)
            what = self.script.pop(0) if self.script else "good"
            if what != "good":
                self.counts[f"decoder:{what}"] += 1
            cols = matrix.shape[1]
            if self.buffer is not None:
                self.buffer[:] = 1  # a decoder may reuse the array it returned earlier
                self.buffer = None
            if what == "zero":
                return np.zeros(cols, dtype=int)
            if what == "garbage":
                return np.array([self.rng.randrange(field.order) for _ in range(cols)], dtype=int)
            if what == "raise":
                raise ValueError("decoder failed (simulated)")
            out = solve(field, matrix, syndrome)
            if out is None:
                return np.zeros(cols, dtype=int)
            if what == "heavy":
                for row in objs.null_space(field, np.asarray(matrix)):
                    out = out + row * field(self.rng.randrange(field.order))
            out = np.asarray(out).astype(int)
            if what == "reuse":
                self.buffer = out
            return out


def solve(field, matrix, syndrome):
    """Some solution of matrix @ x == syndrome."""
    aug = np.column_stack([np.asarray(matrix), np.asarray(syndrome)])
    reduced, pivots = objs.row_reduce(field, aug)
    cols = aug.shape[1] - 1
    if cols in pivots:
        return None
    out = field.Zeros(cols)
    for r, p in enumerate(pivots):
        out[p] = reduced[r, cols]
    return out


# ---------------------------------------------------------------------------------------------
# valid and invalid bases
# ---------------------------------------------------------------------------------------------


def inverse(f, m):
    n = len(m)
    reduced, _ = objs.row_reduce(f, np.hstack([np.asarray(m), np.eye(n, dtype=int)]))
    return reduced[:, n:]


def random_invertible(f, rng, k):
    while True:
        m = f([[rng.randrange(f.order) for _ in range(k)] for _ in range(k)])
        if objs.rank(f, m) == k:
            return m


def valid_basis(truth, kind, ops, seed):
    """Another symplectic basis of logical operators, from one."""
    rng = random.Random(seed)
    f, k, n = truth.f, truth.k, truth.n
    ops = f(np.asarray(ops, dtype=int))
    x, z = ops[:k], ops[k:]
    if kind == "css":
        a = random_invertible(f, rng, k)
        x, z = a @ x, inverse(f, a).T @ z
        centre = np.asarray(truth.centre)
        cx = [r for r in centre if not np.any(r[n:])]
        cz = [r for r in centre if not np.any(r[:n])]
        for rows, stabs in ((x, cx), (z, cz)):
            for i in range(k):
                for s in stabs:
                    rows[i] += f(s) * f(rng.randrange(f.order))
        return np.asarray(np.vstack([x, z])).astype(int)
    out = f(np.vstack([x, z]))
    for _ in range(rng.randint(0, 4)):  # symplectic transvections: v -> v + c <v,u> u
        u = f([rng.randrange(f.order) for _ in range(2 * k)])
        c = f(rng.randrange(f.order))
        vector = u @ out
        form = f(truth.products(vector, out))[0]  # <u, row>
        out = f(np.asarray(out + np.outer(np.asarray(form * c), np.ones(1, dtype=int)).view(f) @ vector.reshape(1, -1)))
    for i in range(2 * k):
        for s in np.asarray(truth.centre):
            out[i] += f(s) * f(rng.randrange(f.order))
    return np.asarray(out).astype(int)


BAD = ["swap", "short", "long", "check", "same-type", "scaled", "odd", "zero", "extra-zero"]


def invalid_basis(truth, ops, how, seed):
    """A basis that must be rejected, or None."""
    rng = random.Random(seed)
    f, k = truth.f, truth.k
    ops = f(np.asarray(ops, dtype=int).copy())
    if k == 0:
        return None
    if how == "swap":
        if k < 2:
            return None
        ops[[0, 1]] = ops[[1, 0]]
    elif how == "short":
        if k < 2:
            return None
        ops = ops[[i for i in range(2 * k) if i not in (0, k)]]
    elif how == "long":
        return np.asarray(np.vstack([ops, ops])).astype(int)
    elif how == "check":
        bad = [i for i in range(truth.cols) if np.any(truth.products(truth.matrix, np.eye(truth.cols, dtype=int)[i]))]
        if not bad:
            return None
        ops[rng.randrange(2 * k), rng.choice(bad)] += f(1)
    elif how == "same-type":
        if k < 2:
            return None
        if rng.random() < 0.5:
            ops[0] += ops[k + 1]
        else:
            ops[k] += ops[1]
    elif how == "scaled":
        if f.order == 2:
            return None
        ops[rng.randrange(2 * k)] *= f(2)
    elif how == "odd":
        ops = ops[:-1]
    elif how == "zero":
        ops[rng.randrange(2 * k)] = 0
    elif how == "extra-zero":
        ops = f(np.vstack([ops, f.Zeros((2, truth.cols))]))
    rows = np.asarray(ops).astype(int)
    if truth.logical_error(rows) is None:
        return None
    return rows


# ---------------------------------------------------------------------------------------------


def draw_ops(rng, kind, count):
    out = []
    for _ in range(count):
        s = rng.randrange(10**6)
        if kind == "classical":
            out.append(rng.choice([["set-generator", s], ["bad-generator", rng.choice(["rank", "syndrome", "dependent"]), s], ["read"], ["words"], ["derive", rng.choice(["dual", "stack", "puncture", "shorten", "copy"]), s]]))
            continue
        menu = [["set", s], ["set", s], ["bad", rng.choice(BAD), s], ["bad", rng.choice(BAD), s], ["recompute"], ["read"]]
        menu.append(["derive", rng.choice(["conjugated", "deformed", "preserved", "stack", "concatenate", "concatenate2", "copy", "qudit"]), s])
        if kind == "css":
            script = [rng.choice(BEHAVIOURS) for _ in range(rng.choice([0, 1, 2, 4]))]
            how = rng.choice(["script", "script", "script", "default", "guf", "bp", "ilp"])
            menu += [["reduce", rng.choice("XZ"), s, how, script]] * 2
            menu += [["reduce-all", rng.choice(["X", "Z", None]), s, how, script]]
            menu += [["bound", rng.choice(["X", "Z", None]), s, how, script]]
            menu += [["set-xz", s]]
        out.append(rng.choice(menu))
    return out


def draw_reads(rng, kind, count):
    if kind == "classical":
        return [rng.choice([["read"], ["words"], ["word"]]) for _ in range(count)]
    menu = [["read"], ["read"], ["read", "X"], ["read", "Z"], ["gauge"], ["standard"]]
    if kind == "css":
        menu += [["random", "X"], ["random", "Z"]]
    return [rng.choice(menu) for _ in range(count)]


def plan(rng, tier):
    while True:
        spec = rng.choice([life.draw_classical, life.draw_css, life.draw_css, life.draw_css, life.draw_qudit, life.draw_qudit])(rng)
        out = {"code": spec, "threads": [], "entropy": rng.randrange(100), "actions": [], "_keep": ["code"]}
        w = world.World()
        w.truth = objs.truth()
        with w:
            node = sim.fresh("plan", out["entropy"])
            code = life.build(node, spec)
            kind = life.family(node, code)
            truth = life.truth_of(spec, code, kind)
        if truth.k or rng.random() < 0.1:
            break
    out["threads"].append(draw_ops(rng, kind, rng.choice([2, 4, 8])))
    for _ in range(rng.choice([0, 0, 1, 2])):
        out["threads"].append(draw_reads(rng, kind, rng.choice([3, 6])))
    try:
        traces = run(out, True)[1]
    except Exception:
        return out
    threads = len(out["threads"])
    kinds = ["switch"] * 4 if threads > 1 else []
    kinds += ["interrupt"] if rng.random() < 0.6 or threads == 1 else []
    kinds += ["memory"] if rng.random() < 0.3 else []
    out["actions"] = sim.choose_actions(rng, traces, rng.choice([0, 1, 2, 4, 8]), kinds, bias=lambda s: "common.py" in s)
    return out


class Session:
    def __init__(self, p, w, node, result):
        self.p, self.w, self.node, self.result = p, w, node, result
        self.spec = p["code"]
        self.code = life.build(node, self.spec)
        self.kind = life.family(node, self.code)
        self.truth = life.truth_of(self.spec, self.code, self.kind)
        self.handed: list = []  # arrays given out or taken in, and what they contained

    def bad(self, kind, text):
        raise Violation(kind, f"{json.dumps(self.spec)[:300]}: {text}")

    def hold(self, what, array):
        self.handed.append((what, array, np.asarray(array).astype(int).copy()))
        return array

    def check_basis(self, ops, when, truth=None):
        truth = truth or self.truth
        error = truth.logical_error(np.asarray(ops).astype(int).reshape(-1, truth.cols))
        if error:
            self.bad("invalid-basis", f"{when}, the logical operators are not valid: {error}")

    def check_generator(self, rows, when):
        t = self.truth
        rows = np.asarray(rows).astype(int).reshape(-1, t.cols)
        if len(rows) != t.k or objs.rank(t.f, rows) != t.k or (t.k and np.any(np.asarray(t.f(t.matrix) @ t.f(rows).T))):
            self.bad("invalid-basis", f"{when}, the generator is not a basis of the code words")

    def pauli(self, name):
        return None if name is None else getattr(self.node.objects.Pauli, name)

    def current(self, when):
        """What the code says its basis is; always valid."""
        with sim.masked():
            if self.kind == "classical":
                rows = self.code.generator
                self.check_generator(rows, when)
            else:
                rows = self.code.get_logical_ops()
                self.check_basis(rows, when)
            return np.asarray(rows).astype(int).copy()

    def args(self, op):
        how, script, s = op[3], op[4], op[2]
        if how == "script" or self.truth.q > 2:
            return {"decoder_constructor": Scripted(script, s, self.result.faults)}
        return {"default": {}, "guf": {"with_GUF": True}, "bp": {"with_BP_OSD": True}, "ilp": {"with_ILP": True} if self.truth.n <= 6 else {}}[how]

    # -- operations --------------------------------------------------------------------------

    def change(self, n, op):
        """One operation of the thread that changes the code."""
        code, truth = self.code, self.truth
        kind = op[0]
        before = self.current(f"before operation {n} {op[:2]}")
        if kind == "set-generator":
            given = np.asarray(random_invertible(truth.f, random.Random(op[1]), truth.k) @ truth.f(before)).astype(int) if truth.k else before
            self.hold("a given generator", given)
            try:
                code.set_generator(given if op[1] % 2 else given.tolist())
            except ValueError as err:
                self.bad("rejected", f"operation {n}: a valid generator was rejected: {err}") if truth.k else None
                return
            if not np.array_equal(self.current(f"after operation {n} {op[:1]}"), given):
                self.bad("wrong-basis", f"operation {n}: the code has another generator than the one just set")
        elif kind == "bad-generator":
            given = before.copy()
            if op[1] == "rank":
                given = given[:-1]
            elif op[1] == "dependent":
                given = np.vstack([given, given[:1]])
            else:
                outside = next((v for v in np.eye(truth.n, dtype=int) if np.any(np.asarray(truth.f(truth.matrix) @ truth.f(v)))), None)
                if outside is None:
                    return
                given = np.vstack([given, outside])
            if not len(given) or not truth.k:
                return
            self.expect_rejection(n, op, lambda: code.set_generator(given), before)
        elif kind in ("set", "set-xz"):
            if not truth.k:
                return
            with sim.masked():
                given = valid_basis(truth, self.kind, before, op[1])
                assert truth.logical_error(given) is None, "harness: the drawn basis is invalid"
            self.hold("a given basis", given)
            if kind == "set":
                arg = [lambda: given, lambda: given.tolist(), lambda: truth.f(given)][op[1] % 3]()
                code.set_logical_ops(arg)
            else:
                code.set_logical_ops_xz(given[: truth.k, : truth.n], given[truth.k :, truth.n :])
            if not np.array_equal(self.current(f"after operation {n} {op[:1]}"), given):
                self.bad("wrong-basis", f"operation {n}: the code has other logical operators than those just set")
        elif kind == "bad":
            with sim.masked():
                given = invalid_basis(truth, before, op[1], op[2])
                if given is None or (self.kind == "css" and op[1] == "same-type"):
                    return
            self.expect_rejection(n, op, lambda: code.set_logical_ops(given if op[2] % 2 else given.tolist()), before)
        elif kind == "recompute":
            self.hold("a recomputed basis", code.get_logical_ops(recompute=True))
        elif kind in ("reduce", "reduce-all"):
            if not truth.k:
                return
            try:
                if kind == "reduce":
                    code.reduce_logical_op(self.pauli(op[1]), op[2] % truth.k, **self.args(op))
                else:
                    code.reduce_logical_ops(self.pauli(op[1]), **self.args(op))
            except ValueError as err:
                if "decoder failed (simulated)" not in str(err):
                    raise
            after = self.current(f"after operation {n} {op[:3]}")
            changed = [i for i in range(2 * truth.k) if not np.array_equal(before[i], after[i])]
            if kind == "reduce":
                allowed = {op[2] % truth.k + (truth.k if op[1] == "Z" else 0)}
            else:
                allowed = {i for i in range(2 * truth.k) if op[1] is None or (i >= truth.k) == (op[1] == "Z")}
            if not set(changed) <= allowed:
                self.bad("wrong-basis", f"operation {n} {op[:3]} changed operators {changed}")
        elif kind == "bound":
            if not truth.k:
                return
            state = random.getstate(), np.random.get_state()
            try:
                value = code.get_distance_bound(1, self.pauli(op[1]), **self.args(op))
            except ValueError as err:
                if "decoder failed (simulated)" not in str(err):
                    raise
            else:
                with sim.masked():
                    want = truth.distance(op[1])
                if want is not None and want != "nan" and value < want:
                    self.bad("impossible-bound", f"operation {n}: {value} is given as an upper bound of the distance {want}")
            finally:
                random.setstate(state[0])
                np.random.set_state(state[1])
        elif kind in ("read", "words", "word"):
            self.read(0, n, op)
        elif kind == "derive":
            self.derive(n, op[1], op[2])
            if not np.array_equal(self.current(f"after operation {n} {op[:2]}"), before):
                self.bad("wrong-basis", f"operation {n}: making another code ({op[1]}) changed the basis of the given one")

    def expect_rejection(self, n, op, call, before):
        try:
            call()
        except ValueError:
            pass
        else:
            self.bad("accepted", f"operation {n}: an invalid basis ({op[1]}) was accepted")
        if not np.array_equal(self.current(f"after rejected operation {n}"), before):
            self.bad("wrong-basis", f"operation {n}: the code has another basis after an invalid one was rejected")

    def derive(self, n, how, s):
        """Make another code from this one, which takes its operators along."""
        code, C, truth, rng = self.code, self.node.codes, self.truth, random.Random(s)
        if self.kind == "classical":
            other = {
                "dual": lambda: ~code,
                "stack": lambda: C.ClassicalCode.stack(code, code),
                "puncture": lambda: code.puncture(s % truth.n) if truth.n > 1 else code,
                "shorten": lambda: code.shorten(s % truth.n) if truth.n > 1 else code,
                "copy": lambda: copy.deepcopy(code) if s % 2 else C.ClassicalCode(code),
            }[how]()
            with sim.masked():
                t = life.Truth(other.matrix, truth.q, "classical")
                rows = np.asarray(other.generator).astype(int).reshape(-1, t.cols)
                if len(rows) != t.k or objs.rank(t.f, rows) != t.k or (t.k and np.any(np.asarray(t.f(t.matrix) @ t.f(rows).T))):
                    self.bad("invalid-basis", f"operation {n}: the generator of the code made by {how} is not valid")
            return
        if how == "conjugated":
            qudits = sorted(rng.sample(range(truth.n), rng.randint(0, truth.n)))
            other = code.conjugated(qudits)
        elif how in ("deformed", "preserved"):
            if truth.q != 2:
                return
            gates = [rng.choice(["H", "S", "X", "SQRT_X"]) + f" {rng.randrange(truth.n)}" for _ in range(rng.randint(0, 3))]
            if truth.n > 1 and rng.random() < 0.6:
                gates.append(rng.choice(["CX", "CZ", "SWAP"]) + " {} {}".format(*rng.sample(range(truth.n), 2)))
            try:
                other = code.deformed("\n".join(gates), preserve_logicals=how == "preserved")
            except ValueError as err:
                if how == "preserved" and "ogical operators" in str(err):
                    return
                raise
        elif how == "stack":
            other = type(code).stack(code, code) if s % 2 else self.family_class().stack(code, code)
        elif how in ("concatenate", "concatenate2"):
            if truth.q != 2 or not truth.k or truth.n > 8 or truth.k > 3:
                return
            with sim.masked():
                partner = C.C4Code() if how == "concatenate" else C.IcebergCode(2)
            inner, outer = (code, partner) if s % 2 else (partner, code)
            if len(outer) * inner.dimension * len(inner) > 96:
                return
            other = self.family_class().concatenate(inner, outer)
        elif how == "copy":
            other = copy.deepcopy(code) if s % 2 else copy.copy(code)
        elif how == "qudit":
            other = C.QuditCode(code)
        else:
            return
        with sim.masked():
            t = life.Truth(other.matrix, truth.q, self.kind if isinstance(other, C.CSSCode) else "qudit")
            if not isinstance(other, C.CSSCode) and t.gauge_k and other._logical_ops is None:
                return  # see DESIGN.md: logical operators of non-CSS subsystem codes
            self.check_basis(other.get_logical_ops(), f"operation {n}: in the code made by {how}", t)

    def family_class(self):
        C = self.node.codes
        return C.CSSCode if self.kind == "css" else C.QuditCode

    def read(self, tid, n, op):
        code, truth = self.code, self.truth
        what = f"in thread {tid}, reading {n}"
        if self.kind == "classical":
            if op[0] == "read":
                rows = self.hold("a generator", code.generator)
                with sim.masked():
                    self.check_generator(rows, what)
            elif truth.q**truth.k <= 64 and op[0] == "words":
                words = [tuple(np.asarray(w).tolist()) for w in code.iter_words()]
                with sim.masked():
                    if set(words) != {tuple(w) for w in truth.words().tolist()} or len(words) != len(set(words)):
                        self.bad("invalid-basis", f"{what}: not exactly the words of the code were listed")
            else:
                word = code.get_random_word(seed=n)
                with sim.masked():
                    if np.any(np.asarray(truth.f(truth.matrix) @ truth.f(np.asarray(word)))):
                        self.bad("invalid-basis", f"{what}: a random word violates a parity check")
            return
        if op[0] == "read":
            pauli = op[1] if len(op) > 1 else None
            ops = code.get_logical_ops(self.pauli(pauli))
            self.hold("logical operators", ops)
            with sim.masked():
                if pauli is None:
                    self.check_basis(ops, what)
                else:
                    life.check_answer(truth, self.spec, ["logical", pauli], objs.mat(ops))
        elif op[0] == "gauge":
            ops = self.hold("gauge operators", code.get_gauge_ops())
            with sim.masked():
                life.check_answer(truth, self.spec, ["gauge", None], objs.mat(ops))
        elif op[0] == "standard":
            value = life.answer(self.node, code, ["standard"])
            with sim.masked():
                life.check_answer(truth, self.spec, ["standard"], value)
        elif op[0] == "random" and truth.k:
            value = life.answer(self.node, code, ["logical-op", op[1], n])
            with sim.masked():
                life.check_answer(truth, self.spec, ["logical-op", op[1]], value)

    def body(self, tid, ops):
        for n, op in enumerate(ops):
            for _ in range(12):
                try:
                    self.change(n, op) if tid == 0 else self.read(tid, n, op)
                    break
                except (KeyboardInterrupt, MemoryError) as err:
                    if "simulated" not in str(err):
                        raise
                    if tid == 0:
                        with sim.masked():
                            self.current(f"after operation {n} {op[:2]} was interrupted")

    def finish(self):
        self.current("at the end")
        for what, array, content in self.handed:
            if not np.array_equal(np.asarray(array).astype(int), content):
                self.bad("changed-array", f"{what} changed in the hands of the caller")
        life.check_answer(self.truth, self.spec, ["matrix"], objs.mat(self.code.matrix))
        for query in [["dimension"], ["rank"], ["distance"], *([["stabilizer", None, True]] if self.kind != "classical" else [])]:
            if life.allowed(self.truth, query):
                life.check_answer(self.truth, self.spec, query, life.answer(self.node, self.code, query))


def run(p, record=False):
    result = Result()
    w = world.World(result=result)
    w.truth = objs.truth()
    with w:
        node = sim.fresh("p", p["entropy"])
        random.seed(p["entropy"])
        np.random.seed(p["entropy"])
        session = Session(p, w, node, result)
        s = sim.Sim(p["actions"], budget=8_000_000, record=record)
        for tid, ops in enumerate(p["threads"]):
            s.spawn(lambda tid=tid, ops=ops: session.body(tid, ops), node)
        s.run()
        if not record:
            session.finish()
            result.note("basis", objs.sha(session.current("at the end").tolist()))
        result.steps = s.total
        result.faults.update(f"sched:{x}" for x in s.fired)
        for switch in s.switches:
            result.note("switch", *map(str, switch))
        for op in p["threads"][0]:
            result.probes[op[0]] += 1
        result.probes[f"code:{p['code'][0]}"] += 1
        result.nontrivial = bool(s.fired) or len(p["threads"][0]) > 1
        result.interleaving = objs.sha([p["code"], p["threads"], [str(x) for x in s.switches]])
    return result, [t.trace for t in s.threads]


def execute(p):
    return run(p)[0]
