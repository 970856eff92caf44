"""C12: making codes from codes gives what the operation denotes, and changes nothing that it was given."""

from __future__ import annotations

import copy
import json
import pickle
import random

import galois
import networkx as nx
import numpy as np
import stim

from dst import life, objs, sim, world
from dst.core import Result, Violation
from dst.props.c11 import valid_basis

PROPERTY = "C12"
RUNS = {"quick": 1300, "thorough": 40000}
RULE = (
    "seeded plans: two to four codes over one small field, graphs, maps and circuits, of which one to three threads make"
    " further codes and codes of those (duals, stacks, tensor products, concatenations, conjugations, deformations,"
    " hypergraph products, Tanner codes, copies, ...), change some of their own, and ask about others, with preemptions,"
    " interrupts and allocation failures; non-trivial = a code was made from codes that others use or that were asked"
    " before, or an action fired; distinct by codes, operations and schedule"
)
REAL = ["qldpc.codes", "qldpc.math", "qldpc.abstract (group rings)", "galois, numpy, networkx, stim, pickle, copy"]
STUB = ["thread scheduler", "GAP and disk cache (unused)"]
ASSUMPTIONS = [
    "callers do not modify the arrays they give or are given",
    "a code is changed only by the thread that made it, and the codes given to all threads by none",
]

SIZE = 14  # members larger than this are not parents of further codes


def warm() -> None:
    world.install()
    sim.warm()


# ---------------------------------------------------------------------------------------------
# plans
# ---------------------------------------------------------------------------------------------

CLASSICAL = ["dual", "stack", "stack", "puncture", "shorten", "tensor", "copy", "deepcopy", "pickle", "class", "regen", "tanner", "hgp", "hgp", "shp", "css", "canonical"]
QUANTUM = ["conjugated", "deformed", "preserved", "stack", "stack", "stack-plain", "concatenate", "concatenate", "concatenate", "concatenate-map", "copy", "deepcopy", "pickle", "qudit", "css-parts", "canonical", "dual-subsystem", "conjugated-default"]
CHANGES = ["set", "recompute", "reduce"]


def plan(rng, tier):
    out = {"codes": [], "asked": [], "threads": [], "entropy": rng.randrange(100), "actions": [], "_keep": ["codes", "asked"]}
    w = world.World()
    w.truth = objs.truth()
    want_q = rng.choice([2, 2, 2, 3, 4])
    with w:
        node = sim.fresh("plan", out["entropy"])
        count = rng.choice([2, 3, 4])
        for _ in range(60):
            if len(out["codes"]) == count:
                break
            spec = rng.choice([lambda r: life.draw_classical(r, True), lambda r: life.draw_classical(r, True), life.draw_css, life.draw_css, life.draw_qudit])(rng)
            code = life.build(node, spec)
            if code.field.order == want_q and len(code) <= SIZE:
                out["codes"].append(spec)
    if not out["codes"]:
        out["codes"] = [["c4"], ["repetition", 3, None]]
    out["asked"] = [rng.random() < 0.6 for _ in out["codes"]]
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([3, 6, 9])):
            kind = rng.random()
            s = rng.randrange(10**6)
            if kind < 0.72:
                ops.append(["make", rng.choice(CLASSICAL + QUANTUM), s, rng.randrange(100), rng.randrange(100), rng.random() < 0.5])
            elif kind < 0.87:
                ops.append(["change", rng.choice(CHANGES), s, rng.randrange(100)])
            else:
                ops.append(["ask", s, rng.randrange(100)])
        out["threads"].append(ops)
    try:
        traces = run(out, True)[1]
    except Exception:
        return out
    kinds = ["switch"] * 4 if len(out["threads"]) > 1 else []
    kinds += ["interrupt"] if rng.random() < 0.6 or len(out["threads"]) == 1 else []
    kinds += ["memory"] if rng.random() < 0.3 else []
    out["actions"] = sim.choose_actions(rng, traces, rng.choice([0, 1, 2, 4, 8]), kinds, bias=lambda s: "codes/" in s)
    return out


# ---------------------------------------------------------------------------------------------


class Member:
    """A code, how it was made, and what is known about it."""

    def __init__(self, code, how, kind, truth, asked=False):
        self.code, self.how, self.kind, self.truth = code, how, kind, truth
        self.matrix_array = code.matrix
        self.matrix = objs.mat(code.matrix)
        self.basis = None  # the basis it is known to have
        self.basis_array = None
        self.group = None

    def read_basis(self):
        if self.kind == "classical":
            return self.code.generator
        return self.code.get_logical_ops()

    def learn(self):
        self.basis_array = self.read_basis()
        self.basis = objs.mat(self.basis_array)


def readable(member, codes):
    """Whether logical operators can be asked for (see DESIGN.md on non-CSS subsystem codes)."""
    return member.kind != "qudit" or not member.truth.gauge_k


class Session:
    def __init__(self, p, node, result):
        self.p, self.node, self.result = p, node, result
        self.C = node.codes
        self.base = []
        for spec, asked in zip(p["codes"], p["asked"]):
            code = life.build(node, spec)
            member = self.member(code, spec)
            if asked and readable(member, self.C):
                member.learn()
            self.base.append(member)
        self.made: list[list] = [[] for _ in p["threads"]]
        self.reused = False

    def bad(self, kind, text):
        raise Violation(kind, text)

    def member(self, code, how, group=None):
        kind = life.family(self.node, code)
        truth = life.Truth(code.matrix, code.field.order, kind)
        return Member(code, how, kind, truth)

    # -- nothing changes -----------------------------------------------------------------------

    def check_unchanged(self, tid, when):
        for member in self.base + self.made[tid]:
            if objs.mat(member.code.matrix) != member.matrix or objs.mat(member.matrix_array) != member.matrix:
                self.bad("changed-code", f"{when}: the checks of {name(member)} changed")
            if member.basis is not None:
                if objs.mat(member.basis_array) != member.basis:
                    self.bad("changed-code", f"{when}: an array handed out by {name(member)} changed")
                if objs.mat(member.read_basis()) != member.basis:
                    self.bad("changed-code", f"{when}: {name(member)} has another basis than before")

    def pick(self, tid, index, want=None, size=SIZE):
        """A code that thread `tid` knows of."""
        found = [m for m in self.base + self.made[tid] if (want is None or want(m)) and m.truth.n <= size]
        if not found:
            return None
        return found[index % len(found)]

    # -- making codes ---------------------------------------------------------------------------

    def make(self, tid, n, op):
        _, how, s, i, j, flag = op
        rng = random.Random(s)
        C = self.C
        classical = lambda m: m.kind == "classical"
        quantum = lambda m: m.kind != "classical"
        css = lambda m: m.kind == "css"
        with sim.masked():
            if how in ("stack", "copy", "deepcopy", "pickle", "canonical"):
                a = self.pick(tid, i)
                b = self.pick(tid, j, lambda m: (m.kind == "classical") == (a.kind == "classical"))
            elif how in CLASSICAL:
                a, b = self.pick(tid, i, classical, 9), self.pick(tid, j, classical, 9)
            else:
                a, b = self.pick(tid, i, quantum), self.pick(tid, j, quantum)
        if a is None or b is None:
            return
        for m in (a, b):
            self.reused |= m.basis is not None or len(self.p["threads"]) > 1
        f, q = a.truth.f, a.truth.q
        code = want = None  # the new code, and rows that must span the same checks
        words = None  # or: rows that must span its words
        inputs = []  # other things given, and what they were
        A, B = np.asarray(a.matrix, dtype=int).reshape(-1, a.truth.cols), np.asarray(b.matrix, dtype=int).reshape(-1, b.truth.cols)
        na, nb = a.truth.n, b.truth.n
        exact = None
        if how == "dual":
            code, words = ~a.code if flag else a.code.dual(), A
        elif how == "stack" and a.kind == "classical":
            code = C.ClassicalCode.stack(a.code, b.code, *([a.code] if flag else []))
            want = block(A, B, *([A] if flag else []))
        elif how in ("puncture", "shorten"):
            bits = sorted(rng.sample(range(na), rng.randint(0, min(3, na - 1)))) if na > 1 else []
            if not a.truth.q**a.truth.k <= 4096:
                return
            code = getattr(a.code, how)(*bits)
            w = a.truth.words()
            w = w[~np.any(w[:, bits], axis=1)] if how == "shorten" else w
            words = np.delete(w, bits, axis=1)
        elif how == "tensor":
            if na * nb > 60:
                return
            code = C.ClassicalCode.tensor_product(a.code, b.code)
            words = kron(f, a.truth.kernel, b.truth.kernel)
        elif how in ("copy", "deepcopy", "pickle", "class", "qudit"):
            if how == "copy":
                code = copy.copy(a.code)
            elif how == "deepcopy":
                code = copy.deepcopy(a.code)
            elif how == "pickle":
                if not picklable(a):
                    return
                code = pickle.loads(pickle.dumps(a.code))
            elif how == "class":
                code = C.ClassicalCode(a.code)
            else:
                code = C.QuditCode(a.code)
            exact = A
        elif how == "canonical":
            code, want = a.code.canonicalized, A
        elif how == "regen":
            if not a.truth.k:
                return
            code = C.ClassicalCode.from_generator(a.code.generator)
            words = a.truth.kernel
        elif how == "tanner":
            graph = draw_graph(rng, na)
            if graph is None:
                return
            before = graph_state(graph)
            code = C.TannerCode(graph, a.code)
            inputs.append(("the given graph", lambda: graph_state(graph), before))
            if graph.is_directed():
                exact = tanner_checks(graph, A)
        elif how in ("hgp", "shp"):
            ma, mb = len(A), len(B)
            if na * nb + ma * mb > 45:
                return
            if how == "hgp":
                code = C.HGPCode(a.code, b.code, set_logicals=flag)
                x = np.hstack([np.kron(A, np.eye(nb, dtype=int)), np.kron(np.eye(ma, dtype=int), B.T)])
                z = np.hstack([np.asarray(-f(np.kron(np.eye(na, dtype=int), B))), np.kron(A.T, np.eye(mb, dtype=int))])
            else:
                code = C.SHPCode(a.code, b.code, set_logicals=flag)
                x, z = np.kron(A, np.eye(nb, dtype=int)), np.kron(np.eye(na, dtype=int), B)
            exact = block2(x, z)
        elif how == "css":
            if na != nb:
                return
            code = C.CSSCode(a.code, b.code)
            exact = block2(A, B)
        elif how == "conjugated" or how == "conjugated-default":
            if how == "conjugated":
                qudits = sorted(rng.sample(range(na), rng.randint(0, na)))
                given = qudits if flag else np.array(qudits, dtype=int)
                code = a.code.conjugated(given)
                inputs.append(("the given qudits", lambda: list(map(int, given)), list(qudits)))
            else:
                code = a.code.conjugated()
                default = getattr(a.code, "_default_conjugate", ())
                qudits = list(range(na))[default] if isinstance(default, slice) else list(default)
            exact = A.copy()
            for qudit in qudits:
                exact[:, qudit], exact[:, na + qudit] = np.asarray(-f(A[:, na + qudit])), A[:, qudit]
        elif how in ("deformed", "preserved"):
            if q != 2 or not readable(a, C) and how == "preserved":
                return
            gates = [rng.choice(["H", "S", "X", "SQRT_X"]) + f" {rng.randrange(na)}" for _ in range(rng.randint(0, 3))]
            if na > 1 and rng.random() < 0.6:
                gates.append(rng.choice(["CX", "CZ", "SWAP"]) + " {} {}".format(*rng.sample(range(na), 2)))
            given = stim.Circuit("\n".join(gates))
            try:
                code = a.code.deformed(given if flag else "\n".join(gates), preserve_logicals=how == "preserved")
            except ValueError as err:
                if how == "preserved" and "ogical operators" in str(err):
                    return
                raise
            inputs.append(("the given circuit", lambda: given, stim.Circuit("\n".join(gates))))
            exact = deform(A, gates)
        elif how in ("stack", "stack-plain"):
            if na + nb > 24:
                return
            cls = C.CSSCode if css(a) and css(b) and flag else C.QuditCode
            inherit = how == "stack"
            if inherit and not (readable(a, C) and readable(b, C)) or inherit and cls is C.QuditCode and (a.truth.gauge_k or b.truth.gauge_k):
                return
            code = cls.stack(a.code, b.code, inherit_logicals=inherit)
            want = np.hstack([block(A[:, :na], B[:, :nb]), block(A[:, na:], B[:, nb:])])
        elif how in ("concatenate", "concatenate-map"):
            inner, outer = a, b
            if not (readable(inner, C) and readable(outer, C)) or not inner.truth.k:
                return
            k, m = inner.truth.k, outer.truth.n
            middle = m * k
            mapping = None
            if how == "concatenate-map":
                middle = int(np.lcm(m, k)) * rng.choice([1, 1, 2])
                order = rng.sample(range(middle), middle)
                mapping = order if flag else dict(zip(rng.sample(range(middle), middle), order))
            if middle // k * inner.truth.n > 40:
                return
            cls = C.CSSCode if css(a) and css(b) and (flag or rng.random() < 0.7) else C.QuditCode
            if cls is C.QuditCode and (a.truth.gauge_k or b.truth.gauge_k):
                return
            before = copy.deepcopy(mapping)
            inherit = rng.random() < 0.8
            # the result refers to the logical operators that the inner code has
            with sim.masked():
                if inner.basis is None:
                    inner.learn()
            code = cls.concatenate(inner.code, outer.code, mapping, inherit_logicals=inherit)
            inputs.append(("the given map", lambda: mapping, before))
            order = [mapping[x] for x in range(middle)] if mapping is not None else np.arange(middle).reshape(m, k).T.ravel().tolist()
            want = concatenated(f, inner, outer, middle, order)
        elif how == "css-parts":
            if not css(a):
                return
            code = C.CSSCode(a.code.code_x, a.code.code_z, is_subsystem_code=a.code.is_subsystem_code)
            exact = A
        elif how == "dual-subsystem":
            if not css(a) or not a.truth.gauge_k:
                return
            code = a.code.get_dual_subsystem_code()
        if code is None:
            return
        with sim.masked():
            what = f"thread {tid} operation {n} ({how} of {name(a)} and {name(b)})"
            for label, now, before in inputs:
                if now() != before:
                    self.bad("changed-input", f"{what}: {label} changed from {before} to {now()}")
            new = self.member(code, [how, a.how, b.how] if len(json.dumps([a.how, b.how])) < 300 else [how, "..."])
            got = np.asarray(new.matrix, dtype=int).reshape(-1, new.truth.cols)
            if code.field is not a.code.field:
                self.bad("wrong-code", f"{what}: a code over another field")
            if exact is not None and (got.shape != exact.shape or not np.array_equal(got, exact)):
                self.bad("wrong-code", f"{what}: checks {got.tolist()} instead of {exact.tolist()}")
            if want is not None and (got.shape[1] != want.shape[1] or not same_span(f, got, want)):
                self.bad("wrong-code", f"{what}: checks {got.tolist()} do not generate the same as {want.tolist()}")
            if words is not None:
                words = np.asarray(words, dtype=int)
                if got.shape[1] != words.shape[1] or np.any(np.asarray(f(got) @ f(words).T)) or new.truth.k != objs.rank(f, words):
                    self.bad("wrong-code", f"{what}: other words than those of rows {words.tolist()}")
            if how == "dual-subsystem":
                if new.truth.n != na or not same_span(f, new.truth.centre, a.truth.centre) or new.truth.k != a.truth.gauge_k:
                    self.bad("wrong-code", f"{what}: not the code with gauge and logical qudits exchanged")
            if flag and readable(new, C):
                new.learn()
                self.check_basis(new, what)
            self.made[tid].append(new)

    def check_basis(self, member, when):
        rows = np.asarray(member.read_basis()).astype(int).reshape(-1, member.truth.cols)
        t = member.truth
        if member.kind == "classical":
            if len(rows) < t.k or objs.rank(t.f, rows) != t.k or (t.k and np.any(np.asarray(t.f(t.matrix) @ t.f(rows).T))):
                self.bad("invalid-basis", f"{when}: the generator of {name(member)} is not a basis of its words")
        else:
            error = t.logical_error(rows)
            if error:
                self.bad("invalid-basis", f"{when}: the logical operators of {name(member)} are not valid: {error}")

    def change(self, tid, n, op):
        """Change a code that this thread made."""
        _, how, s, i = op
        with sim.masked():
            # (a code remembers its canonical code, so that one has several owners)
            own = [m for m in self.made[tid] if readable(m, self.C) and m.truth.n <= SIZE and m.how[0] != "canonical"]
            everyone = self.base + [m for made in self.made for m in made]
            own = [m for m in own if all(o is m or o.code is not m.code for o in everyone)]
            if not own:
                return
            member = own[i % len(own)]
            if not member.truth.k:
                return
            basis = np.asarray(member.read_basis()).astype(int)
            rng = random.Random(s)
            t = member.truth
            if member.kind == "classical":
                from dst.props.c11 import random_invertible

                given = np.asarray(random_invertible(t.f, rng, t.k) @ t.f(objs.row_reduce(t.f, basis)[0])).astype(int)
            else:
                given = valid_basis(t, member.kind, basis, s)
            # bases may be shared with copies and codes made from it: only this one may change
            member.basis = None
        if member.kind == "classical":
            member.code.set_generator(given)
            with sim.masked():
                member.learn()
                if member.basis != objs.mat(given):
                    self.bad("wrong-basis", f"{name(member)} has another generator than the one just set")
            return
        if how == "recompute":
            member.code.get_logical_ops(recompute=True)
        elif how == "reduce" and member.kind == "css":
            pauli = rng.choice([self.node.objects.Pauli.X, self.node.objects.Pauli.Z])
            member.code.reduce_logical_op(pauli, rng.randrange(t.k), **({"with_ILP": True} if t.q == 2 and t.n <= 8 and rng.random() < 0.2 else {}))
        else:
            member.code.set_logical_ops(given)
        with sim.masked():
            member.learn()
            self.check_basis(member, "after changing it")

    def ask(self, tid, op):
        member = self.pick(tid, op[2])
        queries = cheap(member)
        query = queries[op[1] % len(queries)]
        value = life.answer(self.node, member.code, query)
        with sim.masked():
            life.check_answer(member.truth, member.how, query, value)

    def body(self, tid, ops):
        for n, op in enumerate(ops):
            for _ in range(12):
                try:
                    if op[0] == "make":
                        self.make(tid, n, op)
                    elif op[0] == "change":
                        self.change(tid, n, op)
                    else:
                        self.ask(tid, op)
                    break
                except (KeyboardInterrupt, MemoryError) as err:
                    if "simulated" not in str(err):
                        raise
                    with sim.masked():
                        self.check_unchanged(tid, f"thread {tid}, after operation {n} {op[:2]} was interrupted")
            with sim.masked():
                self.check_unchanged(tid, f"thread {tid}, after operation {n} {op[:2]}")

    def finish(self):
        for tid in range(len(self.made)):
            self.check_unchanged(tid, "at the end")
        members = list(self.base)
        for made in self.made:
            members += made
        for member in members:
            for query in cheap(member):
                life.check_answer(member.truth, member.how, query, life.answer(self.node, member.code, query))
            if readable(member, self.C) and member.truth.n <= 24:
                self.check_basis(member, "at the end")
        # the codes given to all threads are like untouched ones
        for member in self.base:
            twin = life.build(self.node, member.how)
            if objs.mat(twin.matrix) != member.matrix or not (twin == member.code) or str(twin) != str(member.code):
                self.bad("changed-code", f"{name(member)} is not like a new code any more")


def cheap(member):
    out = [["dimension"], ["rank"], ["canonicalized"], ["size"]]
    t = member.truth
    if t.n <= SIZE:
        if len(t.matrix):
            out += [["twin"], ["weight"], ["graph"]]
        if member.kind != "classical":
            out += [["stabilizer", None, True], ["gauge-dimension"]]
            out += [["standard"]] if member.kind == "css" or not t.gauge_k else []
        small = t.q**t.n <= 512 if member.kind == "classical" else t.q ** (2 * t.n) <= 4096
        if small and readable(member, None) and life.allowed(t, ["distance"]):
            out += [["distance"]]
    return out


def picklable(member):
    """Codes made from group algebras keep functions that can not be pickled (see C16)."""
    try:
        with sim.masked():
            pickle.dumps(member.code)
    except (AttributeError, pickle.PicklingError, TypeError):
        return False
    return True


def name(member):
    return f"{type(member.code).__name__} {json.dumps(member.how)[:200]}"


def same_span(f, a, b):
    a, b = np.asarray(a), np.asarray(b)
    if objs.rank(f, a) != objs.rank(f, b):
        return False
    return not len(a) or not len(b) or objs.same_span(f, a, b)


def block(*matrices):
    rows, cols = sum(m.shape[0] for m in matrices), sum(m.shape[1] for m in matrices)
    out = np.zeros((rows, cols), dtype=int)
    r = c = 0
    for m in matrices:
        out[r : r + m.shape[0], c : c + m.shape[1]] = m
        r, c = r + m.shape[0], c + m.shape[1]
    return out


def block2(x, z):
    return block(np.asarray(x), np.asarray(z))


def kron(f, a, b):
    """Kronecker product over a field."""
    a, b = f(np.asarray(a)), f(np.asarray(b))
    rows = [np.concatenate([np.asarray(x * v) for x in u]) for u in a for v in b]
    return np.array(rows, dtype=int).reshape(-1, a.shape[1] * b.shape[1])


def concatenated(f, inner, outer, middle, order):
    """Checks of a concatenated code, from the logical operators of the inner one."""
    k, n = inner.truth.k, inner.truth.n
    blocks = middle // k
    L = np.asarray(inner.basis, dtype=int).reshape(2 * k, 2 * n)
    total = blocks * n
    logical = np.zeros((2, middle, 2 * total), dtype=int)  # X and Z operators of all inner blocks
    for b in range(blocks):
        for half in (0, 1):
            for i in range(k):
                row = L[half * k + i]
                logical[half, b * k + i, b * n : (b + 1) * n] = row[:n]
                logical[half, b * k + i, total + b * n : total + (b + 1) * n] = row[n:]
    H = np.asarray(inner.matrix, dtype=int).reshape(-1, 2 * n)
    rows = [np.hstack([block(*[H[:, :n]] * blocks), block(*[H[:, n:]] * blocks)])]
    m = outer.truth.n
    for g in range(middle // m):
        for check in np.asarray(outer.matrix, dtype=int).reshape(-1, 2 * m):
            total_row = f.Zeros(2 * total)
            for i in range(m):
                at = order[g * m + i]
                total_row = total_row + f(int(check[i])) * f(logical[0, at]) + f(int(check[m + i])) * f(logical[1, at])
            rows.append(np.asarray(total_row).reshape(1, -1))
    return np.vstack(rows)


def deform(rows, gates):
    """Pauli strings after a Clifford circuit, gate by gate (without signs)."""
    out = np.array(rows, dtype=int)
    n = out.shape[1] // 2
    for gate in gates:
        op, *at = gate.split()
        at = [int(x) for x in at]
        x = lambda i: out[:, at[i]]
        z = lambda i: out[:, n + at[i]]
        if op == "H":
            out[:, [at[0], n + at[0]]] = out[:, [n + at[0], at[0]]]
        elif op == "S":
            out[:, n + at[0]] ^= x(0)
        elif op == "SQRT_X":
            out[:, at[0]] ^= z(0)
        elif op == "CX":
            out[:, at[1]] ^= x(0)
            out[:, n + at[0]] ^= z(1)
        elif op == "CZ":
            out[:, n + at[0]] ^= x(1)
            out[:, n + at[1]] ^= x(0)
        elif op == "SWAP":
            out[:, [at[0], at[1]]] = out[:, [at[1], at[0]]]
            out[:, [n + at[0], n + at[1]]] = out[:, [n + at[1], n + at[0]]]
    return out


def draw_graph(rng, degree):
    """A regular graph of the degree of a subcode, or a half-regular directed one."""
    if degree < 1 or degree > 5:
        return None
    if rng.random() < 0.5:
        nodes = rng.choice([m for m in range(degree + 1, degree + 5) if m * degree % 2 == 0])
        graph = nx.random_regular_graph(degree, nodes, seed=rng.randrange(1000))
        for node in graph:
            order = rng.sample(range(degree), degree)
            for position, other in zip(order, sorted(graph.neighbors(node))):
                graph[node][other].setdefault("sort", {})[node] = position
        return graph
    graph = nx.DiGraph()
    left, right = rng.randint(1, 3), rng.randint(degree, degree + 3)
    for node in range(left):
        for position, other in enumerate(rng.sample(range(right), degree)):
            graph.add_edge(("v", node), ("w", other))
            if rng.random() < 0.5:
                graph[("v", node)][("w", other)]["note"] = position
    if rng.random() < 0.5:
        for node in range(left):
            for position, other in enumerate(rng.sample(sorted(graph.neighbors(("v", node))), degree)):
                graph[("v", node)][other]["sort"] = position
    return graph


def graph_state(graph):
    return [sorted(map(str, graph.nodes(data=True))), sorted((str(u), str(v), json.dumps({str(k): str(x) for k, x in sorted(d.items())})) for u, v, d in graph.edges(data=True)), graph.is_directed()]


def tanner_checks(graph, H):
    sources = sorted(v for v in graph if graph.in_degree(v) == 0)
    sinks = sorted(v for v in graph if graph.out_degree(v) == 0)
    column = {v: i for i, v in enumerate(sinks)}
    out = np.zeros((len(sources) * len(H), len(sinks)), dtype=int)
    for i, source in enumerate(sources):
        neighbors = sorted(graph.successors(source), key=lambda w: graph[source][w].get("sort", w))
        for position, sink in enumerate(neighbors):
            out[i * len(H) : (i + 1) * len(H), column[sink]] = H[:, position]
    return out


def run(p, record=False):
    result = Result()
    w = world.World(result=result)
    w.truth = objs.truth()
    with w:
        node = sim.fresh("p", p["entropy"])
        random.seed(p["entropy"])
        np.random.seed(p["entropy"])
        session = Session(p, node, result)
        s = sim.Sim(p["actions"], budget=8_000_000, record=record)
        for tid, ops in enumerate(p["threads"]):
            s.spawn(lambda tid=tid, ops=ops: session.body(tid, ops), node)
        s.run()
        if not record:
            session.finish()
            for tid, made in enumerate(session.made):
                for member in made:
                    result.note("made", tid, name(member), objs.sha(member.matrix))
                    result.probes["made:" + (member.how[0] if isinstance(member.how, list) else str(member.how))] += 1
        result.steps = s.total
        result.faults.update(f"sched:{x}" for x in s.fired)
        for switch in s.switches:
            result.note("switch", *map(str, switch))
        for spec in p["codes"]:
            result.probes[f"code:{spec[0]}"] += 1
        result.nontrivial = bool(s.fired) or session.reused
        result.interleaving = objs.sha([p["codes"], p["threads"], [str(x) for x in s.switches]])
    return result, [t.trace for t in s.threads]


def execute(p):
    return run(p)[0]
