"""C16: encoders and transversal gates do to logical qubits what they claim; automorphism groups are complete."""

from __future__ import annotations

import itertools
import json
import random

import numpy as np
import stim

from dst import auto, life, objs, sim, world
from dst.core import Result, Violation

PROPERTY = "C16"
RUNS = {"quick": 700, "thorough": 20000}
RULE = (
    "seeded plans: one or two qubit codes (stabilizer, CSS, CSS subsystem) and classical codes, one or two processes in"
    " turn that share a store, one to three threads each that ask for automorphism groups, transversal gates, circuits of"
    " logical gates, encoders and logical tableaus, with faults of GAP and the store, preemptions and interrupts; then"
    " everything is asked again in a new process without faults; non-trivial = a fault or an action struck, or several"
    " questions were asked; distinct by codes, questions, faults and schedule"
)
REAL = ["qldpc.circuits", "qldpc.abstract", "qldpc.codes.common", "qldpc.external", "qldpc.cache", "sympy, stim, galois, numpy"]
STUB = ["GAP (automorphism groups by search)", "disk cache (simulated store)", "thread scheduler"]
ASSUMPTIONS = [
    "codes have at least one check and, where a circuit may deform the code, a logical qubit",
    "non-CSS subsystem codes are excluded (see DESIGN.md)",
    "signs of stabilizers are those of the canonical stabilizer generators",
]
MAX_FOUND = 200
MAX_SIZE = 100_000  # SymPy enumerates the group that it searches


def warm() -> None:
    world.install()
    sim.warm()


GATES = [["SWAP"], ["H"], ["S"], ["SQRT_X"], ["H", "S"], ["SWAP", "H"], ["SWAP", "S"], ["SWAP", "SQRT_X"], ["SWAP", "H", "S"], ["SQRT_X", "S"], ["S", "SWAP", "H", "SQRT_X"], []]

SMALL = [
    ["c4"],
    ["c4"],
    ["five"],
    ["surface", 2],
    ["iceberg", 2],
    ["bacon", 2],
    ["strings", ["X Z I", "Z X Z"]],
    ["strings", ["Y Y"]],
    ["strings", ["X Z"]],
    ["strings", ["X X X X", "Z Z Z Z"]],
    ["cssmat", 2, [[1, 1, 0]], [[0, 0, 1]]],
    ["cssmat", 2, [[1, 1, 1, 1]], [[1, 1, 0, 0], [0, 0, 1, 1]]],
    ["cssmat", 2, [[1, 1, 0, 0], [0, 0, 1, 1]], [[1, 1, 0, 0], [0, 0, 1, 1]]],
    ["conj", ["c4"], [0, 2], False],
    ["conj", ["surface", 2], [1], True],
    ["deform", ["c4"], ["S 0", "CX 1 2"], True],
]


def draw_code(rng):
    while True:
        r = rng.random()
        if r < 0.5:
            spec = rng.choice(SMALL)
        elif r < 0.52:
            return ["steane"]
        else:
            spec = rng.choice([life.draw_css, life.draw_qudit])(rng)
        if spec == ["steane"]:
            continue
        w = world.World()
        w.truth = objs.truth()
        with w:
            node = sim.fresh("plan", 1)
            code = life.build(node, spec)
            if code.field.order != 2 or len(code) > 5:
                continue
            kind = life.family(node, code)
            t = life.truth_of(spec, code, kind)
        if t.rank and not (kind == "qudit" and t.gauge_k):
            return spec


def draw_classical(rng):
    q = rng.choice([2, 2, 2, 3])
    while True:
        n = rng.randint(1, {2: 8, 3: 6}[q])
        rows = life.random_matrix(rng, q, rng.randint(1, n), n)
        if any(any(r) for r in rows):
            return ["cmat", q, rows]


def draw_op(rng, codes):
    r = rng.random()
    i = rng.randrange(len(codes))
    gates, deform = rng.choice(GATES), rng.random() < 0.4
    style = rng.choice(["list", "tuple", "set"])
    if r < 0.1:
        return ["aut", draw_classical(rng)]
    if r < 0.13:
        return ["known", rng.randrange(10)]
    if r < 0.3:
        return ["group", i, gates, deform, style]
    if r < 0.62:
        return ["ops", i, gates, deform, style, rng.random() < 0.6]
    if r < 0.78:
        return ["find", i, gates, deform, style, rng.randrange(10**6), rng.randint(1, 3)]
    if r < 0.88:
        return ["encoder", i, rng.random() < 0.5]
    if r < 0.93:
        return ["set", i, rng.randrange(10**6)]
    return ["refuse", rng.choice(["gates", "field"]), i]


def plan(rng, tier):
    codes = [draw_code(rng) for _ in range(rng.choice([1, 1, 2]))]
    out = {"codes": codes, "procs": [], "entropy": rng.randrange(100), "faults": [], "actions": [], "gap": rng.random() < 0.97, "_keep": ["codes"]}
    for _ in range(rng.choice([1, 1, 2])):
        threads = []
        count = rng.choice([1, 1, 2, 3])
        shared = [draw_op(rng, codes) for _ in range(2)]
        for _ in range(count):
            ops = [rng.choice(shared) if rng.random() < 0.3 else draw_op(rng, codes) for _ in range(rng.choice([1, 2, 3]))]
            if count > 1:
                ops = [o for o in ops if o[0] != "set"] or [["encoder", 0, True]]
            threads.append(ops)
        out["procs"].append(threads)
    if rng.random() < 0.6:
        sites = {
            "gap": world.GAP_FAULTS + ["killed", "exit1"],
            "store.read": world.READ_FAULTS,
            "store.write": world.WRITE_FAULTS,
            "store.open": ["eio", "timeout"],
        }
        out["faults"] = world.draw_faults(rng, sites, rng.choice([1, 1, 2, 3]), rng.choice([3, 8]))
    try:
        traces = run(dict(out, faults=[]), True)[1]
    except Exception:
        return out
    for number, batch in enumerate(traces):
        kinds = ["switch"] * 4 + ["interrupt"] * 2 if len(batch) > 1 else ["interrupt"]
        chosen = sim.choose_actions(rng, batch, rng.choice([0, 1, 2, 4]), kinds, bias=lambda s: "circuits.py" in s or "cache.py" in s)
        out["actions"] += [[number, *a] for a in chosen]
    return out


# ---------------------------------------------------------------------------------------------
# signed Pauli strings
# ---------------------------------------------------------------------------------------------


def string(row):
    """The Pauli string (sign +) of a symplectic row."""
    row = [int(x) for x in row]
    n = len(row) // 2
    return stim.PauliString("".join("_XZY"[row[j] + 2 * row[n + j]] for j in range(n)))


def bits(pauli):
    x, z = pauli.to_numpy()
    return np.concatenate([x, z]).astype(int)


def echelon(strings):
    """(pivot, string) with each string having the pivot bit that later ones lack."""
    out = []
    for s in strings:
        s = stim.PauliString(s)
        for pivot, t in out:
            if bits(s)[pivot]:
                s = s * t
        b = bits(s)
        if b.any():
            pivot = int(np.argmax(b))
            out.append((pivot, s))
        elif s.sign != 1:
            return None  # minus the identity is in the group
    return out


def reduce(s, basis):
    """What is left of a Pauli string after multiplication by members of a group."""
    s = stim.PauliString(s)
    for pivot, t in basis:
        if bits(s)[pivot]:
            s = s * t
    return s


def trivial(s):
    return s.sign == 1 and not bits(s).any()


class Facts:
    """What is known of one code object of one process."""

    def __init__(self, session, spec, code):
        self.spec, self.code = spec, code
        self.kind = life.family(session.node, code)
        self.t = life.truth_of(spec, code, self.kind)
        self.n = self.t.n
        self.matrix = objs.mat(code.matrix)
        self.learn()

    def learn(self):
        self.logical = np.asarray(self.code.get_logical_ops(), dtype=int).reshape(-1, 2 * self.n)
        error = self.t.logical_error(self.logical)
        if error:
            raise Violation("wrong-answer", f"logical operators of {self.spec}: {error}")
        self.stabs = [string(r) for r in np.asarray(self.code.get_stabilizer_ops(canonicalized=True), dtype=int).reshape(-1, 2 * self.n)]
        self.basis = echelon(self.stabs)
        self.k = self.t.k


class Session:
    def __init__(self, p, node, result):
        self.p, self.node, self.result = p, node, result
        self.facts = [Facts(self, spec, life.build(node, spec)) for spec in p["codes"]]
        self.errors = 0
        self.answers: list = []

    def bad(self, kind, text):
        raise Violation(kind, text)

    # -- questions -------------------------------------------------------------------------------

    def gates(self, op, style):
        return {"list": list, "tuple": tuple, "set": set}[style](op)

    def perform(self, op):
        kind = op[0]
        C, circuits = self.node.codes, self.node.circuits
        if kind == "aut":
            code = life.build(self.node, op[1])
            group = code.get_automorphism_group()
            with sim.masked():
                self.check_automorphisms(op[1][1], np.array(op[1][2]), group, op)
            return
        if kind == "known":
            names = sorted(n for n in self.node.gapgroups.KNOWN_GROUPS if auto.PATTERN.fullmatch(n))
            if not names:
                return
            match = auto.PATTERN.fullmatch(names[op[1] % len(names)])
            rows, q = json.loads(match.group(1)), int(match.group(2))
            group = C.ClassicalCode(rows, q).get_automorphism_group()
            with sim.masked():
                self.check_automorphisms(q, np.array(rows), group, op)
            return
        if kind == "refuse":
            return self.refuse(op)
        facts = self.facts[op[1]]
        code = facts.code
        if kind == "set":
            from dst.props.c11 import valid_basis

            if facts.k:
                with sim.masked():
                    given = valid_basis(facts.t, facts.kind, facts.logical, op[2])
                code.set_logical_ops(given)
                with sim.masked():
                    facts.learn()
            return
        if kind == "encoder":
            return self.encoder(facts, op)
        _, _, names, deform, style = op[:5]
        if deform and (not facts.k or (facts.t.gauge_k and set(names) - {"SWAP"})):
            return  # the deformed code would be a non-CSS subsystem code
        with sim.masked():
            key = (facts.n, objs.sha(objs.mat(facts.logical if deform else facts.t.matrix)), tuple(sorted(set(names))))
            if key not in _sizes:
                _sizes[key] = auto.instrument(facts.n, facts.logical if deform else facts.t.matrix, names)
        if _sizes[key] > MAX_SIZE:
            self.result.probes["group too large to search"] += 1
            return
        given = self.gates(names, style)
        what = f"{op} of {json.dumps(facts.spec)}"
        if kind == "group":
            group = circuits.get_transversal_automorphism_group(code, given, deform_code=deform)
            with sim.masked():
                self.check_group(facts, names, deform, group, what)
        elif kind == "ops":
            found = circuits.get_transversal_ops(code, given, deform_code=deform, remove_redundancies=op[5])
            with sim.masked():
                for tableau, circuit in found:
                    self.check_op(facts, names, deform, tableau, circuit, what)
                self.answers.append([op, sorted(str(c) for _, c in found)])
            tableaus = [circuits.get_logical_tableau(code, circuit, deform_code=deform) for _, circuit in found[:3]]
            with sim.masked():
                for (tableau, circuit), again in zip(found, tableaus):
                    if tableau != again:
                        self.bad("wrong-tableau", f"{what}: {circuit} has the logical tableau {again}, not {tableau}")
                if op[5]:
                    self.check_redundancy(facts, names, deform, found, what)
        else:
            self.find(facts, op, names, deform, given, what)
        with sim.masked():
            if given != self.gates(names, style):
                self.bad("changed-argument", f"{what}: the gates became {given}")

    def refuse(self, op):
        circuits = self.node.circuits
        try:
            if op[1] == "gates":
                circuits.get_transversal_automorphism_group(self.facts[op[2]].code, ["SQRT_Y", "SWAP"])
            else:
                circuits.get_encoding_circuit(self.node.codes.SurfaceCode(2, field=3))
        except ValueError:
            return
        self.bad("no-refusal", f"{op} was accepted")

    def find(self, facts, op, names, deform, given, what):
        code, k = facts.code, facts.k
        if not k:
            return
        with sim.masked():
            found = self.brute(facts, names, deform)
            if found is None or len(found) > MAX_FOUND:
                return
            actions = [self.action(facts, f) for f in found]
            rng = random.Random(op[5])
            targets = []
            for _ in range(op[6]):
                circuit = stim.Circuit()
                if rng.random() < 0.6:
                    # a gate that exists, times a logical Pauli
                    tableau = tableau_of(actions[rng.randrange(len(actions))], rng)
                else:
                    for _ in range(rng.randint(1, 3)):
                        if k > 1 and rng.random() < 0.5:
                            circuit.append(rng.choice(["CX", "CZ", "SWAP"]), rng.sample(range(k), 2))
                        else:
                            circuit.append(rng.choice(["H", "S", "S_DAG", "SQRT_X", "X", "Z", "Y"]), [rng.randrange(k)])
                    tableau = (circuit + stim.Circuit(f"I {k - 1}")).to_tableau()
                targets.append((tableau, circuit if len(circuit) else None))
        if len(targets) == 1:
            tableau, circuit = targets[0]
            results = [self.node.circuits.get_transversal_circuit(code, circuit or tableau, given, deform_code=deform)]
        else:
            results = self.node.circuits.get_transversal_circuits(code, [c or t for t, c in targets], given, deform_code=deform)
        with sim.masked():
            if len(results) != len(targets):
                self.bad("wrong-circuit", f"{what}: {len(results)} circuits for {len(targets)} gates")
            known = {a.tobytes() for a in actions}
            for (tableau, _), result in zip(targets, results):
                exists = matrix_of(tableau).tobytes() in known
                if result is None and exists:
                    self.bad("missing-circuit", f"{what}: nothing found for {tableau!r}, but there is a transversal circuit")
                if result is not None:
                    if not exists:
                        self.bad("wrong-circuit", f"{what}: {result} for {tableau!r}, which is not transversal")
                    self.check_op(facts, names, deform, tableau, result, what)
                self.answers.append([op, str(result)])

    def encoder(self, facts, op):
        code, n, k = facts.code, facts.n, facts.k
        circuits = self.node.circuits
        tableau = circuits.get_encoding_circuit(code).to_tableau() if op[2] else circuits.get_encoding_tableau(code)
        pair = circuits.get_encoder_and_decoder(code)
        with sim.masked():
            what = f"{op} of {json.dumps(facts.spec)}"
            if len(tableau) != n:
                self.bad("wrong-encoder", f"{what}: {len(tableau)} qubits")
            x, z = [tableau.x_output(j) for j in range(n)], [tableau.z_output(j) for j in range(n)]
            for j in range(k):
                for name, found, row in (("X", x[j], facts.logical[j]), ("Z", z[j], facts.logical[k + j])):
                    if found != string(row):
                        self.bad("wrong-encoder", f"{what}: {name}{j} becomes {found}, not {string(row)}")
            g = facts.t.gauge_k
            f = facts.t.f
            gauge = [bits(s) for part in (x, z) for s in part[k : k + g]]
            if any(not objs.in_span(f, facts.t.matrix, row) for row in gauge):
                self.bad("wrong-encoder", f"{what}: gauge qubits are not encoded as gauge operators")
            basis = echelon(z[k + g :])
            if basis is None or len(basis) != n - k - g or any(not trivial(reduce(s, basis)) for s in facts.stabs):
                self.bad("wrong-encoder", f"{what}: {z[k + g:]} do not generate the stabilizers {facts.stabs}")
            if pair[0] != tableau or pair[0].then(pair[1]) != stim.Tableau(n):
                self.bad("wrong-encoder", f"{what}: the decoder does not undo the encoder")

    # -- oracles ---------------------------------------------------------------------------------

    def check_automorphisms(self, q, rows, group, what):
        n = rows.shape[1]
        gens = [list(map(int, g.array_form)) for g in group.generators]
        for g in gens:
            if len(g) > n or not auto.keeps(q, rows, g + list(range(len(g), n))):
                self.bad("wrong-group", f"{what}: {g} is not an automorphism of {rows.tolist()}")
            if len(g) != n:
                self.bad("wrong-group", f"{what}: the group acts on {len(g)} bits of {n}")
        _, order = auto.column_automorphisms(q, rows)
        if group.order != order:
            self.bad("wrong-group", f"{what}: a group of order {group.order}, but there are {order} automorphisms of {rows.tolist()}")

    def brute(self, facts, names, deform):
        if facts.n > 4:
            return None
        rows = facts.logical if deform else facts.t.matrix
        key = (facts.n, objs.sha(objs.mat(rows)), tuple(sorted(set(names))))
        if key not in _brute:
            if len(_brute) > 300:
                _brute.clear()
            _brute[key] = auto.transversal(facts.n, rows, names)
        return _brute[key]

    def check_group(self, facts, names, deform, group, what):
        found = self.brute(facts, names, deform)
        if found is not None and group.order != len(found):
            self.bad("wrong-group", f"{what}: a group of order {group.order}, but {len(found)} circuits are transversal")
        self.answers.append([what, group.order])

    def action(self, facts, found):
        """What a transversal circuit does to logical operators, up to signs."""
        perm, choice = found
        n, k = facts.n, facts.k
        rows = facts.logical
        out = np.zeros_like(rows)
        for j, g in enumerate(choice):
            m = auto.LOCAL[g]
            out[:, perm[j]] = (rows[:, j] * m[0][0] + rows[:, n + j] * m[1][0]) % 2
            out[:, n + perm[j]] = (rows[:, j] * m[0][1] + rows[:, n + j] * m[1][1]) % 2
        return self.coefficients(facts, out)

    def coefficients(self, facts, rows):
        n, k = facts.n, facts.k
        ops = facts.logical
        dual = np.vstack([ops[k:], ops[:k]])
        swapped = np.hstack([dual[:, n:], dual[:, :n]])
        return (rows @ swapped.T % 2).astype(np.uint8)

    def check_redundancy(self, facts, names, deform, found, what):
        seen = []
        for tableau, circuit in found:
            m = matrix_of(tableau)
            if np.array_equal(m, np.eye(2 * facts.k, dtype=np.uint8)):
                self.bad("redundant", f"{what}: {circuit} is a logical Pauli")
            if any(np.array_equal(m, s) for s in seen):
                self.bad("redundant", f"{what}: {circuit} is one of several circuits for one gate")
            seen.append(m)
        # together they generate all gates there are
        options = self.brute(facts, names, deform)
        if options is None or len(options) > 20 * MAX_FOUND:
            return
        want = {self.action(facts, f).tobytes() for f in options}
        size = 2 * facts.k
        group = {np.eye(size, dtype=np.uint8).tobytes()}
        front = list(group)
        while front:
            new = []
            for a in front:
                m = np.frombuffer(a, dtype=np.uint8).reshape(size, size)
                for s in seen:
                    b = (m @ s % 2).astype(np.uint8).tobytes()
                    if b not in group:
                        group.add(b)
                        new.append(b)
            front = new
        if group != want:
            self.bad("missing-gates", f"{what}: the circuits generate {len(group)} gates up to Paulis, but {len(want)} are transversal")

    def check_op(self, facts, names, deform, tableau, circuit, what):
        n, k = facts.n, facts.k
        physical = (circuit + stim.Circuit(f"I {n - 1}")).to_tableau()
        if len(physical) != n:
            self.bad("wrong-circuit", f"{what}: {circuit} acts on {len(physical)} qubits")
        # local gates and swaps only
        allowed = [np.array(auto.LOCAL[g]) for g in auto.local_choices(names)]
        for j in range(n):
            images = [bits(physical.x_output(j)), bits(physical.z_output(j))]
            where = {i % n for b in images for i in np.flatnonzero(b)}
            if len(where) != 1 or ("SWAP" not in names and where != {j}):
                self.bad("wrong-circuit", f"{what}: {circuit} is not transversal")
            (i,) = where
            local = np.array([[b[i], b[n + i]] for b in images])
            if not any(np.array_equal(local, m) for m in allowed):
                self.bad("wrong-circuit", f"{what}: {circuit} uses other gates on qubit {j}")
        # stabilizers stay
        basis = facts.basis
        if deform:
            after = facts.code.deformed(circuit, preserve_logicals=True)
            basis = echelon(string(r) for r in np.asarray(after.get_stabilizer_ops(canonicalized=True), dtype=int).reshape(-1, 2 * n))
        if basis is None:
            return
        for s in facts.stabs:
            if not trivial(reduce(physical(s), basis)):
                self.bad("wrong-circuit", f"{what}: {circuit} maps the stabilizer {s} to {physical(s)}")
        if facts.t.gauge_k and not deform:
            for row in facts.t.matrix:
                if not objs.in_span(facts.t.f, facts.t.matrix, bits(physical(string(row)))):
                    self.bad("wrong-circuit", f"{what}: {circuit} maps gauge operators elsewhere")
        # logical operators change as they should
        if len(tableau) != k:
            self.bad("wrong-tableau", f"{what}: {tableau!r} for {k} logical qubits")
        ops = [string(row) for row in facts.logical]
        for j in range(k):
            for image, logical in ((tableau.x_output(j), ops[j]), (tableau.z_output(j), ops[k + j])):
                want = stim.PauliString(n) * image.sign
                for i in range(k):
                    what_i = image[i]  # 0 1 2 3 = I X Y Z
                    if what_i in (1, 2):
                        want = want * ops[i]
                    if what_i in (2, 3):
                        want = want * ops[k + i]
                    if what_i == 2:
                        want = want * 1j
                if not trivial(reduce(physical(logical) * want, basis)):
                    self.bad("wrong-tableau", f"{what}: {circuit} maps {logical} to {physical(logical)}, but {tableau!r} says {want}")

    # -- threads ---------------------------------------------------------------------------------

    def body(self, ops):
        for n, op in enumerate(ops):
            for _ in range(8):
                try:
                    self.perform(op)
                    break
                except KeyboardInterrupt as err:
                    if "simulated" not in str(err):
                        raise
                except Violation:
                    raise
                except Exception:
                    # only if something had failed
                    if not (self.result.faults and any(not k.startswith("sched:") for k in self.result.faults)) and self.p["gap"]:
                        raise
                    self.errors += 1
                    break
            with sim.masked():
                self.unchanged(f"after {op}")

    def unchanged(self, when):
        for facts in self.facts:
            if objs.mat(facts.code.matrix) != facts.matrix:
                self.bad("changed-code", f"{when}: the checks of {facts.spec} changed")
            if objs.mat(facts.code.get_logical_ops()) != objs.mat(facts.logical):
                self.bad("changed-code", f"{when}: the logical operators of {facts.spec} changed")


_brute: dict = {}
_sizes: dict = {}


def matrix_of(tableau):
    x2x, x2z, z2x, z2z, *_ = tableau.to_numpy()
    return np.block([[x2x, x2z], [z2x, z2z]]).astype(np.uint8)


def tableau_of(matrix, rng):
    k = len(matrix) // 2
    m = matrix.astype(bool)
    return stim.Tableau.from_numpy(
        x2x=m[:k, :k].copy(),
        x2z=m[:k, k:].copy(),
        z2x=m[k:, :k].copy(),
        z2z=m[k:, k:].copy(),
        x_signs=np.array([rng.random() < 0.5 for _ in range(k)]),
        z_signs=np.array([rng.random() < 0.5 for _ in range(k)]),
    )


def run(p, record=False):
    result = Result()
    w = world.World(p["faults"], result=result)
    w.truth = objs.truth()
    w.truth.search = auto.from_name
    w.gap_installed = p["gap"]
    traces = []
    with w:
        for number, threads in enumerate(p["procs"]):
            node = sim.fresh(f"p{number}", p["entropy"] + number)
            session = Session(p, node, result)
            s = sim.Sim([a[1:] for a in p["actions"] if a[0] == number], budget=8_000_000, record=record)
            for ops in threads:
                s.spawn(lambda ops=ops: session.body(ops), node)
            s.run()
            traces.append([t.trace for t in s.threads])
            result.steps += s.total
            result.faults.update(f"sched:{x}" for x in s.fired)
            for switch in s.switches:
                result.note("switch", number, *map(str, switch))
            result.probes["errors under faults"] += session.errors
            if len(threads) == 1:
                result.note("answers", objs.sha(session.answers))
        if not record:
            # a new process, without faults, with what the store has now
            w.faults_on = False
            w.gap_installed = True
            before = dict(result.faults)
            result.faults.clear()
            node = sim.fresh("later", p["entropy"] + 9)
            session = Session(dict(p, gap=True), node, result)
            done = []
            for threads in p["procs"]:
                for ops in threads:
                    for op in ops:
                        if op not in done and op[0] != "set":
                            done.append(op)
                            session.perform(op)
            session.unchanged("at the end")
            # other logical operators are set: whatever was asked before, answers are about the new ones
            for i in range(len(p["codes"])):
                again = [op for op in done if op[0] in ("encoder", "ops", "find") and op[1] == i]
                if again and session.facts[i].k:
                    session.perform(["set", i, p["entropy"]])
                    for op in (["encoder", i, True], again[p["entropy"] % len(again)]):
                        session.perform(op)
            result.faults.update(before)
    for threads in p["procs"]:
        for ops in threads:
            for op in ops:
                result.probes[op[0]] += 1
    for spec in p["codes"]:
        result.probes[f"code:{spec[0]}"] += 1
    result.nontrivial = bool(result.faults) or sum(len(ops) for threads in p["procs"] for ops in threads) > 1
    result.interleaving = objs.sha([p["codes"], p["procs"], p["faults"], p["actions"]])
    return result, traces


def execute(p):
    return run(p)[0]
