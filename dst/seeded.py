"""Seeded constructions: specs, validity oracles, and executions under different histories (C06, C07)."""

from __future__ import annotations

import random

import numpy as np

from dst import objs, sim, world
from dst.core import HarnessError, Result, Violation

GROUPS = [
    ["trivial"],
    ["cyclic", 1],
    ["cyclic", 2],
    ["cyclic", 5],
    ["cyclic", 6],
    ["cyclic", 9],
    ["cyclic", 12],
    ["abelian", [2, 2]],
    ["abelian", [2, 3]],
    ["abelian", [3, 3]],
    ["abelian", [2, 2, 3]],
    ["dihedral", 3],
    ["dihedral", 4],
    ["dihedral", 7],
    ["alternating", 3],
    ["alternating", 4],
    ["symmetric", 3],
    ["symmetric", 4],
    ["quaternion"],
    ["small", 1, 1],
    ["small", 2, 1],
    ["small", 3, 1],
    ["small", 4, 1],
    ["small", 4, 2],
    ["small", 5, 1],
    ["small", 6, 1],
    ["small", 6, 2],
    ["small", 8, 3],
    ["small", 8, 5],
    ["small", 10, 1],
    ["small", 12, 3],
    ["product", ["cyclic", 2], ["symmetric", 3]],
    ["product", ["cyclic", 3], ["cyclic", 3]],
    ["sl", 2, 2, True],
    ["sl", 2, 3, True],
]
SEEDS = [0, 1, 2, 3, 7, 42, 2**31 - 1, 2**31, 2**32 - 1]


def draw_seed(rng):
    return rng.choice(SEEDS) if rng.random() < 0.5 else rng.randrange(2**32)


def draw_group(rng, limit=24):
    while True:
        spec = rng.choice(GROUPS)
        if objs.group_order(spec) <= limit:
            return spec


def involutions(spec) -> int:
    """Whether the group has an element of order 2 (order is even)."""
    return objs.group_order(spec) % 2 == 0


def draw_size(rng, spec, exclude):
    order = objs.group_order(spec)
    if not exclude:
        return rng.randint(1, order)
    if order == 1:
        return None
    if involutions(spec):
        return rng.randint(1, order - 1)
    return rng.randrange(2, order, 2)


def draw_classical(rng, max_bits=6):
    """Spec of a small seeded or structured classical code."""
    kind = rng.random()
    if kind < 0.6:
        bits = rng.randint(2, max_bits)
        field = rng.choice([None, None, 2, 3, 4, 5])
        return ["classical", bits, rng.randint(1, bits), field, draw_seed(rng)]
    return rng.choice([["hamming", 2, None], ["hamming", 2, 3], ["repetition", 3, None], ["repetition", 4, 3], ["ring", 4, None]])


def draw_spec(rng):
    kind = rng.choice(
        ["classical"] * 3
        + ["word"] * 2
        + ["logical"] * 3
        + ["member"] * 4
        + ["subset"] * 5
        + ["qtcode"] * 3
        + ["qtexplicit", "lineargroup", "iter_mats", "cayley", "qccode", "bbcode", "named"]
    )
    if kind == "classical":
        return ["classical", rng.randint(1, 8), rng.randint(1, 6), rng.choice([None, 2, 3, 4, 5, 7]), draw_seed(rng)]
    if kind == "word":
        return ["word", draw_classical(rng), draw_seed(rng)]
    if kind == "logical":
        css = rng.choice(
            [
                ["steane"],
                ["surface", 3],
                ["surface2", 2, 3],
                ["toric", 2],
                ["iceberg", 4],
                ["c6"],
                ["bacon", 3],
                ["hgp", draw_classical(rng, 4)],
                ["surfaceq", 2, 3],
            ]
        )
        return ["logical", css, rng.choice("XZ"), rng.random() < 0.5, draw_seed(rng)]
    if kind == "member":
        return ["member", rng.choice(GROUPS), draw_seed(rng)]
    if kind == "subset":
        spec = draw_group(rng)
        exclude = rng.random() < 0.4 and objs.group_order(spec) > 1
        return ["subset", spec, draw_size(rng, spec, exclude), exclude, draw_seed(rng)]
    if kind == "qtcode":
        spec = draw_group(rng, 8)
        n = min(rng.choice([2, 3, 3, 4]), objs.group_order(spec))
        if n < 2:
            spec, n = ["cyclic", 6], 3
        one = rng.random() < 0.3
        field = rng.choice([None, None, 3])
        code_a = ["classical", n, rng.randint(1, n - 1), field, draw_seed(rng)]
        code_b = None
        if not one and rng.random() < 0.4:
            m = min(rng.choice([2, 3]), objs.group_order(spec))
            code_b = ["classical", m, rng.randint(1, m - 1), field, draw_seed(rng)]
        return ["qtcode", spec, code_a, code_b, one, draw_seed(rng)]
    if kind == "qtexplicit":
        order = rng.choice([4, 5, 6, 8])
        gens = sorted(rng.sample(range(1, order // 2 + 1), 1))
        subset = sorted({g for g in gens} | {-g % order for g in gens} | ({0} if rng.random() < 0.5 else set()))
        n = len(subset)
        if n < 2:
            subset, n = [0, 1, order - 1], 3
        return ["qtexplicit", order, subset, ["classical", n, rng.randint(1, n - 1), None, draw_seed(rng)], rng.randrange(10**6)]
    if kind == "lineargroup":
        return ["lineargroup", rng.choice(["sl", "psl"]), 2, rng.choice([2, 3, 5]), True]
    if kind == "iter_mats":
        return ["iter_mats", rng.choice(["sl", "psl"]), 2, rng.choice([2, 3])]
    if kind == "cayley":
        return ["cayley", draw_group(rng, 8), draw_seed(rng)]
    if kind == "qccode":
        return ["qccode", rng.choice([[6], [3, 4], [4, 3], [2, 2, 3], [5], [2, 3, 4]]), rng.randrange(4)]
    if kind == "bbcode":
        return ["bbcode", rng.choice([[3, 3], [6, 3], [4, 2]]), rng.randrange(3)]
    return ["named", rng.choice(["steane", "five", "c4", "surface", "toric", "bacon", "simplex", "reedmuller", "bch", "rs"])]


# ---------------------------------------------------------------------------------------------
# evaluation
# ---------------------------------------------------------------------------------------------


def classical(node, spec):
    C = node.codes
    kind, *a = spec
    if kind == "classical":
        return C.ClassicalCode.random(a[0], a[1], a[2], seed=a[3])
    if kind == "hamming":
        return C.HammingCode(a[0], a[1])
    if kind == "repetition":
        return C.RepetitionCode(a[0], a[1])
    if kind == "ring":
        return C.RingCode(a[0], a[1])
    raise HarnessError(f"unknown code {spec}")


def css(node, spec):
    C = node.codes
    kind, *a = spec
    if kind == "steane":
        return C.SteaneCode()
    if kind == "surface":
        return C.SurfaceCode(a[0])
    if kind == "surface2":
        return C.SurfaceCode(a[0], a[1])
    if kind == "surfaceq":
        return C.SurfaceCode(a[0], rotated=False, field=a[1])
    if kind == "toric":
        return C.ToricCode(a[0], rotated=True)
    if kind == "iceberg":
        return C.IcebergCode(a[0])
    if kind == "c6":
        return C.C6Code()
    if kind == "bacon":
        return C.BaconShorCode(a[0])
    if kind == "hgp":
        return C.HGPCode(classical(node, a[0]))
    raise HarnessError(f"unknown code {spec}")


def bad(kind, spec, text):
    raise Violation(kind, f"{spec}: {text}")


def check_subset(group, subset, size, exclude, spec):
    with sim.masked():
        if len(subset) != size:
            bad("invalid-object", spec, f"subset has {len(subset)} members instead of {size}")
        members = objs.elements(group)
        data = {tuple(map(int, g.array_form)) for g in subset}
        for g in data:
            if g not in members:
                bad("invalid-object", spec, f"{g} is not a member of the group")
            inverse = tuple(sorted(range(len(g)), key=lambda i: g[i]))
            if inverse not in data:
                bad("invalid-object", spec, f"the subset is not symmetric: {sorted(data)}")
        if exclude and tuple(group.identity.array_form) in data:
            bad("invalid-object", spec, "the subset contains the identity, which was excluded")


def check_qtcode(code, spec):
    with sim.masked():
        mx, mz = np.asarray(code.matrix_x), np.asarray(code.matrix_z)
        field = code.field
        if np.any(field(mx) @ field(mz).T):
            bad("invalid-object", spec, "X and Z parity checks do not commute")


def qt_data(code):
    return [
        objs.mat(code.matrix_x),
        objs.mat(code.matrix_z),
        objs.subset_data(code.complex.subset_a),
        objs.subset_data(code.complex.subset_b),
        objs.mat(code.code_a.matrix),
        objs.mat(code.code_b.matrix),
        bool(code.complex.bipartite),
        code.field.order,
    ]


def evaluate(node, spec):
    """Construct what the spec says, check that it is valid, and return canonical data."""
    A, C, O = node.abstract, node.codes, node.objects
    kind, *a = spec
    if kind == "classical":
        code = classical(node, spec)
        with sim.masked():
            m = np.asarray(code.matrix)
            if m.shape != (a[1], a[0]) or code.field.order != (a[2] or 2):
                bad("invalid-object", spec, f"shape {m.shape} over GF({code.field.order})")
            if not m.any(axis=0).all() or not m.any(axis=1).all():
                bad("invalid-object", spec, "the matrix has a zero row or column")
        return [objs.mat(code.matrix), code.field.order]
    if kind == "word":
        code = classical(node, a[0])
        word = code.get_random_word(seed=a[1])
        with sim.masked():
            if np.any(code.matrix @ word):
                bad("invalid-object", spec, f"{word} is not a code word")
        return objs.mat(word)
    if kind == "logical":
        code = css(node, a[0])
        if a[2] and code.dimension == 0:
            return None
        pauli = getattr(O.Pauli, a[1])
        op = code.get_random_logical_op(pauli, ensure_nontrivial=a[2], seed=a[3])
        with sim.masked():
            f = code.field
            other = ~pauli if hasattr(pauli, "__invert__") else None
            dual = O.Pauli.Z if a[1] == "X" else O.Pauli.X
            if op.shape != (len(code),):
                bad("invalid-object", spec, f"operator of shape {op.shape}")
            stabs = code.get_stabilizer_ops(dual)
            if len(stabs) and np.any(f(np.asarray(stabs)) @ op):
                bad("invalid-object", spec, "the operator does not commute with the stabilizers")
            if a[2]:
                logs = code.get_logical_ops(dual)
                if not np.any(f(np.asarray(logs)) @ op):
                    bad("invalid-object", spec, "the operator is trivial")
        return objs.mat(op)
    if kind == "member":
        group = objs.build_group(node, a[0])
        member = group.random(seed=a[1])
        with sim.masked():
            if tuple(map(int, member.array_form)) not in objs.elements(group):
                bad("invalid-object", spec, f"{member} is not a member of the group")
        return list(map(int, member.array_form))
    if kind == "subset":
        group = objs.build_group(node, a[0])
        subset = group.random_symmetric_subset(a[1], exclude_identity=a[2], seed=a[3])
        check_subset(group, subset, a[1], a[2], spec)
        return objs.subset_data(subset)
    if kind == "qtcode":
        group = objs.build_group(node, a[0])
        code_a = classical(node, a[1])
        code_b = classical(node, a[2]) if a[2] else None
        code = C.QTCode.random(group, code_a, code_b, one_subset=a[3], seed=a[4])
        check_qtcode(code, spec)
        check_subset(group, code.complex.subset_a, len(code_a), False, spec)
        check_subset(group, code.complex.subset_b, len(code_b if a[2] else code_a), False, spec)
        if a[3] and code.complex.subset_a != code.complex.subset_b:
            bad("invalid-object", spec, "one_subset=True gave two subsets")
        return qt_data(code)
    if kind == "qtexplicit":
        group = A.CyclicGroup(a[0])
        gen = group.generators[0]
        members = [gen**k for k in a[1]]
        random.Random(a[3]).shuffle(members)
        code = C.QTCode(set(members), members, classical(node, a[2]))
        check_qtcode(code, spec)
        return qt_data(code)
    if kind == "lineargroup":
        group = objs.build_group(node, a)
        return [[list(map(int, g.array_form)) for g in group.generators], [objs.mat(group.lift(g)) for g in group.generators]]
    if kind == "iter_mats":
        cls = A.SL if a[0] == "sl" else A.PSL
        return [objs.mat(m) for m in cls.iter_mats(a[1], a[2])]
    if kind == "cayley":
        group = objs.build_group(node, a[0])
        n = group.order
        x = O.CayleyComplex(
            group.random_symmetric_subset(max(1, n // 2), seed=a[1]), group.random_symmetric_subset(max(1, n // 3), seed=a[1])
        )
        g = x.graph
        return sorted([sorted([list(map(int, u.array_form)), list(map(int, v.array_form))]), d["type"]] for u, v, d in g.edges(data=True))
    if kind == "qccode":
        import sympy

        x, y, z = sympy.symbols("x y z")
        polys = [(1 + x, 1 + x**2), (1 + x + y, x + y**2), (x + x**2 * y, 1 + y), (1 + x, 1 + x * y)][a[1]]
        if len(a[0]) < len(polys[0].free_symbols | polys[1].free_symbols):
            return None
        code = C.QCCode(a[0], *polys)
        return [objs.mat(code.matrix_x), objs.mat(code.matrix_z), [str(s) for s in code.symbols], list(code.orders)]
    if kind == "bbcode":
        import sympy

        x, y = sympy.symbols("x y")
        polys = [(x + y + y**2, y + x + x**2), (1 + x + y, 1 + y + x**2), (1 + x, 1 + y)][a[1]]
        code = C.BBCode(a[0], *polys)
        layouts = [[list(o), str(p), str(q)] for o, p, q in code.get_equivalent_toric_layout_code_data()]
        return [objs.mat(code.matrix_x), objs.mat(code.matrix_z), str(code), layouts]
    if kind == "named":
        code = {
            "steane": lambda: C.SteaneCode(),
            "five": lambda: C.FiveQubitCode(),
            "c4": lambda: C.C4Code(),
            "surface": lambda: C.SurfaceCode(3),
            "toric": lambda: C.ToricCode(2, rotated=True),
            "bacon": lambda: C.BaconShorCode(3),
            "simplex": lambda: C.SimplexCode(3),
            "reedmuller": lambda: C.ReedMullerCode(1, 3),
            "bch": lambda: C.BCHCode(7, 4),
            "rs": lambda: C.ReedSolomonCode(7, 3),
        }[a[0]]()
        out = [objs.mat(code.matrix), code.field.order]
        if hasattr(code, "get_logical_ops"):
            out.append(objs.mat(code.get_logical_ops()))
        out.append(sorted([str(u), str(v)] for u, v in code.graph.edges()))
        return out
    raise HarnessError(f"unknown spec {spec}")


NOISE = ["np", "py", "sympy", "np-draw", "py-draw", "sympy-draw", "unseeded-member", "unseeded-subset", "order", "unseeded-code", "seeded-other"]


def noise(node, kind, arg):
    """Activity of the same process that has nothing to do with the construction."""
    import sympy.core.random

    if kind == "np":
        np.random.seed(arg)
    elif kind == "py":
        random.seed(arg)
    elif kind == "sympy":
        sympy.core.random.seed(arg)
    elif kind == "np-draw":
        np.random.random(arg % 5 + 1)
    elif kind == "py-draw":
        random.random()
    elif kind == "sympy-draw":
        sympy.core.random.rng.random()
    elif kind == "unseeded-member":
        node.abstract.CyclicGroup(arg % 7 + 2).random()
    elif kind == "unseeded-subset":
        node.abstract.DihedralGroup(4).random_symmetric_subset(arg % 5 + 1)
    elif kind == "order":
        _ = node.abstract.SymmetricGroup(arg % 4 + 2).order
    elif kind == "unseeded-code":
        node.codes.SteaneCode().get_stabilizer_ops()
    elif kind == "seeded-other":
        node.abstract.CyclicGroup(9).random_symmetric_subset(3, seed=arg)
        node.codes.ClassicalCode.random(4, 2, seed=arg)


def compute(node, specs, order, noises, ambient, threads=1, actions=(), record=False, result=None):
    """Evaluate specs in a node: in this order, with this noise, on so many threads."""
    with sim.masked():
        random.seed(ambient)
        np.random.seed(ambient)
        import sympy.core.random

        sympy.core.random.seed(ambient)
    outputs: dict[int, object] = {}
    order = [i for i in order if i < len(specs)]  # minimisation drops specs
    s = sim.Sim(actions, budget=6_000_000, record=record)

    def body(part, noises):
        for position, i in enumerate(part):
            for where, kind, arg in noises:
                if where == position:
                    try:
                        noise(node, kind, arg)
                    except (KeyboardInterrupt, MemoryError) as err:
                        if "simulated" not in str(err):
                            raise
            while True:  # interrupts are finite: retry until done
                try:
                    value = evaluate(node, specs[i])
                    break
                except (KeyboardInterrupt, MemoryError) as err:
                    if "simulated" not in str(err):
                        raise
            outputs[i] = value

    for t in range(threads):
        part = [i for n, i in enumerate(order) if n % threads == t]
        mine = [x for n, x in enumerate(noises) if n % threads == t]
        s.spawn(lambda part=part, mine=mine: body(part, mine), node)
    s.run()
    if result is not None:
        result.steps += s.total
        result.faults.update(f"sched:{x}" for x in s.fired)
        for switch in s.switches:
            result.note("switch", *map(str, switch))
    return outputs, [t.trace for t in s.threads], s


def serve(argument):
    """In a peer process: digests of the specs."""
    w = world.World()
    w.truth = objs.truth()
    with w:
        node = sim.fresh("peer", argument["entropy"])
        out, _, _ = compute(node, argument["specs"], argument["order"], argument["noise"], argument["ambient"])
    return [[i, objs.sha(out[i])] for i in sorted(out)]


__all__ = ["Result"]
