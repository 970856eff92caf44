"""C17: groups, their representations, group algebras and matrices over them compute rightly, whatever happened before."""

from __future__ import annotations

import itertools
import json
import random

import galois
import numpy as np

from dst import algebra, objs, sim, world
from dst.core import Result, Violation

PROPERTY = "C17"
RUNS = {"quick": 1200, "thorough": 40000}
RULE = (
    "seeded plans: one to three groups (named, linear, products, from permutations, tables, matrices or GAP), group"
    " algebras over small fields, members of these and matrices of them, which one to three threads share, multiply, add,"
    " transpose, invert, lift, convert, reduce, or modify results of, with preemptions, interrupts, allocation failures and"
    " faults of GAP; non-trivial = an action fired, a fault struck, or several questions were asked; distinct by objects,"
    " questions and schedule"
)
REAL = ["qldpc.abstract", "qldpc.external.groups (generators, idempotents)", "qldpc.cache", "galois, numpy, sympy, scipy"]
STUB = ["GAP (small groups, idempotents computed by search)", "disk cache (simulated store)", "thread scheduler"]
ASSUMPTIONS = [
    "callers may modify lifts of group members that they were given, but no other arrays",
    "projective groups have dimension 2",
]
MAX_LIST = 150  # members of groups whose members are all asked for


def warm() -> None:
    world.install()
    sim.warm()


# ---------------------------------------------------------------------------------------------
# specs
# ---------------------------------------------------------------------------------------------


def random_perm(rng, size):
    p = list(range(size))
    rng.shuffle(p)
    return p


def mat_closure(q, mats, limit):
    """All products of matrices over GF(q) (or integers, for q = None)."""
    plus = galois.GF(q) if q else None

    def mul(a, b):
        a, b = np.array(a), np.array(b)
        return tuple(map(tuple, np.asarray(plus(a) @ plus(b) if q else a @ b).tolist()))

    start = [tuple(map(tuple, m)) for m in mats]
    found = set(start)
    todo = list(start)
    while todo:
        x = todo.pop()
        for g in start:
            y = mul(x, g)
            if y not in found:
                if len(found) >= limit:
                    return None
                found.add(y)
                todo.append(y)
    return found


def draw_mats(rng):
    while True:
        q = rng.choice([2, 2, 3, 4, 5, None])
        size = rng.choice([1, 2, 2, 3])
        mats = []
        for _ in range(rng.randint(1, 2)):
            if q is None:
                p = random_perm(rng, size)
                mats.append([[rng.choice([1, -1]) if p[i] == j else 0 for j in range(size)] for i in range(size)])
                continue
            while True:
                m = [[rng.randrange(q) for _ in range(size)] for _ in range(size)]
                if objs.rank(galois.GF(q), m) == size:
                    break
            mats.append(m)
        if len({json.dumps(m) for m in mats}) == len(mats) and mat_closure(q, mats, 40):
            return ["mats", q, mats]


def draw_group(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(
            [
                ["trivial"],
                *[["cyclic", n] for n in (1, 2, 3, 4, 5, 6, 7)],
                *[["abelian", o] for o in ([2, 2], [2, 3], [4, 2], [3, 3], [2, 2, 2], [1, 3], [2, 1, 2], [1, 1], [6], [5, 2])],
                *[["abelian-sum", o] for o in ([2, 3], [2, 2, 2], [1, 4], [3])],
                *[["dihedral", n] for n in (1, 2, 3, 4, 5, 6)],
                *[["alternating", n] for n in (1, 2, 3, 4, 5)],
                *[["symmetric", n] for n in (1, 2, 3, 4)],
                ["quaternion"],
                ["quaternion"],
            ]
        )
    if r < 0.64:
        return rng.choice(
            [["sl", 2, 2, True], ["sl", 2, 2, False], ["sl", 2, 3, True], ["sl", 2, 3, False], ["sl", 2, 4, True], ["sl", 2, 5, True]]
            + [["sl", 2, 4, False], ["psl", 2, 2, True], ["psl", 2, 2, False], ["psl", 2, 3, True], ["psl", 2, 3, False], ["psl", 2, 4, True], ["psl", 2, 5, True]]
        )
    if r < 0.72:
        return ["small", *rng.choice(list(objs.SMALL))]
    if r < 0.8:
        while True:
            spec = ["product", draw_group(rng), draw_group(rng)]
            if "psl" not in json.dumps(spec) and "sl" not in json.dumps(spec) and known_order(spec) <= 48:
                return spec
    if r < 0.87:
        while True:
            size = rng.randint(1, 6)
            gens = [random_perm(rng, size) for _ in range(rng.randint(1, 3))]
            if algebra.closure([tuple(g) for g in gens], 60):
                return ["perms", gens]
    if r < 0.94:
        # the table of a known group, with its elements renamed
        gens = rng.choice([[[1, 0]], [[1, 2, 0]], [[1, 2, 3, 0]], [[1, 0, 2], [1, 2, 0]], [[1, 0, 2, 3], [0, 1, 3, 2]], [[1, 2, 3, 0], [0, 3, 2, 1]], [[1, 2, 0, 3], [0, 2, 3, 1]]])
        members = sorted(algebra.closure([tuple(g) for g in gens]))
        rng.shuffle(members)
        where = {m: i for i, m in enumerate(members)}
        table = [[where[algebra.compose(a, b)] for b in members] for a in members]
        return ["table", table, rng.choice([None, "regular"])]
    return draw_mats(rng)


def known_order(spec):
    kind, *a = spec
    if kind == "twin":
        return known_order(a[0])
    if kind == "product":
        return known_order(a[0]) * known_order(a[1])
    if kind == "abelian-sum":
        return int(np.prod(a[0]))
    if kind == "perms":
        return len(algebra.closure([tuple(g) for g in a[0]]))
    if kind == "table":
        return len(a[0])
    if kind == "mats":
        return len(mat_closure(a[0], a[1], 10**4))
    if kind == "psl":
        order = objs._order_sl(a[0], a[1])
        return order // int(np.gcd(a[0], a[1] - 1))
    if kind == "sl" and a[0] == 1:
        return 1
    return objs.group_order(spec)


def build_group(node, spec):
    A = node.abstract
    kind, *a = spec
    if kind == "twin":
        # equal to another group, but plain: its members are listed as SymPy does, and it has the regular lift
        return A.Group(*build_group(node, a[0]).generators)
    if kind == "abelian-sum":
        return A.AbelianGroup(*a[0], direct_sum=True)
    if kind == "perms":
        return A.Group(*[A.GroupMember(g) for g in a[0]])
    if kind == "table":
        if a[1]:
            return A.Group.from_table(a[0], integer_lift=lambda i: table_lift(a[0], i))
        return A.Group.from_table(a[0])
    if kind == "mats":
        mats = [galois.GF(a[0])(m) if a[0] else np.array(m) for m in a[1]]
        return A.Group.from_generating_mats(*mats)
    if kind == "product":
        return build_group(node, a[0]) * build_group(node, a[1])
    return objs.build_group(node, spec)


def table_lift(table, i):
    """y -> i*y as a matrix."""
    out = np.zeros((len(table),) * 2, dtype=int)
    for y in range(len(table)):
        out[table[i][y], y] = 1
    return out


def lift_field(spec):
    """The order of the field that lifts are matrices over (None: 0s and 1s, over any field)."""
    kind, *a = spec
    if kind == "sl" or kind == "psl" and np.gcd(a[0], a[1] - 1) == 1 and a[2]:
        return a[1]
    if kind == "quaternion":
        return 3
    if kind == "mats":
        return a[0] or "int"
    if kind == "psl" and not a[2]:
        return a[1]
    return None


QUESTIONS = ["group"] * 3 + ["table", "lift", "lift", "regular", "retable", "product", "pieces"]
RING = ["ring"] * 6 + ["inverse"] * 3 + ["vector", "lifts", "lifts", "same"]
ARRAY = ["matmul"] * 3 + ["array-lift"] * 2 + ["fields"] * 2 + ["arith"] * 2 + ["null"] * 3 + ["reduce"] * 4 + ["refuse", "views", "build"]


def plan(rng, tier):
    groups = [draw_group(rng) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.2:
        groups[1:] = [["twin", groups[0]]]
    rings = []
    for g in range(len(groups)):
        field = lift_field(groups[g])
        rings.append([g, field if isinstance(field, int) and rng.random() < 0.6 else rng.choice([None, 2, 2, 3, 3, 4, 5, 8, 9])])
    if rng.random() < 0.3:
        rings.append([0, rng.choice([2, 3, 4, 16, 25])])
    out = {"groups": groups, "rings": rings, "threads": [], "faults": [], "actions": [], "entropy": rng.randrange(100), "_keep": ["groups", "rings"]}
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([2, 4, 6, 9])):
            r, s = rng.random(), rng.randrange(10**6)
            g, ring = rng.randrange(len(groups)), rng.randrange(len(rings))
            if r < 0.3:
                ops.append([rng.choice(QUESTIONS), g, s])
            elif r < 0.6:
                ops.append([rng.choice(RING), ring, s])
            elif r < 0.93:
                ops.append([rng.choice(ARRAY), ring, s])
            else:
                ops.append(["idempotents", ring, s])
        out["threads"].append(ops)
    if any(op[0] == "idempotents" for ops in out["threads"] for op in ops) and rng.random() < 0.7:
        sites = {"gap": world.GAP_FAULTS, "store.read": world.READ_FAULTS, "store.write": world.WRITE_FAULTS}
        for site in sites:
            sites[site] = [k for k in sites[site] if k != "crash"] or sites[site]
        out["faults"] = world.draw_faults(rng, sites, rng.choice([1, 2, 3]), 6)
    try:
        traces = run(dict(out, faults=[]), True)[1]
    except Exception:
        return out
    kinds = ["switch"] * 4 if len(out["threads"]) > 1 else []
    kinds += ["interrupt"] if rng.random() < 0.6 or not kinds else []
    looks = any(op[0] == "idempotents" for ops in out["threads"] for op in ops)
    kinds += ["memory"] if rng.random() < 0.3 and not looks else []
    out["actions"] = sim.choose_actions(rng, traces, rng.choice([0, 1, 2, 4]), kinds, bias=lambda s: "abstract.py" in s)
    return out


# ---------------------------------------------------------------------------------------------


def perm(member):
    return tuple(int(x) for x in member.array_form)


class Facts:
    """A group object that threads share, and what is true of it."""

    def __init__(self, node, spec):
        self.spec = spec
        self.group = build_group(node, spec)
        gens = [perm(g) for g in self.group.generators]
        self.gens = gens
        self.members = algebra.closure(gens, 5000)
        self.order = known_order(spec)
        self.listed = None

    def check_members(self):
        if self.members is None or len(self.members) != self.order:
            raise Violation("wrong-group", f"{self.spec} has {self.members and len(self.members)} members instead of {self.order}")

    def listing(self):
        """The order in which a fresh group lists its members."""
        if self.listed is None:
            self.listed = [perm(g) for g in self.group.generate()]
            if len(self.listed) != self.order or set(self.listed) != self.members:
                raise Violation("wrong-group", f"{self.spec} lists {len(self.listed)} members ({len(set(self.listed))} different ones) instead of {self.order}")
        return self.listed


class Session:
    def __init__(self, p, node, w, result):
        self.p, self.node, self.result = p, node, result
        self.A = node.abstract
        before, w.faults_on = w.faults_on, False
        self.facts = [Facts(node, spec) for spec in p["groups"]]
        w.faults_on = before
        for facts in self.facts:
            facts.check_members()
            facts.listing()
        self.rings, self.models, self.pool, self.arrays = [], [], [], []
        truth = w.truth
        for number, (g, q) in enumerate(p["rings"]):
            facts = self.facts[g]
            self.rings.append(self.A.GroupRing(facts.group, q) if q or number % 2 else self.A.GroupRing(facts.group))
            model = algebra.Ring(facts.listed, q or 2)
            self.models.append(model)
            rng = random.Random(p["entropy"] * 1000 + number)
            made = []
            for _ in range(4):
                x = model.random(rng, rng.choice([0, 0.1, 0.3, 0.6]) if facts.order > 12 else rng.choice([0.1, 0.4, 0.9]))
                made.append((self.member(number, x, rng), x))
            self.pool.append(made)
            self.arrays.append({})
            if facts.order % model.p and facts.order <= 24:
                found = model.central_idempotents()
                if found is not None:
                    text = "Group(" + ",".join(world.perm_string(algebra.cycles(x)) for x in facts.gens) + ")"
                    truth.idempotents[world.canonical(text), q or 2] = [
                        [(algebra.gap_coefficient(model.q, c), algebra.cycles(x)) for x, c in sorted(e.items())] for e in found
                    ]
        self.answers: list = []

    def bad(self, kind, text):
        raise Violation(kind, text)

    # -- converting ------------------------------------------------------------------------------

    def real(self, p):
        return self.A.GroupMember(list(p))

    def member(self, number, x, rng=None):
        """A ring member, from terms in some order, some of them split."""
        ring, model = self.rings[number], self.models[number]
        terms: list = []
        for g, c in x.items():
            g = self.real(g)
            if rng and rng.random() < 0.2:
                d = rng.randrange(model.q)
                terms += [(d, g), (model.field(int(model.minus[c, d])), g)]
            elif c == 1 and rng and rng.random() < 0.5:
                terms.append(g)
            else:
                terms.append((c, g))
        if rng:
            rng.shuffle(terms)
        return self.A.RingMember(ring, *terms)

    def value(self, number, x):
        """What a ring member is."""
        model = self.models[number]
        if type(x).__name__ != "RingMember":
            self.bad("wrong-type", f"a member of {self.p['rings'][number]} was expected, not {type(x)}")
        out: dict = {}
        for c, g in x:
            g = perm(g)
            out[g] = int(model.plus[out.get(g, 0), int(c)])
        out = model.clean(out)
        strange = [g for g in out if g not in self.facts[self.p["rings"][number][0]].members]
        if strange:
            self.bad("wrong-algebra", f"a member of {self.p['rings'][number]} has a term for {strange[0]}, which is not in the group")
        return out

    def expect(self, number, real, want, what):
        got = self.value(number, real)
        if got != want:
            spec = self.p["groups"][self.p["rings"][number][0]]
            self.bad("wrong-algebra", f"{what} over {json.dumps(spec)[:200]} and GF({self.models[number].q}): {show(got)} instead of {show(want)}")

    # -- groups ------------------------------------------------------------------------------------

    def perform(self, op):
        kind, index, s = op
        rng = random.Random(s)
        if kind in QUESTIONS:
            return getattr(self, "ask_" + kind)(self.facts[index], rng, op)
        if kind == "idempotents":
            return self.ask_idempotents(index, op)
        if kind in RING:
            return getattr(self, "ring_" + kind)(index, rng, op)
        return getattr(self, "array_" + kind.replace("-", "_"))(index, rng, op)

    def ask_group(self, facts, rng, op):
        group = facts.group
        order, abelian, listed = group.order, group.is_abelian, [perm(g) for g in group.generate()]
        outside = random_perm(rng, len(facts.gens[0]))
        inside = [perm_ in facts.members for perm_ in [tuple(outside)]]
        # (SymPy's alternating group on two points has members on one point, and its trivial groups have no members)
        contains = [self.real(outside) in group] if len(outside) > 1 and facts.order > 1 else inside
        identity = perm(group.identity)
        chosen = rng.choice(facts.listed)
        position = group.index(self.real(chosen))
        try:
            other = group.index(self.real(outside)) if len(outside) else 0
        except ValueError:
            other = None
        text = group.to_gap_group()
        gens = [perm(g) for g in group.generators]
        with sim.masked():
            commutes = all(algebra.compose(a, b) == algebra.compose(b, a) for a, b in itertools.product(facts.gens, repeat=2))
            want_other = facts.listed.index(tuple(outside)) if tuple(outside) in facts.members else None
            if len(outside) == 0:
                want_other = 0
            want_text = "Group(" + ",".join(world.perm_string(algebra.cycles(x)) for x in facts.gens) + ")"
            got = [order, bool(abelian), listed, contains, identity, position, other, text, gens]
            want = [facts.order, commutes, facts.listed, inside, tuple(range(len(facts.gens[0]))), facts.listed.index(chosen), want_other, want_text, facts.gens]
            names = ["order", "is_abelian", "generate", "contains", "identity", "index", "index", "to_gap_group", "generators"]
            for name, a, b in zip(names, got, want):
                if a != b:
                    self.bad("wrong-group", f"{name} of {facts.spec}: {str(a)[:200]} instead of {str(b)[:200]}")
            if list(map(tuple, group.hashable_generators())) != facts.gens:
                self.bad("wrong-group", f"hashable_generators of {facts.spec}")

    def ask_table(self, facts, rng, op):
        if facts.order > 60:
            return
        table = facts.group.table
        with sim.masked():
            where = {m: i for i, m in enumerate(facts.listed)}
            want = [[where[algebra.compose(a, b)] for b in facts.listed] for a in facts.listed]
            if objs.mat(table) != want:
                self.bad("wrong-group", f"the multiplication table of {facts.spec} is {objs.mat(table)}")

    def matrix(self, spec, value):
        q = lift_field(spec)
        out = np.asarray(value)
        if isinstance(q, int) and not isinstance(value, galois.GF(q)):
            if out.min(initial=0) < 0 or out.max(initial=0) >= q:
                self.bad("wrong-lift", f"a lift of {spec} has entries outside of GF({q})")
        return out.astype(int)

    def times(self, spec, a, b):
        q = lift_field(spec)
        return np.asarray(galois.GF(q)(a) @ galois.GF(q)(b)).astype(int) if isinstance(q, int) else a @ b

    def ask_lift(self, facts, rng, op):
        group, spec = facts.group, facts.spec
        a, b = rng.choice(facts.listed), rng.choice(facts.listed)
        ab = algebra.compose(a, b)
        dim = group.lift_dim
        real = [group.lift(self.real(x)) for x in (a, b, ab, facts.listed[0] if facts.listed[0] != a else a)]
        one = group.lift(group.identity)
        with sim.masked():
            la, lb, lab, other = [self.matrix(spec, x) for x in real]
            if la.shape != (dim, dim):
                self.bad("wrong-lift", f"lifts of {spec} are matrices of shape {la.shape}, but its lift dimension is {dim}")
            if not np.array_equal(self.times(spec, la, lb), lab):
                self.bad("wrong-lift", f"the lift of {a} * {b} in {json.dumps(spec)[:200]} is not the product of their lifts")
            if not np.array_equal(self.matrix(spec, one), np.eye(dim, dtype=int)):
                self.bad("wrong-lift", f"the identity of {spec} is lifted to {objs.mat(one)}")
            if facts.listed[0] != a and np.array_equal(la, other):
                self.bad("wrong-lift", f"different members of {spec} have the same lift")
            if spec[0] not in ("sl", "mats", "psl"):
                if not np.array_equal(self.times(spec, la, la.T), np.eye(dim, dtype=int)):
                    self.bad("wrong-lift", f"the lift of {a} in {spec} is not orthogonal")
            if spec[0] in ("sl", "psl") and lift_field(spec) and spec[3]:
                if dim != spec[1] or int(np.linalg.det(galois.GF(spec[2])(la))) != 1:
                    self.bad("wrong-lift", f"{a} in {spec} is lifted to {la.tolist()}")
            if spec[0] == "mats":
                mats = mat_closure(spec[1], spec[2], 10**4)
                if tuple(map(tuple, la.tolist())) not in mats:
                    self.bad("wrong-lift", f"{a} in {spec} is lifted to {la.tolist()}, which is not in the group of matrices")
            if spec[0] in ("cyclic", "abelian", "abelian-sum") and not self.check_shift(facts, a, la):
                self.bad("wrong-lift", f"{a} in {spec} is lifted to {la.tolist()}")
        if rng.random() < 0.5:
            self.scribble(real[0], group.lift, a, facts, la)

    def scribble(self, array, again, a, facts, want):
        """The caller writes into what it was given."""
        with sim.masked():
            if array.flags.writeable:
                array[...] = 0 if np.any(array) else 1
        value = again(self.real(a))
        with sim.masked():
            if not np.array_equal(self.matrix(facts.spec, value), want):
                self.bad("shared-answer", f"writing into the lift of {a} in {json.dumps(facts.spec)[:200]} changed later lifts of it")

    def check_shift(self, facts, a, la):
        """Lifts of products of cyclic groups are products (or sums) of shift matrices."""
        kind, orders = facts.spec
        orders = [orders] if kind == "cyclic" else orders
        starts = [sum(orders[:i]) for i in range(len(orders))]
        shifts = []
        for start, order in zip(starts, orders):
            m = np.zeros((order, order), dtype=int)
            for i in range(order):
                m[i, a[start + i] - start] = 1
            shifts.append(m)
        if kind == "abelian-sum":
            size = sum(orders)
            want = np.zeros((size, size), dtype=int)
            for start, m in zip(starts, shifts):
                want[start : start + len(m), start : start + len(m)] = m
        else:
            want = np.array([[1]])
            for m in shifts:
                want = np.kron(want, m)
        # (a shift matrix and its inverse are both representations, fixed by convention as rolling rows down)
        return np.array_equal(la, want) or np.array_equal(la, want.T)

    def ask_regular(self, facts, rng, op):
        if facts.order > 60:
            return
        a = rng.choice(facts.listed)
        real = facts.group.regular_lift(self.real(a))
        flat = self.real(a).to_matrix()
        with sim.masked():
            where = {m: i for i, m in enumerate(facts.listed)}
            want = np.zeros((facts.order,) * 2, dtype=int)
            for j, g in enumerate(facts.listed):
                want[where[algebra.compose(a, g)], j] = 1
            if not np.array_equal(real, want):
                self.bad("wrong-lift", f"the regular lift of {a} in {facts.spec}")
            if [list(row).index(1) for row in flat.tolist()] != list(a):
                self.bad("wrong-lift", f"the matrix of {a}")
        if rng.random() < 0.5:
            with sim.masked():
                real[...] = 0
            again = facts.group.regular_lift(self.real(a))
            with sim.masked():
                if not np.array_equal(again, want):
                    self.bad("shared-answer", f"writing into the regular lift of {a} in {json.dumps(facts.spec)[:200]} changed later ones")

    def ask_retable(self, facts, rng, op):
        """A group from the table of a group is that group."""
        if facts.order > 24:
            return
        with sim.masked():
            names = list(range(facts.order))
            rng.shuffle(names)
            where = {m: names[i] for i, m in enumerate(facts.listed)}
            table = [[0] * facts.order for _ in names]
            for a in facts.listed:
                for b in facts.listed:
                    table[where[a]][where[b]] = where[algebra.compose(a, b)]
        group = self.A.Group.from_table(table if rng.random() < 0.5 else np.array(table), integer_lift=lambda i: table_lift(table, i))
        order = group.order
        members = list(group.generate())
        with sim.masked():
            a, b = rng.choice(members), rng.choice(members)
        product, la, lb, lab = a * b, group.lift(a), group.lift(b), group.lift(a * b)
        with sim.masked():
            if order != facts.order or len(set(map(perm, members))) != order:
                self.bad("wrong-group", f"the group with the table {table} has order {order}")
            if perm(product) != algebra.compose(perm(a), perm(b)):
                self.bad("wrong-group", f"{perm(a)} * {perm(b)} is {perm(product)}")
            if not np.array_equal(la @ lb, lab):
                self.bad("wrong-lift", f"lifts of members of the group with the table {table} do not multiply as their members")

    def ask_product(self, facts, rng, op):
        with sim.masked():
            other = rng.choice(self.facts)
            if facts.order * other.order > 48:
                return
        power = rng.choice([0, 0, 1, 2])
        if power and facts.order**power <= 48:
            group = facts.group**power if rng.random() < 0.5 else self.A.Group.product(facts.group, repeat=power)
            wanted = [facts] * power
        else:
            group = facts.group * other.group
            wanted = [facts, other]
        listed = [perm(g) for g in group.generate()]
        with sim.masked():
            want = {()}
            for f in wanted:
                want = {x + tuple(v + len(x) for v in y) for x in want for y in f.members}
            if set(listed) != want or len(listed) != len(want) or group.order != len(want):
                self.bad("wrong-group", f"the direct product of {[f.spec for f in wanted]} has {len(set(listed))} members instead of {len(want)}")
            x, y = rng.choice(facts.listed), rng.choice(other.listed)
        both = self.real(x) @ self.real(y)
        with sim.masked():
            if perm(both) != x + tuple(v + len(x) for v in y):
                self.bad("wrong-group", f"{x} @ {y} is {perm(both)}")

    def ask_pieces(self, facts, rng, op):
        """Equal groups, and members as permutations."""
        with sim.masked():
            gens = [self.real(g) for g in facts.gens]
            fewer = [self.real(rng.choice(facts.listed))]
        same = self.A.Group(*gens)
        small = self.A.Group(*fewer)
        equal, unequal = facts.group == same, facts.group == small
        a, b = (self.real(rng.choice(facts.listed)) for _ in range(2))
        less = a < b if len(facts.gens[0]) else False
        with sim.masked():
            members = algebra.closure([perm(g) for g in fewer])
            # (SymPy tells groups apart by their generators)
            if not equal or unequal and members != facts.members:
                self.bad("wrong-group", f"{facts.spec} compares wrongly to the groups of {list(map(perm, gens))} and {list(map(perm, fewer))}")
            if len(facts.gens[0]) and less != (perm(a) != perm(b) and (b < a) is False):
                self.bad("wrong-group", f"{perm(a)} < {perm(b)} is {less}, and {perm(b)} < {perm(a)}")
            text = a.to_gap_cycles()
            if text != world.perm_string(algebra.cycles(perm(a))):
                self.bad("wrong-group", f"{perm(a)} is written as {text}")

    # -- members of group algebras -------------------------------------------------------------

    def operands(self, number, rng):
        return rng.choice(self.pool[number]), rng.choice(self.pool[number])

    def ring_ring(self, number, rng, op):
        model = self.models[number]
        (x, mx), (y, my) = self.operands(number, rng)
        what = rng.choice(["add", "add", "sub", "mul", "mul", "mul", "neg", "pow", "T", "int", "rint", "plus", "rplus", "minus", "gmul", "rgmul", "addg", "copy", "bool", "eq", "zero"])
        n = rng.randrange(-3, 6)
        g = rng.choice(model.members)
        real = self.real(g)
        if what == "add":
            got, want = x + y, model.add(mx, my)
        elif what == "sub":
            got, want = x - y, model.sub(mx, my)
        elif what == "mul":
            got, want = x * y, model.mul(mx, my)
        elif what == "neg":
            got, want = -x, model.neg(mx)
        elif what == "pow":
            n = rng.choice([0, 1, 2, 3])
            got, want = x**n, model.power(mx, n)
        elif what == "T":
            got, want = x.T, model.transpose(mx)
        elif what == "int":
            got, want = x * n, model.scale(mx, n)
        elif what == "rint":
            got, want = n * x, model.scale(mx, n)
        elif what == "plus":
            got, want = x + n, model.add(mx, model.scale(model.one(), n))
        elif what == "rplus":
            got, want = n + x, model.add(mx, model.scale(model.one(), n))
        elif what == "minus":
            got, want = x - n, model.sub(mx, model.scale(model.one(), n))
        elif what == "gmul":
            got, want = x * real, model.mul(mx, {g: 1})
        elif what == "rgmul":
            got, want = real * x, model.mul({g: 1}, mx)
        elif what == "addg":
            got, want = x + real if rng.random() < 0.5 else real + x, model.add(mx, {g: 1})
        elif what == "copy":
            got, want = x.copy(), mx
        elif what == "zero":
            ring = self.rings[number]
            got, want = (ring.zero, {}) if rng.random() < 0.5 else (ring.one, model.one())
        elif what == "bool":
            z = x - x if rng.random() < 0.5 else x
            truth = bool(z)
            with sim.masked():
                if truth != bool(self.value(number, z)):
                    self.bad("wrong-algebra", f"{show(self.value(number, z))} is taken for {'non' if truth else ''}zero")
            return
        else:
            z = self.member(number, mx, rng) if rng.random() < 0.5 else y
            answer = x == z
            with sim.masked():
                if answer != (mx == self.value(number, z)):
                    self.bad("wrong-algebra", f"comparing {show(mx)} with {show(self.value(number, z))} gives {answer}")
            return
        with sim.masked():
            self.expect(number, got, want, f"{what} of {show(mx)} and {show(my)} ({n}, {g})")
            if got.ring != self.rings[number]:
                self.bad("wrong-algebra", f"{what} gives a member of another ring")

    def ring_inverse(self, number, rng, op):
        model = self.models[number]
        if len(model.members) > 24:
            return
        with sim.masked():
            kind = rng.random()
            if kind < 0.3:
                mx = {rng.choice(model.members): rng.randrange(1, model.q)}
            elif kind < 0.9:
                mx = model.random(rng, rng.choice([0.2, 0.5, 0.8]))
            else:
                mx = rng.choice(self.pool[number])[1]
            # (zero terms may be present)
            x = self.member(number, mx, rng)
        got = x.inverse()
        with sim.masked():
            if (got is not None) != model.is_unit(mx):
                self.bad("wrong-algebra", f"{show(mx)} over {self.facts[self.p['rings'][number][0]].spec} and GF({model.q}) has {'no' if got is not None else 'an'} inverse, but {got and show(self.value(number, got))} was given")
            if got is not None:
                m = self.value(number, got)
                if model.mul(m, mx) != model.one() or model.mul(mx, m) != model.one():
                    self.bad("wrong-algebra", f"the inverse of {show(mx)} is given as {show(m)}")

    def ring_vector(self, number, rng, op):
        model = self.models[number]
        x, mx = rng.choice(self.pool[number])
        vector = x.to_vector()
        with sim.masked():
            given = np.array([rng.randrange(model.q) for _ in model.members], dtype=int)
            given = model.field(given) if rng.random() < 0.5 else given
        back = self.A.RingMember.from_vector(self.rings[number], given)
        with sim.masked():
            if objs.mat(vector) != model.vector(mx) or type(vector) is not model.field:
                self.bad("wrong-algebra", f"the vector of {show(mx)} is {objs.mat(vector)}")
            self.expect(number, back, model.from_vector(given), f"the member with the vector {objs.mat(given)}")

    def ring_lifts(self, number, rng, op):
        model, facts = self.models[number], self.facts[self.p["rings"][number][0]]
        (x, mx), (y, my) = self.operands(number, rng)
        q = lift_field(facts.spec)
        if q is None or q == model.q:
            lx, ly, lxy = x.lift(), y.lift(), (x * y).lift()
            with sim.masked():
                matrices = {g: self.matrix(facts.spec, facts.group.lift(self.real(g))) for g in {**mx, **my}}
                for l, m in ((lx, mx), (ly, my)):
                    if m and not np.array_equal(np.asarray(l).astype(int), model.lift(m, matrices)):
                        self.bad("wrong-lift", f"the lift of {show(m)} over {json.dumps(facts.spec)[:200]} and GF({model.q})")
                    if not m and np.any(l):
                        self.bad("wrong-lift", "zero is lifted to a nonzero matrix")
                if not np.array_equal(model.matmul(lx, ly), np.asarray(lxy).astype(int)):
                    self.bad("wrong-lift", f"the lift of a product is not the product of lifts over {json.dumps(facts.spec)[:200]} and GF({model.q})")
        if facts.order <= 24:
            regular, transposed = x.regular_lift(), x.T.regular_lift()
            with sim.masked():
                if not np.array_equal(np.asarray(regular).astype(int), model.regular(mx)):
                    self.bad("wrong-lift", f"the regular lift of {show(mx)} over {json.dumps(facts.spec)[:200]} and GF({model.q})")
                if not np.array_equal(np.asarray(transposed), np.asarray(regular).T):
                    self.bad("wrong-lift", f"the regular lift of the transpose of {show(mx)}")

    def ring_same(self, number, rng, op):
        g, q = self.p["rings"][number]
        facts, ring, model = self.facts[g], self.rings[number], self.models[number]
        other = rng.choice([2, 3, 4, 5, 7])
        same, different = self.A.GroupRing(facts.group, q), self.A.GroupRing(facts.group, other)
        answers = [ring == same, hash(ring) == hash(same), ring == different, ring.is_semisimple, bool(ring.is_abelian), ring.field.order]
        with sim.masked():
            abelian = all(algebra.compose(a, b) == algebra.compose(b, a) for a, b in itertools.product(facts.gens, repeat=2))
            want = [True, True, model.q == other, facts.order % model.p != 0, abelian, model.q]
            if answers != want:
                self.bad("wrong-algebra", f"the group algebra of {facts.spec} over GF({model.q}): {answers} instead of {want} (equal, hash, equal to that over GF({other}), semisimple, abelian, field)")

    def ask_idempotents(self, number, op):
        model, facts = self.models[number], self.facts[self.p["rings"][number][0]]
        if facts.order % model.p and (facts.order > 24 or model.q ** len(model.classes()) > 1500):
            return
        try:
            found = self.rings[number].get_primitive_central_idempotents()
        except ValueError:
            if facts.order % model.p == 0:
                return
            raise
        with sim.masked():
            if facts.order % model.p == 0:
                self.bad("no-refusal", f"primitive central idempotents of an algebra of {facts.spec} over GF({model.q}), which is not semisimple")
            want = sorted(sorted(e.items()) for e in model.central_idempotents())
            got = sorted(sorted(self.value(number, e).items()) for e in found)
            if got != want:
                self.bad("wrong-algebra", f"the primitive central idempotents of the algebra of {facts.spec} over GF({model.q}) are {got} instead of {want}")

    # -- matrices --------------------------------------------------------------------------------

    def random_array(self, number, rng, rows=None, cols=None, density=None):
        model = self.models[number]
        small = len(model.members) <= 8
        rows, cols = rows or rng.randint(1, 3 if small else 2), cols or rng.randint(1, 3 if small else 2)
        density = density or rng.choice([0.15, 0.4, 0.8]) * (1 if small else 0.4)
        structured = rng.random() < 0.4
        out = []
        for _ in range(rows):
            line = []
            for _ in range(cols):
                if structured and rng.random() < 0.6:
                    line.append(rng.choice([{}, model.one(), {rng.choice(model.members): rng.randrange(1, model.q)}, dict.fromkeys(model.members, 1)]))
                else:
                    line.append(model.random(rng, density))
            out.append(line)
        if rng.random() < 0.3 and rows > 1:  # dependent rows
            r = model.random(rng, density)
            out[rng.randrange(rows)] = [model.mul(r, x) for x in out[rng.randrange(rows)]]
        return out

    def make_array(self, number, m, rng):
        A, ring, model = self.A, self.rings[number], self.models[number]
        rows = [[self.member(number, x, rng) for x in row] for row in m]
        how = rng.randrange(4)
        if how == 0:
            return A.RingArray(rows)
        if how == 1:
            return A.RingArray.build(np.array(rows, dtype=object), ring)
        if how == 2:
            return A.RingArray.from_field_array(ring, np.array([[model.vector(x) for x in row] for row in m], dtype=int))
        return A.RingArray(np.array(rows, dtype=object), ring)

    def shared_array(self, number, rng):
        """One of the arrays that threads share."""
        with sim.masked():
            key = rng.randrange(3)
            if key not in self.arrays[number]:
                seed = random.Random(self.p["entropy"] * 77 + number * 7 + key)
                m = self.random_array(number, seed)
                self.arrays[number][key] = (self.make_array(number, m, seed), m)
            return self.arrays[number][key]

    def pick_array(self, number, rng, **kwargs):
        if rng.random() < 0.4 and not kwargs:
            return self.shared_array(number, rng)
        with sim.masked():
            m = self.random_array(number, rng, **kwargs)
            return self.make_array(number, m, rng), m

    def values(self, number, array):
        if type(array).__name__ != "RingArray":
            self.bad("wrong-type", f"a RingArray was expected, not {type(array)}")
        if array.ring != self.rings[number]:
            self.bad("wrong-algebra", f"an array over {self.p['rings'][number]} lost its ring")
        return [[self.value(number, x) for x in row] for row in np.asarray(array, dtype=object)]

    def expect_array(self, number, array, want, what):
        got = self.values(number, array)
        if got != want:
            spec = self.p["groups"][self.p["rings"][number][0]]
            self.bad("wrong-algebra", f"{what} over {json.dumps(spec)[:200]} and GF({self.models[number].q}): {[[show(x) for x in r] for r in got]} instead of {[[show(x) for x in r] for r in want]}")

    def array_matmul(self, number, rng, op):
        model = self.models[number]
        a, ma = self.pick_array(number, rng)
        b, mb = self.pick_array(number, rng, rows=len(ma[0]))
        got = a @ b
        with sim.masked():
            self.expect_array(number, got, model.mat_mul(ma, mb), "a product of matrices")

    def array_arith(self, number, rng, op):
        model = self.models[number]
        a, ma = self.pick_array(number, rng)
        b, mb = self.pick_array(number, rng, rows=len(ma), cols=len(ma[0]))
        what = rng.choice(["add", "sub", "scalar", "T", "T", "invert", "kron", "stack"])
        if what == "add":
            got, want = a + b, [[model.add(x, y) for x, y in zip(r, t)] for r, t in zip(ma, mb)]
        elif what == "sub":
            got, want = a - b, [[model.sub(x, y) for x, y in zip(r, t)] for r, t in zip(ma, mb)]
        elif what == "scalar":
            x, mx = rng.choice(self.pool[number])
            got, want = x * a, [[model.mul(mx, y) for y in r] for r in ma]
        elif what == "T":
            got, want = a.T, model.mat_T(ma)
        elif what == "invert":
            got, want = ~a, [[model.transpose(x) for x in r] for r in ma]
        elif what == "kron":
            got, want = np.kron(a, b), [[model.mul(x, y) for x in r for y in t] for r in ma for t in mb]
        else:
            got, want = np.vstack([a, b]), ma + mb
            with sim.masked():
                got = got.view(self.A.RingArray)
                self.values(number, got) == want or self.bad("wrong-algebra", "stacked matrices")
                return
        with sim.masked():
            self.expect_array(number, got, want, what)

    def array_array_lift(self, number, rng, op):
        model, facts = self.models[number], self.facts[self.p["rings"][number][0]]
        a, ma = self.pick_array(number, rng)
        q = lift_field(facts.spec)
        if q is None or q == model.q:
            lifted = a.lift()
            with sim.masked():
                matrices = {g: self.matrix(facts.spec, facts.group.lift(self.real(g))) for g in model.members} if facts.order <= 60 else None
                if matrices and not np.array_equal(np.asarray(lifted).astype(int), model.block(ma, lambda x: model.lift(x, matrices))):
                    self.bad("wrong-lift", f"the lift of a matrix over {json.dumps(facts.spec)[:200]} and GF({model.q})")
                if type(lifted) is not model.field:
                    self.bad("wrong-lift", f"a lifted matrix has the type {type(lifted)}")
        if facts.order <= 24:
            lifted = a.regular_lift()
            with sim.masked():
                if not np.array_equal(np.asarray(lifted).astype(int), model.block(ma, model.regular)):
                    self.bad("wrong-lift", f"the regular lift of a matrix over {json.dumps(facts.spec)[:200]} and GF({model.q})")

    def array_fields(self, number, rng, op):
        model, A, ring = self.models[number], self.A, self.rings[number]
        a, ma = self.pick_array(number, rng)
        field = a.to_field_array()
        with sim.masked():
            want = [[model.vector(x) for x in r] for r in ma]
            if objs.mat(field) != want:
                self.bad("wrong-algebra", f"a matrix is converted to {objs.mat(field)} instead of {want}")
            flat = np.array([rng.randrange(model.q) for _ in range(len(model.members) * rng.randint(1, 3))], dtype=int)
        vector = A.RingArray.from_field_vector(ring, flat)
        back = vector.to_field_vector()
        again = A.RingArray.from_field_array(ring, field)
        with sim.masked():
            size = len(model.members)
            self.expect_array(number, again, ma, "a matrix from its coefficients")
            got = [self.value(number, x) for x in np.asarray(vector, dtype=object)]
            if got != [model.from_vector(flat[i : i + size]) for i in range(0, len(flat), size)] or objs.mat(back) != objs.mat(flat):
                self.bad("wrong-algebra", f"a vector of coefficients {objs.mat(flat)} is converted to {[show(x) for x in got]} and back to {objs.mat(back)}")

    def array_null(self, number, rng, op):
        model, facts = self.models[number], self.facts[self.p["rings"][number][0]]
        if facts.order > 8:
            return
        a, ma = self.pick_array(number, rng)
        found = a.null_space()
        with sim.masked():
            rows = self.values(number, found)
            regular = model.block(ma, model.regular)
            nullity = regular.shape[1] - objs.rank(model.field, regular)
            for row in rows:
                if any(any(line) for line in model.mat_mul(ma, model.mat_T([row]))):
                    self.bad("wrong-algebra", f"a null vector of {[[show(x) for x in r] for r in ma]} is given as {[show(x) for x in row]}")
            size = objs.rank(model.field, model.left_span(rows)) if rows else 0
            if size != nullity:
                self.bad("wrong-algebra", f"the null space of {[[show(x) for x in r] for r in ma]} over {facts.spec} and GF({model.q}) has dimension {nullity} over the field, but {size} is found")
            self.check_reduced(number, rows, "a null space")

    def array_reduce(self, number, rng, op):
        model, facts = self.models[number], self.facts[self.p["rings"][number][0]]
        if facts.order > 8:
            return
        a, ma = self.pick_array(number, rng)
        found = a.row_reduce()
        with sim.masked():
            rows = self.values(number, found)
            before = model.left_span(ma)
            after = model.left_span(rows) if rows else np.zeros((0, before.shape[1]), dtype=int)
            text = f"{[[show(x) for x in r] for r in ma]} over {facts.spec} and GF({model.q})"
            if not objs.same_span(model.field, before, after):
                self.bad("wrong-algebra", f"reducing the rows of {text} changes the space that they span")
            self.check_reduced(number, rows, text)

    def check_reduced(self, number, rows, text):
        model = self.models[number]
        shown = [[show(x) for x in r] for r in rows]
        for i, row in enumerate(rows):
            if not any(row):
                self.bad("not-reduced", f"{text} is reduced to rows of which one is zero: {shown}")
            pivot = any(x == model.one() and not any(other[j] for k, other in enumerate(rows) if k != i) for j, x in enumerate(row))
            if not pivot and any(model.is_unit(x) for x in row):
                self.bad("not-reduced", f"{text} is reduced to {shown}, where a row has an invertible entry but no pivot")
            others = [r for k, r in enumerate(rows) if k != i]
            if others:
                span = model.left_span(others)
                flat = list(itertools.chain(*[model.vector(x) for x in row]))
                if objs.in_span(model.field, span, flat):
                    self.bad("not-reduced", f"{text} is reduced to {shown}, of which row {i} is a combination of the others")

    def array_refuse(self, number, rng, op):
        A = self.A
        a, _ = self.pick_array(number, rng)
        other = A.GroupRing(A.CyclicGroup(3), 7)
        b = A.RingArray([[other.one] * a.shape[0]] * a.shape[1])
        for attempt in (lambda: a @ b, lambda: np.kron(a, b), lambda: A.RingArray([[self.rings[number].one, other.one]]), lambda: A.RingArray([[1]]), lambda: A.RingArray([])):
            try:
                attempt()
            except ValueError:
                continue
            self.bad("no-refusal", f"matrices over different rings (or of no ring) are combined: {self.p['rings'][number]}")

    def array_views(self, number, rng, op):
        a, ma = self.pick_array(number, rng)
        row, col = rng.randrange(len(ma)), rng.randrange(len(ma[0]))
        part, column, copied = a[row : row + 1], a[:, col : col + 1], a.copy()
        with sim.masked():
            self.expect_array(number, part, [ma[row]], "a row of a matrix")
            self.expect_array(number, column, [[r[col]] for r in ma], "a column of a matrix")
            self.expect_array(number, copied, ma, "a copy of a matrix")
            copied[0, 0] = self.rings[number].zero + 1
            self.expect_array(number, a, ma, "a matrix of which a copy was changed")

    def array_build(self, number, rng, op):
        model, ring = self.models[number], self.rings[number]
        with sim.masked():
            data, want = [], []
            for _ in range(rng.randint(1, 2)):
                line, wanted = [], []
                for _ in range(2):
                    kind = rng.randrange(3)
                    if kind == 0:
                        v = rng.randrange(model.q)
                        line.append(v)
                        wanted.append({model.identity: v} if v else {})
                    elif kind == 1:
                        g = rng.choice(model.members)
                        line.append(self.real(g))
                        wanted.append({g: 1})
                    else:
                        x, mx = rng.choice(self.pool[number])
                        line.append(x)
                        wanted.append(mx)
                data.append(line)
                want.append(wanted)
            if not any(type(x).__name__ == "GroupMember" for line in data for x in line) or True:
                holder = np.empty((len(data), 2), dtype=object)
                for i, line in enumerate(data):
                    for j, x in enumerate(line):
                        holder[i, j] = x
        got = self.A.RingArray.build(holder, ring)
        with sim.masked():
            self.expect_array(number, got, want, "a matrix from integers, group members and ring members")

    # -- running ---------------------------------------------------------------------------------

    def body(self, ops):
        for op in ops:
            for _ in range(12):
                try:
                    self.perform(op)
                    break
                except (KeyboardInterrupt, MemoryError) as err:
                    if "simulated" not in str(err):
                        raise
                except Violation:
                    raise
                except Exception:
                    if not any(not k.startswith("sched:") for k in self.result.faults):
                        raise
                    self.result.probes["errors"] += 1
                    break

    def finish(self):
        for number, made in enumerate(self.pool):
            for real, model in made:
                self.expect(number, real, model, "a shared member that nobody changed")
            for array, m in self.arrays[number].values():
                self.expect_array(number, array, m, "a shared matrix that nobody changed")
        for facts in self.facts:
            self.ask_group(facts, random.Random(1), ["group", 0, 1])


def show(x):
    return " + ".join(f"{c}*{list(g)}" for g, c in sorted(x.items())) or "0"


def run(p, record=False):
    result = Result()
    w = world.World(p["faults"], result=result)
    w.truth = objs.truth()
    with w:
        node = sim.fresh("p", p["entropy"])
        session = Session(p, node, w, result)
        s = sim.Sim(p["actions"], budget=8_000_000, record=record)
        for ops in p["threads"]:
            s.spawn(lambda ops=ops: session.body(ops), node)
        s.run()
        w.faults_on = False
        if not record:
            session.finish()
            if p["faults"]:
                # once faults stop, idempotents are found
                before = dict(result.faults)
                result.faults.clear()
                for ops in p["threads"]:
                    for op in ops:
                        if op[0] == "idempotents":
                            session.node = node = sim.fresh("later", p["entropy"] + 1)
                            later = Session(p, node, w, result)
                            later.ask_idempotents(op[1], op)
                result.faults.update(before)
        result.steps = s.total
        result.faults.update(f"sched:{x}" for x in s.fired)
        for switch in s.switches:
            result.note("switch", *map(str, switch))
        for ops in p["threads"]:
            for op in ops:
                result.probes[op[0]] += 1
        for spec in p["groups"]:
            result.probes[f"group:{spec[0]}"] += 1
        result.nontrivial = bool(s.fired) or bool(result.faults) or sum(map(len, p["threads"])) > 1
        result.interleaving = objs.sha([p["groups"], p["rings"], p["threads"], p["faults"], [str(x) for x in s.switches]])
    return result, [t.trace for t in s.threads]


def execute(p):
    return run(p)[0]
