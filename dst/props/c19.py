"""C19: the families of codes are what their definitions say, with the parameters they advertise."""

from __future__ import annotations

import itertools
import math
import random

import galois
import networkx as nx
import numpy as np
import sympy

from dst import life, objs, sim, world
from dst.core import HarnessError, Result, Violation
from dst.props.c18 import Chains

PROPERTY = "C19"
RUNS = {"quick": 1300, "thorough": 40000}
RULE = (
    "seeded plans: one to three threads build codes of the parameterised families, share them, and ask for their checks,"
    " parameters, operators, layouts and equivalent forms, with preemptions, interrupts and allocation failures, against"
    " matrices built from the definitions; non-trivial = an action fired, or several questions were asked; distinct by codes,"
    " questions and schedule"
)
REAL = ["qldpc.codes.classical", "qldpc.codes.quantum", "qldpc.codes.common", "qldpc.abstract", "qldpc.objects", "galois, numpy, networkx, sympy"]
STUB = ["thread scheduler"]
ASSUMPTIONS = ["callers do not modify the arrays they are given"]


def warm() -> None:
    world.install()
    sim.warm()
    for bits in (3, 7):
        galois.ReedSolomon(bits, 1)
    galois.BCH(7, 4)
    galois.BCH(8, 3, field=galois.GF(3))


# ---------------------------------------------------------------------------------------------
# plans
# ---------------------------------------------------------------------------------------------

BCH = [[3, 1, 2], [7, 1, 2], [7, 4, 2], [7, 7, 2], [15, 1, 2], [15, 5, 2], [15, 7, 2], [15, 11, 2], [8, 3, 3]]


def draw_classical(rng):
    kind = rng.choice(["repetition", "ring", "hamming", "ext_hamming", "rm", "rm", "rs", "bch", "simplex", "tanner"])
    q = rng.choice([2, 2, 2, 3, 4, 5, 7])
    if kind in ("repetition", "ring"):
        return [kind, rng.randint(1, 8), q]
    if kind == "hamming":
        return [kind, rng.randint(1, {2: 4, 3: 3}.get(q, 2)), q]
    if kind == "ext_hamming":
        return [kind, rng.randint(1, 4)]
    if kind == "rm":
        size = rng.randint(0, 4 if q == 2 else 3)
        return [kind, rng.randint(0, size), size, rng.choice([2, 2, 3, 4])]
    if kind == "rs":
        bits = rng.choice([3, 3, 7])
        return [kind, bits, rng.randint(1, bits if bits == 3 else 3)]
    if kind == "bch":
        return [kind, *rng.choice(BCH)]
    if kind == "simplex":
        return [kind, rng.randint(2, 5)]
    return draw_tanner(rng)


def draw_tanner(rng):
    """[tanner, q, subcode, sources, {source: [[sink, label or None]]}]: every source has as many edges as the subcode has bits."""
    q = rng.choice([2, 2, 3, 4])
    degree, sources = rng.randint(1, 4), rng.randint(1, 4)
    sinks = rng.randint(degree, degree + 4)
    labelled = rng.random() < 0.6
    edges = []
    for source in range(sources):
        near = rng.sample(range(sinks), degree)
        labels = rng.sample(range(20), degree) if labelled else [None] * degree
        edges.append([[sink, label] for sink, label in zip(near, labels)])
    return ["tanner", q, life.random_matrix(rng, q, rng.randint(1, degree), degree), edges, rng.randrange(10**6)]


def draw_poly(rng, q, names, terms, spread, negative):
    """A polynomial: [[coefficient, exponents]]."""
    out = {}
    for _ in range(terms):
        exponents = tuple(rng.randint(-spread if negative else 0, spread) for _ in names)
        out[exponents] = rng.randrange(1, q) * rng.choice([1, 1, 1, -1] if q > 2 else [1])
    return [[c, list(e)] for e, c in out.items()]


def draw_qc(rng, kind):
    q = rng.choice([2, 2, 2, 3, 4]) if kind == "qc" else rng.choice([2, 2, 2, 2, 3])
    while True:
        if kind == "bb":
            orders = [rng.randint(1, 6), rng.randint(1, 6)]
            names = rng.choice(["xy", "xy", "yx", "ab", "zy"])
            limit = 30
        else:
            count = rng.choice([1, 1, 2, 3])
            orders = [rng.randint(1, 4 if count > 1 else 9) for _ in range(count)]
            names = "".join(rng.sample(rng.choice(["xyz", "abc", "xyzuvw"]), rng.choice([count, count, max(1, count - 1)])))
            limit = 18
        if 1 <= math.prod(orders) <= limit:
            break
    a, b = (draw_poly(rng, q, names, rng.choice([1, 2, 2, 3, 3]), 4, rng.random() < 0.3) for _ in range(2))
    for poly in (a, b):  # polynomials have a variable
        if not any(any(e) for _, e in poly):
            poly[-1][1][0] = 1
    if kind == "bb" and rng.random() < 0.7 and min(len(a), len(b)) > 1 and any(a[1][1]) and any(b[1][1]):  # some with toric layouts
        a[0], b[0] = [1, [0, 0]], [1, [0, 0]]
        a, b = ([t for i, t in enumerate(p) if t[1] not in [u[1] for u in p[:i]]] for p in (a, b))
    if kind == "bb" and rng.random() < 0.15:  # and some with a single term
        a, b = [[1, [rng.randint(0, 3), rng.randint(0, 3)]]], [[1, [0, 0]], [1, [1, 0]], [1, [0, 1]]]
        if not any(a[0][1]):
            a[0][1][0] = 1
        a, b = rng.sample([a, b], 2)
    return [kind, q, orders, names, a, b, rng.choice(["list", "dict", "shuffled"])]


RINGS = [["cyclic", 1], ["cyclic", 2], ["cyclic", 3], ["cyclic", 4], ["abelian", [2, 2]], ["abelian", [2, 3]]]
OTHERS = [["symmetric", 3], ["dihedral", 4], ["quaternion"]]


def draw_lp(rng, kind):
    q = rng.choice([2, 2, 3, 4])
    group = rng.choice(OTHERS) if rng.random() < 0.2 else rng.choice(RINGS)
    q = 3 if group == ["quaternion"] else q  # its representation is one over GF(3)
    order = objs.group_order(group)
    budget = 26

    def entry():
        return [[rng.randrange(1, q), rng.randrange(order)] for _ in range(rng.choice([0, 1, 1, 2]))]

    while True:
        (ra, ca), (rb, cb) = (rng.randint(1, 2), rng.randint(1, 3)), (rng.randint(1, 2), rng.randint(1, 3))
        if order * ((ca * cb) + (ra * rb if kind == "lp" else 0)) <= budget:
            break
    a = [[entry() for _ in range(ca)] for _ in range(ra)]
    b = None if rng.random() < 0.3 and order * (ca * ca + ra * ra) <= budget else [[entry() for _ in range(cb)] for _ in range(rb)]
    return [kind, q, group, a, b]


def draw_quantum(rng):
    kind = rng.choice(
        ["five", "steane", "iceberg", "c4", "c6", "tb", "qc", "qc", "bb", "bb", "bb", "hgp", "hgp", "shp", "lp", "lp", "slp", "surface", "surface", "toric", "toric", "gsurface", "bacon", "shyps"]
    )
    q = rng.choice([2, 2, 2, 3, 4, 5])
    if kind in ("five", "steane", "c4", "c6"):
        return [kind]
    if kind == "iceberg":
        return [kind, rng.randint(1, 5), rng.random() < 0.4]
    if kind == "tb":
        n = rng.randint(1, 4)
        a = life.random_matrix(rng, q, n, n)
        if rng.random() < 0.25:
            return [kind, q, a, life.random_matrix(rng, q, n, n)]
        f = galois.GF(q)
        m = f(np.array(a))
        b = f.Zeros((n, n))
        for power in range(3):
            term = f(np.eye(n, dtype=int))
            for _ in range(power):
                term = term @ m
            b = b + f(rng.randrange(q)) * term
        return [kind, q, a, objs.mat(b)]
    if kind in ("qc", "bb"):
        return draw_qc(rng, kind)
    if kind in ("hgp", "shp"):
        while True:
            sizes = [(rng.randint(1, 3), rng.randint(1, 4)) for _ in range(2)]
            if sizes[0][1] * sizes[1][1] <= 12:
                break
        mats = [life.random_matrix(rng, q, *s) for s in sizes]
        return [kind, q, mats[0], mats[1] if rng.random() < 0.7 or sizes[0][1] > 3 else None, rng.random() < 0.7]
    if kind in ("lp", "slp"):
        return draw_lp(rng, kind)
    if kind == "surface":
        rotated = rng.random() < 0.6
        return [kind, rng.randint(1, 4 if rotated else 3), rng.choice([None, rng.randint(1, 4 if rotated else 3)]), q, rotated]
    if kind == "toric":
        rotated = rng.random() < 0.5
        if rotated:
            return [kind, rng.choice([2, 4]), rng.choice([None, 2, 4, 6]) if q == 2 else rng.choice([2, 4]), q, True]
        return [kind, rng.randint(1, 3), rng.choice([None, rng.randint(1, 4)]), q, False]
    if kind == "gsurface":
        size, dim = rng.choice([(1, 2), (2, 2), (3, 2), (2, 3), (1, 3), (2, 2)])
        return [kind, size, dim, rng.choice([2, 2, 3]), rng.random() < 0.4]
    if kind == "bacon":
        return [kind, rng.randint(1, 4), rng.choice([None, rng.randint(1, 3)]), q]
    return ["shyps", 2, rng.choice([None, 2])] if rng.random() < 0.8 else ["shyps", rng.choice([2, 3]), rng.choice([2, 3])]


CLASSICAL = [["rank"], ["dimension"], ["distance"], ["params"], ["generator"], ["dual"], ["contains", 3], ["contains", 4], ["canonicalized"], ["word", 1], ["bound"], ["words", True]]
QUANTUM = [
    *[["rank"], ["dimension"], ["gauge-dimension"], ["distance"], ["distance"], ["params"], ["canonicalized"], ["logical", None], ["logical", "X"], ["logical", "Z"]],
    *[["stabilizer", None, False], ["stabilizer", None, True], ["stabilizer", "X", False], ["stabilizer", "Z", True], ["gauge", None]],
]
CSS = [["distance", "X"], ["distance", "Z"], ["bound"], ["gauge", None]]


def plan(rng, tier):
    out = {
        "codes": [draw_quantum(rng) if rng.random() < 0.68 else draw_classical(rng) for _ in range(rng.choice([1, 2, 2, 3]))],
        "threads": [],
        "actions": [],
        "entropy": rng.randrange(100),
        "_keep": ["codes"],
    }
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([2, 4, 6, 8])):
            number = rng.randrange(len(out["codes"]))
            kind = rng.choice(["ask", "ask", "ask", "checks", "own", "own", "again", "refuse", "default"])
            if kind == "ask":
                classical = out["codes"][number][0] in ("repetition", "ring", "hamming", "ext_hamming", "rm", "rs", "bch", "simplex", "tanner")
                options = CLASSICAL if classical else QUANTUM + (CSS if out["codes"][number][0] != "five" else [])
                ops.append([kind, number, rng.choice(options)])
            else:
                ops.append([kind, number, rng.randrange(10**6)])
        out["threads"].append(ops)
    try:
        traces = run(out, True)[1]
    except Exception:
        return out
    kinds = ["switch"] * 4 if len(out["threads"]) > 1 else []
    kinds += ["interrupt"] if rng.random() < 0.6 or not kinds else []
    kinds += ["memory"] if rng.random() < 0.4 else []
    out["actions"] = sim.choose_actions(rng, traces, rng.choice([0, 1, 2, 4]), kinds, bias=lambda s: "codes/quantum.py" in s or "codes/classical.py" in s)
    return out


# ---------------------------------------------------------------------------------------------
# what the definitions say
# ---------------------------------------------------------------------------------------------


def shift(n, k=1):
    """The matrix of x -> x + k, which takes row a to column a + k."""
    m = np.zeros((n, n), dtype=int)
    for a in range(n):
        m[a, (a + k) % n] = 1
    return m


def kron(*ms):
    out = np.eye(1, dtype=int)
    for m in ms:
        out = np.kron(out, m)
    return out


class Reference:
    """Checks of a code by its definition (`exact`: up to nothing), and the parameters it should have."""

    def __init__(self, spec, matrix, q, kind, exact=False, subsystem=False, **facts):
        self.spec, self.q, self.kind, self.exact, self.subsystem, self.facts = spec, q, kind, exact, subsystem, facts
        self.matrix = np.asarray(matrix, dtype=int)
        self.truth = life.Truth(self.matrix, q, kind, subsystem)


def full(mx, mz):
    mx, mz = (np.asarray(m, dtype=int) for m in (mx, mz))
    return np.block([[mx, np.zeros((len(mx), mz.shape[1]), dtype=int)], [np.zeros((len(mz), mx.shape[1]), dtype=int), mz]])


def chain_matrix(n, q, ring):
    f = galois.GF(q)
    m = np.asarray(f(np.eye(n, dtype=int)) - f(shift(n)), dtype=int)
    return m if ring else m[:-1]


def hypergraph(q, ha, hb):
    f = galois.GF(q)
    ha, hb = (np.asarray(h, dtype=int) for h in (ha, hb))
    eye = lambda n: np.eye(n, dtype=int)
    minus = lambda m: np.asarray(-f(m), dtype=int)
    mx = np.hstack([np.kron(ha, eye(hb.shape[1])), np.kron(eye(len(ha)), hb.T)])
    mz = np.hstack([minus(np.kron(eye(ha.shape[1]), hb)), np.kron(ha.T, eye(len(hb)))])
    return mx, mz


def poly_matrix(q, orders, exponents_of, poly):
    """A polynomial of shifts as a matrix."""
    f = galois.GF(q)
    m = f.Zeros((math.prod(orders),) * 2)
    for c, e in poly:
        scalar = f(c) if c >= 0 else -f(-c)
        m = m + scalar * f(kron(*[shift(o, x) for o, x in zip(orders, exponents_of(e))]))
    return np.asarray(m, dtype=int)


def layout(spec):
    """The symbols in the order of the cyclic groups, with orders, and the exponents of a term in that order."""
    _, q, orders, names, a, b, form = spec
    used = sorted({names[i] for poly in (a, b) for _, e in poly for i, x in enumerate(e) if x})
    if form == "list":
        return used, lambda e: [e[names.index(used[i])] if i < len(used) else 0 for i in range(len(orders))]
    listed = list(names) if form == "dict" else list(reversed(names))
    if len(listed) < len(orders):
        listed = [*listed, *[f"p{i}" for i in range(len(orders) - len(listed))]]
    return listed, lambda e: [e[names.index(s)] if s in names else 0 for s in listed]


def muller(order, size):
    """Words of a basis of the Reed-Muller code: |u|u+v|."""
    if order == 0:
        return np.ones((1, 2**size), dtype=int)
    if order == size:
        return np.eye(2**size, dtype=int)
    u, v = muller(order, size - 1), muller(order - 1, size - 1)
    return np.vstack([np.hstack([u, u]), np.hstack([0 * v, v])])


def reference(node, spec):
    """None for codes that must be refused."""
    kind, *a = spec
    if kind in ("repetition", "ring"):
        return Reference(spec, chain_matrix(a[0], a[1], kind == "ring"), a[1], "classical", n=a[0], k=1, d=a[0])
    if kind in ("hamming", "ext_hamming"):
        q = a[1] if kind == "hamming" else 2
        columns = [v for v in itertools.product(range(q), repeat=a[0]) if any(v) and next(x for x in v if x) == 1]
        m = np.array(columns, dtype=int).T
        if kind == "ext_hamming":
            m = np.vstack([np.ones((1, m.shape[1] + 1), dtype=int), np.hstack([np.zeros((len(m), 1), dtype=int), m])])
        k = m.shape[1] - len(m)
        return Reference(spec, m, q, "classical", columns=True, n=m.shape[1], k=k, d=(3 if kind == "hamming" else 4) if k else "nan")
    if kind == "rm":
        order, size, q = a
        words = muller(order, size)
        f = galois.GF(q)
        return Reference(spec, np.asarray(objs.null_space(f, words), dtype=int).reshape(-1, 2**size), q, "classical", n=2**size, k=sum(math.comb(size, i) for i in range(order + 1)), d=2 ** (size - order))
    if kind in ("rs", "bch", "simplex"):
        return None
    if kind == "tanner":
        q, sub, edges, seed = a
        sinks = sorted({sink for near in edges for sink, _ in near})
        rows = []
        for near in edges:
            near = sorted(near, key=lambda x: x[0] if x[1] is None else x[1])
            for check in sub:
                row = [0] * len(sinks)
                for (sink, _), value in zip(near, check):
                    row[sinks.index(sink)] = value
                rows.append(row)
        return Reference(spec, np.array(rows, dtype=int), q, "classical", exact=True, n=len(sinks))
    if kind == "five":
        words = ["XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"]
        m = [[int(c == "X") for c in w] + [int(c == "Z") for c in w] for w in words]
        return Reference(spec, m, 2, "qudit", n=5, k=1, d=3)
    if kind == "steane":
        h = np.array([[1, 0, 1, 0, 1, 0, 1], [0, 1, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]])
        return Reference(spec, full(h, h), 2, "css", n=7, k=1, d=3, dx=3, dz=3)
    if kind in ("iceberg", "c4"):
        m = a[0] if a else 2
        h = np.ones((1, 2 * m), dtype=int)
        d = 2 if m > 1 else "nan"
        return Reference(spec, full(h, h), 2, "css", n=2 * m, k=2 * m - 2, d=d, dx=d, dz=d)
    if kind == "c6":
        h = np.array([[1, 1, 0, 0, 1, 1], [0, 1, 1, 1, 1, 0]])
        return Reference(spec, full(h, h), 2, "css", n=6, k=2, d=2, dx=2, dz=2)
    if kind == "tb":
        f = galois.GF(a[0])
        ma, mb = f(np.array(a[1])), f(np.array(a[2]))
        if np.any(ma @ mb - mb @ ma):
            return None
        return Reference(spec, full(np.hstack([ma, mb]), np.hstack([mb.T, -ma.T])), a[0], "css", exact=True, n=2 * len(a[1]))
    if kind in ("qc", "bb"):
        q, orders = a[:2]
        f = galois.GF(q)
        _, place = layout(spec)
        ma, mb = (f(poly_matrix(q, orders, place, poly)) for poly in a[3:5])
        return Reference(spec, full(np.hstack([ma, mb]), np.hstack([mb.T, -ma.T])), q, "css", exact=True, n=2 * len(ma))
    if kind in ("hgp", "shp"):
        q, ha, hb = a[:3]
        hb = ha if hb is None else hb
        ta, tb = (life.Truth(h, q, "classical") for h in (ha, hb))
        if kind == "hgp":
            f = galois.GF(q)
            ra, rb = len(ha) - ta.rank, len(hb) - tb.rank
            return Reference(spec, full(*hypergraph(q, ha, hb)), q, "css", exact=True, n=ta.n * tb.n + len(ha) * len(hb), k=ta.k * tb.k + ra * rb)
        mx, mz = np.kron(ha, np.eye(tb.n, dtype=int)), np.kron(np.eye(ta.n, dtype=int), hb)
        d = [t.distance() for t in (ta, tb)]
        facts = {"k": ta.k * tb.k}
        if ta.k and tb.k and None not in d:
            facts |= {"d": min(d), "dx": d[1], "dz": d[0]}
        return Reference(spec, full(mx, mz), q, "css", exact=True, subsystem=True, n=ta.n * tb.n, **facts)
    if kind in ("lp", "slp"):
        q, group, ea, eb = a
        f = galois.GF(q)
        real = objs.build_group(node, group)
        lifts = [np.asarray(real.lift(g), dtype=int) for g in real.generate()]
        dim = len(lifts[0])

        def lift(entries):
            out = np.zeros((len(entries) * dim, len(entries[0]) * dim), dtype=int)
            for i, row in enumerate(entries):
                for j, entry in enumerate(row):
                    block = f.Zeros((dim, dim))
                    for c, g in entry:
                        block = block + f(c) * f(lifts[g])
                    out[i * dim : (i + 1) * dim, j * dim : (j + 1) * dim] = block
            return out

        def dual(entries):
            return [[[[c, inverse[g]] for c, g in entries[i][j]] for i in range(len(entries))] for j in range(len(entries[0]))]

        listed = list(real.generate())
        inverse = [listed.index(~g) for g in listed]
        eb = ea if eb is None else eb
        (ra, ca), (rb, cb) = ((len(e), len(e[0])) for e in (ea, eb))
        outer = lambda n, m: [[[[1, 0]] if i == j else [] for j in range(m)] for i in range(n)]
        identity = next(i for i, g in enumerate(listed) if not any(x != y for x, y in enumerate(g.array_form)))

        def times(left, right):
            """Kronecker product, one factor of which is an identity matrix."""
            rows, cols = len(left) * len(right), len(left[0]) * len(right[0])
            out = [[[] for _ in range(cols)] for _ in range(rows)]
            for i, j in itertools.product(range(len(left)), range(len(left[0]))):
                for x, y in itertools.product(range(len(right)), range(len(right[0]))):
                    u, v = left[i][j], right[x][y]
                    out[i * len(right) + x][j * len(right[0]) + y] = [] if u is None or v is None else v if u == "one" else u
            return out

        eye = lambda n: [["one" if i == j else None for j in range(n)] for i in range(n)]
        fix = lambda m: [[x if x is not None else [] for x in row] for row in m]

        def product(left, right):
            out = times(left, right)
            for row in out:
                for j, x in enumerate(row):
                    if x == "one":
                        row[j] = [[1, identity]]
            return lift(fix(out))

        del outer
        if kind == "slp":
            return Reference(spec, full(product(ea, eye(cb)), product(eye(ca), eb)), q, "css", exact=True, subsystem=True, n=dim * ca * cb)
        mx = np.hstack([product(ea, eye(cb)), product(eye(ra), dual(eb))])
        mz = np.hstack([np.asarray(-f(product(eye(ca), eb)), dtype=int), product(dual(ea), eye(rb))])
        if np.any(f(mx) @ f(mz).T):
            return None
        return Reference(spec, full(mx, mz), q, "css", exact=True, n=dim * (ca * cb + ra * rb))
    if kind in ("surface", "toric"):
        rows, cols, q, rotated = a
        cols = rows if cols is None else cols
        facts = {"k": 1, "dx": cols, "dz": rows, "d": min(rows, cols)} if kind == "surface" else {"k": 2, **dict.fromkeys(("d", "dx", "dz"), min(rows, cols))}
        if not rotated:
            h = [chain_matrix(n, q, kind == "toric") for n in (rows, cols)]
            mx, mz = hypergraph(q, *h)
            return Reference(spec, full(mx, mz), q, "css", exact=True, n=mx.shape[1], **facts)
        mx, mz = rotated_checks(rows, cols, q, kind == "toric")
        return Reference(spec, full(mx, mz), q, "css", n=rows * cols, **facts)
    if kind == "gsurface":
        size, dim, q, periodic = a
        h = chain_matrix(size, q, periodic)
        chains = Chains(q)
        total = [len(h), size], [h.tolist()]
        link = [size, len(h)], [h.T.tolist()]
        for _ in range(dim - 1):
            total = chains.product(total, link)
        dims, ops = total
        mx = np.array(ops[0], dtype=int).reshape(dims[0], dims[1])
        mz = np.array(ops[1], dtype=int).reshape(dims[1], dims[2]).T
        return Reference(spec, full(mx, mz), q, "css", same_up_to_order=True, n=dims[1], k=dim if periodic else 1, dx=size ** (dim - 1), dz=size, d=size)
    if kind == "bacon":
        rows, cols, q = a
        cols = rows if cols is None else cols
        ha, hb = chain_matrix(rows, q, False), chain_matrix(cols, q, False)
        mx, mz = np.kron(ha, np.eye(cols, dtype=int)), np.kron(np.eye(rows, dtype=int), hb)
        return Reference(spec, full(mx, mz), q, "css", subsystem=True, n=rows * cols, k=1, dx=cols, dz=rows, d=min(rows, cols))
    if kind == "shyps":
        return None
    raise HarnessError(f"unknown code {spec}")


def rotated_checks(rows, cols, q, periodic):
    """Tiles of a chessboard whose upper left tile, which has its corner in the corner of the board, is of type X."""
    f = galois.GF(q)
    checks = {"X": [], "Z": []}
    for r, c in itertools.product(range(rows) if periodic else range(-1, rows), range(cols) if periodic else range(-1, cols)):
        kind = "X" if (r - c) % 2 == 0 else "Z"
        corners = [(r + i, c + j) for i in (0, 1) for j in (0, 1)]
        if periodic:
            corners = [(i % rows, j % cols) for i, j in corners]
        else:
            corners = [(i, j) for i, j in corners if 0 <= i < rows and 0 <= j < cols]
            top, side = r in (-1, rows - 1), c in (-1, cols - 1)
            if len(corners) == 1 or top and side or top and kind == "X" or side and kind == "Z":
                continue
        row = f.Zeros(rows * cols)
        for i, j in corners:
            row[i * cols + j] = -f(1) if kind == "Z" and (i + j) % 2 else f(1)
        checks[kind].append(np.asarray(row, dtype=int))
    return tuple(np.array(checks[k], dtype=int).reshape(-1, rows * cols) for k in "XZ")


# ---------------------------------------------------------------------------------------------
# histories
# ---------------------------------------------------------------------------------------------


def expression(names, poly):
    symbols = [sympy.Symbol(s) for s in names]
    out = sympy.Integer(0)
    for c, e in poly:
        term = sympy.Integer(c)
        for s, x in zip(symbols, e):
            term *= s**x
        out += term
    return out


class Session:
    def __init__(self, p, node, result):
        self.p, self.node, self.result = p, node, result
        self.A, self.O, self.C = node.abstract, node.objects, node.codes
        self.references = [reference(node, spec) for spec in p["codes"]]
        self.codes = [self.made(spec, ref) for spec, ref in zip(p["codes"], self.references)]
        for number, (spec, code, ref) in enumerate(zip(p["codes"], self.codes, self.references)):
            if ref is None and code is not None:
                self.references[number] = self.measure(spec, code)

    def bad(self, kind, text):
        raise Violation(kind, text)

    # -- building ------------------------------------------------------------------------------

    def made(self, spec, ref):
        """The code; None if it was refused, which must be right."""
        refused = ref is None and spec[0] in ("tb", "lp") or self.too_few(spec)
        try:
            code = self.build(spec)
        except ValueError as err:
            if not refused:
                self.bad("wrong-refusal", f"{spec} was refused: {err}")
            return None
        if refused:
            self.bad("no-refusal", f"{spec} was accepted")
        return code

    def too_few(self, spec):
        if spec[0] == "bb":
            return len({spec[3][i] for poly in spec[4:6] for _, e in poly for i, x in enumerate(e) if x}) != 2
        return False

    def symbols(self, spec):
        _, q, orders, names, a, b, form = spec
        if form == "list":
            return list(orders) if len(orders) % 2 else tuple(orders)
        listed, _ = layout(spec)
        return {sympy.Symbol(s): o for s, o in zip(listed, orders)}

    def build(self, spec):
        C = self.C
        kind, *a = spec
        if kind == "repetition":
            return C.RepetitionCode(a[0], a[1])
        if kind == "ring":
            return C.RingCode(a[0], a[1])
        if kind == "hamming":
            return C.HammingCode(a[0], a[1])
        if kind == "ext_hamming":
            return C.ExtendedHammingCode(a[0])
        if kind == "rm":
            return C.ReedMullerCode(*a)
        if kind == "rs":
            return C.ReedSolomonCode(*a)
        if kind == "bch":
            return C.BCHCode(*a)
        if kind == "simplex":
            return C.SimplexCode(*a)
        if kind == "tanner":
            q, sub, edges, seed = a
            rng = random.Random(seed)
            name = rng.choice([lambda i: i, lambda i: f"s{i:03}", lambda i: (i // 2, i % 2)])
            flat = [(("source", i), sink, label) for i, near in enumerate(edges) for sink, label in near]
            rng.shuffle(flat)
            graph = nx.DiGraph()
            source = {("source", i): name(i + 100) for i in range(len(edges))}
            for s, sink, label in flat:
                graph.add_edge(source[s], name(sink), **({} if label is None else {"sort": label}))
            return C.TannerCode(graph, C.ClassicalCode(sub, q))
        if kind == "five":
            return C.FiveQubitCode()
        if kind == "steane":
            return C.SteaneCode()
        if kind == "iceberg":
            return C.IcebergCode(a[0], alternative_logicals=a[1])
        if kind == "c4":
            return C.C4Code()
        if kind == "c6":
            return C.C6Code()
        if kind == "tb":
            return C.TBCode(a[1], a[2], a[0])
        if kind in ("qc", "bb"):
            q, orders, names, pa, pb, form = a
            return (C.QCCode if kind == "qc" else C.BBCode)(self.symbols(spec), expression(names, pa), expression(names, pb), q)
        if kind in ("hgp", "shp"):
            q, ha, hb, logicals = a
            return (C.HGPCode if kind == "hgp" else C.SHPCode)(ha, hb, q, set_logicals=logicals)
        if kind in ("lp", "slp"):
            q, group, ea, eb = a
            with sim.masked():
                real = objs.build_group(self.node, group)
                listed = list(real.generate())
                ring = self.A.GroupRing(real, q)
            arrays = [None if e is None else self.A.RingArray([[self.A.RingMember(ring, *[(c, listed[g]) for c, g in x]) for x in row] for row in e], ring) for e in (ea, eb)]
            return (C.LPCode if kind == "lp" else C.SLPCode)(*arrays)
        if kind == "surface":
            return C.SurfaceCode(a[0], a[1], a[2], rotated=a[3])
        if kind == "toric":
            return C.ToricCode(a[0], a[1], a[2], rotated=a[3])
        if kind == "gsurface":
            return C.GeneralizedSurfaceCode(a[0], a[1], a[2], periodic=a[3])
        if kind == "bacon":
            return C.BaconShorCode(*a)
        if kind == "shyps":
            return C.SHYPSCode(*a)
        raise HarnessError(f"unknown code {spec}")

    def measure(self, spec, code):
        """Codes whose definition leaves their checks open: judge those of the code."""
        kind, *a = spec
        m = np.array(objs.mat(code.matrix), dtype=int).reshape(np.shape(code.matrix))
        if kind == "shyps":
            with sim.masked():
                dims = a[0], a[0] if a[1] is None else a[1]
                subs = [np.array(objs.mat(self.C.SimplexCode(d).matrix), dtype=int) for d in dims]
                mx, mz = np.kron(subs[0], np.eye(len(subs[1]), dtype=int)), np.kron(np.eye(len(subs[0]), dtype=int), subs[1])
                sizes = [2 ** (d - 1) for d in dims]
            return Reference(spec, full(mx, mz), 2, "css", exact=True, subsystem=True, n=len(subs[0]) * len(subs[1]), k=dims[0] * dims[1], dx=sizes[1], dz=sizes[0], d=min(sizes))
        q = code.field.order
        if kind == "rs":
            if q != a[0] + 1:
                self.bad("wrong-code", f"{spec} is over GF({q})")
            facts = {"n": a[0], "k": a[1], "d": a[0] - a[1] + 1}
        elif kind == "bch":
            if q != a[2]:
                self.bad("wrong-code", f"{spec} is over GF({q})")
            facts = {"n": a[0], "k": a[1]}
        else:
            facts = {"n": 2 ** a[0] - 1, "k": a[0], "d": 2 ** (a[0] - 1)}
        ref = Reference(spec, m, q, "classical", **facts)
        truth = ref.truth
        kernel = np.asarray(truth.kernel, dtype=int).reshape(-1, truth.n)
        if len(kernel) and np.any(truth.f(np.array(m, dtype=int)) @ truth.f(np.roll(kernel, 1, axis=1)).T):
            self.bad("wrong-code", f"{spec} is not cyclic")
        if kind == "simplex" and set(np.count_nonzero(truth.words()[1:] if not np.any(truth.words()[0]) else truth.words(), axis=1).tolist()) != {2 ** (a[0] - 1)}:
            self.bad("wrong-code", f"the words of {spec} do not all have weight {2 ** (a[0] - 1)}")
        if kind == "bch" and q == 2:
            known = {(3, 1): 3, (7, 1): 7, (7, 4): 3, (7, 7): 1, (15, 1): 15, (15, 5): 7, (15, 7): 5, (15, 11): 3}
            ref.facts["d"] = known[a[0], a[1]]
        return ref

    # -- questions -----------------------------------------------------------------------------

    def perform(self, op):
        kind, number, arg = op
        code, ref = self.codes[number], self.references[number]
        if code is None:
            if kind == "again":
                self.made(self.p["codes"][number], None)
            if kind not in ("refuse", "again"):
                return
        getattr(self, "ask_" + kind)(self.p["codes"][number], code, ref, arg)

    def ask_ask(self, spec, code, ref, query):
        if not life.allowed(ref.truth, query):
            return
        kind = query[0]
        if kind in ("distance", "params") and not self.quick_distance(ref, query):
            return
        if kind == "bound" and (ref.truth.n > 12 or ref.q > 4):
            return
        if kind == "words" and ref.truth.q**ref.truth.k > 256:
            return
        value = life.answer(self.node, code, query)
        with sim.masked():
            life.check_answer(ref.truth, spec, query, value)
            self.check_facts(spec, ref, query, value)

    def quick_distance(self, ref, query):
        """Whether the code can find the distance in a short time."""
        t = ref.truth
        if t.kind == "classical":
            return t.q**t.k <= 256
        if t.q == 2:
            return t.n <= 26
        return t.n <= 4 or "d" in ref.facts and not ref.subsystem and ref.spec[0] in ("surface", "toric")

    def check_facts(self, spec, ref, query, value):
        kind, *a = query
        facts = ref.facts
        if kind == "dimension" and "k" in facts and value != facts["k"]:
            self.bad("wrong-parameters", f"{spec} has dimension {value} instead of {facts['k']}")
        if kind == "params":
            for x, name in zip(value, "nkd"):
                if name in facts and x != facts[name]:
                    self.bad("wrong-parameters", f"{spec} has parameters {value}, but {name} = {facts[name]}")
        if kind == "distance":
            name = "d" + (a[0].lower() if a else "")
            if name in facts and value != facts[name]:
                self.bad("wrong-parameters", f"{spec} has distance {query} = {value} instead of {facts[name]}")

    def check_code(self, spec, code, ref):
        got = np.array(objs.mat(code.matrix), dtype=int).reshape(np.shape(code.matrix))
        if code.field.order != ref.q or len(code) != ref.facts["n"]:
            self.bad("wrong-code", f"{spec} has length {len(code)} over GF({code.field.order}), instead of {ref.facts['n']} over GF({ref.q})")
        truth, want = ref.truth, ref.matrix
        if got.shape[1] != truth.cols:
            self.bad("wrong-code", f"the checks of {spec} have {got.shape[1]} columns instead of {truth.cols}")
        if ref.exact:
            if got.shape != want.shape or np.any(got != want):
                where = next(((int(i), int(j)) for i, j in zip(*np.nonzero(got != want))), None) if got.shape == want.shape else got.shape
                self.bad("wrong-code", f"the checks of {spec} are not those of its definition (at {where})")
        elif ref.facts.get("columns"):
            if not self.same_columns(truth, got, want):
                self.bad("wrong-code", f"the columns of the checks of {spec} are {got.T.tolist()}")
        elif ref.facts.get("same_up_to_order"):
            profile = lambda m: (sorted(np.count_nonzero(m, axis=1).tolist()), sorted(np.count_nonzero(m[:, : truth.n] != 0, axis=0).tolist()), sorted(np.count_nonzero(m[:, truth.n :] != 0, axis=0).tolist()))
            if profile(got) != profile(want) or objs.rank(truth.f, got) != truth.rank:
                self.bad("wrong-code", f"{spec} does not have the checks of a lattice of that shape")
        elif objs.rank(truth.f, got) != truth.rank or len(want) and truth.rank and not objs.same_span(truth.f, got, want):
            self.bad("wrong-code", f"the checks {got.tolist()} of {spec} are not those of its definition")
        elif spec[0] in ("surface", "bacon") and len(got) != len(want):
            self.bad("wrong-code", f"{spec} has {len(got)} checks instead of {len(want)}")
        if "k" in ref.facts and truth.k != ref.facts["k"]:
            self.bad("wrong-parameters", f"{spec} should have dimension {ref.facts['k']}, but its definition gives {truth.k}")
        if truth.kind == "css" and code.is_subsystem_code != (truth.gauge_k > 0) and not ref.subsystem:
            self.bad("wrong-code", f"{spec} says that it is {'a' if code.is_subsystem_code else 'no'} subsystem code")

    def same_columns(self, truth, got, want):
        """Whether these are checks of a (possibly extended) Hamming code, whatever the order of its bits."""
        if got.shape[1] != want.shape[1] or objs.rank(truth.f, got) != truth.rank:
            return False
        f = truth.f
        columns = set()
        for column in got.T:
            first = next((int(x) for x in column if x), None)
            if first is None:
                return False
            columns.add(tuple((f(column) / f(first)).tolist()))
        if len(columns) != want.shape[1]:  # two bits that the checks do not tell apart
            return False
        return not want[0].all() or len(want) == 1 or objs.in_span(f, got, np.ones(truth.cols, dtype=int))

    def ask_checks(self, spec, code, ref, seed):
        name, size = str(code), len(code)
        with sim.masked():
            self.check_code(spec, code, ref)
            del name, size

    def ask_again(self, spec, code, ref, seed):
        fresh = self.made(spec, ref)
        if fresh is None or ref is None:
            return
        with sim.masked():
            self.check_code(spec, fresh, ref)
        rng = random.Random(seed)
        options = CLASSICAL if ref.truth.kind == "classical" else QUANTUM + (CSS if spec[0] != "five" else [])
        for query in rng.sample(options, 2):
            self.ask_ask(spec, fresh, ref, query)

    def ask_default(self, spec, code, ref, seed):
        """Conjugating the default qudits."""
        kind = spec[0]
        if kind not in ("surface", "toric", "hgp", "lp") or ref.q != 2:
            return
        back = code.conjugated()
        with sim.masked():
            n = ref.truth.n
            if kind in ("surface", "toric") and spec[4]:
                cols = spec[2] or spec[1]
                chosen = [i for i in range(n) if (i // cols + i % cols) % 2]
            else:
                if kind in ("surface", "toric"):
                    size = spec[1] * (spec[2] or spec[1])
                elif kind == "lp":
                    size = objs.group_order(spec[2]) * len(spec[3][0]) * len((spec[4] or spec[3])[0])
                else:
                    size = len(spec[2][0]) * len((spec[3] or spec[2])[0])
                chosen = list(range(size, n))
            want = ref.matrix.copy()
            for j in chosen:
                want[:, [j, n + j]] = want[:, [n + j, j]]
            got = np.array(objs.mat(back.matrix), dtype=int).reshape(-1, 2 * n)
            if objs.rank(ref.truth.f, got) != ref.truth.rank or ref.truth.rank and not objs.same_span(ref.truth.f, got, want):
                self.bad("wrong-conjugate", f"{spec} with its default qudits conjugated has the checks {got.tolist()}")

    def ask_refuse(self, spec, code, ref, seed):
        rng = random.Random(seed)
        C = self.C
        x, y, z = sympy.symbols("x y z")
        trials = {
            "bch-length": lambda: C.BCHCode(rng.choice([4, 5, 6, 8, 9, 10, 12, 14, 16, 30]), 1, 2),
            "bch-field": lambda: C.BCHCode(rng.choice([3, 7, 9, 25, 27]), 1, 3),
            "rm-order": lambda: C.ReedMullerCode(*rng.choice([(3, 2), (-1, 2), (1, 0), (0, -1), (2, 1)])),
            "simplex": lambda: C.SimplexCode(rng.choice([0, 1, 8, 9])) if rng.random() < 0.7 else C.SimplexCode(1),
            "toric": lambda: C.ToricCode(*rng.choice([(3, 2), (2, 3), (3, 3), (1, 2), (4, 5)])),
            "gsurface": lambda: C.GeneralizedSurfaceCode(3, rng.choice([0, 1])),
            "qc-orders": lambda: C.QCCode([3], 1 + x, x + y),
            "qc-orders2": lambda: C.QCCode({x: 3}, 1 + x, x + y),
            "bb-symbols": lambda: C.BBCode(rng.choice([[3, 3], {x: 3, y: 3}]), 1 + x, 1 + x**2),
            "bb-symbols3": lambda: C.BBCode([3, 3], 1 + x + z, 1 + y),
            "bb-orders": lambda: C.BBCode([3, 3, 2], 1 + x, 1 + y),
            "bb-one": lambda: C.BBCode([3], 1 + x, 1 + y),
            "tb": lambda: C.TBCode([[0, 1], [0, 0]], [[0, 0], [1, 0]]),
        }
        name = rng.choice(sorted(trials))
        try:
            trials[name]()
        except ValueError:
            return
        self.bad("no-refusal", f"a code that does not exist was built: {name}")

    # -- what is special about a family ----------------------------------------------------------

    def ask_own(self, spec, code, ref, seed):
        rng = random.Random(seed)
        kind = spec[0]
        if kind in ("qc", "bb"):
            options = ["canonical", "evaluate"]
            options += ["labels", "positions", "layouts", "layouts", "basis"] if kind == "bb" else []
            getattr(self, "own_" + rng.choice(options))(spec, code, ref, rng)
        elif hasattr(self, "own_" + kind):
            getattr(self, "own_" + kind)(spec, code, ref, rng)
        else:
            self.ask_checks(spec, code, ref, seed)

    def own_steane(self, spec, code, ref, rng):
        x, z = code.get_logical_ops(self.O.Pauli.X), code.get_logical_ops(self.O.Pauli.Z)
        with sim.masked():
            for name, ops in (("X", objs.mat(x)), ("Z", objs.mat(z))):
                ops = np.array(ops).reshape(1, -1)
                half = ops if ops.shape[1] == 7 else ops[:, :7] if name == "X" else ops[:, 7:]
                if half.tolist() != [[1] * 7]:
                    self.bad("wrong-logical", f"the logical {name} of the Steane code is {ops.tolist()}")

    def own_iceberg(self, spec, code, ref, rng):
        if spec[1:] != [3, True]:
            return
        ops = [code.get_logical_ops(p) for p in (self.O.Pauli.X, self.O.Pauli.Z)]
        with sim.masked():
            for name, rows in zip("XZ", ops):
                rows = np.array(objs.mat(rows)).reshape(4, -1)
                rows = rows if rows.shape[1] == 6 else rows[:, :6] if name == "X" else rows[:, 6:]
                if np.any(rows[:2, 3:]) or np.any(rows[2:, :3]):
                    self.bad("wrong-logical", f"the alternative logical operators are {rows.tolist()}")
        life_error = ref.truth.logical_error(np.array(objs.mat(code.get_logical_ops()), dtype=int))
        if life_error:
            self.bad("wrong-logical", life_error)

    def own_hgp(self, spec, code, ref, rng):
        q, ha, hb, _ = spec[1:]
        hb = ha if hb is None else hb
        a, b = self.C.ClassicalCode(ha, q), self.C.ClassicalCode(hb, q)
        ops_x, ops_z = self.C.HGPCode.get_canonical_logical_ops(a, b)
        sizes = objs.mat(code.sector_size)
        graph = self.C.HGPCode.get_graph_product(a.graph, b.graph)
        back = self.C.QuditCode.graph_to_matrix(graph)
        with sim.masked():
            if sizes != [[len(ha[0]) * len(hb[0]), len(ha[0]) * len(hb)], [len(ha) * len(hb[0]), len(ha) * len(hb)]]:
                self.bad("wrong-code", f"the sectors of {spec} have sizes {sizes}")
            if objs.mat(back) != ref.matrix.tolist():
                self.bad("wrong-code", f"the product of the graphs of {spec} differs from that of the matrices")
            self.check_logicals(spec, ref, ops_x, ops_z)

    def check_logicals(self, spec, ref, ops_x, ops_z):
        n = ref.truth.n
        x, z = (np.array(objs.mat(m), dtype=int).reshape(-1, n) for m in (ops_x, ops_z))
        if len(x) != len(z):
            self.bad("wrong-logical", f"{spec}: {len(x)} and {len(z)} canonical logical operators")
        ops = np.vstack([np.hstack([x, 0 * x]), np.hstack([0 * z, z])])
        error = ref.truth.logical_error(ops)
        if error:
            self.bad("wrong-logical", f"the canonical logical operators of {spec}: {error}")

    def own_shp(self, spec, code, ref, rng):
        q, ha, hb, _ = spec[1:]
        a, b = self.C.ClassicalCode(ha, q), self.C.ClassicalCode(ha if hb is None else hb, q)
        ops = self.C.SHPCode.get_canonical_logical_ops(a, b)
        with sim.masked():
            self.check_logicals(spec, ref, *ops)

    def own_lp(self, spec, code, ref, rng):
        sizes = objs.mat(code.sector_size)
        with sim.masked():
            _, q, group, a, b = spec
            b = a if b is None else b
            dim = 4 if group == ["quaternion"] else objs.group_order(group)
            if sizes != [[dim * len(a[0]) * len(b[0]), dim * len(a[0]) * len(b)], [dim * len(a) * len(b[0]), dim * len(a) * len(b)]]:
                self.bad("wrong-code", f"the sectors of {spec} have sizes {sizes}")

    def own_surface(self, spec, code, ref, rng):
        rows, cols = spec[1], spec[1] if spec[2] is None else spec[2]
        mx, mz = self.C.SurfaceCode.get_rotated_checks(rows, cols)
        with sim.masked():
            want = rotated_checks(rows, cols, 2, False)
            for got, m in zip((mx, mz), want):
                if sorted(objs.mat(got)) != sorted(m.tolist()):
                    self.bad("wrong-code", f"the tiles of a rotated surface code with {rows} rows and {cols} columns: {objs.mat(got)}")
            if (code.rows, code.cols) != (rows, cols):
                self.bad("wrong-code", f"{spec} says that it has {code.rows} rows and {code.cols} columns")

    def own_toric(self, spec, code, ref, rng):
        rows, cols = rng.choice([2, 4]), rng.choice([2, 4, 6])
        mx, mz = self.C.ToricCode.get_rotated_checks(rows, cols)
        with sim.masked():
            want = rotated_checks(rows, cols, 2, True)
            for got, m in zip((mx, mz), want):
                if sorted(objs.mat(got)) != sorted(m.tolist()):
                    self.bad("wrong-code", f"the tiles of a rotated toric code with {rows} rows and {cols} columns: {objs.mat(got)}")

    def own_rm(self, spec, code, ref, rng):
        words = self.C.ReedMullerCode.get_generator(spec[1], spec[2])
        with sim.masked():
            f = galois.GF(spec[3])
            if np.shape(words) != (ref.truth.k, ref.truth.n) or not objs.same_span(f, np.asarray(words), muller(spec[1], spec[2])):
                self.bad("wrong-code", f"the generator of {spec} is {objs.mat(words)}")

    def own_simplex(self, spec, code, ref, rng):
        exponents = self.C.SimplexCode.get_polynomial_exponents(spec[1])
        with sim.masked():
            poly = galois.Poly.Degrees(sorted(exponents, reverse=True), field=galois.GF(2))
            if poly.degree != spec[1] or not poly.is_primitive():
                self.bad("wrong-code", f"the polynomial of {spec}, {poly}, is not primitive")

    # -- quasi-cyclic codes --------------------------------------------------------------------

    def canonical(self, place, orders, poly):
        """{exponents in (-order/2, order/2]: coefficient as an integer}"""
        out: dict = {}
        for c, e in poly:
            key = tuple(x % o if (x % o) <= o / 2 else x % o - o for x, o in zip(place(e), orders))
            out[key] = out.get(key, 0) + c
        return {k: v for k, v in out.items() if v}

    def terms(self, symbols, poly):
        """The same of an expression of the library."""
        out: dict = {}
        for term in sympy.Add.make_args(sympy.expand(poly.as_expr() if hasattr(poly, "as_expr") else poly)):
            c, rest = term.as_coeff_Mul()
            powers = rest.as_powers_dict()
            key = tuple(int(powers.get(s, 0)) for s in symbols)
            if set(powers) - set(symbols) - {sympy.Integer(1)}:
                self.bad("wrong-polynomial", f"{poly} has other variables than {symbols}")
            out[key] = out.get(key, 0) + int(c)
        return {k: v for k, v in out.items() if v}

    def own_canonical(self, spec, code, ref, rng):
        _, q, orders, names, a, b, form = spec
        listed, place = layout(spec)
        which = rng.random() < 0.5
        poly = code.poly_a if which else code.poly_b
        got = code.get_canonical_form(poly)
        with sim.masked():
            want = self.canonical(place, orders, a if which else b)
            have = self.terms(code.symbols, got)
            names_got = [str(s) for s in code.symbols][: len(listed)]
            if names_got != listed[: len(names_got)] or tuple(code.orders) != tuple(orders):
                self.bad("wrong-polynomial", f"{spec} has the symbols {code.symbols} and orders {code.orders}")
            if have != want:
                self.bad("wrong-polynomial", f"the canonical form of {poly} for orders {orders} is {got}")

    def own_evaluate(self, spec, code, ref, rng):
        """A polynomial is the sum of the group members of its terms."""
        _, q, orders, names, *_ = spec
        listed, place = layout(spec)
        with sim.masked():
            used = [s for s in names if sympy.Symbol(s) in code.symbols]
            poly = draw_poly(rng, q, used, rng.randint(1, 3), 5, rng.random() < 0.4)
            text = expression(used, poly)
            try:
                galois_ok = all(abs(int(t.as_coeff_Mul()[0])) < q for t in sympy.Add.make_args(text))
            except TypeError:
                galois_ok = False
        if not galois_ok or text == 0:
            return
        form = rng.random() < 0.5 and bool(text.free_symbols) and min(min(e) for _, e in poly) >= 0
        value = code.eval(sympy.Poly(text) if form else text).lift().T
        with sim.masked():
            full_e = lambda e: [e[used.index(s)] if s in used else 0 for s in (str(x) for x in code.symbols)]
            if objs.mat(value) != poly_matrix(q, orders, full_e, poly).tolist():
                self.bad("wrong-polynomial", f"{text} over orders {orders} evaluates to {objs.mat(value)}")

    def own_labels(self, spec, code, ref, rng):
        x, y = spec[2]
        n = x * y
        picks = [(rng.randrange(2 * n), rng.random() < 0.5) for _ in range(4)]
        labels = [code.get_node_label(self.O.Node(i, data)) for i, data in picks]
        other = rng.randint(1, 5), rng.randint(1, 5)
        number = rng.randrange(2 * other[0] * other[1])
        apart = self.C.BBCode.get_node_label_from_orders(self.O.Node(number, True), other)
        with sim.masked():
            for (i, data), got in zip(picks, labels):
                want = (("LR" if data else "XZ")[i // n], i % n // y, i % y)
                if tuple(got) != want:
                    self.bad("wrong-layout", f"node {i} (data: {data}) of {spec} has the label {got} instead of {want}")
            m = other[0] * other[1]
            if tuple(apart) != ("LR"[number // m], number % m // other[1], number % other[1]):
                self.bad("wrong-layout", f"node {number} of a code with orders {other} has the label {apart}")
            # the layout shows who addresses whom
            i = rng.randrange(len(ref.matrix))
            row, n2 = ref.matrix[i], 2 * n
            data = {j for j in range(n2) if row[j] or row[n2 + j]}
        near = {node.index for node in code.graph.neighbors(self.O.Node(i, False))}
        with sim.masked():
            if near != data:
                self.bad("wrong-layout", f"check {i} of {spec} addresses {sorted(near)} instead of {sorted(data)}")

    def own_positions(self, spec, code, ref, rng):
        x, y = spec[2]
        n = x * y
        folded = rng.random() < 0.5
        where = {}
        for data in (True, False):
            for i in range(2 * n):
                node = self.O.Node(i, data)
                arg = node if rng.random() < 0.5 else ((("LR" if data else "XZ")[i // n], i % n // y, i % y))
                where[i, data] = tuple(code.get_qubit_pos(arg, folded))
        with sim.masked():
            for (i, data), got in where.items():
                sector, a, b = ("LR" if data else "XZ")[i // n], i % n // y, i % y
                px, py = 2 * a + (sector in "RX"), 2 * b + (sector in "LX")
                if folded:
                    px = 2 * px if px < x else 2 * (2 * x - 1 - px) + 1
                    py = 2 * py if py < y else 2 * (2 * y - 1 - py) + 1
                if got != (px, py):
                    self.bad("wrong-layout", f"{sector, a, b} of {spec} is at {got} instead of {(px, py)} (folded: {folded})")
            if len(set(where.values())) != 4 * n:
                self.bad("wrong-layout", f"two qubits of {spec} are at the same place")

    def order(self, orders, v):
        return math.lcm(*[o // math.gcd(x, o) for x, o in zip(v, orders)])

    def spans(self, orders, g, h):
        og, oh = self.order(orders, g), self.order(orders, h)
        reached = {tuple((i * g[t] + j * h[t]) % orders[t] for t in (0, 1)) for i in range(og) for j in range(oh)}
        return og * oh == math.prod(orders) == len(reached)

    def own_basis(self, spec, code, ref, rng):
        orders = spec[2]
        g, h = ([rng.randint(-3, 6), rng.randint(-3, 6)] for _ in range(2))
        if rng.random() < 0.4:
            g, h = rng.choice([([1, 0], [0, 1]), ([0, 1], [1, 0]), ([1, 1], [0, 1]), ([1, 0], [-1, 1])])
        target = rng.randint(-4, 9), rng.randint(-4, 9)
        order, valid = code.get_order(tuple(g)), code.is_valid_basis(tuple(g), tuple(h))
        try:
            inverse = code.modular_inverse((tuple(g), tuple(h)), *target)
        except ValueError:
            inverse = None
        with sim.masked():
            if order != self.order(orders, g):
                self.bad("wrong-layout", f"{g} has order {order} in {orders}")
            if valid != self.spans(orders, g, h):
                self.bad("wrong-layout", f"{g} and {h} are {'a' if valid else 'no'} basis of {orders}")
            reached = {tuple((i * g[t] + j * h[t]) % orders[t] for t in (0, 1)) for i in range(self.order(orders, g)) for j in range(self.order(orders, h))}
            goal = tuple(x % o for x, o in zip(target, orders))
            if (inverse is not None) != (goal in reached):
                self.bad("wrong-layout", f"{target} is {'no' if inverse else 'a'} combination of {g} and {h} in {orders}")
            if inverse is not None and tuple((inverse[0] * g[t] + inverse[1] * h[t]) % orders[t] for t in (0, 1)) != goal:
                self.bad("wrong-layout", f"{inverse} does not give {target} from {g} and {h} in {orders}")

    def own_layouts(self, spec, code, ref, rng):
        _, q, orders, names, a, b, form = spec
        listed, place = layout(spec)
        if q != 2:
            return
        data = code.get_equivalent_toric_layout_code_data()
        with sim.masked():
            # terms of the polynomials over the integers, as their exponents
            pa, pb = ([tuple(place(e)) for c, e in p] for p in (a, b))
            n = math.prod(orders)
            seen, todo = {(0, 0)}, [(0, 0)]
            moves = [tuple((u[t] - v[t]) for t in (0, 1)) for p in (pa, pb) for u in p for v in p]
            while todo:
                at = todo.pop()
                for m in moves:
                    to = tuple((at[t] + m[t]) % orders[t] for t in (0, 1))
                    if to not in seen:
                        seen.add(to)
                        todo.append(to)
            zero = not ref.matrix.any()
            connected = len(seen) == n and not zero and self.touches(ref)
            expected = []
            if connected:
                for a1, a2 in itertools.permutations(pa, 2):
                    for b1, b2 in itertools.permutations(pb, 2):
                        g, h = (tuple(v[t] - u[t] for t in (0, 1)) for u, v in ((a1, a2), (b1, b2)))
                        if not self.spans(orders, g, h):
                            continue
                        sizes = self.order(orders, g), self.order(orders, h)
                        polys = [(tuple(u[t] - a1[t] for t in (0, 1)) for u in pa), (tuple(u[t] - b1[t] for t in (0, 1)) for u in pb)]
                        polys = [list(p) for p in polys]
                        if sizes[0] < sizes[1]:
                            sizes, g, h, polys = sizes[::-1], h, g, polys[::-1]
                        table = {tuple((i * g[t] + j * h[t]) % orders[t] for t in (0, 1)): (i, j) for i in range(sizes[0]) for j in range(sizes[1])}
                        new = []
                        for p in polys:
                            terms: dict = {}
                            for u in p:
                                v = table[u[0] % orders[0], u[1] % orders[1]]
                                v = tuple(x if x <= s / 2 else x - s for x, s in zip(v, sizes))
                                terms[v] = terms.get(v, 0) + 1
                            new.append(terms)
                        if (sizes, new) not in expected:
                            expected.append((sizes, new))
            got = [(tuple(s), [self.terms(code.symbols, p) for p in polys]) for s, *polys in data]
            for item in got:
                if item not in expected:
                    self.bad("wrong-layout", f"{spec} is said to be equivalent to {item}")
            for item in expected:
                if item not in got:
                    self.bad("wrong-layout", f"{spec} has the toric layout {item}, which is not listed")
        if not data:
            return
        sizes, new_a, new_b = data[rng.randrange(len(data))]
        if len((new_a.free_symbols | new_b.free_symbols)) != 2 or not new_a.free_symbols or not new_b.free_symbols:
            return
        with sim.masked():
            if any(c % 2 == 0 for p in (new_a, new_b) for c in self.terms(code.symbols, p).values()):
                return
        other = self.C.BBCode(dict(zip(code.symbols, sizes)), new_a, new_b, 2)
        dimension = other.dimension
        with sim.masked():
            if len(other) != ref.truth.n or dimension != ref.truth.k:
                self.bad("wrong-layout", f"{spec} with parameters {ref.truth.n, ref.truth.k} is said to be equivalent to a code with {len(other), dimension}")
            profile = lambda m: sorted(np.count_nonzero(np.asarray(m, dtype=int), axis=1).tolist())
            if profile(other.matrix) != profile(ref.matrix):
                self.bad("wrong-layout", f"{spec} is said to be equivalent to a code with checks of other weights")
            if ref.truth.n <= 12 and ref.truth.k:
                d = [life.Truth(m, 2, "css").distance() for m in (np.array(objs.mat(other.matrix)), ref.matrix)]
                if d[0] != d[1]:
                    self.bad("wrong-layout", f"{spec} with distance {d[1]} is said to be equivalent to a code with distance {d[0]}")

    def touches(self, ref):
        """Whether the Tanner graph is connected."""
        n, m = ref.truth.n, ref.matrix
        graph = nx.Graph()
        graph.add_nodes_from(("d", j) for j in range(n))
        for i, row in enumerate(m):
            graph.add_node(("c", i))
            graph.add_edges_from((("c", i), ("d", int(j) % n)) for j in np.nonzero(row)[0])
        return nx.is_connected(graph)

    def body(self, ops):
        for op in ops:
            for _ in range(12):
                try:
                    self.perform(op)
                    break
                except (KeyboardInterrupt, MemoryError) as err:
                    if "simulated" not in str(err):
                        raise

    def finish(self):
        """Afterwards, everything that was shared is as it was."""
        for spec, code, ref in zip(self.p["codes"], self.codes, self.references):
            if code is None:
                continue
            self.ask_checks(spec, code, ref, 0)
            for query in (["dimension"], ["params"], *([["logical", None]] if ref.truth.kind != "classical" else [])):
                self.ask_ask(spec, code, ref, query)


def run(p, record=False):
    result = Result()
    w = world.World([], result=result)
    w.truth = objs.truth()
    with w:
        node = sim.fresh("p", p["entropy"])
        session = Session(p, node, result)
        s = sim.Sim(p["actions"], budget=8_000_000, record=record)
        for ops in p["threads"]:
            s.spawn(lambda ops=ops: session.body(ops), node)
        s.run()
        if not record:
            session.finish()
        result.steps = s.total
        result.faults.update(f"sched:{x}" for x in s.fired)
        for switch in s.switches:
            result.note("switch", *map(str, switch))
        for ops in p["threads"]:
            for op in ops:
                result.probes[op[0]] += 1
        for spec, code in zip(p["codes"], session.codes):
            result.probes["code:" + spec[0] + (" (refused)" if code is None else "")] += 1
        result.nontrivial = bool(s.fired) or sum(map(len, p["threads"])) > 1
        result.interleaving = objs.sha([p["codes"], p["threads"], [str(x) for x in s.switches]])
    return result, [t.trace for t in s.threads]


def execute(p):
    return run(p)[0]
