"""Histories of error-correcting codes: specs, queries, and brute-force oracles (C10-C16).

A code is built from a JSON spec inside a node; a query is a JSON list; an answer is JSON.  The oracles
decide answers by linear algebra written here and by enumerating all vectors of small spaces.
"""

from __future__ import annotations

import itertools
import json
import random

import galois
import numpy as np

from dst import objs, seeded, sim
from dst.core import HarnessError, Violation

# ---------------------------------------------------------------------------------------------
# specs
# ---------------------------------------------------------------------------------------------


def random_matrix(rng, q, rows, cols, density=0.5):
    return [[rng.randrange(1, q) if rng.random() < density else 0 for _ in range(cols)] for _ in range(rows)]


def omega(q, a, b):
    """Symplectic product of two vectors over GF(q)."""
    f = galois.GF(q)
    n = len(a) // 2
    a, b = f(a), f(b)
    return int(np.dot(a[:n], b[n:]) - np.dot(a[n:], b[:n]))


def random_stabilizers(rng, q, n, tries):
    rows: list = []
    for _ in range(tries):
        row = random_matrix(rng, q, 1, 2 * n)[0]
        if any(row) and all(omega(q, row, other) == 0 for other in rows):
            rows.append(row)
    return rows or [[1] + [0] * (2 * n - 1)]


def random_css(rng, q, n):
    """Commuting X and Z checks."""
    f = galois.GF(q)
    mx = random_matrix(rng, q, rng.randint(1, max(1, n // 2)), n)
    kernel = objs.null_space(f, mx)
    if not len(kernel):
        return mx, [[0] * n]
    mz = []
    for _ in range(rng.randint(1, max(1, len(kernel)))):
        c = f([rng.randrange(q) for _ in range(len(kernel))])
        mz.append(objs.mat(c @ kernel))
    return mx, mz


NAMED_CLASSICAL = [
    ["hamming", 2, None],
    ["hamming", 3, None],
    ["hamming", 2, 3],
    ["hamming", 2, 4],
    ["ext_hamming", 3],
    ["repetition", 3, None],
    ["repetition", 4, 3],
    ["repetition", 5, None],
    ["ring", 4, None],
    ["ring", 3, 3],
    ["rm", 1, 3],
    ["rm", 1, 2],
    ["simplex", 3],
    ["bch", 7, 4],
    ["rs", 3, 1],
]


def draw_classical(rng, small=False):
    kind = rng.random()
    if kind < 0.45:
        q = rng.choice([2, 2, 2, 3, 4, 5])
        n = rng.randint(1, 4 if small else {2: 9, 3: 5, 4: 4, 5: 4}[q])
        return ["cmat", q, random_matrix(rng, q, rng.randint(1, n + 1), n)]
    if kind < 0.8:
        while True:
            spec = rng.choice(NAMED_CLASSICAL)
            if not small or spec[1] <= 3 and spec[0] in ("hamming", "repetition", "ring") and (spec[0] != "hamming" or spec[1] == 2):
                return spec
    if kind < 0.88:
        return ["dual", draw_classical(rng, small)]
    if kind < 0.94:
        q = rng.choice([2, 2, 3])
        n = rng.randint(2, 4 if small else 6)
        rows = objs.mat(objs.row_reduce(galois.GF(q), random_matrix(rng, q, rng.randint(1, n), n))[0])
        return ["gen", q, rows or [[1] * n]]
    return ["ccopy", draw_classical(rng, small)]


NAMED_CSS = [
    ["steane"],
    ["iceberg", 2],
    ["iceberg", 3],
    ["iceberg3alt"],
    ["c4"],
    ["c6"],
    ["surface", 2],
    ["surface", 3],
    ["surface2", 2, 3],
    ["surfaceq", 2, 3],
    ["surfaceu", 2, None],
    ["toric", 2],
    ["toricu", 2],
    ["toricq", 2, 3],
    ["gsurface", 2, 2],
    ["bacon", 2],
    ["bacon", 3],
    ["bacon2", 2, 3],
    ["baconq", 2, 3],
    ["shyps", 2],
]


def draw_css(rng):
    kind = rng.random()
    if kind < 0.4:
        return rng.choice(NAMED_CSS)
    if kind < 0.6:
        q = rng.choice([2, 2, 2, 3, 4])
        n = rng.randint(2, {2: 8, 3: 5, 4: 4}[q])
        mx, mz = random_css(rng, q, n)
        return ["cssmat", q, mx, mz]
    if kind < 0.75:  # subsystem codes
        q = rng.choice([2, 2, 3])
        n = rng.randint(2, 6 if q == 2 else 4)
        return ["cssmat", q, random_matrix(rng, q, rng.randint(1, n), n), random_matrix(rng, q, rng.randint(1, n), n)]
    if kind < 0.85:
        a = draw_classical(rng, True)
        return ["hgp", a, None if rng.random() < 0.5 else ["repetition", 2, spec_order(a)]]
    if kind < 0.9:
        return ["tb", rng.choice([[[1, 1], [1, 1]], [[1, 1, 0], [0, 1, 1], [1, 0, 1]]]), rng.randrange(3)]
    if kind < 0.95:
        return ["stackcss", rng.choice([["c4"], ["surface", 2], ["steane"]]), rng.choice([["c4"], ["surface", 2], ["bacon", 2]])]
    return ["qc", rng.choice([[3], [2, 2], [4]]), rng.randrange(3)]


def draw_qudit(rng):
    kind = rng.random()
    if kind < 0.2:
        return ["five"]
    if kind < 0.65:
        q = rng.choice([2, 2, 2, 3, 4])
        n = rng.randint(1, {2: 5, 3: 3, 4: 2}[q])
        return ["qmat", q, random_stabilizers(rng, q, n, rng.randint(1, 2 * n + 2))]
    if kind < 0.75:
        return ["strings", rng.choice([["X X X X", "Z Z Z Z"], ["X Z I", "Z X Z"], ["Y Y", "X Z"], ["X I", "I Z"]])]
    if kind < 0.88:
        base = rng.choice([["steane"], ["c4"], ["surface", 2], ["five"], ["surface", 3]])
        return ["conj", base, sorted(rng.sample(range(4), rng.randint(0, 3))), rng.random() < 0.5]
    base = rng.choice([["steane"], ["c4"], ["five"], ["surface", 2]])
    gates = [rng.choice(["H", "S", "X", "SQRT_X"]) + f" {rng.randrange(4)}" for _ in range(rng.randint(0, 3))]
    if rng.random() < 0.6:
        gates.append(rng.choice(["CX 0 1", "CZ 1 2", "SWAP 0 3", "CX 3 2"]))
    return ["deform", base, gates, rng.random() < 0.5]


def draw_subsystem(rng):
    """A CSS subsystem code as a QuditCode."""
    if rng.random() < 0.4:
        return ["qsub", rng.choice([["bacon", 2], ["bacon2", 2, 3], ["baconq", 2, 3], ["shyps", 2]])]
    q = rng.choice([2, 2, 3])
    n = rng.randint(2, 5 if q == 2 else 4)
    return ["qsub", ["cssmat", q, random_matrix(rng, q, rng.randint(1, n), n), random_matrix(rng, q, rng.randint(1, n), n)]]


def draw_code(rng):
    return rng.choice([draw_classical, draw_css, draw_css, draw_qudit])(rng)


def spec_order(spec):
    """Order of the field of a classical spec."""
    kind = spec[0]
    if kind in ("cmat", "gen"):
        return spec[1]
    if kind in ("dual", "ccopy", "plain"):
        return spec_order(spec[1])
    if kind in ("hamming", "repetition", "ring"):
        return spec[2] or 2
    if kind == "rs":
        return spec[1] + 1
    return 2


def build(node, spec):
    """The code of a spec."""
    C = node.codes
    kind, *a = spec
    if kind == "cmat":
        return C.ClassicalCode(a[1], a[0])
    if kind == "gen":
        return C.ClassicalCode.from_generator(a[1], a[0])
    if kind == "plain":
        return C.ClassicalCode(build(node, a[0]).matrix, spec_order(a[0]))
    if kind == "dual":
        return ~build(node, a[0])
    if kind == "ccopy":
        return C.ClassicalCode(build(node, a[0]))
    if kind == "ext_hamming":
        return C.ExtendedHammingCode(a[0])
    if kind == "rm":
        return C.ReedMullerCode(a[0], a[1])
    if kind == "simplex":
        return C.SimplexCode(a[0])
    if kind == "bch":
        return C.BCHCode(a[0], a[1])
    if kind == "rs":
        return C.ReedSolomonCode(a[0], a[1])
    if kind == "iceberg3alt":
        return C.IcebergCode(3, alternative_logicals=True)
    if kind == "c4":
        return C.C4Code()
    if kind == "surfaceu":
        return C.SurfaceCode(a[0], rotated=False, field=a[1])
    if kind == "toricu":
        return C.ToricCode(a[0], rotated=False)
    if kind == "toricq":
        return C.ToricCode(a[0], field=a[1])
    if kind == "gsurface":
        return C.GeneralizedSurfaceCode(a[0], a[1])
    if kind == "bacon2":
        return C.BaconShorCode(a[0], a[1])
    if kind == "baconq":
        return C.BaconShorCode(a[0], field=a[1])
    if kind == "shyps":
        return C.SHYPSCode(a[0])
    if kind == "cssmat":
        return C.CSSCode(a[1], a[2], a[0])
    if kind == "hgp":
        return C.HGPCode(build(node, a[0]), None if a[1] is None else build(node, a[1]))
    if kind == "tb":
        b = np.eye(len(a[0]), dtype=int)
        for _ in range(a[1]):
            b = b @ np.array(a[0]) % 2
        return C.TBCode(a[0], b)
    if kind == "stackcss":
        return C.CSSCode.stack(build(node, a[0]), build(node, a[1]))
    if kind == "qc":
        import sympy

        x, y = sympy.symbols("x y")
        one = [(1 + x, 1 + x**2), (1 + x + x**2, 1 + x), (x + x**2, 1 + x)][a[1]]
        two = [(1 + x, 1 + y), (x + y, 1 + x * y), (1 + x + y, x + y)][a[1]]
        return C.QCCode(a[0], *(one if len(a[0]) == 1 else two))
    if kind == "five":
        return C.FiveQubitCode()
    if kind == "qmat":
        return C.QuditCode(a[1], a[0])
    if kind == "strings":
        return C.QuditCode.from_strings(*a[0])
    if kind == "qsub":
        base = build(node, a[0])
        return C.QuditCode(base.matrix, field=base.field.order, is_subsystem_code=base.is_subsystem_code)
    if kind == "conj":
        code = build(node, a[0])
        if a[2]:
            code.get_logical_ops()
        return code.conjugated([q for q in a[1] if q < len(code)])
    if kind == "deform":
        code = build(node, a[0])
        if a[2]:
            code.get_logical_ops()
        return code.deformed("\n".join(a[1]))
    if kind in ("hamming", "repetition", "ring"):
        return seeded.classical(node, spec)
    return seeded.css(node, spec)


def family(node, code):
    C = node.codes
    if isinstance(code, C.CSSCode):
        return "css"
    if isinstance(code, C.QuditCode):
        return "qudit"
    return "classical"


# ---------------------------------------------------------------------------------------------
# queries
# ---------------------------------------------------------------------------------------------

COMMON = [["matrix"], ["canonicalized"], ["rank"], ["dimension"], ["graph"], ["size"], ["text"], ["weight"], ["twin"]]
QUERIES = {
    "classical": COMMON
    + [
        ["generator"],
        ["words", False],
        ["words", True],
        ["word", 3],
        ["dual"],
        ["distance"],
        ["distance-from", 5],
        ["distance-from", 6],
        ["params"],
        ["bound"],
        ["bound"],
        ["contains", 7],
        ["puncture", 0],
        ["shorten", 0],
        ["stack"],
        ["tensor"],
    ],
    "qudit": COMMON
    + [
        ["logical", None],
        ["logical", "X"],
        ["logical", "Z"],
        ["stabilizer", None, False],
        ["stabilizer", None, True],
        ["stabilizer", "X", False],
        ["stabilizer", "Z", False],
        ["gauge-dimension"],
        ["gauge", None],
        ["standard"],
        ["strings"],
        ["distance"],
        ["params"],
        ["bound"],
        ["conjugated", 0],
        ["deformed"],
    ],
    "css": COMMON
    + [
        ["logical", None],
        ["logical", "X"],
        ["logical", "Z"],
        ["stabilizer", None, False],
        ["stabilizer", None, True],
        ["stabilizer", "X", False],
        ["stabilizer", "Z", False],
        ["stabilizer", "X", True],
        ["stabilizer", "Z", True],
        ["gauge-dimension"],
        ["gauge", None],
        ["gauge", "X"],
        ["gauge", "Z"],
        ["dual-subsystem"],
        ["standard"],
        ["standard-xz"],
        ["strings"],
        ["distance"],
        ["distance", "X"],
        ["distance", "Z"],
        ["params"],
        ["bound"],
        ["conjugated", 0],
        ["deformed"],
        ["logical-op", "X", 4],
        ["logical-op", "Z", 5],
        ["subcodes"],
        ["stack"],
    ],
}


def bound(node, code):
    """Ask for random bounds of distances and decoding statistics; only their side effects matter."""
    state = random.getstate(), np.random.get_state()
    random.seed(4)
    np.random.seed(4)
    try:
        if family(node, code) == "classical":
            if code.dimension:
                code.get_distance_bound(1)
                code.get_distance_bound(1, cutoff=2)
        elif family(node, code) == "css":
            if code.dimension:
                code.get_distance_bound(1)
                code.get_distance_bound(1, node.objects.Pauli.X)
                code.get_distance_bound(1, node.objects.Pauli.Z, cutoff=2)
    finally:
        random.setstate(state[0])
        np.random.set_state(state[1])
    return None


def number(x):
    """A distance or a count as JSON: NaN is the string 'nan'."""
    return "nan" if x != x else int(x) if x == int(x) else float(x)


def graph_data(graph):
    edges = []
    for u, v, data in graph.edges(data=True):
        edges.append([str(u), str(v), sorted((getattr(k, "__name__", str(k)), str(x)) for k, x in data.items())])
    return [sorted(map(str, graph.nodes())), sorted(edges), getattr(graph, "order", None)]


def index_list(sector):
    if isinstance(sector, slice):
        return ["slice", [sector.start, sector.stop, sector.step]]
    return ["list", objs.mat(sector)]


def allowed(truth, query):
    """Whether the code can answer in reasonable time (some answers enumerate exponentially many words)."""
    kind, *a = query
    if kind in ("weight", "graph", "strings", "twin"):
        return len(truth.matrix) > 0
    if truth.kind == "classical":
        if kind in ("words", "distance-from", "distance", "params"):
            return truth.q**truth.k <= 256
        if kind == "puncture":
            return truth.n > 1
        if kind == "shorten":
            return truth.n > 1
        if kind == "tensor":
            return truth.n <= 4
        return True
    if kind in ("distance", "params") and truth.q > 2:
        return truth.q ** (2 * truth.k + len(truth.centre) + 2 * truth.gauge_k) <= 3000
    if kind == "dual-subsystem":
        return truth.gauge_k > 0
    if kind == "deformed":
        return truth.q == 2
    return True


def answer(node, code, query):
    """Ask the code."""
    kind, *a = query
    P = node.objects.Pauli
    pauli = None if not a or a[0] not in ("X", "Z") else getattr(P, a[0])
    if kind == "matrix":
        return objs.mat(code.matrix)
    if kind == "canonicalized":
        return objs.mat(code.canonicalized.matrix)
    if kind == "rank":
        return number(code.rank)
    if kind == "dimension":
        return number(code.dimension)
    if kind == "gauge-dimension":
        return number(code.gauge_dimension)
    if kind == "graph":
        return graph_data(code.graph)
    if kind == "size":
        return [len(code), code.num_checks, code.field.order]
    if kind == "text":
        return str(code)
    if kind == "weight":
        return number(code.get_weight())
    if kind == "twin":
        return [code == code, bool(type(code).equiv(code, code.canonicalized))]
    if kind == "generator":
        return objs.mat(code.generator)
    if kind == "words":
        return [objs.mat(w) for w in code.iter_words(skip_zero=a[0])]
    if kind == "word":
        return objs.mat(code.get_random_word(seed=a[0]))
    if kind == "dual":
        return objs.mat(code.dual().matrix)
    if kind == "bound":  # a random number, which must not influence what is asked later
        return bound(node, code)
    if kind == "distance":
        if family(node, code) == "classical":
            return number(code.get_distance())
        return number(code.get_distance(pauli) if pauli is not None else code.get_distance())
    if kind == "distance-from":
        vector = np.random.RandomState(a[0]).randint(code.field.order, size=len(code))
        return number(code.get_distance(vector=vector))
    if kind == "params":
        return [number(x) for x in code.get_code_params()]
    if kind == "contains":
        vector = np.random.RandomState(a[0]).randint(code.field.order, size=len(code))
        return [vector in code, np.zeros(len(code), dtype=int) in code]
    if kind == "puncture":
        return objs.mat(code.puncture(a[0] % len(code)).matrix)
    if kind == "shorten":
        return objs.mat(code.shorten(a[0] % len(code)).matrix)
    if kind == "stack":
        return objs.mat(type(code).stack(code, code).matrix)
    if kind == "tensor":
        return objs.mat(node.codes.ClassicalCode.tensor_product(code, code).matrix)
    if kind == "logical":
        return objs.mat(code.get_logical_ops(pauli))
    if kind == "stabilizer":
        return objs.mat(code.get_stabilizer_ops(pauli, canonicalized=a[1]))
    if kind == "gauge":
        return objs.mat(code.get_gauge_ops(pauli))
    if kind == "dual-subsystem":
        return objs.mat(code.get_dual_subsystem_code().matrix)
    if kind == "standard":
        matrix, locs, rows, cols = code.get_standard_form_data()
        return [objs.mat(matrix), objs.mat(locs), [index_list(x) for x in rows], [index_list(x) for x in cols]]
    if kind == "standard-xz":
        mx, mz, locs, rows, cols = code.get_standard_form_data_xz()
        return [objs.mat(mx), objs.mat(mz), objs.mat(locs), [index_list(x) for x in rows], [index_list(x) for x in cols]]
    if kind == "strings":
        return code.get_strings()
    if kind == "conjugated":
        return objs.mat(code.conjugated([a[0] % len(code)] if code.field.order == 2 else range(len(code))).matrix)
    if kind == "deformed":
        return objs.mat(code.deformed("H 0").matrix)
    if kind == "logical-op":
        return objs.mat(code.get_random_logical_op(pauli, ensure_nontrivial=code.dimension > 0, seed=a[1]))
    if kind == "subcodes":
        return [objs.mat(code.code_x.matrix), objs.mat(code.code_z.matrix), objs.mat(code.get_matrix(P.X))]
    raise HarnessError(f"unknown query {query}")


# ---------------------------------------------------------------------------------------------
# oracles
# ---------------------------------------------------------------------------------------------

LIMIT = 2**13


def fail(spec, query, text):
    raise Violation("wrong-answer", f"{query} of {json.dumps(spec)[:300]}: {text}")


class Truth:
    """What is true of a code, by brute force from its parity checks alone."""

    def __init__(self, matrix, q, kind, is_subsystem=False):
        self.f = f = galois.GF(q)
        self.q = q
        self.kind = kind
        self.matrix = np.asarray(matrix, dtype=int)
        self.cols = self.matrix.shape[1]
        self.n = self.cols if kind == "classical" else self.cols // 2
        self.rank = objs.rank(f, self.matrix)
        self.subsystem = is_subsystem
        if kind == "classical":
            self.k = self.n - self.rank
            self.kernel = objs.null_space(f, self.matrix)
            self.gauge_k = 0
        else:
            # group generated by the rows, its centralizer, and its centre
            self.commutant = objs.null_space(f, self.conj(self.matrix))
            both = np.vstack([self.matrix, self.commutant]) if len(self.commutant) else self.matrix
            self.centre = objs.null_space(f, self.conj(both))
            stabs = len(self.centre)
            self.gauge_k = (self.rank - stabs) // 2
            self.k = self.n - stabs - self.gauge_k

    def conj(self, rows):
        """Rows whose ordinary product with a vector is the symplectic product."""
        rows = self.f(np.asarray(rows, dtype=int).reshape(-1, self.cols))
        n = self.cols // 2
        return np.hstack([-rows[:, n:], rows[:, :n]]).view(self.f)

    def products(self, a, b):
        b = self.f(np.asarray(b, dtype=int).reshape(-1, self.cols))
        return np.asarray(self.conj(a) @ b.T)

    def vectors(self, n):
        if self.q**n > LIMIT:
            return None
        return self.f(np.array(list(itertools.product(range(self.q), repeat=n)), dtype=int))

    def words(self):
        """All code words of a classical code; None if too many."""
        if self.q**self.k > LIMIT:
            return None
        coefficients = self.vectors(self.k) if self.k else self.f.Zeros((1, 0))
        return np.asarray(coefficients @ self.kernel) if self.k else np.zeros((1, self.n), dtype=int)

    def distance(self, pauli=None):
        """Minimal weight of a nontrivial word or logical operator; None if too large to enumerate."""
        if self.k == 0:
            return "nan"
        if self.kind == "classical":
            v = self.vectors(self.n)
            if v is None:
                if self.q**self.k > LIMIT:
                    return None
                return int(np.count_nonzero(self.words()[1:], axis=1).min())
            ok = ~np.any(np.asarray(v @ self.f(self.matrix).T), axis=1)
            weights = np.count_nonzero(np.asarray(v), axis=1)
            return int(weights[ok & (weights > 0)].min())
        n = self.n
        if pauli is None:
            v = self.vectors(2 * n)
            if v is None and self.kind == "css":
                x, z = self.distance("X"), self.distance("Z")
                return None if x is None or z is None else min(x, z)
        else:
            part = self.vectors(n)
            v = None
            if part is not None:
                zero = self.f.Zeros(part.shape)
                v = self.f(np.hstack([part, zero] if pauli == "X" else [zero, part]))
        if v is None:
            return self.long_distance(pauli) if pauli and self.kind == "css" else None
        commutes = ~np.any(np.asarray(v @ self.conj(self.centre).T), axis=1) if len(self.centre) else np.ones(len(v), bool)
        # inside the group of checks iff orthogonal to everything that is orthogonal to the checks
        complement = objs.null_space(self.f, self.matrix)
        inside = ~np.any(np.asarray(v @ complement.T), axis=1) if len(complement) else np.ones(len(v), bool)
        a = np.asarray(v)
        weights = np.count_nonzero((a[:, :n] != 0) | (a[:, n:] != 0), axis=1)
        chosen = weights[commutes & ~inside]
        return int(chosen.min()) if len(chosen) else None

    def long_distance(self, pauli):
        """The same for operators of one type of a CSS code over GF(2), if the space of those is small."""
        if self.q != 2:
            return None
        n = self.n
        mine, other = (slice(0, n), slice(n, 2 * n)) if pauli == "X" else (slice(n, 2 * n), slice(0, n))
        checks = objs.row_reduce(self.f, self.matrix[~np.any(self.matrix[:, other], axis=1)][:, mine])[0]
        against = [row[other] for row in np.asarray(self.centre) if np.any(row[other])]
        space = objs.null_space(self.f, np.array(against, dtype=int).reshape(-1, n))
        if len(space) > 17:
            return None
        rows = list(np.asarray(checks, dtype=int).reshape(-1, n))
        inner = len(rows)
        for v in np.asarray(space, dtype=int):
            if objs.rank(self.f, np.array([*rows, v])) > len(rows):
                rows.append(v)
        return min_weight(np.array(rows, dtype=np.uint8).reshape(-1, n), inner)

    # -- logical operators ---------------------------------------------------------------------

    def pairs_error(self, ops, k):
        """Why the rows are not k conjugate pairs of operators; None if they are."""
        ops = np.asarray(ops, dtype=int).reshape(-1, self.cols)
        if len(ops) != 2 * k:
            return f"{len(ops)} rows instead of {2 * k}"
        form = self.products(ops, ops)
        want = np.zeros((2 * k, 2 * k), dtype=int)
        want[:k, k:] = np.eye(k, dtype=int)
        want[k:, :k] = np.asarray(-self.f(np.eye(k, dtype=int))) if k else 0
        if not np.array_equal(form, want):
            return "the operators do not commute as conjugate pairs do"
        return None

    def logical_error(self, ops):
        """Why the rows are not a symplectic basis of logical operators; None if they are."""
        ops = np.asarray(ops, dtype=int)
        if ops.ndim != 2 or ops.shape != (2 * self.k, self.cols):
            return f"shape {ops.shape} instead of {(2 * self.k, self.cols)}"
        if self.k and np.any(self.products(self.matrix, ops)):
            return "a logical operator violates a parity check"
        return self.pairs_error(ops, self.k)

    def gauge_error(self, ops):
        ops = np.asarray(ops, dtype=int).reshape(-1, self.cols)
        if len(ops) and not all(objs.in_span(self.f, self.matrix, op) for op in ops):
            return "a gauge operator is not generated by the checks"
        return self.pairs_error(ops, self.gauge_k)


def min_weight(rows, inner):
    """Smallest weight of the sums of (independent, binary) rows that are not sums of the first `inner` rows."""
    block = np.zeros((1, rows.shape[1]), dtype=np.uint8)
    best = None
    for number, row in enumerate(rows):
        new = block ^ row
        if number >= inner:
            least = int(np.count_nonzero(new, axis=1).min())
            best = least if best is None else min(best, least)
        block = np.vstack([block, new])
    return best


def all_sums(rows):
    """All sums of binary rows; those of the first k rows are the first 2**k."""
    block = np.zeros((1, rows.shape[1]), dtype=np.uint8)
    for row in rows:
        block = np.vstack([block, block ^ row])
    return block


_truths: dict = {}


def truth_of(spec, code, kind):
    key = json.dumps([spec, objs.mat(code.matrix), code.field.order])
    if key not in _truths:
        if len(_truths) > 400:
            _truths.clear()
        _truths[key] = Truth(code.matrix, code.field.order, kind)
    return _truths[key]


def check_answer(truth, spec, query, value):
    """Decide an answer by brute force, where that is feasible."""
    kind, *a = query
    f = truth.f
    if value is None:
        return
    if kind == "rank" and value != truth.rank:
        fail(spec, query, f"{value} instead of {truth.rank}")
    elif kind == "dimension" and value != truth.k:
        fail(spec, query, f"{value} instead of {truth.k}")
    elif kind == "gauge-dimension" and value != truth.gauge_k:
        fail(spec, query, f"{value} instead of {truth.gauge_k}")
    elif kind == "canonicalized":
        rows = np.array(value, dtype=int).reshape(-1, truth.cols)
        if len(rows) != truth.rank or (len(rows) and not objs.same_span(f, rows, truth.matrix)):
            fail(spec, query, "the rows do not generate the same checks")
    elif kind in ("distance", "params"):
        d = value if kind == "distance" else value[2]
        want = truth.distance(a[0] if a else None)
        if want is not None and d != want:
            fail(spec, query, f"distance {d} instead of {want}")
        if kind == "params" and value[:2] != [truth.n, truth.k]:
            fail(spec, query, f"{value} instead of {[truth.n, truth.k]}")
    elif kind == "generator":
        rows = np.array(value, dtype=int).reshape(-1, truth.cols)
        if objs.rank(f, rows) != truth.k or (truth.k and np.any(np.asarray(f(truth.matrix) @ f(rows).T))):
            fail(spec, query, "the rows are not a generating set of the code words")
    elif kind in ("word", "words"):
        rows = np.array(value, dtype=int).reshape(-1, truth.cols)
        if np.any(np.asarray(f(truth.matrix) @ f(rows).T)):
            fail(spec, query, "a word violates a parity check")
        if kind == "words":
            want = truth.q**truth.k - bool(a[0])
            if len(rows) != want or len({tuple(r) for r in rows.tolist()}) != want:
                fail(spec, query, f"{len(rows)} words instead of {want} different ones")
    elif kind == "dual":
        rows = np.array(value, dtype=int).reshape(-1, truth.cols)
        if objs.rank(f, rows) != truth.k or (truth.k and np.any(np.asarray(f(truth.matrix) @ f(rows).T))):
            fail(spec, query, "the dual code has other words")
    elif kind == "logical":
        if a[0] is None:
            error = truth.logical_error(np.array(value, dtype=int).reshape(-1, truth.cols))
            if error:
                fail(spec, query, error)
        else:
            n = truth.n
            rows = np.array(value, dtype=int)
            if len(value) != truth.k:
                fail(spec, query, f"{len(value)} operators instead of {truth.k}")
            if truth.k:
                if rows.shape[1] == n:
                    zero = np.zeros_like(rows)
                    rows = np.hstack([rows, zero] if a[0] == "X" else [zero, rows])
                if np.any(truth.products(truth.matrix, rows)):
                    fail(spec, query, "a logical operator violates a parity check")
                if np.any(truth.products(rows, rows)):
                    fail(spec, query, "logical operators of the same type do not commute")
                if objs.rank(f, np.vstack([truth.matrix, rows])) != truth.rank + truth.k:
                    fail(spec, query, "the logical operators are not independent of the checks")
    elif kind == "logical-op":
        n = truth.n
        row = np.array(value, dtype=int)
        row = np.concatenate([row, 0 * row] if a[0] == "X" else [0 * row, row])
        if np.any(truth.products(truth.matrix, row)):
            fail(spec, query, "the operator violates a parity check")
        if truth.k and objs.in_span(f, truth.matrix, row):
            fail(spec, query, "the operator is trivial")
    elif kind == "stabilizer" and a[0] is None:
        rows = np.array(value, dtype=int).reshape(-1, truth.cols)
        if not objs.same_span(f, rows, truth.centre) if len(rows) or len(truth.centre) else False:
            fail(spec, query, "the operators do not generate the stabilizer group")
        if a[1] and objs.rank(f, rows) != len(rows):
            fail(spec, query, "the canonical generators are not independent")
    elif kind == "stabilizer":
        n = truth.n
        rows = np.array(value, dtype=int)
        if rows.size:
            if rows.shape[-1] == n:
                zero = np.zeros_like(rows)
                rows = np.hstack([rows, zero] if a[0] == "X" else [zero, rows])
            if not all(objs.in_span(f, truth.centre, r) for r in rows):
                fail(spec, query, "an operator is not a stabilizer")
            if truth.kind == "css":
                half = slice(0, n) if a[0] == "X" else slice(n, 2 * n)
                if objs.rank(f, rows) != objs.rank(f, np.asarray(truth.centre)[:, half]):
                    fail(spec, query, "stabilizers are missing")
            if a[1] and objs.rank(f, rows) != len(rows):
                fail(spec, query, "the canonical generators are not independent")
    elif kind == "gauge" and a[0] is None:
        error = truth.gauge_error(np.array(value, dtype=int))
        if error:
            fail(spec, query, error)
    elif kind == "matrix":
        given = {"cmat": spec[-1], "qmat": spec[-1]}.get(spec[0], truth.matrix)
        if not np.array_equal(np.array(value, dtype=int).reshape(-1, truth.cols), given):
            fail(spec, query, "other parity checks")
    elif kind == "size":
        if value != [truth.n, len(truth.matrix), truth.q]:
            fail(spec, query, f"{value} instead of {[truth.n, len(truth.matrix), truth.q]}")
    elif kind == "twin":
        if value != [True, True]:
            fail(spec, query, f"a code is not equal or equivalent to itself: {value}")
    elif kind == "weight":
        m = truth.matrix
        if truth.kind != "classical":
            m = (m[:, : truth.n] != 0) | (m[:, truth.n :] != 0)
        want = int(np.count_nonzero(m, axis=1).max())
        if value != want:
            fail(spec, query, f"{value} instead of {want}")
    elif kind == "strings":
        if parse_strings(value, truth.q) != truth.matrix.tolist():
            fail(spec, query, f"{value} are other parity checks")
    elif kind == "graph":
        edges = sum(np.count_nonzero(truth.matrix[:, [j]] if truth.kind == "classical" else truth.matrix[:, [j]] | truth.matrix[:, [j + truth.n]]) for j in range(truth.n))
        if len(value[1]) != edges:
            fail(spec, query, f"{len(value[1])} edges instead of {edges}")
    elif kind == "distance-from" and truth.kind == "classical":
        words = truth.words()
        if words is not None:
            vector = np.random.RandomState(a[0]).randint(truth.q, size=truth.n)
            want = int(np.count_nonzero(words != vector, axis=1).min())
            if value != want:
                fail(spec, query, f"{value} instead of {want}")
    elif kind == "contains":
        vector = np.random.RandomState(a[0]).randint(truth.q, size=truth.n)
        want = [not np.any(np.asarray(f(truth.matrix) @ f(vector))), True]
        if value != want:
            fail(spec, query, f"{value} instead of {want}")
    elif kind in ("puncture", "shorten"):
        words = truth.words()
        bit = a[0] % truth.n
        if words is not None:
            want = {tuple(w) for w in np.delete(words[words[:, bit] == 0] if kind == "shorten" else words, bit, 1).tolist()}
            rows = f(np.array(value, dtype=int).reshape(-1, truth.n - 1))
            good = all(not np.any(np.asarray(rows @ f(list(w)))) for w in want) if truth.n > 1 else True
            if not good or truth.q ** (truth.n - 1 - objs.rank(f, rows)) != len(want):
                fail(spec, query, "the code has other words")
    elif kind == "tensor":
        rows = np.array(value, dtype=int).reshape(-1, truth.n**2)
        product = np.kron(truth.kernel, truth.kernel) if truth.k else np.zeros((0, truth.n**2), dtype=int)
        if objs.rank(f, rows) != truth.n**2 - truth.k**2 or np.any(np.asarray(f(rows) @ f(np.asarray(product, dtype=int)).T)):
            fail(spec, query, "the tensor product has other words")
    elif kind == "stack":
        m = np.asarray(truth.matrix)
        if truth.kind == "classical":
            want = np.kron(np.eye(2, dtype=int), m)
        else:
            want = np.concatenate([np.kron(np.eye(2, dtype=int), part) for part in (m[:, : truth.n], m[:, truth.n :])], axis=1)
        rows = np.array(value, dtype=int).reshape(-1, 2 * truth.cols)
        if sorted(rows.tolist()) != sorted(want.tolist()):
            fail(spec, query, "the stacked code has other checks")
    elif kind in ("conjugated", "deformed"):
        want = truth.matrix.copy()
        qudits = [0] if truth.q == 2 else range(truth.n)
        for j in qudits:
            want[:, [j, truth.n + j]] = want[:, [truth.n + j, j]]
        want = f(want)
        if truth.q > 2:
            want[:, : truth.n] *= -f(1)
        rows = np.array(value, dtype=int).reshape(-1, truth.cols)
        if objs.rank(f, want) != objs.rank(f, rows) or (len(rows) and not objs.same_span(f, rows, want)):
            fail(spec, query, "the transformed code has other checks")
    elif kind == "subcodes":
        n = truth.n
        x, z = truth.matrix[:, :n], truth.matrix[:, n:]
        x, z = x[np.any(x, axis=1)], z[np.any(z, axis=1)]
        for got, want in [(value[0], x), (value[1], z), (value[2], x)]:
            got = np.array(got, dtype=int).reshape(-1, n)
            if got[np.any(got, axis=1)].tolist() != want.tolist():
                fail(spec, query, "the X- or Z-type checks differ from those of the code")
    elif kind == "standard":
        matrix = np.array(value[0], dtype=int).reshape(-1, 2, truth.n)
        check_standard(truth, spec, query, matrix[:, 0], matrix[:, 1], *value[1:])
    elif kind == "standard-xz":
        x, z = (np.array(m, dtype=int).reshape(-1, truth.n) for m in value[:2])
        check_standard(truth, spec, query, x, z, *value[2:], both=False)


def parse_strings(strings, q):
    """Parity checks from their text, read independently of the library."""
    rows = []
    for string in strings:
        x, z = [], []
        for op in string.split():
            a = b = 0
            if q == 2:
                a, b = {"I": (0, 0), "X": (1, 0), "Z": (0, 1), "Y": (1, 1)}[op]
            elif op != "I":
                for factor in op.split("*"):
                    number_ = int(factor[2:-1])
                    a += number_ * (factor[0] in "XY")
                    b += number_ * (factor[0] in "ZY")
            x.append(a)
            z.append(b)
        rows.append(x + z)
    return rows


def take(sector):
    return slice(*sector[1]) if sector[0] == "slice" else np.array(sector[1], dtype=int)


def check_standard(truth, spec, query, x, z, locs, rows, cols, both=True):
    """The documented guarantees of a standard form."""
    f = truth.f
    if sorted(locs) != list(range(truth.n)):
        fail(spec, query, "the qudit locations are not a permutation")
    back = np.argsort(locs)
    if both:
        m = np.concatenate([x[:, back], z[:, back]], axis=1)
    else:
        m = np.concatenate([np.hstack([x[:, back], 0 * x]), np.hstack([0 * z, z[:, back]])])
    if objs.rank(f, m) != truth.rank or (len(m) and not objs.same_span(f, m, truth.matrix)):
        fail(spec, query, "the standard form has other checks")
    for name, part, row, col, xz in [
        ("X stabilizer", x, rows[0], cols[0], 0),
        ("X gauge", x, rows[1], cols[1], 0),
        ("Z stabilizer", z, rows[2], cols[3], 1),
        ("Z gauge", z, rows[3], cols[4], 1),
    ]:
        block = part[take(row)][:, take(col)]
        if not np.array_equal(block, np.eye(len(block), dtype=int)):
            fail(spec, query, f"the block of {name} pivots is not an identity matrix")
        if "stabilizer" in name and truth.kind == "css" and len(block):
            ops = part[take(row)][:, back]
            ops = np.hstack([ops, 0 * ops] if xz == 0 else [0 * ops, ops])
            if np.any(truth.products(truth.matrix, ops)):
                fail(spec, query, f"a row in the sector of {name}s is not a stabilizer")


__all__ = ["sim"]
