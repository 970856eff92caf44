"""C18: Tanner graphs, operator strings, chain complexes and Cayley complexes are what their definitions say."""

from __future__ import annotations

import itertools
import json
import pickle
import random

import galois
import networkx as nx
import numpy as np

from dst import algebra, life, objs, sim, world
from dst.core import Result, Violation
from dst.props.c17 import perm, random_perm

PROPERTY = "C18"
RUNS = {"quick": 1500, "thorough": 50000}
RULE = (
    "seeded plans: parity check matrices, chain complexes over fields and group algebras, and subsets of small groups, which"
    " one to three threads share, turn into Tanner graphs, products, duals, Cayley complexes, faces and quantum Tanner codes,"
    " and read back from graphs, strings and pickles, with preemptions, interrupts and allocation failures; non-trivial = an"
    " action fired, or several questions were asked; distinct by objects, questions and schedule"
)
REAL = ["qldpc.objects", "qldpc.math", "qldpc.codes (Tanner graphs, graph products, quantum Tanner codes)", "qldpc.abstract", "galois, numpy, networkx, sympy"]
STUB = ["thread scheduler"]
ASSUMPTIONS = ["callers do not modify the graphs and arrays they are given"]


def warm() -> None:
    world.install()
    sim.warm()


# ---------------------------------------------------------------------------------------------
# plans
# ---------------------------------------------------------------------------------------------

GROUPS = [
    *[["cyclic", n] for n in (1, 2, 3, 4, 5, 6, 7, 8)],
    *[["abelian", o] for o in ([2, 2], [2, 3], [4, 2], [3, 3], [2, 2, 2], [1, 3])],
    *[["dihedral", n] for n in (2, 3, 4, 5)],
    ["symmetric", 3],
    ["alternating", 4],
    ["quaternion"],
    ["product", ["cyclic", 2], ["symmetric", 3]],
]
ABELIAN = [["cyclic", 1], ["cyclic", 2], ["cyclic", 3], ["cyclic", 4], ["abelian", [2, 2]], ["abelian", [2, 3]]]


def draw_matrix(rng, q, rows, cols):
    m = life.random_matrix(rng, q, rows, cols, rng.choice([0.2, 0.5, 0.8]))
    for i in range(rows):
        if rng.random() < 0.15:
            m[i] = [0] * cols
    for j in range(cols):
        if rng.random() < 0.15:
            for row in m:
                row[j] = 0
    return m


def draw_chain(rng):
    """[field, group or None, operators]; entries over a group are lists of [coefficient, number of a member]."""
    q = rng.choice([2, 2, 2, 3, 3, 4, 5])
    f = galois.GF(q)
    if rng.random() < 0.35:
        group = rng.choice(ABELIAN)
        order = objs.group_order(group)

        def entry():
            r = rng.random()
            if r < 0.3:
                return []
            return [[rng.randrange(1, q), rng.randrange(order)] for _ in range(1 if r < 0.8 else 2)]

        return [q, group, [[[entry() for _ in range(cols)] for _ in range(rows)] for rows, cols in [(rng.randint(1, 2), rng.randint(1, 3))]]]
    sizes = [rng.randint(1, 4) for _ in range(rng.choice([2, 2, 2, 3, 3, 4]))]
    if rng.random() < 0.05:
        sizes[rng.choice([0, -1])] = 0
    ops = [draw_matrix(rng, q, sizes[0], sizes[1])]
    for cols in sizes[2:]:
        kernel = objs.null_space(f, np.array(ops[-1], dtype=int).reshape(-1, len(ops[-1][0]) if ops[-1] else sizes[1]))
        made = np.zeros((kernel.shape[1], cols), dtype=int)
        if len(kernel):
            made = objs.mat(kernel.T @ f(np.array(draw_matrix(rng, q, len(kernel), cols), dtype=int).reshape(len(kernel), cols)))
        ops.append(objs.mat(made))
        if not cols:
            break
    return [q, None, ops, sizes]


def draw_code(rng):
    r = rng.random()
    q = rng.choice([2, 2, 2, 3, 4, 5, 8])
    if r < 0.45:
        return ["classical", q, draw_matrix(rng, q, rng.randint(1, 5), rng.randint(1, 6))]
    if r < 0.75:
        n = rng.randint(1, 5)
        return ["qudit", q, draw_matrix(rng, q, rng.randint(1, 4), 2 * n)]
    n = rng.randint(1, 6)
    return ["css", q, draw_matrix(rng, q, rng.randint(1, 3), n), draw_matrix(rng, q, rng.randint(1, 3), n)]


def draw_complex(rng):
    group = rng.choice(GROUPS)
    return [group, rng.randrange(10**6), rng.choice([1, 1, 2, 2, 3, 4]), rng.choice([1, 2, 2, 3]), rng.choice([False, True]), rng.random() < 0.25]


KINDS = ["graph", "graph", "regraph", "product", "strings", "operator", "vector", "chain", "tensor", "tensor", "dual", "refuse", "cayley", "cayley", "covers", "faces", "faces", "condition", "qtcode", "noncommuting"]


def plan(rng, tier):
    out = {
        "codes": [draw_code(rng) for _ in range(rng.choice([1, 2]))],
        "chains": [draw_chain(rng) for _ in range(rng.choice([1, 2, 2]))],
        "complexes": [draw_complex(rng) for _ in range(rng.choice([1, 1, 2]))],
        "threads": [],
        "actions": [],
        "entropy": rng.randrange(100),
        "_keep": ["codes", "chains", "complexes"],
    }
    if rng.random() < 0.5:  # two chains that can be multiplied
        first = out["chains"][0]
        if first[1]:
            out["chains"].append([first[0], first[1], [[[[[1, 0]] if rng.random() < 0.5 else [[rng.randrange(1, first[0]), rng.randrange(objs.group_order(first[1]))]] for _ in range(rng.randint(1, 2))]]]])
            cols = len(out["chains"][-1][2][0][0])
        else:
            rows, cols = rng.randint(1, 3), rng.randint(1, 3)
            out["chains"].append([first[0], None, [draw_matrix(rng, first[0], rows, cols)], [rows, cols]])
    menu = rng.sample(KINDS, rng.choice([1, 2, 4])) if rng.random() < 0.4 else KINDS
    for _ in range(rng.choice([1, 1, 2, 3])):
        out["threads"].append([[rng.choice(menu), rng.randrange(10**6)] for _ in range(rng.choice([2, 4, 6, 9]))])
    try:
        traces = run(out, True)[1]
    except Exception:
        return out
    kinds = ["switch"] * 4 if len(out["threads"]) > 1 else []
    kinds += ["interrupt"] if rng.random() < 0.6 or not kinds else []
    kinds += ["memory"] if rng.random() < 0.4 else []
    out["actions"] = sim.choose_actions(rng, traces, rng.choice([0, 1, 2, 4]), kinds, bias=lambda s: "objects.py" in s)
    return out


# ---------------------------------------------------------------------------------------------
# what is true
# ---------------------------------------------------------------------------------------------


class Chains:
    """Arithmetic with matrices over a field, or over a group algebra (entries are dicts)."""

    def __init__(self, q, model=None):
        self.q, self.model, self.f = q, model, galois.GF(q)
        self.plus, self.minus, self.times, _ = objs.tables(self.f)

    def zero(self):
        return {} if self.model else 0

    def one(self):
        return self.model.one() if self.model else 1

    def mul(self, a, b):
        return self.model.mul(a, b) if self.model else int(self.times[a, b])

    def add(self, a, b):
        return self.model.add(a, b) if self.model else int(self.plus[a, b])

    def neg(self, a):
        return self.model.neg(a) if self.model else int(self.minus[0, a])

    def transpose(self, m, shape):
        """The dual of an operator of this shape."""
        rows, cols = shape
        flip = self.model.transpose if self.model else (lambda a: a)
        return [[flip(m[r][c]) for r in range(rows)] for c in range(cols)], (cols, rows)

    def product(self, a, b):
        """Tensor product: dimensions and operators of two complexes [(dims, ops)]."""
        (da, oa), (db, ob) = a, b
        na, nb = len(da) - 1, len(db) - 1
        sectors = [[(i, k - i) for i in range(min(na, k), max(k - nb, 0) - 1, -1)] for k in range(na + nb + 1)]
        start = []
        for pairs in sectors:
            at, where = 0, {}
            for i, j in pairs:
                where[i, j] = at
                at += da[i] * db[j]
            start.append((where, at))
        dims = [at for _, at in start]
        ops = []
        for k in range(1, na + nb + 1):
            m = [[self.zero() for _ in range(dims[k])] for _ in range(dims[k - 1])]
            for i, j in sectors[k]:
                col = start[k][0][i, j]
                if i:
                    row = start[k - 1][0][i - 1, j]
                    for x in range(da[i - 1]):
                        for y in range(da[i]):
                            for z in range(db[j]):
                                m[row + x * db[j] + z][col + y * db[j] + z] = oa[i - 1][x][y]
                if j:
                    row = start[k - 1][0][i, j - 1]
                    for x in range(db[j - 1]):
                        for y in range(db[j]):
                            value = ob[j - 1][x][y]
                            value = self.neg(value) if i % 2 else value
                            for z in range(da[i]):
                                m[row + z * db[j - 1] + x][col + z * db[j] + y] = value
            ops.append(m)
        return dims, ops

    def composes(self, a, b):
        """Whether the product of two operators is zero."""
        for row in a:
            for c in range(len(b[0]) if b else 0):
                total = self.zero()
                for x, line in zip(row, b):
                    total = self.add(total, self.mul(x, line[c]))
                if total:
                    return False
        return True


class Complex:
    """A Cayley complex by its definition, from permutations as tuples."""

    def __init__(self, a, b, bipartite):
        self.a, self.b, self.bipartite = a, b, bipartite
        z = [(0, 1), (1, 0)]

        def both(x, *more):
            for y in more:
                x = x + tuple(v + len(x) for v in y)
            return x

        tails = ([z[1]], [z[1]]) if bipartite else ([z[1], z[0]], [z[0], z[1]])
        self.cover_a = {both(x, *tails[0]) for x in a}
        self.cover_b = {both(x, *tails[1]) for x in b}
        self.symmetric = all(algebra.inverse(x) in s for s in (a, b) for x in s)
        members = algebra.closure(sorted(a | b))
        m = algebra.compose
        self.condition = all(m(x, g) != m(g, y) for g in members for x in a for y in b)
        self.refused = not self.symmetric or bipartite and not self.condition
        if self.refused:
            return
        one = tuple(range(len(next(iter(self.cover_a)))))
        self.vertices, todo = {one}, [one]
        self.edges = {}
        while todo:
            g = todo.pop()
            for side, near in [("L", m(x, g)) for x in self.cover_a] + [("R", m(g, y)) for y in self.cover_b]:
                self.edges[frozenset([g, near])] = side
                if near not in self.vertices:
                    self.vertices.add(near)
                    todo.append(near)
        # faces around the vertices that are reached by going along one edge of either type
        self.sources, todo = {one}, [one]
        self.x_edges, self.z_edges = {}, {}
        while todo:
            g = todo.pop()
            for x, y in itertools.product(self.cover_a, self.cover_b):
                xg, gy = m(x, g), m(g, y)
                xgy = m(xg, y)
                face = frozenset([g, xg, gy, xgy])
                self.x_edges[g, face] = (x, y)
                self.z_edges[xg, face] = (algebra.inverse(x), y)
                if xgy not in self.sources:
                    self.sources.add(xgy)
                    todo.append(xgy)

    def faces(self):
        return {face for _, face in self.x_edges}


def tanner_matrix(edges, subcode, f):
    """Rows of a Tanner code over the faces (in any order), from {(source, face): label}."""
    faces = sorted({face for _, face in edges}, key=sorted)
    where = {face: i for i, face in enumerate(faces)}
    rows = []
    for source in sorted({s for s, _ in edges}):
        near = sorted((label, where[face]) for (s, face), label in edges.items() if s == source)
        for check in subcode:
            row = [0] * len(faces)
            for (_, i), v in zip(near, check):
                row[i] = int(v)
            rows.append(row)
    return np.array(rows, dtype=int).reshape(-1, len(faces))


# ---------------------------------------------------------------------------------------------
# histories
# ---------------------------------------------------------------------------------------------


class Session:
    def __init__(self, p, node, result):
        self.p, self.node, self.result = p, node, result
        self.A, self.O, self.C = node.abstract, node.objects, node.codes
        self.codes = [self.build_code(spec) for spec in p["codes"]]
        self.chains = [self.build_chain(spec) for spec in p["chains"]]
        self.complexes = [self.build_complex(spec) for spec in p["complexes"]]

    def bad(self, kind, text):
        raise Violation(kind, text)

    def perform(self, op):
        kind, s = op
        getattr(self, "ask_" + kind)(random.Random(s))

    # -- codes and Tanner graphs ---------------------------------------------------------------

    def build_code(self, spec):
        kind, q, *m = spec
        if kind == "classical":
            return self.C.ClassicalCode(m[0], q), np.array(m[0], dtype=int)
        if kind == "qudit":
            return self.C.QuditCode(m[0], q), np.array(m[0], dtype=int)
        mx, mz = np.array(m[0], dtype=int), np.array(m[1], dtype=int)
        full = np.block([[mx, np.zeros_like(mx)], [np.zeros_like(mz), mz]])
        return self.C.CSSCode(m[0], m[1], q), full

    def label(self, node):
        return ("d" if node.is_data else "c", node.index)

    def want_graph(self, kind, matrix):
        rows = len(matrix)
        if kind == "classical":
            nodes = {("c", i) for i in range(rows)} | {("d", i) for i in range(matrix.shape[1])}
            return nodes, {(("c", int(i)), ("d", int(j))): int(matrix[i, j]) for i, j in zip(*np.nonzero(matrix))}
        n = matrix.shape[1] // 2
        nodes = {("c", i) for i in range(rows)} | {("d", i) for i in range(n)}
        edges = {}
        for i in range(rows):
            for j in range(n):
                value = int(matrix[i, j]), int(matrix[i, n + j])
                if any(value):
                    edges["c", i, j] = value
        return nodes, {(("c", i), ("d", j)): v for (_, i, j), v in edges.items()}

    def check_graph(self, graph, kind, q, matrix, what):
        nodes, edges = self.want_graph(kind, matrix)
        got_nodes = {self.label(x) for x in graph.nodes}
        if got_nodes != nodes:
            self.bad("wrong-graph", f"{what}: the Tanner graph of {matrix.tolist()} has nodes {sorted(got_nodes)}")
        got = {}
        for x, y, data in graph.edges(data=True):
            if kind == "classical":
                value = int(data["val"])
            else:
                held = data.get(self.O.Pauli) if q == 2 else data.get(self.O.QuditOperator)
                if held is None:
                    self.bad("wrong-graph", f"{what}: an edge has no operator, but {data}")
                f = galois.GF(q)
                value = tuple(int(f(abs(int(v)))) if int(v) >= 0 else int(-f(-int(v))) for v in held.value)
            got[self.label(x), self.label(y)] = value
        if got != edges:
            differ = [e for e in {**got, **edges} if got.get(e) != edges.get(e)]
            self.bad("wrong-graph", f"{what}: the Tanner graph of {matrix.tolist()} over GF({q}) has {got.get(differ[0])} instead of {edges.get(differ[0])} at {differ[0]}")
        if graph.order != q:
            self.bad("wrong-graph", f"{what}: the Tanner graph says that the field has order {graph.order} instead of {q}")

    def ask_graph(self, rng):
        number = rng.randrange(len(self.codes))
        (code, matrix), (kind, q, *_) = self.codes[number], self.p["codes"][number]
        graph = code.graph
        with sim.masked():
            self.check_graph(graph, kind, q, matrix, "the code")
        back = type(code).graph_to_matrix(graph) if kind != "css" else self.C.QuditCode.graph_to_matrix(graph)
        with sim.masked():
            if objs.mat(back) != matrix.tolist() or type(back).order != q:
                self.bad("wrong-graph", f"the Tanner graph of {matrix.tolist()} over GF({q}) reads back as {objs.mat(back)}")

    def shuffled(self, rng, graph):
        """The same graph, with nodes and edges in another order, as another process may hand it over."""
        with sim.masked():
            out = nx.DiGraph()
            nodes, edges = list(graph.nodes), list(graph.edges(data=True))
            rng.shuffle(nodes)
            rng.shuffle(edges)
            out.add_nodes_from(nodes)
            out.add_edges_from(edges)
            out.order = graph.order
            if rng.random() < 0.3:
                order = out.order
                out = pickle.loads(pickle.dumps(out))
                out.order = order
            return out

    def ask_regraph(self, rng):
        number = rng.randrange(len(self.codes))
        (code, matrix), (kind, q, *_) = self.codes[number], self.p["codes"][number]
        graph = self.shuffled(rng, type(code).matrix_to_graph(code.matrix))
        family = self.C.ClassicalCode if kind == "classical" else self.C.QuditCode
        back = family.graph_to_matrix(graph)
        again = family.matrix_to_graph(back)
        with sim.masked():
            if objs.mat(back) != matrix.tolist() or type(back).order != q:
                self.bad("wrong-graph", f"the Tanner graph of {matrix.tolist()} over GF({q}), in another order, reads back as {objs.mat(back)}")
            self.check_graph(again, "classical" if kind == "classical" else "qudit", q, matrix, "a matrix read from a graph")

    def ask_product(self, rng):
        with sim.masked():
            q = rng.choice([2, 2, 3, 4, 5])
            mats = [np.array(draw_matrix(rng, q, rng.randint(1, 3), rng.randint(1, 3)), dtype=int) for _ in range(2)]
        a, b = (self.C.ClassicalCode(m, q) for m in mats)
        graphs = a.graph, b.graph
        if rng.random() < 0.5:
            graphs = self.shuffled(rng, graphs[0]), self.shuffled(rng, graphs[1])
        graph = self.C.HGPCode.get_graph_product(*graphs)
        matrix = self.C.QuditCode.graph_to_matrix(graph)
        mx, mz = self.C.HGPCode.get_matrix_product(a.matrix, b.matrix)
        with sim.masked():
            f = galois.GF(q)
            ha, hb = f(mats[0]), f(mats[1])
            eye = lambda n: f(np.eye(n, dtype=int))
            wx = np.hstack([np.kron(ha, eye(hb.shape[1])), np.kron(eye(ha.shape[0]), hb.T)])
            wz = np.hstack([-np.kron(eye(ha.shape[1]), hb), np.kron(ha.T, eye(hb.shape[0]))])
            full = np.block([[np.asarray(wx), np.zeros_like(wx)], [np.zeros_like(wz), np.asarray(wz)]]).astype(int)
            if objs.mat(mx) != objs.mat(wx) or objs.mat(mz) != objs.mat(wz):
                self.bad("wrong-product", f"the hypergraph product of {[m.tolist() for m in mats]} over GF({q}) has the checks {objs.mat(mx)} and {objs.mat(mz)}")
            self.check_graph(graph, "qudit", q, full, "a hypergraph product of graphs")
            if objs.mat(matrix) != full.tolist():
                self.bad("wrong-product", f"the product of the graphs of {[m.tolist() for m in mats]} over GF({q}) reads back as {objs.mat(matrix)}")

    # -- operators and strings -----------------------------------------------------------------

    def ask_strings(self, rng):
        number = rng.randrange(len(self.codes))
        (code, matrix), (kind, q, *_) = self.codes[number], self.p["codes"][number]
        if kind == "classical":
            return
        strings = code.get_strings()
        if q == 2:
            back = self.C.QuditCode.from_strings(*strings, field=q)
        else:
            back = self.C.QuditCode.from_strings(*strings, field=q)
        with sim.masked():
            n = matrix.shape[1] // 2
            want = []
            for row in matrix:
                words = []
                for j in range(n):
                    x, z = int(row[j]), int(row[n + j])
                    if q == 2:
                        words.append("IZXY"[2 * x + z])
                    else:
                        words.append("I" if not x and not z else f"Y({x})" if x == z else "*".join(s for s in (f"X({x})" * bool(x), f"Z({z})" * bool(z)) if s))
                want.append(" ".join(words))
            if strings != want:
                self.bad("wrong-string", f"the checks {matrix.tolist()} over GF({q}) are written as {strings}")
            if objs.mat(back.matrix) != matrix.tolist():
                self.bad("wrong-string", f"{strings} over GF({q}) reads as {objs.mat(back.matrix)}")

    def ask_operator(self, rng):
        O = self.O
        x, z = rng.choice([(rng.randrange(-3, 12), rng.randrange(-3, 12)), (0, 0), (rng.randrange(5), 0), (0, rng.randrange(5)), (3, 3)])
        op = O.QuditOperator((x, z))
        text = str(op)
        back = O.QuditOperator.from_string(text)
        swapped, negative = (~op).value, (-op).value
        a, b = rng.choice(list(O.Pauli)), rng.choice(list(O.Pauli))
        product, other, named = a * b, ~a, O.Pauli.from_string(str(a))
        strange = rng.choice(["", "X", "X()", "(1)", "W(1)", "X(1)*", "*X(1)", "X(1)*Z(2)*X(1)", "X(1)*X(2)", "Z(1)*Z(1)", "Y(1)*X(1)", "Y(1)*Y(1)", "X(1)Z(1)", "X(1.5)", "X(a)", "x(1)", "X(--1)", "XY(1)", "I*X(1)", "X 1", "X(²)", "II", "X(1"])
        try:
            odd = O.QuditOperator.from_string(strange)
        except ValueError:
            odd = None
        letters = rng.choice(["", "x", "XX", "W", "i", "1"])
        try:
            odd2 = O.Pauli.from_string(letters)
        except ValueError:
            odd2 = None
        nodes = [O.Node(rng.randrange(12), rng.random() < 0.5) for _ in range(6)]
        order = sorted(nodes)
        with sim.masked():
            if back.value != (x, z) or back != op:
                self.bad("wrong-string", f"the operator {(x, z)} is written as {text}, which reads as {back.value}")
            if swapped != (z, x) or negative != (-x, -z):
                self.bad("wrong-operator", f"{(x, z)} has the transform {swapped} and the negative {negative}")
            if odd is not None:
                self.bad("no-refusal", f"{strange!r} is read as the operator {odd.value}")
            if odd2 is not None:
                self.bad("no-refusal", f"{letters!r} is read as the Pauli operator {odd2}")
            value = {"I": (0, 0), "X": (1, 0), "Z": (0, 1), "Y": (1, 1)}
            va, vb = value[str(a)], value[str(b)]
            if value[str(product)] != ((va[0] + vb[0]) % 2, (va[1] + vb[1]) % 2) or value[str(other)] != va[::-1] or named is not a or a.value != va:
                self.bad("wrong-operator", f"{a} * {b} = {product}, ~{a} = {other}, {named}")
            if [O.Pauli.X.index, O.Pauli.Z.index] != [0, 1]:
                self.bad("wrong-operator", "the indices of X and Z")
            want = sorted(nodes, key=lambda v: (not v.is_data, v.index))
            if order != want or any(hash(v) != hash(O.Node(v.index, v.is_data)) for v in nodes) or [str(v) for v in order] != [f"{'d' if v.is_data else 'c'}_{v.index}" for v in want]:
                self.bad("wrong-operator", f"nodes are sorted as {list(map(str, order))}")

    def ask_vector(self, rng):
        from_math = __import__("sys").modules[self.A.__name__.replace("abstract", "math")]
        q = rng.choice([2, 2, 3, 4, 5, 9])
        f = galois.GF(q)
        n, rows = rng.randint(1, 5), rng.randint(1, 3)
        with sim.masked():
            v = f(np.array([[rng.randrange(q) for _ in range(2 * n)] for _ in range(rows)]))
            w = f(np.array([[rng.randrange(q) for _ in range(2 * n)] for _ in range(rows)]))
            before = objs.mat(v)
            bits = [rng.randrange(2) for _ in range(2 * n)]
        dual = from_math.symplectic_conjugate(v)
        single = from_math.symplectic_conjugate(v[0])
        text = from_math.op_to_string(galois.GF(2)(bits) if rng.random() < 0.5 else np.array(bits))
        first = from_math.first_nonzero_cols(v)
        with sim.masked():
            inner = dual @ w.T
            want = v[:, :n] @ w[:, n:].T - v[:, n:] @ w[:, :n].T
            if type(dual) is not f or not np.array_equal(inner, want) or objs.mat(single) != objs.mat(dual[0]):
                self.bad("wrong-operator", f"the symplectic conjugates of {before} over GF({q}) are {objs.mat(dual)}")
            if objs.mat(v) != before:
                self.bad("changed-input", "taking symplectic conjugates changed the vectors")
            letters = "".join("_ZXY"[2 * bits[j] + bits[n + j]] for j in range(n))
            if str(text) != "+" + letters:
                self.bad("wrong-string", f"the Pauli string {bits} is written as {text}")
            if [int(x) for x in first] != [next((j for j, x in enumerate(row) if x), 0) for row in before]:
                self.bad("wrong-operator", f"the first nonzero columns of {before} are {objs.mat(first)}")

    # -- chain complexes -----------------------------------------------------------------------

    def build_chain(self, spec):
        q, group, ops, *sizes = spec
        if group is None:
            sizes = sizes[0]
            ops = [m for m in ops]
            sizes = sizes[: len(ops) + 1]
            arrays = [np.array(m, dtype=int).reshape(a, b) for m, a, b in zip(ops, sizes, sizes[1:])]
            chain = self.O.ChainComplex(*arrays, field=q)
            return chain, Chains(q), (list(sizes), [a.tolist() for a in arrays]), None
        real = objs.build_group(self.node, group)
        listed = [perm(g) for g in real.generate()]
        model = algebra.Ring(listed, q)
        ring = self.A.GroupRing(real, q)
        held, arrays = [], []
        for m in ops:
            values = [[model.clean(self.collect(model, entry, listed)) for entry in row] for row in m]
            held.append(values)
            arrays.append(self.ring_array(ring, values))
        dims = [len(ops[0]), *[len(m[0]) for m in ops]]
        return self.O.ChainComplex(*arrays), Chains(q, model), (dims, held), ring

    def collect(self, model, entry, listed):
        out: dict = {}
        for c, i in entry:
            g = listed[i]
            out[g] = int(model.plus[out.get(g, 0), c])
        return out

    def ring_array(self, ring, values):
        rows = [[self.A.RingMember(ring, *[(c, self.A.GroupMember(list(g))) for g, c in sorted(x.items())]) for x in row] for row in values]
        return self.A.RingArray(rows, ring)

    def entries(self, chains, array, shape):
        """The entries of an operator, in the form of the model."""
        if array.shape != shape:
            self.bad("wrong-chain", f"an operator has shape {array.shape} instead of {shape}")
        if chains.model is None:
            if not isinstance(array, chains.f) and array.size:
                self.bad("wrong-chain", f"an operator over GF({chains.q}) is a {type(array)}")
            return objs.mat(array)
        if type(array).__name__ != "RingArray":
            self.bad("wrong-chain", f"an operator over a group algebra is a {type(array)}")
        out = []
        for row in np.asarray(array, dtype=object):
            line = []
            for x in row:
                if type(x).__name__ != "RingMember":
                    self.bad("wrong-chain", f"an operator over a group algebra has the entry {x!r}")
                value: dict = {}
                for c, g in x:
                    g = perm(g)
                    value[g] = int(chains.model.plus[value.get(g, 0), int(c)])
                line.append(chains.model.clean(value))
            out.append(line)
        return out

    def check_chain(self, chain, chains, want, what):
        dims, ops = want
        if chain.num_links != len(ops) or chain.field.order != chains.q or (chain.group is None) != (chains.model is None):
            self.bad("wrong-chain", f"{what}: {chain.num_links} links over a field of order {chain.field.order}, instead of {len(ops)} and {chains.q}")
        got_dims = [chain.dim(i) for i in range(len(dims))]
        if got_dims != list(dims):
            self.bad("wrong-chain", f"{what}: dimensions {got_dims} instead of {dims}")
        for i, m in enumerate(ops):
            got = self.entries(chains, chain.op(i + 1), (dims[i], dims[i + 1]))
            if got != m:
                self.bad("wrong-chain", f"{what}: the boundary operator of degree {i + 1} is {str(got)[:300]} instead of {str(m)[:300]}")
        for degree, shape in ((0, (0, dims[0])), (len(dims), (dims[-1], 0))):
            if chain.op(degree).shape != shape:
                self.bad("wrong-chain", f"{what}: the operator of degree {degree} has shape {chain.op(degree).shape} instead of {shape}")

    def pick_chain(self, rng):
        return self.chains[rng.randrange(len(self.chains))]

    def ask_chain(self, rng):
        chain, chains, want, ring = self.pick_chain(rng)
        shapes = [chain.op(i).shape for i in range(chain.num_links + 2)]
        with sim.masked():
            self.check_chain(chain, chains, want, "a chain complex")
            dims = want[0]
            if shapes != [(0, dims[0]), *itertools.pairwise(dims), (dims[-1], 0)]:
                self.bad("wrong-chain", f"the operators of a chain complex with dimensions {dims} have shapes {shapes}")

    def dual(self, chains, want):
        dims, ops = want
        out = []
        for i in reversed(range(len(ops))):
            out.append(chains.transpose(ops[i], (dims[i], dims[i + 1]))[0])
        return list(reversed(dims)), out

    def ask_dual(self, rng):
        chain, chains, want, _ = self.pick_chain(rng)
        dual = chain.T
        again = dual.T
        with sim.masked():
            self.check_chain(dual, chains, self.dual(chains, want), "a dual")
            self.check_chain(again, chains, want, "the dual of a dual")

    def ask_tensor(self, rng):
        chain, chains, want, ring = self.pick_chain(rng)
        with sim.masked():
            others = [x for x in self.chains if x[1].q == chains.q and (x[1].model is None) == (chains.model is None)]
            others = [x for x in others if chains.model is None or x[1].model.members == chains.model.members and x[0].group == chain.group]
        other, ochains, owant, _ = rng.choice(others)
        if rng.random() < 0.4:
            other = other.T
            with sim.masked():
                owant = self.dual(ochains, owant)
        if sum(want[0]) * sum(owant[0]) > 120:
            return
        plain = rng.random() < 0.3 and len(want[1]) == 1 and all(want[0])
        first = chain.ops[0] if plain else chain
        product = self.O.ChainComplex.tensor_product(first, other) if rng.random() < 0.7 else self.O.ChainComplex.tensor_product(first, other, chains.q)
        with sim.masked():
            expected = chains.product(want, owant)
            self.check_chain(product, chains, expected, "a tensor product")
            for x, y in itertools.pairwise(expected[1]):
                if not chains.composes(x, y):
                    raise AssertionError("the model of tensor products is wrong")
        if rng.random() < 0.4 and sum(expected[0]) * sum(want[0]) <= 150:
            triple = self.O.ChainComplex.tensor_product(product, chain)
            with sim.masked():
                self.check_chain(triple, chains, chains.product(expected, want), "a tensor product of a tensor product")
            if chains.model is not None and all(expected[0]):
                lifts = [op.lift() for op in triple.ops]
                with sim.masked():
                    for x, y in itertools.pairwise(lifts):
                        if np.any(x @ y):
                            self.bad("wrong-chain", "lifted boundary operators of a tensor product do not compose to zero")

    def ask_refuse(self, rng):
        """Sequences of operators that do not compose, or do not belong together, are refused."""
        chain, chains, want, ring = self.pick_chain(rng)
        dims, ops = want
        with sim.masked():
            kind = rng.choice(["compose", "compose", "shape", "field", "type", "product"])
            q = chains.q
            f = galois.GF(q)
        try:
            if kind == "compose" and ring is None:
                with sim.masked():
                    rows, cols, more = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
                    a, b = (np.array(draw_matrix(rng, q, x, y), dtype=int).reshape(x, y) for x, y in ((rows, cols), (cols, more)))
                    fine = chains.composes(a.tolist(), b.tolist())
                made = self.O.ChainComplex(f(a), f(b)) if rng.random() < 0.5 else self.O.ChainComplex(a, b, field=q)
            elif kind == "compose":
                with sim.masked():
                    more = rng.randint(1, 2)
                    b = [[rng.choice([{}, chains.one(), ops[0][0][0], chains.neg(ops[0][0][0])]) for _ in range(more)] for _ in range(dims[1])]
                    fine = chains.composes(ops[0], b)
                    second = self.ring_array(ring, b)
                made = self.O.ChainComplex(chain.ops[0], second)
            elif kind == "shape":
                fine = False
                made = self.O.ChainComplex(f.Zeros((2, 3)), f.Zeros((rng.choice([1, 2, 4]), 2)))
            elif kind == "field":
                fine = False
                other = rng.choice([x for x in (2, 3, 4, 5) if x != q])
                made = self.O.ChainComplex(f.Zeros((2, 3)), galois.GF(other).Zeros((3, 1))) if rng.random() < 0.5 else self.O.ChainComplex(f.Zeros((2, 3)), field=other)
            elif kind == "type":
                if ring is None:
                    return
                fine = False
                made = self.O.ChainComplex(chain.ops[0], f.Zeros((dims[1], 1)))
            else:
                fine = False
                other = rng.choice([x for x in (2, 3, 4, 5) if x != q])
                made = self.O.ChainComplex.tensor_product(chain, galois.GF(other).Zeros((1, 2)))
        except ValueError as err:
            with sim.masked():
                if fine:
                    self.bad("wrong-refusal", f"operators over GF({q}) that compose to zero were refused: {err}")
            return
        with sim.masked():
            if not fine:
                self.bad("no-refusal", f"{kind}: operators {[str(np.asarray(op)) for op in made.ops]} over {q} were accepted as a chain complex")

    def ask_noncommuting(self, rng):
        """Products over algebras of groups that are not Abelian are chain complexes, or refused."""
        with sim.masked():
            spec, q = rng.choice([["symmetric", 3], ["dihedral", 4], ["quaternion"], ["cyclic", 3]]), rng.choice([2, 2, 3])
            group = objs.build_group(self.node, spec)
            listed = [perm(g) for g in group.generate()]
            model = algebra.Ring(listed, q)
            ring = self.A.GroupRing(group, q)
            few = rng.random() < 0.3
            pick = lambda: {} if rng.random() < 0.2 else {listed[0] if few else rng.choice(listed): rng.randrange(1, q)}
            a = [[pick() for _ in range(rng.randint(1, 2))] for _ in range(1)]
            b = [[pick() for _ in range(rng.randint(1, 2))] for _ in range(1)]
            chains = Chains(q, model)
            expected = chains.product(([1, len(a[0])], [a]), ([1, len(b[0])], [b]))
            fine = chains.composes(*expected[1])
            arrays = self.ring_array(ring, a), self.ring_array(ring, b)
        try:
            product = self.O.ChainComplex.tensor_product(*arrays)
        except ValueError as err:
            with sim.masked():
                if fine:
                    self.bad("wrong-refusal", f"the product of {a} and {b} over {spec} and GF({q}) was refused: {err}")
            return
        with sim.masked():
            if not fine:
                self.bad("no-chain", f"the product of {a} and {b} over {spec} and GF({q}) is no chain complex")
            self.check_chain(product, chains, expected, "a tensor product over a group that is not Abelian")

    # -- Cayley complexes ----------------------------------------------------------------------

    def build_complex(self, spec):
        group, seed, size_a, size_b, bipartite, odd = spec
        rng = random.Random(seed)
        real = objs.build_group(self.node, group)
        members = sorted(algebra.closure([perm(g) for g in real.generators]))

        def subset(size):
            out: set = set()
            for _ in range(20):
                x = rng.choice(members)
                new = {x, algebra.inverse(x)}
                if len(out | new) <= size and (any(v != i for i, v in enumerate(x)) or rng.random() < 0.3):
                    out |= new
            out = out or {members[0]}
            if odd and rng.random() < 0.3:
                out.add(rng.choice(members))
            return out

        a, b = subset(size_a), subset(size_b)
        if rng.random() < 0.2:
            b = a
        truth = Complex(a, b, bipartite)
        made = [self.A.GroupMember(list(x)) for x in sorted(a)], [self.A.GroupMember(list(x)) for x in sorted(b)]
        for m in made:
            rng.shuffle(m)
        if rng.random() < 0.3:
            made = tuple(map(set, made))
        try:
            real = self.O.CayleyComplex(made[0], None if a is b and rng.random() < 0.5 else made[1], bipartite=bipartite)
        except ValueError as err:
            if not truth.refused:
                self.bad("wrong-refusal", f"the subsets {sorted(a)} and {sorted(b)} (bipartite: {bipartite}) were refused: {err}")
            return None, truth, made
        if truth.refused:
            self.bad("no-refusal", f"the subsets {sorted(a)} and {sorted(b)} (bipartite: {bipartite}) were accepted for a Cayley complex")
        return real, truth, made

    def pick_complex(self, rng):
        real, truth, made = self.complexes[rng.randrange(len(self.complexes))]
        if real is not None and rng.random() < 0.15:
            with sim.masked():
                real = pickle.loads(pickle.dumps(real))
        return real, truth, made

    def ask_cayley(self, rng):
        real, truth, _ = self.pick_complex(rng)
        if real is None:
            return
        graph = real.graph
        with sim.masked():
            vertices = {perm(v) for v in graph.nodes}
            edges = {frozenset([perm(x), perm(y)]): data["type"] for x, y, data in graph.edges(data=True)}
            if vertices != truth.vertices or len(graph.nodes) != len(vertices):
                self.bad("wrong-complex", f"the Cayley complex of {sorted(truth.a)} and {sorted(truth.b)} has {len(vertices)} vertices instead of {len(truth.vertices)}")
            if edges != truth.edges:
                self.bad("wrong-complex", f"the Cayley complex of {sorted(truth.a)} and {sorted(truth.b)} (bipartite: {truth.bipartite}) has {len(edges)} edges instead of {len(truth.edges)}, or others")
            if not nx.is_connected(graph) or not nx.is_bipartite(graph):
                self.bad("wrong-complex", "a Cayley complex is not connected or not bipartite")

    def ask_covers(self, rng):
        real, truth, _ = self.pick_complex(rng)
        if real is None:
            return
        a, b = real.cover_subset_a, real.cover_subset_b
        with sim.masked():
            if {perm(x) for x in a} != truth.cover_a or {perm(x) for x in b} != truth.cover_b or len(a) != len(truth.a) or len(b) != len(truth.b):
                self.bad("wrong-complex", f"the covers of {sorted(truth.a)} and {sorted(truth.b)} are {sorted(map(perm, a))} and {sorted(map(perm, b))}")
            if {perm(x) for x in real.subset_a} != truth.a or {perm(x) for x in real.subset_b} != truth.b:
                self.bad("wrong-complex", "a Cayley complex has other subsets than it was given")

    def ask_condition(self, rng):
        _, truth, made = self.complexes[rng.randrange(len(self.complexes))]
        answer = self.O.CayleyComplex.satisfies_total_no_conjugacy(*made)
        with sim.masked():
            if bool(answer) != truth.condition:
                self.bad("wrong-complex", f"{sorted(truth.a)} and {sorted(truth.b)} {'satisfy' if truth.condition else 'do not satisfy'} total no conjugacy, but the answer is {answer}")

    def ask_faces(self, rng):
        real, truth, _ = self.pick_complex(rng)
        if real is None:
            return
        graphs = self.C.QTCode.get_subgraphs(real)
        with sim.masked():
            for name, graph, want in zip("XZ", graphs, (truth.x_edges, truth.z_edges)):
                got = {}
                for x, face, data in graph.edges(data=True):
                    got[perm(x), frozenset(map(perm, face))] = tuple(map(perm, data["sort"]))
                if got != want:
                    differ = [e for e in {**got, **want} if got.get(e) != want.get(e)]
                    self.bad("wrong-faces", f"the {name} subgraph of {sorted(truth.a)} and {sorted(truth.b)} (bipartite: {truth.bipartite}) has {got.get(differ[0])} instead of {want.get(differ[0])} for vertex {differ[0][0]} and face {sorted(differ[0][1])}")
            faces = [[frozenset(map(perm, v)) for v in graph.nodes if graph.out_degree(v) == 0] for graph in graphs]
            if faces[0] != faces[1]:
                self.bad("wrong-faces", "the subgraphs do not have the same faces in the same order")
            if any(len(face) != 4 for face in faces[0]):
                self.bad("wrong-faces", "a face does not have four vertices")

    def ask_qtcode(self, rng):
        real, truth, made = self.pick_complex(rng)
        if real is None or len(truth.faces()) > 72:
            return
        with sim.masked():
            q = rng.choice([2, 2, 2, 3])
            f = galois.GF(q)
            na, nb = len(truth.a), len(truth.b)
            mats = [np.array(life.random_matrix(rng, q, rng.randint(0, n), n), dtype=int).reshape(-1, n) for n in (na, nb)]
        code = self.C.QTCode(*made, self.C.ClassicalCode(mats[0], q), self.C.ClassicalCode(mats[1], q), bipartite=truth.bipartite)
        mx, mz = code.matrix_x, code.matrix_z
        with sim.masked():
            words = [np.asarray(objs.null_space(f, m)) if len(m) else np.eye(m.shape[1], dtype=int) for m in mats]
            duals = [np.asarray(objs.row_reduce(f, m)[0], dtype=int).reshape(-1, m.shape[1]) for m in mats]
            # the subcodes check exactly the products of words, and the products of words of the duals
            sub_x = np.kron(f(words[0]), f(words[1])) if len(words[0]) and len(words[1]) else f.Zeros((0, na * nb))
            sub_z = np.kron(f(duals[0]), f(duals[1])) if len(duals[0]) and len(duals[1]) else f.Zeros((0, na * nb))
            want = [tanner_matrix(edges, np.asarray(sub), f) for edges, sub in ((truth.x_edges, sub_x), (truth.z_edges, sub_z))]
            if np.any(mx @ mz.T):
                self.bad("wrong-tanner", f"the checks of the quantum Tanner code of {sorted(truth.a)}, {sorted(truth.b)} and {[m.tolist() for m in mats]} do not commute")
            for name, got, reference in zip("XZ", (mx, mz), want):
                got, reference = np.asarray(got, dtype=int), np.asarray(reference, dtype=int)
                if got.shape[1] != reference.shape[1]:
                    self.bad("wrong-tanner", f"a quantum Tanner code has {got.shape[1]} qudits instead of {reference.shape[1]}")
                if objs.rank(f, got) != objs.rank(f, reference):
                    self.bad("wrong-tanner", f"the {name} checks of the quantum Tanner code of {sorted(truth.a)}, {sorted(truth.b)} and {[m.tolist() for m in mats]} over GF({q}) have rank {objs.rank(f, got)} instead of {objs.rank(f, reference)}")
            both = objs.rank(f, want[0]) + objs.rank(f, want[1])
            if code.dimension != want[0].shape[1] - both:
                self.bad("wrong-tanner", f"a quantum Tanner code has dimension {code.dimension} instead of {want[0].shape[1] - both}")

    # -- running ---------------------------------------------------------------------------------

    def body(self, ops):
        for op in ops:
            for _ in range(12):
                try:
                    self.perform(op)
                    break
                except (KeyboardInterrupt, MemoryError) as err:
                    if "simulated" not in str(err):
                        raise

    def finish(self):
        """Afterwards, everything that was shared is as it was."""
        for seed in range(3):
            for name in ("graph", "chain", "cayley", "covers"):
                getattr(self, "ask_" + name)(random.Random(seed))


def run(p, record=False):
    result = Result()
    w = world.World([], result=result)
    w.truth = objs.truth()
    with w:
        node = sim.fresh("p", p["entropy"])
        session = Session(p, node, result)
        s = sim.Sim(p["actions"], budget=8_000_000, record=record)
        for ops in p["threads"]:
            s.spawn(lambda ops=ops: session.body(ops), node)
        s.run()
        if not record:
            session.finish()
        result.steps = s.total
        result.faults.update(f"sched:{x}" for x in s.fired)
        for switch in s.switches:
            result.note("switch", *map(str, switch))
        for ops in p["threads"]:
            for op in ops:
                result.probes[op[0]] += 1
        for real, truth, _ in session.complexes:
            result.probes["complex:" + ("refused" if real is None else "bipartite" if truth.bipartite else "quadripartite")] += 1
        for _, chains, _, _ in session.chains:
            result.probes["chain:" + ("field" if chains.model is None else "group algebra")] += 1
        result.nontrivial = bool(s.fired) or sum(map(len, p["threads"])) > 1
        result.interleaving = objs.sha([p["codes"], p["chains"], p["complexes"], p["threads"], [str(x) for x in s.switches]])
    return result, [t.trace for t in s.threads]


def execute(p):
    return run(p)[0]
