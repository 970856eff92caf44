"""Building qLDPC objects from JSON specs inside a node, and canonical digests of the results."""

from __future__ import annotations

import hashlib
import itertools
import json

import numpy as np

from dst import world
from dst.core import HarnessError

# order, index -> generators (cycles on 0-indexed points), number of groups of the order
SMALL = {
    (1, 1): [],
    (2, 1): [[(0, 1)]],
    (3, 1): [[(0, 1, 2)]],
    (4, 1): [[(0, 1, 2, 3)]],
    (4, 2): [[(0, 1)], [(2, 3)]],
    (5, 1): [[(0, 1, 2, 3, 4)]],
    (6, 1): [[(0, 1, 2)], [(0, 1)]],
    (6, 2): [[(0, 1, 2)], [(3, 4)]],
    (8, 3): [[(0, 1, 2, 3)], [(0, 2)]],
    (8, 5): [[(0, 1)], [(2, 3)], [(4, 5)]],
    (10, 1): [[(0, 1, 2, 3, 4)], [(1, 4), (2, 3)]],
    (12, 3): [[(0, 1, 2)], [(0, 1), (2, 3)]],
}
NUMBERS = {1: 1, 2: 1, 3: 1, 4: 2, 5: 1, 6: 2, 8: 5, 10: 2, 12: 5}


def truth() -> world.Truth:
    t = world.Truth()
    t.numbers = dict(NUMBERS)
    for (order, index), gens in SMALL.items():
        t.gap_groups[f"SmallGroup({order},{index})"] = gens
    return t


def group_order(spec) -> int:
    kind, *a = spec
    return {
        "trivial": lambda: 1,
        "cyclic": lambda: a[0],
        "abelian": lambda: int(np.prod(a[0])),
        "dihedral": lambda: 2 * a[0] if a[0] > 2 else {1: 2, 2: 4}[a[0]],
        "alternating": lambda: max(1, int(np.prod(range(1, a[0] + 1))) // 2),
        "symmetric": lambda: int(np.prod(range(1, a[0] + 1))),
        "quaternion": lambda: 8,
        "small": lambda: a[0],
        "sl": lambda: _order_sl(a[0], a[1]),
        "product": lambda: group_order(a[0]) * group_order(a[1]),
    }[kind]()


def _order_sl(d, q):
    return int(np.prod([q**d - q**i for i in range(d)])) // (q - 1)


def build_group(node, spec):
    A = node.abstract
    kind, *a = spec
    if kind == "trivial":
        return A.TrivialGroup()
    if kind == "cyclic":
        return A.CyclicGroup(a[0])
    if kind == "abelian":
        return A.AbelianGroup(*a[0])
    if kind == "dihedral":
        return A.DihedralGroup(a[0])
    if kind == "alternating":
        return A.AlternatingGroup(a[0])
    if kind == "symmetric":
        return A.SymmetricGroup(a[0])
    if kind == "quaternion":
        return A.QuaternionGroup()
    if kind == "small":
        return A.SmallGroup(a[0], a[1])
    if kind == "sl":
        return A.SpecialLinearGroup(a[0], a[1], linear_rep=a[2])
    if kind == "psl":
        return A.ProjectiveSpecialLinearGroup(a[0], a[1], linear_rep=a[2])
    if kind == "product":
        return build_group(node, a[0]) * build_group(node, a[1])
    raise HarnessError(f"unknown group {spec}")


def elements(group) -> set:
    """All members, by closure of the generators (independent of the library's enumeration)."""
    gens = [tuple(g.array_form) for g in group.generators]
    if not gens:
        return {tuple(group.identity.array_form)}
    identity = tuple(range(len(gens[0])))
    found = {identity}
    todo = [identity]
    while todo:
        x = todo.pop()
        for g in gens:
            y = tuple(g[i] for i in x)
            if y not in found:
                found.add(y)
                todo.append(y)
    return found


def mat(array):
    return np.asarray(array).astype(int).tolist()


def sha(obj) -> str:
    return hashlib.sha256(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:16]


def subset_data(subset):
    return sorted(list(map(int, g.array_form)) for g in subset)


# ---------------------------------------------------------------------------------------------
# brute-force linear algebra over GF(q), used by oracles (independent of the library's code)
# ---------------------------------------------------------------------------------------------


_tables: dict = {}


def tables(field):
    """Addition, subtraction and multiplication tables, and inverses, of a field."""
    q = field.order
    if q not in _tables:
        every = field(np.arange(q))
        grid = lambda op: np.array([np.asarray(op(every, every[i])) for i in range(q)], dtype=np.int64).T
        inverse = np.zeros(q, dtype=np.int64)
        inverse[1:] = np.asarray(field(1) / every[1:])
        _tables[q] = grid(lambda a, b: a + b), grid(lambda a, b: a - b), grid(lambda a, b: a * b), inverse
    return _tables[q]


def row_reduce(field, rows):
    """Reduced row echelon form without zero rows."""
    m = np.array(rows, dtype=np.int64) if len(rows) else np.zeros((0, 0), dtype=np.int64)
    pivots = []
    r = 0
    if m.size == 0:
        return field(m), pivots
    _, minus, times, inverse = tables(field)
    for c in range(m.shape[1]):
        hits = np.flatnonzero(m[r:, c])
        if not len(hits):
            continue
        if hits[0]:
            m[[r, r + hits[0]]] = m[[r + hits[0], r]]
        m[r] = times[m[r], inverse[m[r, c]]]
        others = np.flatnonzero(m[:, c])
        others = others[others != r]
        if len(others):
            m[others] = minus[m[others], times[m[others, c][:, None], m[r][None, :]]]
        pivots.append(c)
        r += 1
        if r == m.shape[0]:
            break
    return field(m[:r]), pivots


def rank(field, rows) -> int:
    return len(row_reduce(field, rows)[1]) if np.size(rows) else 0


def in_span(field, rows, vector) -> bool:
    base = rank(field, rows)
    stacked = np.vstack([np.asarray(rows, dtype=int).reshape(-1, len(vector)), np.asarray(vector, dtype=int)])
    return rank(field, stacked) == base


def same_span(field, a, b) -> bool:
    a, b = np.asarray(a, dtype=int), np.asarray(b, dtype=int)
    ra, rb = rank(field, a), rank(field, b)
    return ra == rb and rank(field, np.vstack([a, b])) == ra


def span(field, rows):
    """All vectors of the row space (small spaces only)."""
    basis, _ = row_reduce(field, rows)
    n = np.asarray(rows).shape[1]
    for coefficients in itertools.product(range(field.order), repeat=len(basis)):
        if len(basis):
            yield field(list(coefficients)) @ basis
        else:
            yield field.Zeros(n)


def null_space(field, rows):
    """A basis of all vectors that every row is orthogonal to."""
    rows = np.asarray(rows, dtype=int)
    n = rows.shape[1]
    reduced, pivots = row_reduce(field, rows)
    free = [c for c in range(n) if c not in pivots]
    out = np.zeros((len(free), n), dtype=np.int64)
    if free:
        minus = tables(field)[1]
        out[range(len(free)), free] = 1
        for r, p in enumerate(pivots):
            out[:, p] = minus[0, np.asarray(reduced)[r, free]]
    return field(out)
