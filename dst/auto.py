"""Automorphism groups of small linear codes over prime fields, and groups of transversal Clifford gates, by search."""

from __future__ import annotations

import itertools
import re

import numpy as np

from dst import objs


def column_automorphisms(q, matrix):
    """Generators (as lists of images) and the order of the group of column permutations that keep the row space."""
    import galois

    f = galois.GF(q)
    matrix = np.asarray(matrix, dtype=int)
    n = matrix.shape[1]
    rows, pivots = objs.row_reduce(f, matrix) if len(matrix) else (np.zeros((0, n), dtype=int), [])
    if len(pivots) > n - len(pivots):
        # the dual code has the same automorphisms
        rows, pivots = objs.row_reduce(f, objs.null_space(f, matrix))
    r = len(pivots)
    rows = rows.tolist()[:r]
    columns = [tuple(row[j] for row in rows) for j in range(n)]
    places: dict = {}
    for j, v in enumerate(columns):
        places.setdefault(v, []).append(j)
    distinct = sorted(places)
    mult = {v: len(p) for v, p in places.items()}
    basis = [columns[j] for j in pivots]  # unit vectors

    # coordinates of every distinct column in the basis are the column itself; depth at which it is determined
    depth = {v: max((i + 1 for i, x in enumerate(v) if x), default=0) for v in distinct}
    by_depth = [[v for v in distinct if depth[v] == d] for d in range(r + 1)]

    def image(v, images):
        out = [0] * r
        for x, y in zip(v, images):
            if x:
                out = [(a + x * b) % q for a, b in zip(out, y)]
        return tuple(out)

    def ok(images):
        """Whether the columns that are determined by the images so far go to columns as frequent."""
        d = len(images)
        return all(mult.get(image(v, images)) == mult[v] for v in by_depth[d])

    def invertible(images):
        """Whether the images are linearly independent."""
        found: list = []
        for v in images:
            for lead, w in found:
                if v[lead]:
                    c = v[lead]
                    v = tuple((a - c * b) % q for a, b in zip(v, w))
            lead = next((k for k, a in enumerate(v) if a), None)
            if lead is None:
                return False
            inverse = pow(v[lead], -1, q)
            found.append((lead, tuple(a * inverse % q for a in v)))
        return True

    def complete(images):
        if len(images) == r:
            return images
        want = mult[basis[len(images)]]
        for v in distinct:
            if mult[v] == want and v not in images:
                new = images + [v]
                if ok(new) and invertible(new):
                    out = complete(new)
                    if out is not None:
                        return out
        return None

    def perm_of(images):
        out = [0] * n
        for v, where in places.items():
            for a, b in zip(where, places[image(v, images)]):
                out[a] = b
        return out

    gens, order = [], 1
    for level in range(r - 1, -1, -1):
        fixed = basis[:level]
        maps: list = []  # as functions on distinct columns
        orbit = [basis[level]]
        for v in distinct:
            if v in orbit or mult[v] != mult[basis[level]] or v in fixed:
                continue
            new = fixed + [v]
            if not ok(new) or not invertible(new):
                continue
            images = complete(new)
            if images is None:
                continue
            gens.append(perm_of(images))
            maps = [m for m in maps]
            maps.append({x: image(x, images) for x in distinct})
            # all generators found so far at this level and deeper fix the earlier basis columns
            level_maps = [{x: columns[g[places[x][0]]] for x in distinct} for g in gens]
            orbit = [basis[level]]
            for x in orbit:
                for m in level_maps:
                    if m[x] not in orbit:
                        orbit.append(m[x])
        order *= len(orbit)
    for v in distinct:
        for a, b in zip(places[v], places[v][1:]):
            swap = list(range(n))
            swap[a], swap[b] = b, a
            gens.append(swap)
        for k in range(2, mult[v] + 1):
            order *= k
    return gens, order


def keeps(q, matrix, perm):
    """Whether a column permutation keeps the row space."""
    import galois

    f = galois.GF(q)
    matrix = np.asarray(matrix, dtype=int)
    moved = np.zeros_like(matrix)
    moved[:, perm] = matrix
    return not len(matrix) or objs.rank(f, np.vstack([matrix, moved])) == objs.rank(f, matrix)


def cycles(perm):
    out, seen = [], set()
    for start in range(len(perm)):
        if start not in seen and perm[start] != start:
            cycle, x = [], start
            while x not in seen:
                seen.add(x)
                cycle.append(x)
                x = perm[x]
            out.append(tuple(cycle))
    return out


PATTERN = re.compile(r"(?:Permutation)?AutomorphismGroup\(CheckMatCode\((\[.*\]),GF\((\d+)\)\)\)")
_memo: dict = {}


def from_name(text):
    """GAP's generators (as cycles) for the automorphism group that the text names; None if it names none."""
    match = PATTERN.fullmatch(text)
    if not match:
        return None
    if text not in _memo:
        rows = eval(match.group(1), {"__builtins__": {}})
        gens, _ = column_automorphisms(int(match.group(2)), np.array(rows, dtype=int))
        _memo[text] = [cycles(g) for g in gens]
    return _memo[text]


# single-qubit Clifford gates up to Paulis, as symplectic matrices acting on rows (x, z)
LOCAL = {
    "I": ((1, 0), (0, 1)),
    "H": ((0, 1), (1, 0)),
    "S": ((1, 1), (0, 1)),
    "SQRT_X": ((1, 0), (1, 1)),
    "C_XYZ": ((1, 1), (1, 0)),
    "C_ZYX": ((0, 1), (1, 1)),
}


def local_choices(gates):
    gates = set(gates) - {"SWAP"}
    if not gates:
        return ["I"]
    if len(gates) == 1:
        return ["I", *gates]
    return list(LOCAL)


def transversal(n, rows, gates):
    """All (perm, local gates) that keep the span of symplectic rows: qubit j gets its gate and moves to perm[j]."""
    import galois

    f = galois.GF(2)
    rows = np.asarray(rows, dtype=int).reshape(-1, 2 * n)
    r = objs.rank(f, rows) if len(rows) else 0
    rows = np.asarray(objs.row_reduce(f, rows)[0])[:r] if r else rows[:0]
    span = {0}
    weights = 1 << np.arange(2 * n)
    for row in rows:
        value = int(row @ weights)
        span |= {value ^ x for x in span}
    perms = list(itertools.permutations(range(n))) if "SWAP" in gates else [tuple(range(n))]
    found = []
    for choice in itertools.product(local_choices(gates), repeat=n):
        x, z = np.zeros((r, n), dtype=int), np.zeros((r, n), dtype=int)
        for j, g in enumerate(choice):
            m = LOCAL[g]
            x[:, j] = (rows[:, j] * m[0][0] + rows[:, n + j] * m[1][0]) % 2
            z[:, j] = (rows[:, j] * m[0][1] + rows[:, n + j] * m[1][1]) % 2
        for perm in perms:
            wx = 1 << np.array(perm)
            wz = 1 << (np.array(perm) + n)
            values = x @ wx + z @ wz
            if all(int(v) in span for v in values):
                found.append((perm, choice))
    return found


def instrument(n, rows, names):
    """The order of the group that is searched for transversal gates (which takes that long)."""
    rows = np.asarray(rows, dtype=int).reshape(-1, 2 * n)
    x, z = rows[:, :n], rows[:, n:]
    local = set(names) - {"SWAP"}
    if not local or local == {"H"}:
        parts = [x, z]
    elif local == {"S"}:
        parts = [z, (x + z) % 2]
    elif local == {"SQRT_X"}:
        parts = [x, (x + z) % 2]
    else:
        parts = [x, z, (x + z) % 2]
    return column_automorphisms(2, np.hstack(parts))[1]
