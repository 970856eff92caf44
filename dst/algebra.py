"""An independent model of finite groups, group rings and matrices over them (C17).

Permutations are tuples p (i -> p[i]); the product p*q applies p first.  A ring element is a dict from
permutations to nonzero field elements (integers); a matrix over a ring is a list of lists of them.
"""

from __future__ import annotations

import itertools

import galois
import numpy as np

from dst import objs


def compose(p, q):
    return tuple(q[i] for i in p)


def inverse(p):
    out = [0] * len(p)
    for i, x in enumerate(p):
        out[x] = i
    return tuple(out)


def closure(gens, limit=10**6):
    """All products of the generators, or None if there are more than `limit`."""
    identity = tuple(range(len(gens[0]))) if gens else (0,)
    found = {identity}
    todo = [identity]
    while todo:
        x = todo.pop()
        for g in gens:
            y = compose(x, g)
            if y not in found:
                found.add(y)
                todo.append(y)
                if len(found) > limit:
                    return None
    return found


def cycles(p):
    out, seen = [], set()
    for i in range(len(p)):
        if i not in seen and p[i] != i:
            cycle = [i]
            while p[cycle[-1]] != i:
                cycle.append(p[cycle[-1]])
            seen.update(cycle)
            out.append(cycle)
    return out


class Ring:
    """The group algebra of a list of permutations over GF(q)."""

    def __init__(self, members, q):
        self.members = [tuple(m) for m in members]
        self.q = q
        self.field = galois.GF(q)
        self.plus, self.minus, self.times, self.inv = objs.tables(self.field)
        self.p = self.field.characteristic
        self.identity = tuple(range(len(self.members[0])))

    def clean(self, x):
        return {g: int(c) for g, c in x.items() if c}

    def add(self, x, y):
        out = dict(x)
        for g, c in y.items():
            out[g] = self.plus[out.get(g, 0), c]
        return self.clean(out)

    def neg(self, x):
        return {g: int(self.minus[0, c]) for g, c in x.items()}

    def sub(self, x, y):
        return self.add(x, self.neg(y))

    def scale(self, x, n):
        """x added up n times (n may be negative)."""
        n %= self.p
        out = {}
        for _ in range(n):
            out = self.add(out, x)
        return out

    def mul(self, x, y):
        out: dict = {}
        for a, c in x.items():
            for b, d in y.items():
                ab = compose(a, b)
                out[ab] = self.plus[out.get(ab, 0), self.times[c, d]]
        return self.clean(out)

    def power(self, x, n):
        out = self.one()
        for _ in range(n):
            out = self.mul(out, x)
        return out

    def one(self):
        return {self.identity: 1}

    def transpose(self, x):
        return {inverse(g): c for g, c in x.items()}

    def vector(self, x):
        return [x.get(g, 0) for g in self.members]

    def from_vector(self, v):
        return {g: int(c) for g, c in zip(self.members, v) if c}

    def random(self, rng, density=0.5):
        return {g: rng.randrange(1, self.q) for g in self.members if rng.random() < density}

    def regular(self, x):
        """The matrix of y -> x*y on coefficient vectors."""
        size = len(self.members)
        index = {g: i for i, g in enumerate(self.members)}
        out = np.zeros((size, size), dtype=np.int64)
        for a, c in x.items():
            for j, g in enumerate(self.members):
                i = index[compose(a, g)]
                out[i, j] = self.plus[out[i, j], c]
        return out

    def lift(self, x, matrices):
        """The sum of coefficients times matrices (of field elements)."""
        size = len(next(iter(matrices.values())))
        out = np.zeros((size, size), dtype=np.int64)
        for a, c in x.items():
            out = self.plus[out, self.times[c, np.asarray(matrices[a])]]
        return out

    def matmul(self, a, b):
        """Product of matrices of field elements."""
        return np.asarray(self.field(a) @ self.field(b)).astype(int)

    def is_unit(self, x):
        return objs.rank(self.field, self.regular(x)) == len(self.members)

    # matrices over the ring

    def mat_mul(self, a, b):
        out = []
        for row in a:
            line = []
            for j in range(len(b[0]) if b else 0):
                acc: dict = {}
                for x, other in zip(row, b):
                    acc = self.add(acc, self.mul(x, other[j]))
                line.append(acc)
            out.append(line)
        return out

    def mat_T(self, a):
        return [[self.transpose(a[i][j]) for i in range(len(a))] for j in range(len(a[0]) if a else 0)]

    def block(self, a, f):
        return np.block([[f(x) for x in row] for row in a])

    def left_span(self, rows):
        """Field vectors that span the left module spanned by the rows."""
        out = []
        for row in rows:
            for g in self.members:
                out.append(list(itertools.chain(*[self.vector(self.mul({g: 1}, x)) for x in row])))
        return np.array(out, dtype=np.int64)

    # idempotents

    def classes(self):
        found, out = set(), []
        for g in self.members:
            if g not in found:
                orbit = {compose(compose(inverse(h), g), h) for h in self.members}
                found |= orbit
                out.append(sorted(orbit))
        return out

    def central_idempotents(self, limit=1500):
        """Primitive central idempotents (by trying all central elements), or None if these are too many."""
        classes = self.classes()
        if self.q ** len(classes) > limit:
            return None
        size = len(classes)
        where = {g: i for i, cl in enumerate(classes) for g in cl}
        sums = [{g: 1 for g in cl} for cl in classes]
        table = np.zeros((size, size, size), dtype=np.int64)
        for i, j in itertools.product(range(size), repeat=2):
            for g, c in self.mul(sums[i], sums[j]).items():
                table[i, j, where[g]] = c

        def product(a, b):
            out = np.zeros(size, dtype=np.int64)
            for i in range(size):
                for j in range(size):
                    if a[i] and b[j]:
                        out = self.plus[out, self.times[self.times[a[i], b[j]], table[i, j]]]
            return tuple(int(v) for v in out)

        found = [a for a in itertools.product(range(self.q), repeat=size) if any(a) and product(a, a) == a]
        minimal = [a for a in found if not any(b != a and product(a, b) == b for b in found)]
        return [{g: c for i, c in enumerate(a) if c for g in classes[i]} for a in minimal]


def gap_coefficient(q, c):
    """A nonzero element of GF(q) as GAP prints it: a power of the generator of the smallest subfield."""
    field = galois.GF(q)
    p, k = field.characteristic, field.degree
    generator = field.primitive_element
    log, power = 0, field(1)
    while int(power) != c:
        power, log = power * generator, log + 1
    for d in range(1, k + 1):
        if k % d == 0 and log % ((q - 1) // (p**d - 1)) == 0:
            m = log // ((q - 1) // (p**d - 1))
            base = f"Z({p})" if d == 1 else f"Z({p}^{d})"
            return base if m == 1 else f"{base}^{m}"
    raise AssertionError
