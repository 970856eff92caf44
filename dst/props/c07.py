"""C07: seeded draws neither read nor disturb the process-wide random generators."""

from __future__ import annotations

import hashlib
import random

import numpy as np

from dst import objs, seeded, sim, world
from dst.core import Result, Violation

PROPERTY = "C07"
RUNS = {"quick": 2400, "thorough": 40000}
RULE = (
    "seeded plans: one thread makes 1-4 seeded draws (codes, words, logical operators, group members,"
    " symmetric subsets, quantum Tanner codes, rejected arguments), while 0-2 other threads of the same"
    " process draw from Python's, NumPy's and SymPy's global generators; preemptions and interrupts at"
    " source lines; non-trivial = a preemption or an interrupt fired; distinct by draws and schedule"
)
REAL = ["qldpc.abstract", "qldpc.codes", "Python, NumPy and SymPy global generators"]
STUB = ["GAP (SmallGroup look-ups)", "disk cache", "thread scheduler"]
ASSUMPTIONS = ["one process; no other library draws from the global generators"]

warm_kinds = ["classical", "word", "logical", "member", "subset", "qtcode", "cayley"]


def warm() -> None:
    world.install()
    sim.warm()


def plan(rng, tier):
    specs = []
    while len(specs) < 1 or rng.random() < 0.5 and len(specs) < 4:
        spec = seeded.draw_spec(rng)
        if spec[0] in warm_kinds:
            specs.append(spec)
        elif rng.random() < 0.15:
            specs.append(["reject", rng.choice(["size", "field", "type"]), seeded.draw_seed(rng)])
    out = {
        "specs": specs,
        "others": [
            [[rng.choice(["py", "np", "sympy"]), rng.randrange(3)] for _ in range(rng.choice([2, 4, 8]))]
            for _ in range(rng.choice([0, 1, 1, 2]))
        ],
        "ambient": rng.randrange(10**6),
        "entropy": rng.randrange(100),
        "actions": [],
    }
    if out["others"] or rng.random() < 0.6:
        try:
            traces = run(out, True)[1]
        except Exception:
            return out
        kinds = ["switch"] * 3 + (["interrupt"] if rng.random() < 0.6 else [])
        if not out["others"]:
            kinds = ["interrupt"]
        out["actions"] = sim.choose_actions(
            rng,
            traces,
            rng.choice([1, 2, 4, 8, 16]),
            kinds,
            bias=lambda s: "random" in s or "seed" in s or "subset" in s or "'draw'" in s,
        )
        for action in out["actions"]:
            if action[0] != 0:
                action[2] = "switch"
    return out


def states():
    import sympy.core.random

    out = [random.getstate(), np.random.get_state(), sympy.core.random.rng.getstate()]
    return [hashlib.sha256(repr(s if i != 1 else (s[0], s[1].tolist(), s[2:])).encode()).hexdigest()[:12] for i, s in enumerate(out)]


NAMES = ["Python's random", "numpy.random", "sympy.core.random"]


def draw(kind, n):
    """A draw of user code from a global generator."""
    import sympy.core.random

    if kind == "py":
        return [random.random() for _ in range(n + 1)]
    if kind == "np":
        return [float(x) for x in np.random.random(n + 1)]
    return [sympy.core.random.rng.random() for _ in range(n + 1)]


def reject(node, what, seed):
    """Arguments that must be rejected: also then nothing may change."""
    A, C = node.abstract, node.codes
    try:
        if what == "size":
            A.CyclicGroup(3).random_symmetric_subset(7, seed=seed)
        elif what == "field":
            C.ClassicalCode.random(3, 2, 6, seed=seed)
        else:
            C.SteaneCode().get_random_logical_op("X", seed=seed)
    except Exception:
        return
    raise Violation("not-rejected", f"invalid arguments ({what}) were accepted")


def groups_of(spec):
    if spec[0] in ("member", "subset", "qtcode", "cayley"):
        return [spec[1]]
    return []


def run(p, record=False):
    import sympy.core.random

    result = Result()
    w = world.World(result=result)
    w.truth = objs.truth()
    with w:
        node = sim.fresh("p", p["entropy"])
        random.seed(p["ambient"])
        np.random.seed(p["ambient"])
        sympy.core.random.seed(p["ambient"])
        # the streams that user code expects, drawn alone
        initial = states()
        saved = (random.getstate(), np.random.get_state(), sympy.core.random.rng.getstate())

        # other threads share the global streams: the multiset of what they draw is fixed, and so is
        # the sequence per generator over all threads
        sequences: dict[str, list] = {"py": [], "np": [], "sympy": []}
        s = sim.Sim(p["actions"], budget=6_000_000, record=record)

        def main():
            for spec in p["specs"]:
                while True:
                    before = None
                    alone = not p["others"]
                    if alone:
                        with sim.masked():
                            before = states()
                    fired = len(s.fired)
                    try:
                        if spec[0] == "reject":
                            reject(node, spec[1], spec[2])
                        else:
                            seeded.evaluate(node, spec)
                        done = True
                    except KeyboardInterrupt as err:
                        if "simulated" not in str(err):
                            raise
                        done = False
                    if alone:
                        with sim.masked():
                            after = states()
                            for name, x, y in zip(NAMES, before, after):
                                if x != y:
                                    how = "" if done else " that was interrupted"
                                    raise Violation("disturbed", f"a seeded draw{how} changed the state of {name}: {spec}")
                    if done:
                        break
            result.note("done", len(p["specs"]), s.total)

        def other(ops):
            for kind, n in ops:
                sim.seam("draw")
                with sim.masked():
                    sequences[kind].extend(draw(kind, n))

        s.spawn(main, node)
        for ops in p["others"]:
            s.spawn(lambda ops=ops: other(ops), node)
        s.run()
        if not record:
            final = states()
            random.setstate(saved[0])
            np.random.set_state(saved[1])
            sympy.core.random.rng.setstate(saved[2])
            assert states() == initial
            for kind, name in zip(sequences, NAMES):
                total = len(sequences[kind])
                expected = draw(kind, total - 1) if total else []
                if expected != sequences[kind]:
                    raise Violation(
                        "foreign-stream",
                        f"while seeded draws ran, user code drew other numbers from {name} than its seed gives",
                    )
            for name, x, y in zip(NAMES, states(), final):
                if x != y:
                    raise Violation("disturbed", f"seeded draws changed the state of {name}: {p['specs']}")
        result.steps = s.total
        for spec in p["specs"]:
            result.probes[spec[0]] += 1
        result.faults.update(f"sched:{x}" for x in s.fired)
        for switch in s.switches:
            result.note("switch", *map(str, switch))
        result.nontrivial = bool(s.fired)
        result.interleaving = objs.sha([p["specs"], [str(x) for x in s.switches]])
    return result, [t.trace for t in s.threads]


def execute(p):
    return run(p)[0]
