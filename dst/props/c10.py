"""C10: answers about a code are right and do not depend on history, threads or interrupted questions."""

from __future__ import annotations

import json

from dst import life, objs, sim, world
from dst.core import Result, Violation

PROPERTY = "C10"
RUNS = {"quick": 1500, "thorough": 40000}
RULE = (
    "seeded plans: 1-2 codes (classical, stabilizer, CSS, CSS subsystem; GF(2), GF(3), GF(4), GF(5); named and"
    " random ones), asked 3-24 questions by 1-3 threads that share the code objects, with preemptions,"
    " interrupts and allocation failures at source lines of qLDPC, each failed question being repeated;"
    " non-trivial = an action fired or a question was asked of a code with a history; distinct by codes, questions and schedule"
)
REAL = ["qldpc.codes", "qldpc.math", "qldpc.objects", "qldpc.abstract", "galois, numpy, networkx, stim"]
STUB = ["thread scheduler", "GAP and disk cache (unused)"]
ASSUMPTIONS = [
    "callers do not modify the arrays they are given",
    "non-CSS subsystem codes are not asked for logical operators (see DESIGN.md)",
]


# a subsystem code that is not CSS (known_findings.txt)
GENERAL = ["X I", "Z X"]


def warm() -> None:
    world.install()
    sim.warm()


def plan(rng, tier):
    if rng.random() < 0.01:
        return {"general": GENERAL}
    codes = [life.draw_subsystem(rng) if rng.random() < 0.12 else life.draw_code(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
    threads = rng.choice([1, 1, 2, 2, 3])
    out = {"codes": codes, "threads": [], "entropy": rng.randrange(100), "actions": [], "_keep": ["codes"]}
    w = world.World()
    w.truth = objs.truth()
    with w:
        node = sim.fresh("plan", out["entropy"])
        menus = []
        for spec in codes:
            code = life.build(node, spec)
            kind = life.family(node, code)
            truth = life.truth_of(spec, code, kind)
            menu = [q for q in life.QUERIES[kind] if life.allowed(truth, q)]
            menus.append(menu)
    focus = rng.random() < 0.4  # all threads ask about few things
    menus = [rng.sample(menu, min(len(menu), rng.choice([2, 3, 5]))) if focus else menu for menu in menus]
    for _ in range(threads):
        asks = []
        for _ in range(rng.choice([3, 5, 8]) if threads > 1 else rng.choice([4, 8, 16, 24])):
            which = rng.randrange(len(codes))
            asks.append([which, rng.choice(menus[which])])
        out["threads"].append(asks)
    try:
        traces = run(out, True)[1]
    except Exception:
        return out
    kinds = ["switch"] * 4 + (["interrupt"] if rng.random() < 0.6 else []) + (["memory"] if rng.random() < 0.3 else [])
    if threads == 1:
        kinds = ["interrupt", "memory"]
    out["actions"] = sim.choose_actions(rng, traces, rng.choice([0, 1, 2, 4, 8, 16]), kinds, bias=lambda s: "common.py" in s)
    return out


def general(p):
    """Ask for the logical operators of a subsystem code that is not CSS."""
    result = Result()
    result.interleaving = objs.sha(p)
    result.steps = 1
    with world.World(result=result):
        node = sim.fresh("p", 1)
        code = node.codes.QuditCode.from_strings(*p["general"])
        truth = life.Truth(code.matrix, 2, "qudit")
        try:
            error = truth.logical_error(code.get_logical_ops())
        except Exception as err:
            error = f"{type(err).__name__}: {err}"
        if error:
            raise Violation("general-subsystem", f"logical operators of the subsystem code {p['general']}: {error}")
    return result


def run(p, record=False):
    result = Result()
    w = world.World(result=result)
    w.truth = objs.truth()
    with w:
        node = sim.fresh("p", p["entropy"])
        specs = p["codes"]
        want: dict = {}
        truths = []
        for spec in specs:
            code = life.build(node, spec)
            truths.append(life.truth_of(spec, code, life.family(node, code)))

        def expected(which, query):
            """What a new equal code answers if this is the first thing it is ever asked; decided by brute force."""
            key = json.dumps([which, query])
            if key not in want:
                want[key] = life.answer(node, life.build(node, specs[which]), query)
                life.check_answer(truths[which], specs[which], query, want[key])
            return want[key]

        def differs(which, query, value):
            if query[0] == "stabilizer" and not query[2]:
                # any generators of the stabilizer group will do
                life.check_answer(truths[which], specs[which], query, value)
                return False
            if query[0] == "dual-subsystem":
                return not objs.same_span(truths[which].f, value, expected(which, query))
            return value != expected(which, query)

        if not record:
            for asks in p["threads"]:
                for which, query in asks:
                    expected(which, query)
        shared = [life.build(node, spec) for spec in specs]
        given: list = []
        s = sim.Sim(p["actions"], budget=8_000_000, record=record)

        def body(tid, asks):
            for n, (which, query) in enumerate(asks):
                while True:
                    try:
                        value = life.answer(node, shared[which], query)
                        break
                    except (KeyboardInterrupt, MemoryError) as err:
                        if "simulated" not in str(err):
                            raise
                given.append((tid, n, which, query, value))

        for tid, asks in enumerate(p["threads"]):
            s.spawn(lambda tid=tid, asks=asks: body(tid, asks), node)
        s.run()
        if not record:
            for tid, n, which, query, value in given:
                if differs(which, query, value):
                    raise Violation(
                        "history-dependent",
                        f"question {n} of thread {tid}, {query} of {json.dumps(specs[which])[:300]}, was answered"
                        f" {str(value)[:400]}, but a new code answers {str(expected(which, query))[:400]}",
                    )
                result.note("answer", tid, n, query, objs.sha(value))
            # afterwards every question is still answered as by a new code
            for which, spec in enumerate(specs):
                for query in [["matrix"], ["canonicalized"], *[q for _, _, v, q, _ in given if v == which]]:
                    value = life.answer(node, shared[which], query)
                    if differs(which, query, value):
                        raise Violation(
                            "history-dependent",
                            f"after the run, {query} of {json.dumps(spec)[:300]} is answered {str(value)[:400]}, but a"
                            f" new code answers {str(expected(which, query))[:400]}",
                        )
        result.steps = s.total
        result.faults.update(f"sched:{x}" for x in s.fired)
        for switch in s.switches:
            result.note("switch", *map(str, switch))
        for asks in p["threads"]:
            for _, query in asks:
                result.probes[query[0]] += 1
        for spec in specs:
            result.probes[f"code:{spec[0]}"] += 1
        result.nontrivial = bool(s.fired) or sum(map(len, p["threads"])) > 1
        result.interleaving = objs.sha([specs, p["threads"], [str(x) for x in s.switches]])
    return result, [t.trace for t in s.threads]


def execute(p):
    if "general" in p:
        return general(p)
    return run(p)[0]
