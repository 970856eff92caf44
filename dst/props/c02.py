from __future__ import annotations

from dst import lookup, sim, world

PROPERTY = "C02"
CHECKS = {"answer"}
RUNS = {"quick": 2400, "thorough": 50000}
REAL, STUB, ASSUMPTIONS = lookup.REAL, lookup.STUB, lookup.ASSUMPTIONS
RULE = (
    "seeded plans: 1-3 processes x 1-2 threads doing look-ups (generators, numbers, structures,"
    " idempotents, codes; low- and high-level API) while GAP/network availability changes and faults"
    " fire at explicit calls of GAP, HTTP and the store, plus crashes and preemptions; non-trivial = a"
    " fault or an environment change happened, or several threads ran; distinct by event history"
)


def warm() -> None:
    world.install()
    sim.warm()
    lookup.known_names()


def plan(rng, tier):
    p = lookup.draw_plan(rng, "answer")
    lookup.add_actions(rng, p, CHECKS)
    return p


def execute(p):
    return lookup.Engine(p, CHECKS).run()[0]
