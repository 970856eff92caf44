"""C06: seeded and deterministic constructions are the same valid object everywhere."""

from __future__ import annotations

from dst import objs, peers, seeded, sim, world
from dst.core import Result, Violation

PROPERTY = "C06"
RUNS = {"quick": 1200, "thorough": 16000}
RULE = (
    "seeded plans of 1-5 constructions (random codes, words, logical operators, group elements,"
    " symmetric subsets, quantum Tanner codes; linear groups, Cayley complexes, named codes), each"
    " built by a quiet process, by a process with unrelated random draws, up to 3 threads, preemptions"
    " and interrupts followed by retries, and by an interpreter with another string-hash seed; non-trivial ="
    " noise, a preemption or an interrupt happened; distinct by constructions and schedule"
)
REAL = ["qldpc.abstract", "qldpc.codes", "qldpc.objects", "galois, sympy, numpy generators", "separate interpreters with different hash seeds"]
STUB = ["GAP (SmallGroup look-ups)", "disk cache", "thread scheduler"]
ASSUMPTIONS = ["Python, numpy, sympy and galois at the installed versions"]
HASHES = [1, 2, 3]


def warm_peer() -> None:
    world.install()
    sim.warm()


def warm() -> None:
    peers.start(HASHES, [__name__])
    warm_peer()


def plan(rng, tier):
    specs = [seeded.draw_spec(rng) for _ in range(rng.choice([1, 2, 3, 4, 5]))]
    if rng.random() < 0.3:
        specs.append(specs[0])
    order = list(range(len(specs)))
    rng.shuffle(order)
    peer_order = list(range(len(specs)))
    rng.shuffle(peer_order)

    def noises():
        return [
            [rng.randrange(len(specs)), rng.choice(seeded.NOISE), rng.randrange(100)]
            for _ in range(rng.choice([0, 1, 2, 4]))
        ]

    threads = rng.choice([1, 1, 2, 2, 3])
    out = {
        "specs": specs,
        "order": order,
        "noise": noises(),
        "peer_order": peer_order,
        "peer_noise": noises(),
        "ambient": [rng.randrange(1000) for _ in range(3)],
        "threads": threads,
        "peer": rng.choice(HASHES),
        "entropy": rng.randrange(100),
        "actions": [],
        "_keep": ["order", "peer_order", "ambient"],
    }
    if threads > 1 or rng.random() < 0.3:
        try:
            traces = _noisy(out, record=True)[1]
        except Exception:
            return out
        kinds = ["switch"] * 4 + (["interrupt"] if rng.random() < 0.5 else [])
        if threads == 1:
            kinds = ["interrupt"]
        out["actions"] = sim.choose_actions(
            rng, traces, rng.choice([1, 2, 4, 8, 16]), kinds, bias=lambda s: "random" in s or "seed" in s or "subset" in s
        )
    return out


def _noisy(p, record=False, result=None):
    w = world.World(result=result)
    w.truth = objs.truth()
    with w:
        node = sim.fresh("noisy", p["entropy"] + 1)
        return seeded.compute(
            node, p["specs"], p["order"], p["noise"], p["ambient"][1], p["threads"], p["actions"], record, result
        )


def execute(p):
    result = Result()
    specs = p["specs"]
    w = world.World(result=result)
    w.truth = objs.truth()
    with w:
        node = sim.fresh("quiet", p["entropy"])
        reference, _, s = seeded.compute(node, specs, range(len(specs)), [], p["ambient"][0])
    result.steps += s.total
    want = {i: objs.sha(reference[i]) for i in reference}
    for i, spec in enumerate(specs):
        result.note("built", spec, want[i])
        result.probes[spec[0]] += 1
    noisy, _, s = _noisy(p, result=result)
    for i in want:
        if objs.sha(noisy[i]) != want[i]:
            raise Violation(
                "not-reproducible",
                f"{specs[i]} gives another object in a process with other random draws, history or threads:"
                f" {str(reference[i])[:300]} != {str(noisy[i])[:300]}",
            )
    argument = {
        "specs": specs,
        "order": p["peer_order"],
        "noise": p["peer_noise"],
        "ambient": p["ambient"][2],
        "entropy": p["entropy"] + 2,
    }
    for i, digest in peers.call(p["peer"], "dst.seeded", "serve", argument):
        if digest != want[i]:
            raise Violation(
                "hash-dependent",
                f"{specs[i]} gives another object in a process with another string-hash seed ({p['peer']})",
            )
    result.nontrivial = bool(p["noise"] or p["peer_noise"] or s.fired)
    result.interleaving = objs.sha([specs, [str(x) for x in s.switches], p["noise"], p["peer_noise"]])
    return result
