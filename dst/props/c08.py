"""C08: saved quantum Tanner codes load back as the same code, or not at all."""

from __future__ import annotations

import os

from dst import disk, objs, peers, seeded, sim, world
from dst.core import Result, Violation

PROPERTY = "C08"
RUNS = {"quick": 1500, "thorough": 30000}
RULE = (
    "seeded plans: 1-3 quantum Tanner codes and 2-7 operations (save, load, load and re-save by an interpreter"
    " with another string-hash seed, restart) by 1-2 threads on one scratch directory, with file errors, short"
    " writes, process crashes, machine crashes (lost, torn and zeroed unsynced data), interrupts, preemptions,"
    " and files cut short afterwards; non-trivial = a fault or preemption fired, or a file was cut; distinct by"
    " codes, operations and event history"
)
REAL = ["qldpc.codes.QTCode", "qldpc.objects.CayleyComplex", "files in a scratch directory", "interpreters with other hash seeds"]
STUB = ["disk faults", "process and machine crashes", "thread scheduler"]
ASSUMPTIONS = ["nobody saves two codes to one path at once, or loads a path while it is overwritten", "unsynced data survives a machine crash as a prefix or as zeros"]
HASHES = [1, 2, 3]

HEADERS = [
    [],
    ["header"],
    ["distance trials: 10", "code parameters: (8, 2, 2)", "stabilizer weight: 4"],
    ["two\nlines"],
    [""],
    ["# subset_a:", "subset_b:"],
    ["base field: 7\nbipartite: True"],
    ["1 2 3"],
    ["a\x0bb\x0cc\x1dd\x85e\u2028f"],
    ["\r\n"],
    ["trailing\n\n"],
    ["subset_a:\nsubset_b:\ncode_a.matrix:\ncode_b.matrix:\nbase field: 2\nbipartite: False"],
    ["Cayley \u00e9\u4e2d"],
]


def warm_peer() -> None:
    disk.install()
    world.install()
    sim.warm()


def warm() -> None:
    peers.start(HASHES, [__name__])
    warm_peer()


# ---------------------------------------------------------------------------------------------
# codes
# ---------------------------------------------------------------------------------------------


def draw_code(rng):
    """Generating data of a quantum Tanner code, seed matrices written out."""
    group = seeded.draw_group(rng, 8)
    order = objs.group_order(group)
    field = rng.choice([2, 2, 2, 3, 4, 5])

    def matrix(n):
        if rng.random() < 0.12:
            return []
        rows = rng.randint(1, n)
        out = [[rng.randrange(field) for _ in range(n)] for _ in range(rows)]
        if field > 2 and not any(any(r) for r in out):
            out[0][0] = 1
        return out

    n = rng.randint(1, min(order, 3))
    m = n if rng.random() < 0.6 else rng.randint(1, min(order, 3))
    second = None if n == m and rng.random() < 0.4 else matrix(m)
    return {
        "group": group,
        "n": n,
        "m": m,
        "a": matrix(n),
        "b": second,
        "field": field,
        "bipartite": rng.random() < 0.3,
        "one": n == m and rng.random() < 0.3,
        "seed": seeded.draw_seed(rng),
    }


def build(node, spec):
    import numpy as np

    C = node.codes
    group = objs.build_group(node, spec["group"])
    field = spec["field"]
    a = C.ClassicalCode(np.array(spec["a"], dtype=int).reshape(-1, spec["n"]), field)
    b = None if spec["b"] is None else C.ClassicalCode(np.array(spec["b"], dtype=int).reshape(-1, spec["m"]), field)
    make = lambda bipartite: C.QTCode.random(  # noqa: E731
        group, a, b, bipartite=bipartite, one_subset=spec["one"], seed=spec["seed"]
    )
    if spec["bipartite"]:
        try:
            return make(True)
        except ValueError as err:
            if "Total No Conjugacy" not in str(err):
                raise
    return make(False)


def data(code):
    return objs.sha(seeded.qt_data(code))


def generating(code):
    d = seeded.qt_data(code)
    return objs.sha(d[2:])


# ---------------------------------------------------------------------------------------------
# peers
# ---------------------------------------------------------------------------------------------


def serve(argument):
    """In another interpreter: load the file, save it elsewhere (optionally), return digests."""
    w = world.World()
    w.truth = objs.truth()
    with w:
        node = sim.fresh("peer", 5)
        code = node.codes.QTCode.load(argument["path"])
        if argument.get("save"):
            code.save(argument["save"], *argument["headers"])
        return [data(code), generating(code)]


# ---------------------------------------------------------------------------------------------
# plans
# ---------------------------------------------------------------------------------------------


def plan(rng, tier):
    codes = [draw_code(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < 0.4:  # a sibling that differs in one respect
        twin = dict(rng.choice(codes))
        what = rng.choice(["a", "b", "bipartite", "seed", "seed"])
        if what == "seed":
            twin["seed"] = seeded.draw_seed(rng)
        elif what == "bipartite":
            twin["bipartite"] = not twin["bipartite"]
        elif twin[what]:
            rows = [list(r) for r in twin[what]]
            i, j = rng.randrange(len(rows)), rng.randrange(len(rows[0]))
            rows[i][j] = (rows[i][j] + 1) % twin["field"]
            twin[what] = rows
        codes.append(twin)
    threads = rng.choice([1, 1, 1, 2])
    ops = []
    for t in range(threads):
        mine = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            path = rng.randrange(2)
            kind = rng.choice(["save", "save", "load", "load", "peer", "relay"])
            if t > 0:
                kind = "load"
            if kind == "save":
                mine.append(["save", rng.randrange(len(codes)), path, rng.randrange(len(HEADERS))])
            elif kind == "load":
                mine.append(["load", path])
            elif kind == "peer":
                mine.append(["peer", path, rng.choice(HASHES)])
            else:
                mine.append(["relay", path, rng.randrange(2), rng.choice(HASHES), rng.randrange(len(HEADERS))])
        ops.append(mine)
    p = {
        "codes": codes,
        "ops": ops,
        "buffer": rng.choice([0, 16, 64, 7]),
        "power": rng.randrange(100_000),
        "cuts": [rng.randrange(100_000) for _ in range(rng.choice([0, 3, 8]))],
        "faults": [],
        "actions": [],
        "entropy": rng.randrange(100),
        "_keep": ["codes"],
    }
    if rng.random() < 0.65:
        p["faults"] = world.draw_faults(rng, disk.FAULTS, rng.choice([1, 1, 2, 3]), rng.choice([4, 12, 60]))
    if threads > 1 or rng.random() < 0.3:
        try:
            traces = run(dict(p, faults=[], cuts=[]), True)[1]
        except Exception:
            return p
        kinds = ["switch"] * 4 + ["interrupt"] + (["crash"] if rng.random() < 0.3 else [])
        if threads == 1:
            kinds = ["interrupt", "interrupt", "crash"]
        p["actions"] = sim.choose_actions(
            rng, traces, rng.choice([1, 2, 4, 12]), kinds, bias=lambda s: "'save'" in s or "'load'" in s or "disk." in s
        )
    return p


def run(p, record=False):
    result = Result()
    w = world.World([list(f) for f in p["faults"]], result=result)
    w.truth = objs.truth()
    with w, disk.Disk(p["buffer"], p["power"]) as d:
        w.faults_on = False
        node = sim.fresh("p", p["entropy"])
        codes = [build(node, spec) for spec in p["codes"]]
        digests = [data(c) for c in codes]
        identity = [generating(c) for c in codes]
        if not record:
            for i, x in enumerate(codes):
                for j, y in enumerate(codes):
                    if (x == y) is not (identity[i] == identity[j]) and not (x == y and identity[i] == identity[j]):
                        raise Violation(
                            "equality", f"codes {p['codes'][i]} and {p['codes'][j]} compare {'equal' if x == y else 'unequal'}"
                        )
        # per path: digests that it may load as; None: it need not load
        state: dict[int, set] = {0: {None}, 1: {None}}
        path = lambda k: d.path(f"code{k}.txt")  # noqa: E731
        saving: dict[int, set] = {}
        # a load that overlaps a save over an earlier file may see some of each: not judged
        rewriting: set = set()
        rewrites = {0: 0, 1: 0}
        s = sim.Sim(p["actions"], budget=4_000_000, record=record)
        actors: list = []

        def acceptable(k):
            return state[k] | saving.get(k, set())

        def judge(k, code, how):
            with sim.masked():
                found = data(code)
                if found not in acceptable(k):
                    raise Violation("wrong-code", f"{how} {os.path.basename(path(k))} gives a code that was not saved there")
                for i, x in enumerate(codes):
                    if digests[i] == found and not code == x:
                        raise Violation("equality", f"a loaded code differs from {p['codes'][i]}, which was saved")

        def attempt_load(k):
            before = acceptable(k)
            tick = rewrites[k]
            overlapped = k in rewriting
            n = sum(result.faults.values()) + len(s.fired)
            try:
                code = node.codes.QTCode.load(path(k))
            except Exception as err:
                with sim.masked():
                    if isinstance(err, Violation):
                        raise
                    quiet = sum(result.faults.values()) + len(s.fired) == n and rewrites[k] == tick and not overlapped
                    if None not in before | acceptable(k) and quiet and k not in saving:
                        raise Violation(
                            "not-loadable", f"a code that was saved without an error cannot be loaded: {err!r}"
                        ) from None
                return False
            if overlapped or rewrites[k] != tick:
                return True
            judge(k, code, "loading")
            return True

        def save(i, k, h):
            with sim.masked():
                saving[k] = {digests[i], None}
                if state[k] != {None}:
                    rewriting.add(k)
                    rewrites[k] += 1
            ok = False
            try:
                codes[i].save(path(k), *HEADERS[h])
                ok = True
            finally:
                with sim.masked():
                    del saving[k]
                    rewriting.discard(k)
                    state[k] = {digests[i]} if ok else state[k] | {digests[i], None}

        def perform(op):
            kind, *a = op
            if kind == "save":
                save(a[0] % len(codes), a[1], a[2])
            elif kind == "load":
                attempt_load(a[0])
            elif kind in ("peer", "relay") and not record:
                with sim.masked():
                    k = a[0]
                    if None in acceptable(k):
                        return
                    argument = {"path": path(k)}
                    if kind == "relay" and a[1] not in saving:
                        rewrites[a[1]] += 1
                        argument.update(save=path(a[1]), headers=HEADERS[a[3]])
                    found, _ = peers.call(a[2] if kind == "relay" else a[1], __name__, "serve", argument)
                    result.probes[kind] += 1
                    if found not in acceptable(k):
                        raise Violation("wrong-code", "another process loads another code than was saved")
                    if "save" in argument:
                        state[a[1]] = {found}

        def body(ops):
            for op in ops:
                try:
                    perform(op)
                    result.probes[op[0]] += 1
                except (KeyboardInterrupt, MemoryError) as err:
                    if "simulated" not in str(err):
                        raise
                except OSError as err:
                    if "simulated" not in str(err):
                        raise
                    result.note("failed", op[0])

        w.faults_on = True
        for ops in p["ops"]:
            s.spawn(lambda ops=ops: body(ops), node)
        s.run()
        w.faults_on = False
        if d.powered:
            # everything that was not synced may be gone, also what was saved before
            for k in state:
                state[k] = state[k] | {None}
        if node.dead:
            node = sim.fresh("restarted", p["entropy"] + 1)
            codes = [build(node, spec) for spec in p["codes"]]
            if [data(c) for c in codes] != digests:
                raise Violation("not-reproducible", "a restarted process builds other codes from the same seeds")
        result.steps = s.total
        result.faults.update(f"sched:{x}" for x in s.fired)
        for switch in s.switches:
            result.note("switch", *map(str, switch))
        if not record:
            for k in state:
                if os.path.isfile(path(k)):
                    if attempt_load(k):
                        result.probes["loaded"] += 1
                    else:
                        result.probes["rejected"] += 1
                elif None not in state[k]:
                    raise Violation("not-loadable", "a code that was saved without an error is gone")
            # a file cut short is rejected, or is the whole code
            cut_files(p, d, node, codes, digests, result)
            # recovery: saving again works
            for k in state:
                i = k % len(codes)
                save(i, k, (k + p["power"]) % len(HEADERS))
                if not attempt_load(k):
                    raise Violation("not-loadable", "a code saved after recovery cannot be loaded")
        result.nontrivial = bool(result.faults) or bool(p["cuts"])
        result.interleaving = objs.sha([p["codes"], p["ops"], [str(x) for x in s.switches], sorted(result.faults.items())])
    return result, [t.trace for t in s.threads]


def cut_files(p, d, node, codes, digests, result):
    if not p["cuts"]:
        return
    which = p["power"] % len(codes)
    path = d.path("cut.txt")
    codes[which].save(path, *HEADERS[p["power"] // 7 % len(HEADERS)])
    with open(path, "rb") as stream:
        whole = stream.read()
    lines = [i + 1 for i, c in enumerate(whole) if c == 10]
    for cut in p["cuts"]:
        if cut % 3 == 0:
            n = lines[cut // 3 % len(lines)]
            part = whole[:n]
        elif cut % 3 == 1:
            part = whole[: cut // 3 % len(whole)]
        else:
            a = cut // 3 % len(whole)
            b = a + cut // 7 % 200 + 1
            part = whole[:a] + bytes(len(whole[a:b])) + whole[b:]
            if a < len(whole) - len(whole.split(b"# subset_a:")[-1]):
                continue  # only headers may be damaged there
        with open(path, "wb") as stream:
            stream.write(part)
        try:
            code = node.codes.QTCode.load(path)
        except Exception as err:
            if isinstance(err, Violation):
                raise
            result.probes["cut-rejected"] += 1
            continue
        if data(code) != digests[which]:
            raise Violation("damaged-accepted", f"a damaged file (cut {cut}) of {p['codes'][which]} loads as another code")
        result.probes["cut-harmless"] += 1


def execute(p):
    return run(p)[0]
