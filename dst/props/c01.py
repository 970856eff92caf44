"""C01: persistent memoisation is transparent.

Simulated processes (fresh qLDPC instances) and their threads call functions memoised on disk, while
entries are evicted, the store fails, functions fail, and processes crash and restart.  Oracle: the
undecorated function, plus the rule that errors are never stored and stored answers are reused.
"""

from __future__ import annotations

import copy
import os
import shutil
import tempfile

from dst import sim, world
from dst.core import Result, Violation

PROPERTY = "C01"
RUNS = {"quick": 3200, "thorough": 60000}
RULE = (
    "seeded plans: 1-3 processes x 1-2 threads calling 1-4 disk-memoised functions (own name/dir/key"
    " function, falsy and container values, failing calls), with store faults, evictions, crashes and"
    " restarts at explicit points and preemptions at source lines; non-trivial = a fault fired, a"
    " preemption switched threads, or a stored value was read back; distinct by the schedule taken"
    " and the event history"
)
REAL = ["qldpc.cache", "pickle round trip of keys and values", "diskcache+SQLite on a scratch dir (1 run in 12)"]
STUB = ["diskcache.Cache in-memory emulation (11 runs in 12)", "thread scheduler", "process table"]
ASSUMPTIONS = ["memoised functions are deterministic apart from raised errors"]

VALUES = [0, 1, "", "x", None, False, [], [1, 2], (), (1, "a"), {}, {"k": [1]}, -7, 3.5, b"", b"z"]
ARGS = [
    [[1], {}],
    [[2], {}],
    [["a"], {}],
    [[1, 2], {}],
    [[1], {"x": 2}],
    [[1], {"x": 3}],
    [[], {"x": 2}],
    [[], {}],
    [[[1, 2]], {}],
    [[1, ["x", 2]], {}],
    [["x", 2], {}],
    [[0], {}],
    [[""], {}],
    [[None], {}],
    [["12"], {}],
    [[12], {}],
    [[1], {"y": 2}],
    [[1], {"x": 2, "y": 2}],
]


def warm() -> None:
    world.install()
    sim.warm()


def _freeze(x):
    return tuple(_freeze(y) for y in x) if isinstance(x, list) else x


def plan(rng, tier):
    functions = []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        functions.append(
            {
                "name": rng.choice(["alpha", "beta", f"f{i}"]),
                "dir": rng.choice([None, None, "/tmp/sim/a", "/tmp/sim/b"]),
                "key": rng.choice([None, None, None, "first", "all", "const"]),
            }
        )
    # two functions in the same store would share keys: callers give each its own place
    seen = set()
    for i, f in enumerate(functions):
        if (f["name"], f["dir"]) in seen:
            f["name"] = f"g{i}"
        seen.add((f["name"], f["dir"]))
    args = rng.sample(range(len(ARGS)), rng.choice([1, 2, 2, 3, 5]))
    procs = []
    style = rng.random()
    for p in range(rng.choice([1, 1, 2, 2, 3])):
        threads = []
        for t in range(rng.choice([1, 1, 2]) if style > 0.3 else 1):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 5])):
                ops.append([rng.randrange(len(functions)), rng.choice(args), rng.randrange(4)])
            threads.append(ops)
        procs.append(threads)
    faulty = rng.random() < 0.7
    faults = []
    if faulty:
        sites = {
            "store.open": ["eio", "timeout", "locked", "crash"],
            "store.read": world.READ_FAULTS + ["evict"] * 3,
            "store.write": world.WRITE_FAULTS,
            "call": ["raise", "raise", "evict-all"],
        }
        for site in list(sites):
            if rng.random() < 0.3 and len(sites) > 1:
                del sites[site]
        faults = world.draw_faults(rng, sites, rng.choice([1, 1, 2, 3, 5]), rng.choice([3, 6, 12]))
    out = {
        "functions": functions,
        "procs": procs,
        "faults": faults,
        "actions": [],
        "salt": rng.randrange(1000),
        "real": rng.random() < 0.085,
        "entropy": rng.randrange(1000),
        "_keep": ["functions"],
    }
    n_threads = sum(len(t) for t in procs)
    if rng.random() < 0.8 and n_threads > 1 or rng.random() < 0.15:
        probe = dict(out, real=False)
        try:
            traces = _run(probe, record=True)[1]
        except Exception:
            return out  # executing the plan reports it
        kinds = ["switch"] * 6 + (["crash", "interrupt"] if rng.random() < 0.4 else [])
        out["actions"] = sim.choose_actions(
            rng, traces, rng.choice([1, 2, 3, 5, 8]), kinds, bias=lambda s: "cache.py" in s or "store" in s
        )
    return out


def value_of(salt, f, args, kwargs):
    text = repr((salt, f, _freeze(args), tuple(sorted(kwargs.items()))))
    h = sum((i + 7) * ord(c) for i, c in enumerate(text)) * 2654435761 % 2**32
    base = copy.deepcopy(VALUES[h % len(VALUES)])
    if h % 3 == 0:
        return base
    return [text, base, h]


class Boom(Exception):
    pass


def key_identity(kind, args, kwargs):
    """What the memoised function may depend on, given its key function."""
    if kind == "first":
        return (args[:1], {})
    if kind == "const":
        return ([], {})
    return (args, kwargs)


KEYFUNCS = {
    None: None,
    "first": lambda *a, **k: a[:1],
    "const": lambda *a, **k: "const",
    "all": lambda *a, **k: (a, tuple(sorted(k.items()))),
}


class Run:
    def __init__(self, p, record):
        self.p = p
        self.result = Result()
        self.w = world.World(p["faults"], result=self.result)
        self.record = record
        self.invoked = []

    def build(self, node):
        """Decorate the functions in a process."""
        funcs = []
        for i, f in enumerate(self.p["functions"]):
            kind = f["key"]

            def body(*args, _i=i, _kind=kind, **kwargs):
                self.w.event("invoke", _i, repr((args, kwargs)))
                self.invoked.append((_i, repr((args, kwargs))))
                found = self.w.fault("call")
                if found and found[0] == "raise":
                    raise Boom("transient")
                if found and found[0] == "evict-all":
                    for d in self.w.store.values():
                        d.clear()
                a, k = key_identity(_kind, list(args), kwargs)
                return value_of(self.p["salt"], _i, a, k)

            directory = f["dir"]
            if directory is not None and self.w.real_dir:
                directory = os.path.join(self.w.real_dir, directory.lstrip("/"))
            decorator = node.cache.use_disk_cache(f["name"], cache_dir=directory, key_func=KEYFUNCS[kind])
            funcs.append(decorator(body))
        return funcs

    def expected(self, fi, ai):
        args, kwargs = ARGS[ai]
        a, k = key_identity(self.p["functions"][fi]["key"], [_freeze(x) for x in args], kwargs)
        return value_of(self.p["salt"], fi, a, k)

    def call(self, funcs, fi, ai, strict):
        args, kwargs = ARGS[ai]
        try:
            value = funcs[fi](*[_freeze(x) for x in args], **kwargs)
        except Boom:
            return ("boom",)
        except KeyboardInterrupt:
            return ("interrupted",)
        except (OSError, world.sqlite3.Error, world.diskcache.Timeout) as err:
            if "simulated" not in str(err):
                raise
            return ("store-error",)
        except Exception as err:
            with sim.masked():
                raise Violation(
                    "spurious-error",
                    f"memoised call {fi}{ARGS[ai]} raised {type(err).__name__}: {err}, which neither the"
                    " function nor the store raised",
                ) from err
        with sim.masked():
            want = self.expected(fi, ai)
            if type(value) is not type(want) or value != want:
                raise Violation(
                    "wrong-value",
                    f"memoised call {fi}{ARGS[ai]} returned {value!r}, the function gives {want!r}",
                )
        return ("ok", value)

    def thread(self, node, funcs, ops):
        for fi, ai, mutate in ops:
            self.w.event("start", fi, ai)
            n = len(self.invoked)
            out = self.call(funcs, fi, ai, False)
            self.w.event("end", fi, ai, out[0])
            if out[0] == "ok":
                if len(self.invoked) == n:
                    self.result.probes["served from the store"] += 1
                if mutate == 0 and isinstance(out[1], list):
                    out[1].append("caller scribbles")
                if mutate == 0 and isinstance(out[1], dict):
                    out[1]["scribble"] = 1

    def run(self):
        p = self.p
        if p["real"]:
            self.w.real_dir = tempfile.mkdtemp(prefix="dst-c01-")
            os.environ["XDG_CACHE_HOME"] = self.w.real_dir
        traces = []
        try:
            with self.w:
                s = sim.Sim(p["actions"], budget=200_000, record=self.record)
                nodes = []
                for i, threads in enumerate(p["procs"]):
                    node = sim.fresh(f"p{i}", p["entropy"] + i)
                    funcs = self.build(node)
                    nodes.append(node)
                    for ops in threads:
                        s.spawn(lambda node=node, funcs=funcs, ops=ops: self.thread(node, funcs, ops), node)
                s.run()
                traces = [t.trace for t in s.threads]
                if not self.record:
                    self.aftermath(nodes)
                self.result.interleaving = repr(s.switches) + self.result.digest()
                self.result.faults.update(f"sched:{x}" for x in s.fired)
                self.result.steps = s.total
        finally:
            if p["real"]:
                shutil.rmtree(self.w.real_dir, ignore_errors=True)
                os.environ.pop("XDG_CACHE_HOME", None)
        self.result.nontrivial = bool(self.result.faults) or bool(self.result.probes)
        return self.result, traces

    def aftermath(self, nodes):
        """Faults stop.  Survivors and restarted processes see the truth; stored answers are reused."""
        self.w.faults_on = False
        calls = sorted({(op[0], op[1]) for threads in self.p["procs"] for ops in threads for op in ops})
        survivors = [n for n in nodes if not n.dead]
        restarted = sim.fresh("restarted", self.p["entropy"] + 17)
        for node in [*survivors, restarted]:
            node.activate()
            funcs = self.build(node)
            for fi, ai in calls:
                out = self.call(funcs, fi, ai, True)
                if out[0] != "ok":
                    raise Violation("no-recovery", f"call {fi}{ARGS[ai]} fails after faults stopped: {out}")
        # every answer is now stored: an other process must not recompute it, whoever mutates results
        last = sim.fresh("last", self.p["entropy"] + 23)
        funcs = self.build(last)
        for again in range(2):
            for fi, ai in calls:
                n = len(self.invoked)
                out = self.call(funcs, fi, ai, True)
                if len(self.invoked) != n:
                    raise Violation(
                        "recomputed", f"call {fi}{ARGS[ai]} was stored and then computed again"
                    )
                if out[0] == "ok" and isinstance(out[1], list):
                    out[1].append("scribble")
        # direct handles see the same store
        for fi, f in enumerate(self.p["functions"]):
            directory = f["dir"]
            if directory is not None and self.w.real_dir:
                directory = os.path.join(self.w.real_dir, directory.lstrip("/"))
            if any(c[0] == fi for c in calls):
                handle = last.cache.get_disk_cache(f["name"], cache_dir=directory)
                if len(handle) == 0:
                    raise Violation(
                        "not-in-named-store", f"nothing was stored under name {f['name']!r} in {directory!r}"
                    )


def execute(p):
    return Run(p, False).run()[0]


def _run(p, record):
    return Run(p, record).run()
