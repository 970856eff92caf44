"""C09: code searches that crash, fail or run twice end with complete and correct results."""

from __future__ import annotations

import ast
import concurrent.futures
import contextlib
import hashlib
import io
import os
import pickle
import re
import sys
import types

import numpy as np

from dst import core, disk, objs, sim, world
from dst.core import Result, Violation

PROPERTY = "C09"
RUNS = {"quick": 700, "thorough": 15000}
RULE = (
    "seeded plans: 1-3 sessions of one of the two search scripts (bivariate bicycle, quantum Tanner), each with"
    " 1-6 jobs on 1-3 simulated worker processes, with preemptions, interrupts, process crashes, and faults of"
    " the store, the files and GAP; then a quiet session, collection and verification; non-trivial = a fault,"
    " crash or preemption fired; distinct by jobs and event history"
)
REAL = ["experiments/*/run_*search.py, collect_results.py, verify_codes.py", "qldpc.codes, qldpc.abstract, qldpc.cache", "files in a scratch directory", "BP-OSD decoder of ldpc"]
STUB = ["diskcache.Cache (in-memory emulation)", "GAP (groups up to order 6, Cordaro-Wagner codes)", "ProcessPoolExecutor (workers are simulated processes)", "disk faults", "scheduler"]
ASSUMPTIONS = ["jobs of one session are a sample of all jobs", "no machine crash (only process crashes)", "sample sizes and trials are reduced"]

BB = os.path.join(core.REPO, "experiments", "bivariate_bicycle")
QT = os.path.join(core.REPO, "experiments", "quantum_tanner")
TRIALS = 2

_scripts: dict = {}
_jobs: dict[str, list[int]] = {}


def truth():
    t = world.Truth()
    t.numbers = {n: 0 for n in range(1, 101)}
    t.numbers.update({1: 1, 2: 1, 3: 1, 4: 2, 5: 1, 6: 2})
    for (order, index), gens in objs.SMALL.items():
        t.gap_groups[f"SmallGroup({order},{index})"] = gens
    t.codes = {
        "CordaroWagnerCode(3)": ([[1, 1, 1]], "GF(2)"),
        "CordaroWagnerCode(4)": ([[1, 1, 0, 0], [1, 0, 1, 1]], "GF(2)"),
        "CordaroWagnerCode(5)": ([[1, 1, 0, 0, 0], [0, 0, 1, 1, 0], [1, 0, 1, 0, 1]], "GF(2)"),
        "CordaroWagnerCode(6)": ([[1, 1, 0, 0, 0, 0], [0, 0, 1, 1, 0, 0], [0, 0, 0, 0, 1, 1], [1, 0, 1, 0, 1, 0]], "GF(2)"),
    }
    return t


def smaller(source: str) -> str:
    source = re.sub(r"(?m)^NUM_TRIALS = \d+", f"NUM_TRIALS = {TRIALS}", source)
    return re.sub(r"(?m)^NUM_SAMPLES = \d+", "NUM_SAMPLES = 2", source)


def script(directory: str, name: str):
    key = (directory, name)
    if key not in _scripts:
        _scripts[key] = sim.load_script(os.path.join(directory, name + ".py"), name, smaller)
    return _scripts[key]


def warm() -> None:
    disk.install()
    world.install()
    sim.warm()
    for directory, names in ((BB, ["run_search", "collect_results"]), (QT, ["run_randomized_search", "collect_results", "verify_codes"])):
        for name in names:
            script(directory, name)
    for kind, argument in (("bb", "3"), ("bb", "4"), ("qt", "")):
        w = world.World(result=Result())
        w.truth = truth()
        with w, disk.Disk():
            session = Session(kind, argument, set(), w, Result())
            node = sim.fresh("p", 1)
            session.main(node, collect=True)
            if kind == "qt":
                wanted = [n for n, order in session.seen if order is None or order <= 6]
            else:
                wanted = [n for n, _ in session.seen]
            _jobs[kind + argument] = wanted
            if len(wanted) < 5:
                raise core.HarnessError(f"the {kind} search submits only {len(wanted)} jobs")


# ---------------------------------------------------------------------------------------------
# running the scripts
# ---------------------------------------------------------------------------------------------

CURRENT: Session | None = None


class Executor:
    """ProcessPoolExecutor: jobs wait until the pool shuts down, and then run in simulated processes."""

    def __init__(self, max_workers=None, *args, **kwargs) -> None:
        self.session = CURRENT

    def submit(self, fn, /, *args, **kwargs):
        future = concurrent.futures.Future()
        self.session.submit(fn, args, kwargs, future)
        return future

    def map(self, fn, *iterables, **kwargs):
        futures = [self.submit(fn, *args) for args in zip(*iterables)]

        def results():
            for future in futures:
                yield future.result() if future.done() else None

        return results()

    def shutdown(self, wait=True, *, cancel_futures=False):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None


class Session:
    """One start of a search script."""

    def __init__(self, kind, argument, wanted, w, result) -> None:
        self.kind = kind
        self.argument = argument
        self.wanted = wanted
        self.w = w
        self.result = result
        self.directory = BB if kind == "bb" else QT
        self.name = "run_search" if kind == "bb" else "run_randomized_search"
        self.jobs: list = []
        self.seen: list = []
        self.count = 0
        self.errors: list = []
        self.collect = False
        self.broken = False

    def file(self, name) -> str:
        return os.path.join(disk.D.root, os.path.basename(self.directory), name + ".py")

    def namespace(self, name, as_name) -> dict:
        return {"__name__": as_name, "__file__": self.file(name), "__builtins__": __builtins__}

    def submit(self, fn, args, kwargs, future) -> None:
        n = self.count
        self.count += 1
        if self.collect:
            orders = [a for a in (*args, *kwargs.values()) if type(a) is int]
            self.seen.append((n, orders[0] if orders else None))
        if n in self.wanted:
            self.jobs.append((n, fn, pickle.dumps((args, kwargs)), future))

    def main(self, node, collect=False) -> None:
        """Run the script up to the end of its main block; its jobs are kept."""
        global CURRENT
        self.collect = collect
        node.activate()
        os.makedirs(os.path.dirname(self.file("x")), exist_ok=True)
        argv = sys.argv
        pool = concurrent.futures.ProcessPoolExecutor
        CURRENT = self
        concurrent.futures.ProcessPoolExecutor = Executor
        sys.argv = [self.file(self.name), self.argument]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.globals = self.namespace(self.name, "__main__")
                exec(script(self.directory, self.name), self.globals)
        finally:
            sys.argv = argv
            concurrent.futures.ProcessPoolExecutor = pool
            CURRENT = None

    def worker_globals(self, node) -> dict:
        """The script's namespace in a forked worker: its own modules, the data of its parent."""
        node.activate()
        out = self.namespace(self.name, "__mp_main__")
        exec(script(self.directory, self.name), out)
        for key, value in self.globals.items():
            if key not in out and isinstance(value, (str, int, float)):
                out[key] = value
        return out

    def work(self, node, jobs) -> None:
        space = node.extra["space"]
        for n, fn, data, future in jobs:
            if self.broken:
                return
            mine = space.get(getattr(fn, "__name__", ""), fn)
            try:
                sim.seam("job")
                args, kwargs = pickle.loads(data)
                future.set_result(mine(*args, **kwargs))
            except sim.SimCrash:
                self.broken = True
                raise
            except BaseException as err:
                if isinstance(err, (Violation, core.HarnessError, sim.SimAbort)):
                    raise
                future.set_exception(err if isinstance(err, Exception) else RuntimeError("interrupted"))
                self.errors.append((n, err))


# ---------------------------------------------------------------------------------------------
# plans
# ---------------------------------------------------------------------------------------------

SITES = {
    "bb": {
        "store.read": ["eio", "timeout", "locked", "evict", "crash"],
        "store.write": ["eio", "enospc", "timeout", "full", "locked", "crash", "crash-after"],
    },
    "qt": {
        "disk.open": ["eio", "enospc", "eacces", "crash"],
        "disk.write": ["eio", "enospc", "short", "crash"],
        "disk.rename": ["eio", "crash", "crash-after"],
        "disk.sync": ["eio", "crash"],
        "gap": world.GAP_FAULTS + ["crash"],
        "store.read": ["eio", "crash"],
        "store.write": ["eio", "enospc", "crash", "crash-after"],
    },
}


def plan(rng, tier):
    kind = rng.choice(["bb", "qt", "qt"])
    argument = rng.choice(["3", "3", "4"]) if kind == "bb" else ""
    pool = _jobs[kind + argument]
    jobs = sorted(rng.sample(pool, min(len(pool), rng.choice([1, 2, 3, 5]))))
    sessions = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        sessions.append(
            {
                "jobs": sorted(rng.sample(jobs, rng.randint(1, len(jobs)))),
                "workers": rng.choice([1, 2, 2, 3]),
                "beside": rng.random() < 0.3,  # run together with the next session
            }
        )
    p = {
        "kind": kind,
        "argument": argument,
        "jobs": jobs,
        "sessions": sessions,
        "faults": [],
        "actions": [],
        "buffer": rng.choice([0, 16, 64]),
        "entropy": rng.randrange(1000),
        "other_trials": kind == "bb" and rng.random() < 0.3,
        "_keep": ["jobs"],
    }
    if rng.random() < 0.6:
        p["faults"] = world.draw_faults(rng, SITES[kind], rng.choice([1, 1, 2, 4]), rng.choice([3, 10, 40]))
    if rng.random() < 0.7:
        traces: list = []
        try:
            run(dict(p, faults=[]), traces)
        except Exception:
            return p
        for number, batch in enumerate(traces):
            kinds = ["switch"] * 5 + (["crash"] if rng.random() < 0.5 else []) + (["interrupt"] if rng.random() < 0.4 else [])
            if len(batch) == 1:
                kinds = ["crash", "interrupt"]
            chosen = sim.choose_actions(
                rng, batch, rng.choice([1, 2, 4, 8]), kinds, bias=lambda s: "run_and_save" in s or "'save'" in s or "store" in s or "disk" in s
            )
            p["actions"] += [[number, *a] for a in chosen]
    return p


def batches(sessions):
    out: list = []
    joined = False
    for s in sessions:
        if joined:
            out[-1].append(s)
        else:
            out.append([s])
        joined = s["beside"]
    return out


class Quiet:
    def __enter__(self):
        self.cm = contextlib.redirect_stdout(io.StringIO())
        self.cm.__enter__()

    def __exit__(self, *exc):
        self.cm.__exit__(*exc)


def run(p, traces=None):
    record = traces is not None
    result = Result()
    w = world.World([list(f) for f in p["faults"]], result=result)
    w.truth = truth()
    w.entropy.seed(p["entropy"])
    serial = 0
    with w, disk.Disk(p["buffer"]) as d:
        oracle = BicycleOracle(p, d, w) if p["kind"] == "bb" else TannerOracle(p, d, w)
        if p["other_trials"]:
            oracle.seed_other_trials()
        for number, group in enumerate(batches(p["sessions"])):
            actions = [a[1:] for a in p["actions"] if a[0] == number]
            s = sim.Sim(actions, budget=8_000_000, record=record)
            for spec in group:
                w.faults_on = False
                session = Session(p["kind"], p["argument"], set(spec["jobs"]), w, result)
                session.main(sim.fresh(f"main{serial}", p["entropy"] + serial))
                nodes = []
                for k in range(spec["workers"]):
                    serial += 1
                    node = sim.fresh(f"worker{serial}", p["entropy"] + serial)
                    node.extra["space"] = session.worker_globals(node)
                    nodes.append(node)
                    part = session.jobs[k :: spec["workers"]]
                    s.spawn(lambda session=session, node=node, part=part: session.work(node, part), node)
                for node in nodes:
                    node.extra["pool"] = nodes

            def on_crash(node):
                for other in node.extra.get("pool", [node]):
                    other.dead = True

            s.on_crash = on_crash
            w.faults_on = not record
            with Quiet():
                s.run()
            w.faults_on = False
            result.steps += s.total
            result.faults.update(f"sched:{x}" for x in s.fired)
            for switch in s.switches:
                result.note("switch", *map(str, switch))
            if record:
                traces.append([t.trace for t in s.threads])
                continue
            result.probes["session"] += 1
            oracle.between(result)
        if record:
            return result
        # a quiet session finishes the search
        before = oracle.snapshot()
        session = Session(p["kind"], p["argument"], set(p["jobs"]), w, result)
        node = sim.fresh("last", p["entropy"] + 500)
        session.main(node)
        node.extra["space"] = session.worker_globals(node)
        jobs = [(n, pickle.loads(data)) for n, _, data, _ in session.jobs]
        with Quiet():
            session.work(node, session.jobs)
        for n, err in session.errors:
            raise Violation("job-fails", f"job {n} of a quiet session after failures raises {err!r}") from err
        oracle.final(node, session, jobs, before, result)
        result.nontrivial = bool(result.faults)
        result.interleaving = objs.sha([p["kind"], p["jobs"], [repr(x).replace(d.root, "") for x in result.log]])
    return result


def execute(p):
    return run(p)


# ---------------------------------------------------------------------------------------------
# oracles
# ---------------------------------------------------------------------------------------------


def gf2_rank(rows) -> int:
    rank = 0
    rows = [int("".join(map(str, r)), 2) for r in rows]
    while rows:
        pivot = rows.pop()
        if pivot:
            rank += 1
            low = pivot & -pivot
            rows = [r ^ pivot if r & low else r for r in rows]
    return rank


def bicycle_matrices(dims, exponents):
    """Parity checks written out by hand: A and B are sums of shifts of a torus."""
    dx, dy = dims
    ax, ay, bx, by = exponents

    def shifts(terms):
        m = np.zeros((dx * dy, dx * dy), dtype=int)
        for tx, ty in terms:
            for x in range(dx):
                for y in range(dy):
                    m[x * dy + y, (x + tx) % dx * dy + (y + ty) % dy] ^= 1
        return m

    a = shifts([(0, 0), (1, 0), (ax, ay)])
    b = shifts([(0, 0), (0, 1), (bx, by)])
    return np.hstack([a, b]), np.hstack([b.T, a.T])


_distances: dict = {}


def bicycle_params(dims, exponents):
    """Exact parameters: (n, k, d); the distance by enumeration, only for small codes."""
    key = (tuple(dims), tuple(exponents))
    if key not in _distances:
        hx, hz = bicycle_matrices(dims, exponents)
        n = hx.shape[1]
        k = n - gf2_rank(hx.tolist()) - gf2_rank(hz.tolist())
        d = min((css_distance(hx, hz), css_distance(hz, hx))) if k and n <= 18 else None
        _distances[key] = (n, k, d)
    return _distances[key]


def css_distance(checks, others) -> int:
    """Minimal weight of a vector in the kernel of `checks` outside the row space of `others`."""
    import galois

    field = galois.GF(2)
    kernel = np.asarray(objs.row_reduce(field, field(checks).null_space())[0])
    bits = [int("".join(map(str, r)), 2) for r in kernel.tolist()]
    words = np.zeros(1, dtype=np.int64)
    for b in bits:
        words = np.concatenate([words, words ^ b])
    space = np.zeros(1, dtype=np.int64)
    for row in objs.row_reduce(field, others)[0].tolist():
        space = np.concatenate([space, space ^ int("".join(map(str, row)), 2)])
    words = np.setdiff1d(words, space)
    counts = np.array([bin(int(x)).count("1") for x in words])
    return int(counts.min())


class BicycleOracle:
    def __init__(self, p, d, w) -> None:
        self.p, self.d, self.w = p, d, w
        self.key = None

    def stores(self):
        return {k: v for k, v in self.w.store.items() if k.startswith(self.d.root)}

    def entries(self):
        out = {}
        for store in self.stores().values():
            for key, data in store.values():
                out[key] = pickle.loads(data)
        return out

    def seed_other_trials(self):
        pass

    def check_entry(self, key, value) -> None:
        (dims, exponents, trials) = key
        n, k, d = bicycle_params(dims, exponents)
        vn, vk, vd = value
        rate = 1 / 36
        if (vn, vk) != (n, k):
            raise Violation("wrong-result", f"{key}: stored parameters {value}, but n={n} and k={k}")
        if (vd is None) != (k < n * rate):
            raise Violation("wrong-result", f"{key}: stored parameters {value} with rate cutoff {rate}")
        if vd is not None and (type(vd) is not int or not 1 <= vd <= n or (d is not None and vd < d)):
            raise Violation("wrong-result", f"{key}: stored distance {vd!r}; the code has distance {d}")

    def between(self, result):
        for key, value in self.entries().items():
            self.check_entry(key, value)

    def snapshot(self):
        return {k: dict(v) for k, v in self.stores().items()}

    def final(self, node, session, jobs, before, result):
        entries = self.entries()
        wanted = set()
        for n, (args, kwargs) in jobs:
            wanted.add((args[0], args[1], args[3]))
        if len(self.stores()) > 1:
            raise Violation("wrong-place", f"results are spread over {len(self.stores())} stores")
        if not wanted <= set(entries):
            raise Violation("incomplete", f"no results for {sorted(wanted - set(entries))} after a quiet session")
        if set(entries) - wanted:
            raise Violation("foreign-results", f"results for unknown jobs: {sorted(set(entries) - wanted)}")
        for key, value in entries.items():
            self.check_entry(key, value)
        for store, items in before.items():
            for key, item in items.items():
                if self.w.store[store].get(key) is not item:
                    raise Violation("recomputed", f"the result of {item[0]} was complete, and was computed again")
                result.probes["kept"] += 1
        result.probes["bb-jobs"] += len(wanted)
        # collection
        out = session.namespace("collect_results", "__main__")
        search = session.namespace("run_search", "run_search")
        module = types.ModuleType("run_search")
        exec(script(BB, "run_search"), search)
        module.__dict__.update(search)
        sys.modules["run_search"] = module
        try:
            with Quiet():
                exec(script(BB, "collect_results"), out)
        finally:
            del sys.modules["run_search"]
        with disk.real_open(os.path.join(os.path.dirname(session.file("x")), "codes.csv")) as stream:
            rows = [line.strip() for line in stream if line.strip() and not line.startswith("#")]
        expected = []
        for (dims, exponents, trials), (n, k, d) in entries.items():
            if d is not None and k * d * d / n > 1:
                expected.append(", ".join(map(str, (*dims, *exponents, n, k, d))) + f", {k * d * d / n:.3f}")
        if sorted(rows) != sorted(expected):
            raise Violation("wrong-table", f"collected {sorted(rows)}, expected {sorted(expected)}")
        result.probes["collected"] += len(rows)


def job_seed(*inputs) -> int:
    return int.from_bytes(hashlib.sha256(repr(inputs).encode()).digest()[:4], "big")


class TannerOracle:
    def __init__(self, p, d, w) -> None:
        self.p, self.d, self.w = p, d, w
        self.dir = os.path.join(d.root, "quantum_tanner", "codes")

    def seed_other_trials(self):
        pass

    def files(self):
        if not os.path.isdir(self.dir):
            return {}
        out = {}
        for name in sorted(os.listdir(self.dir)):
            if name.endswith(".txt"):
                with disk.real_open(os.path.join(self.dir, name)) as stream:
                    out[name] = stream.read()
        return out

    def complete(self, text) -> bool:
        lines = text.splitlines()
        return len(lines) > 4 and text.endswith("\n") and lines[-1].startswith("# bipartite: ")

    def between(self, result):
        for name, text in self.files().items():
            if not self.complete(text):
                raise Violation(
                    "half-result", f"after a failure the results hold an incomplete file, which counts as done: {name}"
                )

    def snapshot(self):
        return self.files()

    def final(self, node, session, jobs, before, result):
        files = self.files()
        for name, text in before.items():
            if files.get(name) != text:
                raise Violation("recomputed", f"the result {name} was complete, and was computed again")
            result.probes["kept"] += 1
        wanted = {}
        for n, (args, kwargs) in jobs:
            order, index, base, base_id, sample = args[:5]
            if order < base.num_bits:
                continue
            seed = job_seed(order, index, base.matrix.tobytes(), sample)
            wanted[f"qtcode_SmallGroup-{order}-{index}_{base_id}_s{seed}.txt"] = (order, index, base, seed)
        if set(files) != set(wanted):
            raise Violation(
                "incomplete", f"missing {sorted(set(wanted) - set(files))}, unexpected {sorted(set(files) - set(wanted))}"
            )
        fresh = sim.fresh("reader", self.p["entropy"] + 900)
        data: dict = {}
        for name, (order, index, base, seed) in wanted.items():
            text = files[name].splitlines()
            code = fresh.codes.QTCode.load(os.path.join(self.dir, name))
            matrix = fresh.codes.ClassicalCode(np.asarray(base.matrix).astype(int), base.field.order)
            again = fresh.codes.QTCode.random(fresh.abstract.SmallGroup(order, index), matrix, seed=seed)
            if code != again or objs.mat(code.matrix) != objs.mat(again.matrix):
                raise Violation("not-reproducible", f"the code saved as {name} is not the one that its name says")
            hx, hz = objs.mat(code.matrix_x), objs.mat(code.matrix_z)
            n = len(code)
            k = n - gf2_rank(hx) - gf2_rank(hz)
            weight = max(sum(1 for x in row if x) for row in hx + hz)
            try:
                trials = ast.literal_eval(text[0].split(":")[1].strip())
                found = eval(text[1].split(":")[1], {"nan": float("nan"), "__builtins__": {}})
                w = ast.literal_eval(text[2].split(":")[1].strip())
            except Exception as err:
                raise Violation("wrong-result", f"{name}: header {text[:3]} cannot be read: {err!r}") from err
            ok = trials == session.globals.get("NUM_TRIALS", trials) and found[:2] == (n, k) and w == weight
            if k == 0:
                ok = ok and found[2] != found[2]
            else:
                ok = ok and type(found[2]) is int and 1 <= found[2] <= n
            if not ok:
                raise Violation("wrong-result", f"{name}: saved {text[:3]}, but n={n}, k={k}, weight={weight}")
            if k:
                base_id = name.split("_")[2]
                data.setdefault((order, index, base_id), []).append((*found, trials, w))
        result.probes["qt-files"] += len(files)
        # collection and verification
        module = types.ModuleType("run_randomized_search")
        space = session.namespace("run_randomized_search", "run_randomized_search")
        node.activate()
        exec(script(QT, "run_randomized_search"), space)
        module.__dict__.update(space)
        sys.modules["run_randomized_search"] = module
        try:
            with Quiet():
                exec(script(QT, "collect_results"), session.namespace("collect_results", "__main__"))
                try:
                    exec(script(QT, "verify_codes"), session.namespace("verify_codes", "__main__"))
                except AssertionError as err:
                    raise Violation("not-reproducible", "verify_codes rejects a saved code") from err
        finally:
            del sys.modules["run_randomized_search"]
        store = next((v for k, v in self.w.store.items() if k.startswith(self.d.root)), {})
        found = {key: pickle.loads(blob) for key, blob in store.values()}
        if {k: sorted(map(tuple, v)) for k, v in found.items()} != {k: sorted(v) for k, v in data.items()}:
            raise Violation("wrong-table", f"collected {found}, but the files say {data}")
        result.probes["collected"] += len(data)
