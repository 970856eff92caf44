"""Driver: seeded runs -> violations -> minimised replay files -> evidence.

A property module (dst/props/cXX.py) provides

    PROPERTY, RUNS = {"quick": n, "thorough": n}, RULE, REAL, STUB
    plan(rng, tier) -> dict       a JSON-able, fully explicit execution plan
    execute(plan)   -> Result     runs it; raises Violation when the property is broken

`plan` is drawn from random.Random(f"{property}/{VERIF_SEED}/{run index}") and from nothing else, and
`execute` is a function of the plan and of the code in /repo, and of nothing else.
"""

from __future__ import annotations

import collections
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
STALL_S = {"quick": 150, "thorough": 300}
SOFT_CAP_S = {"quick": 420, "thorough": 3 * 3600}


class Violation(Exception):
    """The property is broken.  `kind` is the violation class that minimisation preserves."""

    def __init__(self, kind: str, message: str, data=None) -> None:
        super().__init__(f"[{kind}] {message}")
        self.kind = kind
        self.message = message
        self.data = data


class HarnessError(Exception):
    """The simulator (not the code under test) is at fault."""


class Result:
    """What one simulated run did."""

    def __init__(self) -> None:
        self.log: list = []
        self.faults: collections.Counter = collections.Counter()
        self.probes: collections.Counter = collections.Counter()
        self.interleaving: str | None = None  # signature of the interleaving / state reached
        self.nontrivial = False
        self.steps = 0  # simulated time: scheduler steps + seam events
        self.sim_seconds = 0.0
        self.events = 0

    def note(self, *event) -> None:
        self.log.append(event)

    def digest(self) -> str:
        text = json.dumps(self.log, sort_keys=True, default=repr)
        return hashlib.sha256(text.encode()).hexdigest()[:16]

    def as_dict(self) -> dict:
        return {
            "digest": self.digest(),
            "faults": dict(self.faults),
            "probes": dict(self.probes),
            "il": self.interleaving or self.digest(),
            "nt": bool(self.nontrivial),
            "steps": self.steps,
            "sim_s": self.sim_seconds,
            "events": len(self.log),
        }


def sha(obj) -> str:
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def load_property(name: str):
    return importlib.import_module(f"dst.props.{name.lower()}")


def reset_ambient() -> None:
    """Put every process-wide generator in a known state before a run."""
    import numpy as np
    import sympy.core.random

    random.seed(20240229)
    np.random.seed(20240229)
    sympy.core.random.seed(20240229)


def repo_frame(err: BaseException) -> str | None:
    """The innermost frame of /repo in a traceback, if any."""
    found = None
    seen = set()
    todo: list = [err]
    while todo:
        exc = todo.pop()
        if exc is None or id(exc) in seen:
            continue
        seen.add(id(exc))
        for frame, line in traceback.walk_tb(exc.__traceback__):
            filename = frame.f_code.co_filename
            if filename.startswith(REPO + os.sep):
                found = f"{os.path.relpath(filename, REPO)}:{frame.f_code.co_name}"
    return found


def run_plan(module, plan: dict) -> Result:
    """Execute a plan; anything the code under test raises unexpectedly is a violation."""
    reset_ambient()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return module.execute(plan)
    except (Violation, HarnessError):
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as err:
        where = repo_frame(err)
        if where is None:
            raise HarnessError("".join(traceback.format_exception(err))) from err
        detail = "".join(traceback.format_exception(err)[-6:])
        raise Violation(
            f"unexpected-{type(err).__name__}",
            f"{type(err).__name__} raised at {where}: {err}\n{detail}",
        ) from err


def make_plan(module, seed: int, index: int, tier: str) -> dict:
    reset_ambient()
    rng = random.Random(f"{module.PROPERTY}/{seed}/{index}")
    with contextlib.redirect_stdout(io.StringIO()):
        return json.loads(json.dumps(module.plan(rng, tier)))


def run_index(module, seed: int, index: int, tier: str) -> dict:
    """One simulated run, as a JSON-able record."""
    record: dict = {"i": index}
    plan = None
    try:
        plan = make_plan(module, seed, index, tier)
        result = run_plan(module, plan)
        record.update(result.as_dict())
        if index % 64 == 5:  # determinism probe: same plan, same process
            again = run_plan(module, plan)
            record["again"] = again.digest() == record["digest"]
            if not record["again"]:
                record["diff"] = [
                    repr((a, b)) for a, b in zip(result.log, again.log) if repr(a) != repr(b)
                ][:2]
        if index < 3:
            record["sample"] = {"plan": plan, "log": [repr(e)[:200] for e in result.log[:12]]}
    except Violation as err:
        record["violation"] = {"kind": err.kind, "message": err.message}
        record["plan"] = plan or {"_plan_of": [seed, index, tier]}
    except HarnessError as err:
        record["harness"] = str(err)
        record["plan"] = plan
    except Exception as err:  # while planning
        where = repo_frame(err)
        text = "".join(traceback.format_exception(err))
        if where:
            record["violation"] = {
                "kind": f"unexpected-{type(err).__name__}",
                "message": f"while preparing run {index}: {text[-1500:]}",
            }
            record["plan"] = {"_plan_of": [seed, index, tier]}
        else:
            record["harness"] = text
    return record


def worker_loop(module, seed, tier, indices, fd, stop_at) -> None:
    with os.fdopen(fd, "w", buffering=1) as out:
        for index in indices:
            if time.time() > stop_at:
                break
            out.write(json.dumps({"start": index}) + "\n")
            record = run_index(module, seed, index, tier)
            out.write(json.dumps(record, default=repr) + "\n")
            if "violation" in record and not is_known(module.PROPERTY, record["violation"]):
                break
        out.write(json.dumps({"done": True}) + "\n")


def run_batch(module, seed: int, tier: str, runs: int, workers: int, soft_cap: float) -> dict:
    """Run indices 0..runs-1 on `workers` forked processes with a static assignment."""
    start = time.time()
    stall = STALL_S[tier]
    procs: dict = {}
    records: dict[int, dict] = {}
    stalled: list[int] = []
    sys.stdout.flush()
    sys.stderr.flush()

    def launch(indices):
        read_fd, write_fd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(read_fd)
                os.setpgid(0, 0)
                worker_loop(module, seed, tier, indices, write_fd, start + soft_cap)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(write_fd)
        procs[read_fd] = dict(pid=pid, buf=b"", last=time.time(), cur=None, todo=list(indices))

    for w in range(workers):
        indices = list(range(w, runs, workers))
        if indices:
            launch(indices)

    violation_seen = None
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        now = time.time()
        for fd in ready:
            info = procs[fd]
            data = os.read(fd, 1 << 16)
            info["last"] = now
            if not data:
                os.close(fd)
                _, status = os.waitpid(info["pid"], 0)
                done = info.get("done")
                del procs[fd]
                if not done and violation_seen is None:
                    # the worker died: attribute it to the run it was executing
                    if info["cur"] is not None:
                        records[info["cur"]] = {"i": info["cur"], "died": status}
                        rest = [i for i in info["todo"] if i > info["cur"]]
                        if rest and sum("died" in r for r in records.values()) < 4:
                            launch(rest)
                continue
            info["buf"] += data
            *lines, info["buf"] = info["buf"].split(b"\n")
            for line in lines:
                message = json.loads(line)
                if "start" in message:
                    info["cur"] = message["start"]
                elif "done" in message:
                    info["done"] = True
                else:
                    records[message["i"]] = message
                    info["cur"] = None
                    if "violation" in message and violation_seen is None:
                        if not is_known(module.PROPERTY, message["violation"]):
                            violation_seen = now
        for fd, info in list(procs.items()):
            if violation_seen is not None and now - violation_seen > 2.0:
                _kill(info["pid"])
                os.close(fd)
                del procs[fd]
            elif now - info["last"] > stall:
                _kill(info["pid"])
                os.close(fd)
                del procs[fd]
                if info["cur"] is not None:
                    stalled.append(info["cur"])
                    rest = [i for i in info["todo"] if i > info["cur"]]
                    if rest and violation_seen is None and len(stalled) < 2:
                        launch(rest)
    return {"records": records, "stalled": stalled, "wall": time.time() - start}


def _kill(pid: int) -> None:
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    except PermissionError:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)


# ---------------------------------------------------------------------------------------------
# one plan in a forked child, with a wall limit
# ---------------------------------------------------------------------------------------------


def try_plan(module, plan: dict, limit: float) -> dict:
    """Execute a plan in a forked child: {"violation":…} | {"ok":digest} | {"harness":…} | {"stall":…}."""
    read_fd, write_fd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(read_fd)
            os.setpgid(0, 0)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            try:
                if "_plan_of" in plan:
                    plan = make_plan(module, *plan["_plan_of"])
                result = run_plan(module, plan)
                out = {"ok": result.digest()}
            except Violation as err:
                out = {"violation": {"kind": err.kind, "message": err.message}}
            except HarnessError as err:
                out = {"harness": str(err)[-3000:]}
            except Exception as err:
                kind = f"unexpected-{type(err).__name__}"
                text = "".join(traceback.format_exception(err))[-1500:]
                if repo_frame(err):
                    out = {"violation": {"kind": kind, "message": text}}
                else:
                    out = {"harness": text}
            with os.fdopen(write_fd, "w") as stream:
                stream.write(json.dumps(out))
        finally:
            os._exit(0)
    os.close(write_fd)
    deadline = time.time() + limit
    data = b""
    while True:
        left = deadline - time.time()
        if left <= 0:
            _kill(pid)
            os.close(read_fd)
            return {"stall": limit}
        ready, _, _ = select.select([read_fd], [], [], left)
        if ready:
            chunk = os.read(read_fd, 1 << 16)
            if not chunk:
                break
            data += chunk
    os.close(read_fd)
    _, status = os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except ValueError:
        return {"harness": f"child died with status {status}"}


# ---------------------------------------------------------------------------------------------
# minimisation
# ---------------------------------------------------------------------------------------------


def list_fields(plan: dict, prefix=()):
    """Paths of lists of steps/faults/preemptions that may be shortened."""
    for key, value in plan.items():
        if key.startswith("_") or key in plan.get("_keep", ()):
            continue
        path = prefix + (key,)
        if isinstance(value, list) and value:
            yield path
            for i, item in enumerate(value):
                if isinstance(item, list) and item and isinstance(item[0], (list, dict)):
                    yield path + (i,)
                elif isinstance(item, dict):
                    yield from list_fields(item, path + (i,))
        elif isinstance(value, dict):
            yield from list_fields(value, path)


def get_path(obj, path):
    for key in path:
        obj = obj[key]
    return obj


def with_path(plan, path, value):
    plan = json.loads(json.dumps(plan))
    if not path:
        return value
    get_path(plan, path[:-1])[path[-1]] = value
    return plan


def minimise(module, plan: dict, kind: str, budget_s: float, limit: float) -> tuple[dict, int]:
    """ddmin over every list in the plan while the same violation class persists."""
    deadline = time.time() + budget_s
    tried = 0

    def fails(candidate) -> bool:
        nonlocal tried
        if time.time() > deadline:
            return False
        tried += 1
        out = try_plan(module, candidate, limit)
        return out.get("violation", {}).get("kind") == kind

    if "_plan_of" in plan:
        return plan, 0
    shrinkable = getattr(module, "SHRINK", None)
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for path in sorted(list_fields(plan), key=len):
            if shrinkable is not None and path[0] not in shrinkable:
                continue
            try:
                items = get_path(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(items, list):
                continue
            size = len(items)
            while size >= 1 and items:
                start = 0
                while start < len(items):
                    shorter = items[:start] + items[start + size :]
                    candidate = with_path(plan, path, shorter)
                    if fails(candidate):
                        plan, items, changed = candidate, shorter, True
                    else:
                        start += size
                    if time.time() > deadline:
                        return plan, tried
                size //= 2
        for i, fault in enumerate(plan.get("faults", ())):  # earlier occurrences
            if len(fault) >= 2 and isinstance(fault[1], int):
                for n in range(fault[1]):
                    candidate = with_path(plan, ("faults", i, 1), n)
                    if fails(candidate):
                        plan, changed = candidate, True
                        break
        simplify = getattr(module, "simplify", None)
        if simplify is not None:
            for candidate in simplify(json.loads(json.dumps(plan))):
                if fails(candidate):
                    plan, changed = candidate, True
                    break
    return plan, tried


# ---------------------------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------------------------

KNOWN_PATH = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop: str) -> list[tuple[str, str]]:
    """Entries `known: property=<id> kind=<class> match=<text> | <description>`."""
    entries = []
    try:
        with open(KNOWN_PATH) as stream:
            for line in stream:
                if line.startswith(f"known: property={prop} "):
                    head, _, description = line.partition("|")
                    kind = head.split("kind=")[1].split()[0]
                    match = head.split("match=")[1].strip()
                    entries.append((kind, match, description.strip()))
    except FileNotFoundError:
        pass
    return entries


def is_known(prop: str, violation: dict):
    for kind, match, description in known_findings(prop):
        if violation["kind"] == kind and match in violation["message"]:
            return description
    return None


# ---------------------------------------------------------------------------------------------
# the command
# ---------------------------------------------------------------------------------------------


def replay(path: str) -> int:
    with open(path) as stream:
        saved = json.load(stream)
    module = load_property(saved["property"])
    getattr(module, "warm", lambda: None)()
    plan = saved["plan"]
    if "_plan_of" in plan:
        out = run_index(module, *_plan_args(plan))
        out = {"violation": out["violation"]} if "violation" in out else {"ok": out.get("digest")}
    else:
        out = try_plan(module, plan, saved.get("limit", 300))
    if "stall" in out and saved["kind"] == "no-progress":
        out = {"violation": {"kind": "no-progress", "message": "the run does not terminate"}}
    if "violation" in out:
        print(f"{saved['property']}: {out['violation']['message']}")
        print(f"VIOLATION property={saved['property']} replay={path}")
        return 1
    if "ok" in out:
        print(f"{saved['property']}: replayed without a violation (digest {out['ok']})")
        return 0
    print(f"{saved['property']}: {out}", file=sys.stderr)
    return 2


def _plan_args(plan):
    seed, index, tier = plan["_plan_of"]
    return seed, index, tier


def write_replay(module, plan, violation, seed, index, tier, limit) -> str:
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{module.PROPERTY}-{seed}-{index}.json")
    with open(path, "w") as stream:
        json.dump(
            {
                "property": module.PROPERTY,
                "verif_seed": seed,
                "run": index,
                "tier": tier,
                "kind": violation["kind"],
                "message": violation["message"],
                "limit": limit,
                "plan": plan,
            },
            stream,
            indent=1,
        )
    return path


def fresh_replay(path: str, limit: float) -> bool:
    """Does the replay file fail in a fresh process?"""
    try:
        out = subprocess.run(
            [sys.executable, os.path.join(VERIF, "check.py"), "--replay", path],
            capture_output=True,
            text=True,
            timeout=limit + 60,
        )
    except subprocess.TimeoutExpired:
        return False
    return out.returncode == 1


def report(module, plan, violation, seed, index, tier, started) -> None:
    limit = STALL_S[tier]
    saved, tried = plan, 0
    shrink_s = max(5.0, min(90.0, 600 - (time.time() - started)))
    if violation["kind"] != "no-progress":
        saved, tried = minimise(module, plan, violation["kind"], shrink_s, min(limit, 60))
        final = try_plan(module, saved, limit)
        violation = final.get("violation", violation)
    path = write_replay(module, saved, violation, seed, index, tier, limit)
    reproduced = violation["kind"] == "no-progress" or fresh_replay(path, limit)
    if not reproduced and saved is not plan:
        path = write_replay(module, plan, violation, seed, index, tier, limit)
        reproduced = fresh_replay(path, limit)
    print(f"{module.PROPERTY}: run {index} of seed {seed}: {violation['message']}")
    print(
        f"  minimised with {tried} executions; replay in a fresh process:"
        f" {'reproduced' if reproduced else 'NOT reproduced'}"
    )
    print(f"  replay with: {VERIF}/check.sh --replay {path}")
    print(f"VIOLATION property={module.PROPERTY} replay={path}")


def main(argv: list[str]) -> int:
    import argparse

    parser = argparse.ArgumentParser()
    parser.add_argument("property", nargs="?")
    parser.add_argument("--replay")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--runs", type=int)
    parser.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    parser.add_argument("--cap", type=float)
    parser.add_argument("--digests", help="write run digests to this file (determinism self-test)")
    parser.add_argument("--index", type=int, help="execute one run in this process")
    parser.add_argument("--peer", help=argparse.SUPPRESS)
    parser.add_argument("--peer-modules", default="", help=argparse.SUPPRESS)
    parser.add_argument("--peer-parent", type=int, default=0, help=argparse.SUPPRESS)
    args = parser.parse_args(argv)
    if args.peer:
        from dst import peers

        return peers.serve(args.peer, args.peer_modules.split(","), args.peer_parent)
    if args.replay:
        return replay(args.replay)

    started = time.time()
    module = load_property(args.property)
    prop, seed, tier = module.PROPERTY, args.seed, args.tier
    print(f"{prop}: VERIF_SEED={seed} tier={tier} repo={REPO}", flush=True)
    getattr(module, "warm", lambda: None)()
    if args.index is not None:
        record = run_index(module, seed, args.index, tier)
        print(json.dumps(record, indent=1, default=repr))
        return 1 if "violation" in record else 0

    runs = args.runs if args.runs is not None else module.RUNS[tier]
    cap = args.cap or SOFT_CAP_S[tier]
    if hasattr(module, "batch"):  # properties that need fresh interpreters run their own batches
        batch = module.batch(seed, tier, runs, args.workers, cap)
    else:
        batch = run_batch(module, seed, tier, runs, args.workers, cap)
    records = [batch["records"][i] for i in sorted(batch["records"])]
    if args.digests:
        with open(args.digests, "w") as stream:
            for r in records:
                stream.write(f"{r['i']} {r.get('digest') or r.get('violation') or r.get('harness')}\n")

    violations = [r for r in records if "violation" in r]
    known = {}
    fresh = []
    for r in violations:
        description = is_known(prop, r["violation"])
        if description:
            known.setdefault(description, 0)
            known[description] += 1
        else:
            fresh.append(r)
    harness = [r for r in records if "harness" in r or "died" in r]

    # a run that stalled is confirmed alone before it counts
    if not fresh and not harness:
        for index in batch["stalled"][:1]:
            plan = {"_plan_of": [seed, index, tier]}
            out = try_plan(module, plan, STALL_S[tier] * 1.5)
            if "stall" in out:
                fresh.append(
                    {
                        "i": index,
                        "plan": plan,
                        "violation": {
                            "kind": "no-progress",
                            "message": f"run {index} makes no progress: an operation does not terminate",
                        },
                    }
                )
            elif "violation" in out:
                fresh.append({"i": index, "plan": plan, "violation": out["violation"]})

    evidence(module, seed, tier, records, batch, time.time() - started, len(fresh), known)
    for description in known:
        print(f"KNOWN-FINDING: property={prop} {description}")
    if fresh:
        worst = fresh[0]
        report(module, worst["plan"], worst["violation"], seed, worst["i"], tier, started)
        return 1
    if harness:
        r = harness[0]
        print(f"{prop}: HARNESS ERROR in run {r['i']}: {r.get('harness') or r}", file=sys.stderr)
        return 2
    mismatches = sum(r.get("again") is False for r in records)
    print(
        f"{prop}: {len(records)} runs held, {mismatches} determinism mismatches,"
        f" {time.time() - started:.1f} s"
    )
    return 0


def evidence(module, seed, tier, records, batch, wall, violations, known) -> None:
    good = [r for r in records if "digest" in r]
    faults: collections.Counter = collections.Counter()
    probes: collections.Counter = collections.Counter()
    for r in good:
        faults.update(r["faults"])
        probes.update(r["probes"])
    distinct = {r["il"] for r in good if r["nt"]}
    samples = [r["sample"] for r in good if "sample" in r][:2] or [
        {"run": r["i"], "violation": r.get("violation")} for r in records[:1]
    ]
    for sample in samples:
        text = json.dumps(sample, default=repr)
        if len(text) > 6000:
            sample.clear()
            sample["truncated"] = text[:6000]
    batch_wall = max(batch["wall"], 1e-9)
    coverage = {
        "evaluations": len(good),
        "distinct_nontrivial": len(distinct),
        "rule": module.RULE,
        "samples": samples,
        "seeds_per_hour": round(len(good) / batch_wall * 3600),
        "simulated_steps": sum(r["steps"] for r in good),
        "simulated_seconds": round(sum(r["sim_s"] for r in good), 1),
        "history_events": sum(r["events"] for r in good),
        "distinct_histories": len({r["digest"] for r in good}),
        "faults_injected": dict(sorted(faults.items())),
        "probes_hit": dict(sorted(probes.items())),
        "determinism_rechecked": sum("again" in r for r in good),
        "determinism_mismatches": sum(r.get("again") is False for r in good),
        "stalled_runs": len(batch["stalled"]),
        "components_real": module.REAL,
        "components_stubbed": module.STUB,
        "known_findings_hit": known,
    }
    coverage.update(batch.get("extra", {}))
    data = {
        "property": module.PROPERTY,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{module.PROPERTY}.json"), "w") as stream:
        json.dump(data, stream, indent=1, default=repr)
