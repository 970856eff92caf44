"""Shared engine of C02-C05: simulated processes that look things up through a store, a simulated GAP
and a simulated GroupNames.org, while services come and go and every seam can fail."""

from __future__ import annotations

import copy
import random

from dst import sim, world
from dst.core import Result, Violation

KNOWN_NAMES = None

SMALL = [(2, 1), (4, 2), (6, 1), (8, 3), (8, 4), (12, 1), (12, 11), (16, 3), (60, 5), (64, 7), (72, 1), (1, 1)]
NAMED = [
    "AlternatingGroup(5)",
    "DihedralGroup(12)",
    "PSL(2,7)",
    "AutomorphismGroup(CheckMatCode([[1,0,1],[0,1,1]],GF(2)))",
]
CODES = ["HammingCode(3)", "RepetitionCode(5,GF(2))", "TernaryGolayCode()", "ReedSolomonCode(4,2)"]
FIELDS = ["GF(2)", "GF(3)", "GF(2^2)"]
COEFFS = {
    2: ["Z(2)^0", "Z(2)"],
    3: ["Z(3)^0", "Z(3)", "Z(3)^1"],
    4: ["Z(2)^0", "Z(2^2)", "Z(2^2)^2"],
    9: ["Z(3)^0", "Z(3)", "Z(3^2)", "Z(3^2)^2", "Z(3^2)^7"],
    16: ["Z(2)^0", "Z(2^4)", "Z(2^2)", "Z(2^2)^2", "Z(2^4)^7"],
}
IDEMPOTENTS = [("SmallGroup(6,1)", 2), ("SmallGroup(8,3)", 3), ("Group((1,2,3),(1,2))", 4), ("SmallGroup(12,1)", 4), ("SmallGroup(21,1)", 16), ("SmallGroup(10,1)", 9)]


def random_perm(rng, size):
    points = list(range(size))
    rng.shuffle(points)
    cycles, pos = [], 0
    while pos < size - 1:
        length = rng.randint(1, min(5, size - pos))
        if length > 1:
            cycles.append(tuple(points[pos : pos + length]))
        pos += length
    return cycles or [(0, 1)]


def make_truth(seed: int) -> world.Truth:
    rng = random.Random(f"truth/{seed}")
    truth = world.Truth()
    for order, index in SMALL:
        size = rng.choice([4, 6, 9, 40 if order > 10 else 7])
        name = f"SmallGroup({order},{index})"
        if (order, index) == (1, 1):
            truth.gap_groups[name] = []
            truth.web_groups[order, index] = [[(0, 1)]]  # never asked for
        else:
            truth.gap_groups[name] = [random_perm(rng, size) for _ in range(rng.randint(1, 4))]
            truth.web_groups[order, index] = [random_perm(rng, size) for _ in range(rng.randint(1, 3))]
        truth.structures[name] = rng.choice(["C2 x C4", "S3", "C3 : C4", "D8", "((C4 x C2) : C2) : C3"])
        truth.numbers[order] = max(index, truth.numbers.get(order, 0)) + rng.choice([0, 0, 3, 11])
    for order, number in truth.numbers.items():
        for index in range(1, number + 1):
            truth.web_groups.setdefault((order, index), [random_perm(rng, 6) for _ in range(2)])
            truth.gap_groups.setdefault(f"SmallGroup({order},{index})", [random_perm(rng, 6)])
    for name in NAMED:
        truth.gap_groups[name] = [random_perm(rng, rng.choice([5, 12, 45])) for _ in range(3)]
    for name in known_names():
        # GAP's generators differ from those of the built-in table, so that precedence is visible
        truth.gap_groups[world.canonical(name)] = [random_perm(rng, 6), random_perm(rng, 6)]
    for name in CODES:
        cols = rng.choice([3, 7, 30])
        rows = [[rng.randrange(2) for _ in range(cols)] for _ in range(rng.randint(1, 4))]
        truth.codes[name] = (rows, rng.choice(FIELDS))
    for group, field in IDEMPOTENTS:
        members = []
        for _ in range(rng.randint(1, 3)):
            terms = [(rng.choice(COEFFS[field]), [])]
            for _ in range(rng.randint(0, 6)):
                terms.append((rng.choice(COEFFS[field]), random_perm(rng, rng.choice([3, 6, 12]))))
            members.append(terms)
        truth.idempotents[world.canonical(group), field] = members
    return truth


def known_names():
    global KNOWN_NAMES
    if KNOWN_NAMES is None:
        node = sim.fresh()
        KNOWN_NAMES = dict(copy.deepcopy(getattr(node.gapgroups, "KNOWN_GROUPS", {})))
    return list(KNOWN_NAMES)


def gen_list(gens):
    return [[tuple(c) for c in g] for g in gens]


def expected_idempotents(members, field):
    import re

    import galois

    out = []
    for terms in members:
        idem = []
        for text, cycles in terms:
            match = re.fullmatch(r"Z\((\d+)(?:\^(\d+))?\)(?:\^(\d+))?", text)
            p, k, m = match.groups()
            order = int(p) ** int(k or 1)
            value = galois.GF(field).primitive_element ** (
                (field - 1) // (order - 1) * (1 if m is None else int(m))
            )
            value = int(value)
            idem.append((value, tuple(tuple(c) for c in cycles) if cycles else ((),)))
        out.append(tuple(idem))
    return tuple(out)


ERR = "error"


class Engine:
    """One simulated run.  `checks` selects the oracles that raise violations."""

    def __init__(self, p, checks: set[str], record=False):
        self.p = p
        self.checks = checks
        self.record = record
        self.result = Result()
        self.w = world.World(p["faults"], result=self.result)
        self.truth = self.w.truth = make_truth(p["truth"])
        self.w.answers = list(p.get("answers", []))
        self.w.default_answer = p.get("default_answer", "y")
        self.w.chunk = p.get("chunk", 997)
        env = p["env"]
        self.w.gap_installed = env["gap"]
        self.w.online = env["online"]
        self.w.git_installed = env.get("git", True)
        self.w.system_packages = set(env["packages"])
        self.w.gap_version = env.get("version", "4.12.2")
        self.ever_gap = env["gap"]
        self.ever_healthy = True
        self.nodes = []
        self.store_hurt = False

    # -- expectations --------------------------------------------------------------------------

    def values(self, op):
        """(gap answer or ERR, web answer or ERR, built-in answer or None) of a lookup."""
        kind, *args = op
        t = self.truth
        if kind == "gen":
            name = world.canonical(args[0])
            builtin = KNOWN_NAMES.get(name) if known_names() is not None else None
            gap = gen_list(t.gap_groups[name]) if name in t.gap_groups else ERR
            web = ERR
            if name.startswith("SmallGroup("):
                order, index = map(int, name[11:-1].split(","))
                if (order, index) in t.web_groups:
                    web = gen_list(t.web_groups[order, index])
            return gap, web, builtin
        if kind == "number":
            number = t.numbers.get(args[0], ERR)
            return number, number, None
        if kind == "structure":
            name = f"SmallGroup({args[0]},{args[1]})"
            return t.structures.get(name, ERR), name, None
        if kind == "idem":
            key = (world.canonical(args[0]), args[1])
            if key not in t.idempotents:
                return ERR, ERR, None
            return expected_idempotents(t.idempotents[key], args[1]), ERR, None
        if kind == "code":
            name = world.canonical(args[0])
            if name not in t.codes:
                return ERR, ERR, None
            rows, field = t.codes[name]
            base, _, exponent = field[3:-1].partition("^")
            return (rows, int(base) ** int(exponent or 1)), ERR, None
        raise AssertionError(kind)

    @staticmethod
    def packages(op):
        """The GAP package the lookup needs."""
        return {"gen": "guava", "code": "guava", "idem": "wedderga"}.get(op[0])

    # -- performing lookups --------------------------------------------------------------------

    def ask(self, node, op):
        kind, *args = op
        via = args[-1] if args and isinstance(args[-1], dict) else {}
        if via:
            args = args[:-1]
        if kind == "gen":
            if via.get("high"):
                group = node.abstract.Group.from_name(args[0])
                return ("group", group)
            return node.gapgroups.get_generators(args[0])
        if kind == "number":
            if via.get("high"):
                return node.abstract.SmallGroup.number(args[0])
            return node.gapgroups.get_small_group_number(args[0])
        if kind == "structure":
            if via.get("high"):
                return node.abstract.SmallGroup.get_structure(*args)
            return node.gapgroups.get_small_group_structure(*args)
        if kind == "idem":
            return node.gapgroups.get_primitive_central_idempotents(*args)
        if kind == "code":
            if via.get("high"):
                return ("code", node.codes.ClassicalCode.from_name(args[0]))
            return node.gapcodes.get_code(args[0])
        raise AssertionError(kind)

    def same(self, node, op, value, want) -> bool:
        """Is the returned value the wanted answer?"""
        if isinstance(want, str) and want == ERR:
            return False
        if isinstance(value, tuple) and len(value) == 2 and value[0] == "group":
            member = node.abstract.GroupMember
            ref = node.abstract.Group(*[member(g) for g in want])
            return [g.array_form for g in value[1].generators] == [
                g.array_form for g in ref.generators
            ] and value[1].name == world.canonical(op[1])
        if isinstance(value, tuple) and len(value) == 2 and value[0] == "code":
            rows, field = want
            return value[1].matrix.tolist() == rows and value[1].field.order == (field or 2)
        return type(value) is type(want) and value == want

    def freeze(self, value):
        if isinstance(value, tuple) and len(value) == 2 and value[0] == "group":
            return repr([g.array_form for g in value[1].generators])[:300]
        if isinstance(value, tuple) and len(value) == 2 and value[0] == "code":
            return repr(value[1].matrix.tolist())[:300]
        return repr(value)[:300]

    def lookup(self, node, op, *, scribble=False):
        """One lookup with its immediate oracles.  Returns ("ok", value, choice) or ("error", e)."""
        w = self.w
        clean = [k for k in op if not isinstance(k, dict)]
        before = dict(w.my_calls())
        n_faults = sum(self.result.faults.values())
        self.w.event("ask", *clean)
        try:
            value = self.ask(node, op)
        except KeyboardInterrupt:
            self.w.event("interrupted")
            return ("error", "interrupt")
        except Exception as err:
            self.w.event("error", type(err).__name__)
            faulted = sum(self.result.faults.values()) > n_faults
            with sim.masked():
                self.check_error(node, clean, err, faulted, before)
            return ("error", err)
        with sim.masked():
            self.w.event("answer", self.freeze(value))
            out = self.check_value(node, clean, value, before)
            if scribble and isinstance(value, list):
                value.append("scribble")
                if value and isinstance(value[0], list):
                    value[0].insert(0, (0, 99))
        return out

    def check_value(self, node, op, value, before):
        gap, web, builtin = self.values(op)
        choice = None
        if builtin is not None:
            if self.same(node, op, value, gen_list(builtin)):
                choice = "builtin"
        elif self.same(node, op, value, gap):
            choice = "gap"
        elif self.same(node, op, value, web) and self.placeholder_ok(node, op):
            choice = "web"
        if choice is None:
            # whatever the property: an answer that nobody gave
            tags = {"answer"}
            if builtin is not None:
                tags.add("precedence")
            if self.checks & tags:
                raise Violation(
                    "wrong-answer",
                    f"{op} answered {self.freeze(value)}; GAP says {repr(gap)[:200]}, GroupNames says"
                    f" {repr(web)[:200]}" + (f", built in is {repr(builtin)[:200]}" if builtin else ""),
                )
            return ("wrong", value, None)
        if "external" in self.checks:
            self.check_calls(node, op, before, choice)
        return ("ok", value, choice)

    def placeholder_ok(self, node, op) -> bool:
        """The web answer or placeholder is legitimate only if GAP may have looked absent."""
        if op[0] == "number":
            return True
        if op[0] == "structure":
            return bool(node.extra.get("degraded")) or not self.w.gap_installed
        return True

    def check_calls(self, node, op, before, choice):
        delta = {k: v - before.get(k, 0) for k, v in self.w.my_calls().items() if v - before.get(k, 0)}
        if choice == "builtin" and delta:
            raise Violation("needless-call", f"{op} is built in but made external calls {delta}")
        if self.multi:
            return
        key = repr(op)
        if key in self.stored and not self.store_hurt and delta:
            raise Violation("needless-call", f"{op} was stored but made external calls {delta}")
        if choice == "web" and op[0] == "gen" and self.always_gap and not node.extra.get("degraded"):
            raise Violation("precedence", f"{op} was answered by GroupNames although GAP is installed")
        if delta.get("http") and self.always_gap and not node.extra.get("degraded"):
            raise Violation("precedence", f"{op} used GroupNames although GAP is installed")
        if choice is not None and not (op[0] == "structure" and choice == "web"):
            self.stored.add(key)

    def check_error(self, node, op, err, faulted, before):
        """With every service healthy a lookup that has an answer must not fail."""
        gap, web, builtin = self.values(op)
        if builtin is not None and not self.result.faults:
            raise Violation("spurious-error", f"{op} is built in but raised {err!r}")
        if self.result.faults or not self.ever_healthy or not self.static_env:
            return
        package = self.packages(op)
        reachable = False
        if self.w.gap_installed:
            reachable = gap != ERR and (package is None or package in self.w.system_packages)
        elif self.w.online:
            reachable = op[0] in ("gen", "number", "structure") and web != ERR
        else:
            reachable = op[0] == "structure"
        if reachable:
            raise Violation("spurious-error", f"{op} raised {err!r} although every service works")

    # -- running -------------------------------------------------------------------------------

    def env_event(self, op):
        what, value = op[1], op[2]
        self.w.event("env", what, value)
        if what == "gap":
            self.w.gap_installed = value
            if not value:
                for node in self.nodes:
                    node.extra["degraded"] = True
        elif what == "online":
            self.w.online = value
        elif what == "evict":
            for d in self.w.store.values():
                d.clear()
            self.store_hurt = True
        elif what == "git":
            self.w.git_installed = value
        elif what == "package":
            (self.w.system_packages.add if value[1] else self.w.system_packages.discard)(value[0])
        self.result.probes[f"env:{what}"] += 1

    def thread(self, node, ops):
        for op in ops:
            if op[0] == "env":
                self.env_event(op)
            elif op[0] == "scribble":
                self.lookup(node, op[1], scribble=True)
            else:
                self.lookup(node, op)

    def run(self):
        p = self.p
        known_names()
        self.multi = sum(len(t) for t in p["procs"]) > 1
        all_ops = [op for threads in p["procs"] for ops in threads for op in ops]
        self.static_env = not any(op[0] == "env" for op in all_ops)
        self.always_gap = p["env"]["gap"] and not any(
            op[0] == "env" and op[1] == "gap" for op in all_ops
        )
        self.stored: set = set()
        self.store_hurt = any(f[0].startswith("store") for f in p["faults"])
        traces = []
        with self.w:
            s = sim.Sim(p["actions"], budget=400_000, record=self.record)
            for i, threads in enumerate(p["procs"]):
                node = sim.fresh(f"p{i}", p["entropy"] + i)
                if not self.w.gap_installed:
                    node.extra["degraded"] = True
                self.nodes.append(node)
                for ops in threads:
                    s.spawn(lambda node=node, ops=ops: self.thread(node, ops), node)
            s.run()
            traces = [t.trace for t in s.threads]
            self.result.faults.update(f"sched:{x}" for x in s.fired)
            self.result.interleaving = repr(s.switches) + self.result.digest()
            self.result.steps = s.total + sum(self.w.counts.values())
            if not self.record:
                self.aftermath(all_ops)
        self.result.nontrivial = bool(self.result.faults) or bool(self.result.probes) or self.multi
        return self.result, traces

    def aftermath(self, all_ops):
        """Faults stop and services are back."""
        w = self.w
        w.faults_on = False
        w.answers, w.default_answer = [], "y"
        ops = []
        for op in all_ops:
            if op[0] == "env":
                continue
            op = op[1] if op[0] == "scribble" else op
            op = [x for x in op if not isinstance(x, dict)]
            if op not in ops:
                ops.append(op)
        if self.checks & {"recovery", "external"}:
            w.gap_installed = w.online = w.git_installed = True
            w.system_packages = {"guava", "wedderga"}
            self.multi = True
            before_store = {d: dict(v) for d, v in w.store.items()}
            survivors = [n for n in self.nodes if not n.dead and not n.extra.get("degraded")]
            later = sim.fresh("restarted", 77)
            for node in [*survivors, later]:
                node.activate()
                for op in ops:
                    gap, web, builtin = self.values(op)
                    if gap == ERR and builtin is None:
                        continue
                    out = self.lookup(node, op)
                    legal = (builtin is not None and out[0] == "ok") or (
                        out[0] == "ok" and (out[2] == "gap" or (op[0] in ("gen", "number") and out[2] == "web"))
                    )
                    if not legal and "recovery" in self.checks:
                        raise Violation(
                            "no-recovery",
                            f"after faults stopped, {op} in a {'new' if node is later else 'surviving'}"
                            f" process gives {out[0]} {self.freeze(out[1])} instead of"
                            f" {repr(builtin if builtin is not None else gap)[:200]}",
                        )
            if "recovery" in self.checks:
                self.check_web_pollution(ops, before_store)
            if "external" in self.checks:
                self.check_offline(ops)

    def check_web_pollution(self, ops, before_store):
        pass

    def check_offline(self, ops):
        """Everything answered once is stored: no GAP, no network, no prompt needed any more."""
        w = self.w
        w.gap_installed = w.online = w.git_installed = False
        node = sim.fresh("offline", 78)
        for op in ops:
            gap, web, builtin = self.values(op)
            if gap == ERR and builtin is None:
                continue
            before = dict(w.my_calls())
            out = self.lookup(node, op)
            delta = {k: v - before.get(k, 0) for k, v in w.my_calls().items() if v - before.get(k, 0)}
            if out[0] != "ok" or (op[0] == "structure" and out[2] == "web"):
                raise Violation(
                    "not-served-from-store",
                    f"{op} was answered and stored, but without services it gives {out[0]}"
                    f" {self.freeze(out[1])}",
                )
            if delta:
                raise Violation("needless-call", f"{op} is stored but made external calls {delta}")
        self.result.probes["offline pass"] += 1


def draw_op(rng, names):
    op = list(rng.choice(names))
    if op[0] in ("gen", "number", "structure", "code") and rng.random() < 0.3:
        if not (op[0] == "gen" and op[1] == "SmallGroup(1,1)"):
            op.append({"high": True})
    return op


def pool(rng):
    names = []
    for order, index in rng.sample(SMALL, 5):
        names.append(["gen", f"SmallGroup({order},{index})"])
        names.append(["structure", order, index])
        names.append(["number", order])
    names += [["gen", n] for n in rng.sample(NAMED, 2)]
    names += [["gen", n] for n in rng.sample(known_names(), 1)]
    names += [["code", n] for n in rng.sample(CODES, 2)]
    names += [["idem", g, f] for g, f in rng.sample(IDEMPOTENTS, 2)]
    names += [["gen", "SmallGroup(8,99)"], ["number", 1023], ["structure", 8, 99], ["code", "NoSuchCode(3)"]]
    return names


def draw_plan(rng, focus: str):
    names = pool(rng)
    used = rng.sample(names, rng.choice([1, 1, 2, 3, 4]))
    if rng.random() < 0.5:
        used = [u for u in used if u[-1] not in ("SmallGroup(8,99)", 1023, "NoSuchCode(3)", 99)] or used
    mode = rng.random()
    env = {
        "gap": rng.random() < 0.65,
        "online": rng.random() < 0.85,
        "git": True,
        "packages": sorted(["guava", "wedderga"]),
        "version": rng.choice(["4.12.2", "4.11.0", "4.13.1"]),
    }
    procs = []
    n_procs = rng.choice([1, 1, 1, 2, 3])
    for _ in range(n_procs):
        threads = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 5])):
                r = rng.random()
                if mode > 0.4 and r < 0.15:
                    what = rng.choice(["gap", "online", "evict"])
                    ops.append(["env", what, rng.random() < 0.5])
                elif r < 0.3:
                    ops.append(["scribble", draw_op(rng, used)])
                else:
                    ops.append(draw_op(rng, used))
            threads.append(ops)
        procs.append(threads)
    faults = []
    if rng.random() < 0.75:
        sites = {
            "gap": world.GAP_FAULTS + ["killed", "exit1", "crash"],
            "http": world.HTTP_FAULTS + ["truncate", "crash"],
            "store.read": world.READ_FAULTS,
            "store.write": world.WRITE_FAULTS,
            "store.open": ["eio", "timeout"],
        }
        weights = ["gap", "gap", "gap", "http", "http", "store.read", "store.write", "store.open"]
        if not env["gap"]:
            weights = ["http"] * 4 + weights
        found = {}
        for _ in range(rng.choice([1, 1, 2, 3])):
            site = rng.choice(weights)
            n = min(rng.randrange(8), rng.randrange(8))
            found[site, n] = [site, n, rng.choice(sites[site]), rng.randrange(100_000)]
        faults = sorted(found.values())
    out = {
        "truth": rng.randrange(60),
        "env": env,
        "procs": procs,
        "faults": faults,
        "actions": [],
        "entropy": rng.randrange(1000),
        "chunk": rng.choice([13, 300, 997, 8192]),
        "_keep": ["env"],
    }
    if rng.random() < 0.1:
        aim_at_page(rng, out)
    return out


def aim_at_page(rng, p):
    """Turn a plan into one whose replies from GroupNames.org are cut amid what is asked for."""
    truth = make_truth(p["truth"])
    order, index = rng.choice([x for x in sorted(truth.web_groups) if 3 < x[0]])
    p["env"].update(gap=False, online=True)
    ops = [["number", order], ["gen", f"SmallGroup({order},{index})"]]
    for threads in p["procs"]:
        for asks in threads:
            for n in range(len(asks)):
                if rng.random() < 0.6:
                    asks[n] = rng.choice(ops)
    page = world.site_pages(truth)["/~matyd/GroupNames/"]
    low, high = page.find(f"<td>{order},1</td>"), page.rfind(f"<td>{order},")
    p["faults"] = [f for f in p["faults"] if f[0] != "http"]
    for n in range(rng.choice([1, 1, 2])):
        p["faults"].append(["http", n, rng.choice(["truncate", "truncate", "reset"]), rng.randint(low, high + 20)])
    p["faults"].sort()


def add_actions(rng, p, checks):
    n_threads = sum(len(t) for t in p["procs"])
    if (n_threads > 1 and rng.random() < 0.7) or rng.random() < 0.1:
        try:
            traces = Engine(p, checks, record=True).run()[1]
        except Exception:
            return
        kinds = ["switch"] * 6 + (["crash", "interrupt"] if rng.random() < 0.3 else [])
        p["actions"] = sim.choose_actions(
            rng, traces, rng.choice([1, 2, 4, 6]), kinds, bias=lambda s: "external" in s or "store" in s
        )


REAL = [
    "qldpc.cache",
    "qldpc.external.gap / groups / codes",
    "qldpc.abstract.Group.from_name, SmallGroup.number, SmallGroup.get_structure",
    "ClassicalCode.from_name",
    "subprocess.run, urllib.request, http.client (parsing and error handling)",
    "pickle round trip of stored keys and values",
]
STUB = [
    "gap program (interpreter of the GAP subset qLDPC speaks, with its own ground truth)",
    "git program and GitHub",
    "GroupNames.org server and TCP sockets",
    "diskcache.Cache (in-memory emulation)",
    "input()",
    "thread scheduler and process table",
]
ASSUMPTIONS = [
    "GroupNames.org sends a Content-Length, so that a cut reply is detectable",
    "a failing or killed GAP exits with a non-zero status or writes to stderr",
]
