"""C05: GAP packages are provisioned only with consent, and provisioning failures surface."""

from __future__ import annotations

from dst import lookup, sim, world
from dst.core import Violation

PROPERTY = "C05"
RUNS = {"quick": 2400, "thorough": 50000}
REAL, STUB, ASSUMPTIONS = lookup.REAL, lookup.STUB, lookup.ASSUMPTIONS
RULE = (
    "seeded plans: 1-2 processes x 1-2 threads performing lookups that need GAP packages which are missing,"
    " with scripted user answers, and faults in GAP, git, the network, the prompt and the store, plus"
    " preemptions; non-trivial = a prompt was shown or a fault fired; distinct by event history"
)

AFFIRM = ["", "y", "Y", " y ", "y\n"]
REFUSE = ["n", "N", "no", "q", "never"]


def affirmative(answer: str) -> bool:
    return answer.strip().lower() in ("", "y")


def warm() -> None:
    world.install()
    sim.warm()
    lookup.known_names()


def plan(rng, tier):
    ops_pool = [["code", n] for n in lookup.CODES]
    ops_pool += [["idem", g, f] for g, f in lookup.IDEMPOTENTS]
    ops_pool += [["gen", f"SmallGroup({o},{i})"] for o, i in rng.sample(lookup.SMALL, 4)]
    ops_pool += [["gen", n] for n in lookup.NAMED] + [["gen", rng.choice(lookup.known_names())]]
    ops_pool += [["structure", 8, 3], ["number", 8]]
    used = rng.sample(ops_pool, rng.choice([1, 2, 3]))
    procs = []
    single = rng.random() < 0.7
    for _ in range(1 if single else rng.choice([1, 2])):
        threads = []
        for _ in range(1 if single else rng.choice([1, 2])):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 4, 6])):
                if rng.random() < 0.12:
                    ops.append(["env", *rng.choice([("git", True), ("git", False), ("online", True), ("online", False)])])
                else:
                    ops.append(list(rng.choice(used)))
            threads.append(ops)
        procs.append(threads)
    packages = rng.choice([[], [], ["guava"], ["wedderga"], ["guava", "wedderga"]])
    answers = [rng.choice(AFFIRM if rng.random() < 0.65 else REFUSE) for _ in range(10)]
    faults = []
    if rng.random() < 0.65:
        sites = {
            "gap": world.GAP_FAULTS + ["crash"],
            "git": world.GIT_FAULTS + ["crash"],
            "input": ["eof", "interrupt", "crash"],
            "store.write": ["eio", "crash"],
        }
        weights = ["git"] * 4 + ["gap"] * 4 + ["input", "store.write"]
        found = {}
        for _ in range(rng.choice([1, 1, 2, 3])):
            site = rng.choice(weights)
            n = rng.randrange(3) if site in ("git", "input") else min(rng.randrange(9), rng.randrange(9))
            found[site, n] = [site, n, rng.choice(sites[site]), rng.randrange(100_000)]
        faults = sorted(found.values())
    p = {
        "truth": rng.randrange(60),
        "env": {
            "gap": rng.random() < 0.95,
            "online": rng.random() < 0.85,
            "git": rng.random() < 0.92,
            "packages": packages,
        },
        "answers": answers,
        "default_answer": rng.choice(["", "n"]),
        "procs": procs,
        "faults": faults,
        "actions": [],
        "entropy": rng.randrange(1000),
        "_keep": ["env"],
    }
    if not single and rng.random() < 0.7 or rng.random() < 0.05:
        try:
            traces = Engine(p, set(), record=True).run()[1]
            kinds = ["switch"] * 6 + (["crash", "interrupt"] if rng.random() < 0.3 else [])
            p["actions"] = sim.choose_actions(
                rng, traces, rng.choice([1, 2, 4]), kinds, bias=lambda s: "gap" in s or "git" in s
            )
        except Exception:
            pass
    return p


class Engine(lookup.Engine):
    def packaged(self, name: str) -> bool:
        return world.Gap(self.w, self.root()).has_package(name)

    def root(self):
        return self.gap_root

    def lookup(self, node, op, *, scribble=False):
        w = self.w
        self.gap_root = node.gap.GAP_ROOT if hasattr(node.gap, "GAP_ROOT") else None
        before = dict(w.my_calls())
        n_answers, n_installs = len(w.answered), len(w.installs)
        n_faults = sum(self.result.faults.values())
        package = self.packages(op)
        gap_before = w.gap_installed
        with sim.masked():
            available = package is None or self.available(package)
        stored_before = sum(map(len, w.store.values()))
        out = super().lookup(node, op, scribble=scribble)
        with sim.masked():
            delta = {k: v - before.get(k, 0) for k, v in w.my_calls().items()}
            prompts, gits = delta.get("input", 0), delta.get("git", 0)
            if prompts:
                self.result.probes["prompted"] += 1
            if self.multi:
                return out
            answers = w.answered[n_answers:]
            faults = sum(self.result.faults.values()) - n_faults + (out[1] == "interrupt")
            yes = sum(map(affirmative, answers))
            no = len(answers) - yes
            if gits > yes:
                raise Violation("no-consent", f"{op}: git ran {gits} times after the answers {answers}")
            if no and (out[0] == "ok" and package and not available):
                raise Violation("proceeds-after-refusal", f"{op} was answered although {answers} refused")
            if not faults and gap_before and package and available and (prompts or gits):
                raise Violation(
                    "needless-prompt", f"{op}: {prompts} prompts, {gits} git runs, package available"
                )
            if not package and (prompts or gits):
                raise Violation("needless-prompt", f"{op} needs no package but prompted")
            if faults or not gap_before or node.extra.get("degraded"):
                if gits and not prompts:
                    raise Violation("no-consent", f"{op}: git ran without asking")
                return out
            touched_gap = delta.get("gap", 0) > 0
            if package and not available and touched_gap:
                if not prompts:
                    raise Violation("not-asked", f"{op} needs {package}, which is missing; nobody asked")
                if yes and not gits and not (no and not yes):
                    raise Violation("not-installed", f"{op}: consent {answers} but nothing installed")
                works = w.online and w.git_installed and yes and not no
                target_free = self.target_free
                if works and target_free:
                    if not self.available(package):
                        raise Violation(
                            "not-installed", f"{op}: consent given, but GAP cannot load {package} afterwards"
                        )
                    gap, _, _ = self.values(op)
                    if out[0] != "ok" and gap != lookup.ERR:
                        raise Violation(
                            "install-not-usable",
                            f"{op}: {package} was installed with consent, but the lookup raised {out[1]!r}",
                        )
                    self.result.probes["installed"] += 1
                elif out[0] == "ok":
                    raise Violation("failure-hidden", f"{op} was answered although {package} is missing")
        return out

    def available(self, package):
        """Can GAP load the package, with the search path that qLDPC gives it?"""
        self.target_free = not any(
            path.endswith("/" + package) and state == "partial" for path, state in self.w.pkg_dirs.items()
        )
        if package in self.w.system_packages:
            return True
        return any(
            state == "full" and path.endswith(f"/pkg/{package}") for path, state in self.w.pkg_dirs.items()
        )

    def check_error(self, node, op, err, faulted, before):
        if self.packages(op) and self.packages(op) not in self.w.system_packages:
            return
        super().check_error(node, op, err, faulted, before)

    def aftermath(self, all_ops):
        """Services recover: consent now leads to working lookups, in a surviving process too."""
        w = self.w
        w.faults_on = False
        w.gap_installed = w.online = w.git_installed = True
        w.answers, w.default_answer = [], "y"
        w.pkg_dirs = {k: v for k, v in w.pkg_dirs.items() if v == "full"}
        self.multi = False
        survivors = [n for n in self.nodes if not n.dead and not n.extra.get("degraded")]
        for node in [*survivors, sim.fresh("restarted", 77)]:
            node.activate()
            for op in all_ops:
                if op[0] == "env":
                    continue
                gap, web, builtin = self.values(op)
                out = self.lookup(node, op)
                if out[0] != "ok" and (gap != lookup.ERR or builtin is not None):
                    raise Violation("no-recovery", f"{op} fails after services recovered: {out[1]!r}")


def execute(p):
    engine = Engine(p, {"answer"})
    result = engine.run()[0]
    result.nontrivial = bool(result.faults) or bool(result.probes["prompted"])
    return result
