"""The simulator: fresh in-process qLDPC instances ("nodes") and a cooperative thread scheduler.

* `RepoFinder` compiles /repo/qldpc from its current source (never from a .pyc).
* `Node` is one simulated OS process: its own fresh instance of every qldpc module, and its own
  ambient random generators.  Several nodes live in one interpreter.
* `Sim` runs simulated threads on real threads of which exactly one is released at a time.  Which
  one runs next is decided only at steps, i.e. at every source line of qLDPC (sys.monitoring LINE
  events) and at every seam (storage, subprocess, network, lock), from an explicit list of actions
  [tid, thread-local step, action, arg].
"""

from __future__ import annotations

import _thread
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import random
import sys
import threading
import time
import types

from dst.core import REPO, HarnessError, Violation

MON = sys.monitoring
TOOL = 3


class SimCrash(BaseException):
    """The simulated process died here."""


class SimAbort(BaseException):
    """The scheduler gave up on this run (step budget exhausted)."""


# ---------------------------------------------------------------------------------------------
# loading the code under test
# ---------------------------------------------------------------------------------------------

_codes: dict[str, types.CodeType] = {}
_instrumented: set = set()
_lines_enabled = False


def _instrument(code: types.CodeType) -> None:
    if code in _instrumented and False:
        return
    if code.co_name != "<module>":
        MON.set_local_events(TOOL, code, MON.events.LINE)
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            _instrument(const)


class RepoLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        code = _codes.get(path)
        if code is None:
            with open(path, "rb") as stream:
                source = stream.read()
            code = _codes[path] = compile(source, path, "exec", dont_inherit=True)
            if _lines_enabled:
                _instrument(code)
        return code


class RepoFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "qldpc" and not fullname.startswith("qldpc."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        package = os.path.join(base, "__init__.py")
        if os.path.isfile(package):
            return importlib.util.spec_from_file_location(
                fullname,
                package,
                loader=RepoLoader(fullname, package),
                submodule_search_locations=[base],
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=RepoLoader(fullname, base + ".py")
            )
        return None


if not any(isinstance(f, RepoFinder) for f in sys.meta_path):
    sys.meta_path.insert(0, RepoFinder())


def load_script(path: str, name: str, edit=None) -> types.CodeType:
    """Compile a script of /repo (instrumented like the package)."""
    with open(path) as stream:
        source = stream.read()
    if edit is not None:
        source = edit(source)
    code = compile(source, path, "exec", dont_inherit=True)
    if _lines_enabled:
        _instrument(code)
    return code


def enable_lines() -> None:
    """Turn every source line of qLDPC into a scheduling point."""
    global _lines_enabled
    if _lines_enabled:
        return
    _lines_enabled = True
    MON.use_tool_id(TOOL, "dst")
    MON.register_callback(TOOL, MON.events.LINE, _on_line)
    for code in _codes.values():
        _instrument(code)


def _purge() -> dict:
    found = {k: m for k, m in sys.modules.items() if k == "qldpc" or k.startswith("qldpc.")}
    for key in found:
        del sys.modules[key]
    return found


_active: Node | None = None


class Node:
    """One simulated process."""

    def __init__(self, name: str = "p0", entropy: int = 0, boot: bool = True) -> None:
        self.name = name
        self.entropy = entropy
        self.dead = False
        self.modules: dict = {}
        self.rng_states = None
        self.extra: dict = {}
        if boot:
            self.boot()

    def boot(self) -> None:
        import numpy as np
        import sympy.core.random

        previous = _active
        if previous is not None:
            previous._save()
        _purge()
        self.dead = False
        random.seed(self.entropy)
        np.random.seed(self.entropy % 2**32)
        sympy.core.random.seed(self.entropy)
        importlib.import_module("qldpc")
        for sub in ("cache", "external.gap", "external.groups", "external.codes"):
            importlib.import_module(f"qldpc.{sub}")
        self._save()
        self._set_active()
        if previous is not None and previous is not self:
            previous.activate()

    def _set_active(self) -> None:
        global _active
        _active = self

    def _save(self) -> None:
        import numpy as np
        import sympy.core.random

        self.modules = {
            k: m for k, m in sys.modules.items() if k == "qldpc" or k.startswith("qldpc.")
        }
        self.rng_states = (
            random.getstate(),
            np.random.get_state(),
            sympy.core.random.rng.getstate(),
        )

    def activate(self) -> None:
        import numpy as np
        import sympy.core.random

        if _active is self:
            return
        if _active is not None:
            _active._save()
        _purge()
        sys.modules.update(self.modules)
        random.setstate(self.rng_states[0])
        np.random.set_state(self.rng_states[1])
        sympy.core.random.rng.setstate(self.rng_states[2])
        self._set_active()

    def __getattr__(self, name):
        # node.codes, node.abstract, node.decoders, node.cache, ...
        modules = object.__getattribute__(self, "modules")
        for key in (f"qldpc.{name}", f"qldpc.external.{name}"):
            if key in modules:
                return modules[key]
        raise AttributeError(name)

    @property
    def qldpc(self):
        return self.modules["qldpc"]

    @property
    def gapgroups(self):
        return self.modules["qldpc.external.groups"]

    @property
    def gapcodes(self):
        return self.modules["qldpc.external.codes"]


def fresh(name: str = "p0", entropy: int = 0) -> Node:
    node = Node(name, entropy, boot=False)
    node.boot()
    node.activate()
    return node


# ---------------------------------------------------------------------------------------------
# the scheduler
# ---------------------------------------------------------------------------------------------


CALLBACKS = {"__index__", "__eq__", "__ne__", "__hash__", "__lt__", "__bool__", "__len__", "__repr__", "__str__"}


class SimThread:
    def __init__(self, tid: int, fn, node: Node | None) -> None:
        self.tid = tid
        self.fn = fn
        self.node = node
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.steps = 0
        self.points: dict[int, list] = {}
        self.trace: list = []
        self.done = False
        self.blocked_on = None
        self.error: BaseException | None = None
        self.crash_next = False
        self.masked = 0  # no actions while > 0 (harness code running inside the thread)


_by_ident: dict[int, tuple] = {}
_sim: Sim | None = None


def _on_line(code, line):
    entry = _by_ident.get(_thread.get_ident())
    if entry is not None:
        sim, thread = entry
        if not thread.masked:
            sim.step(thread, (code.co_filename, code.co_name, line))
    return None


class Sim:
    """Cooperative scheduler over real threads; one baton."""

    def __init__(self, actions=(), *, budget: int = 2_000_000, record: bool = False, rotate: int = 0):
        self.threads: list[SimThread] = []
        self.actions = list(actions)
        self.budget = budget
        self.record = record
        self.total = 0
        self.switches: list = []
        self.fired: list = []
        self.current: SimThread | None = None
        self.exceeded = False
        self.deadlock = False
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.rotate = rotate
        self.on_crash = None
        self.forced = 0

    def spawn(self, fn, node: Node | None = None) -> SimThread:
        thread = SimThread(len(self.threads), fn, node)
        self.threads.append(thread)
        return thread

    # -- steps ---------------------------------------------------------------------------------

    def step(self, thread: SimThread, label) -> None:
        if self.current is not thread:
            self._park(thread)
        thread.steps += 1
        self.total += 1
        if self.record:
            thread.trace.append(label)
        if thread.crash_next or (thread.node is not None and thread.node.dead):
            raise SimCrash()
        if self.exceeded:
            raise SimAbort()
        if self.total > self.budget:
            self.exceeded = True
            self.where = label
            raise SimAbort()
        acts = thread.points.get(thread.steps)
        if acts is not None:
            for action, arg in acts:
                self._act(thread, action, arg, label)

    def _act(self, thread, action, arg, label) -> None:
        if action == "switch":
            others = [t for t in self.threads if not t.done and t is not thread and not t.blocked_on]
            if others:
                self.fired.append("switch")
                self._switch(thread, others[arg % len(others)], label)
        elif action in ("interrupt", "memory") and isinstance(label, tuple) and label[1] in CALLBACKS:
            # C code that calls back may translate the error into another one: strike a little later
            thread.points.setdefault(thread.steps + 1, []).append((action, arg))
        elif action == "interrupt":
            self.fired.append("interrupt")
            self.switches.append((thread.tid, "interrupt", _short(label)))
            raise KeyboardInterrupt("simulated")
        elif action == "memory":
            self.fired.append("memory")
            self.switches.append((thread.tid, "memory", _short(label)))
            raise MemoryError("simulated")
        elif action == "crash":
            self.fired.append("crash")
            self.switches.append((thread.tid, "crash", _short(label)))
            if thread.node is not None:
                if self.on_crash is not None:
                    self.on_crash(thread.node)
                thread.node.dead = True
            else:
                thread.crash_next = True
            raise SimCrash()
        else:
            raise HarnessError(f"unknown action {action}")

    def _switch(self, thread, target, label) -> None:
        self.switches.append((thread.tid, target.tid, _short(label)))
        self._transfer(target)
        self._park(thread)
        if thread.crash_next or (thread.node is not None and thread.node.dead):
            raise SimCrash()

    def _transfer(self, target) -> None:
        self.current = target
        if target.node is not None:
            target.node.activate()
        target.go.release()

    def _park(self, thread) -> None:
        thread.go.acquire()

    def _next(self, thread):
        """A runnable thread other than `thread`, in cyclic order."""
        n = len(self.threads)
        for offset in range(1, n + 1):
            candidate = self.threads[(thread.tid + offset + self.rotate) % n]
            if candidate is not thread and not candidate.done and not candidate.blocked_on:
                return candidate
        return None

    def block(self, thread, resource) -> None:
        """Block the running thread on a simulated lock."""
        thread.blocked_on = resource
        target = self._next(thread)
        if target is None:
            self.deadlock = True
            thread.blocked_on = None
            self.exceeded = True
            raise SimAbort()
        self.switches.append((thread.tid, target.tid, "block"))
        self._transfer(target)
        self._park(thread)

    # -- running -------------------------------------------------------------------------------

    def _body(self, thread) -> None:
        thread.go.acquire()
        _by_ident[_thread.get_ident()] = (self, thread)
        try:
            thread.fn()
        except (SimCrash, SimAbort):
            pass
        except BaseException as err:
            thread.error = err
        finally:
            _by_ident.pop(_thread.get_ident(), None)
            thread.done = True
            target = self._next(thread)
            if target is None:
                if not all(t.done for t in self.threads):
                    # everything left is blocked for ever
                    self.deadlock = self.exceeded = True
                    for other in self.threads:
                        if not other.done:
                            other.blocked_on = None
                            self._transfer(other)
                            break
                else:
                    self.finished.release()
            else:
                self._transfer(target)

    def run(self) -> None:
        global _sim
        for tid, local, action, arg in self.actions:
            if tid < len(self.threads):
                self.threads[tid].points.setdefault(local, []).append((action, arg))
        if not self.threads:
            return
        previous, _sim = _sim, self
        before = _active
        try:
            for thread in self.threads:
                _thread.start_new_thread(self._body, (thread,))
            self._transfer(self.threads[self.rotate % len(self.threads)])
            last, used = -1, time.process_time()
            while not self.finished.acquire(timeout=15):
                before_used, used = used, time.process_time()
                if self.total == last and used - before_used < 0.2:
                    # the running thread waits on a primitive the simulator does not own, held by a
                    # parked thread: let another one go on (the first parks at its next step)
                    self.forced += 1
                    stuck = self.current
                    target = self._next(stuck)
                    if target is not None:
                        self._transfer(target)
                last = self.total
        finally:
            _sim = previous
        if before is not None and _active is not before:
            before.activate()
        for thread in self.threads:
            if thread.error is not None:
                raise thread.error
        if self.deadlock:
            raise Violation("deadlock", "every thread of the run is blocked for ever")
        if self.exceeded:
            raise Violation(
                "no-progress",
                f"the workload did not finish within {self.budget} steps (last at {_short(self.where)})",
            )

    def signature(self) -> list:
        return self.switches


def _short(label):
    if isinstance(label, tuple) and len(label) == 3:
        return f"{os.path.basename(label[0])}:{label[1]}:{label[2]}"
    return label


def this_thread():
    """(sim, thread) of the calling simulated thread, or None."""
    return _by_ident.get(_thread.get_ident())


def seam(label) -> None:
    """A scheduling point at a seam."""
    entry = _by_ident.get(_thread.get_ident())
    if entry is not None:
        sim, thread = entry
        if not thread.masked:
            sim.step(thread, label)


class masked:
    """No preemption or injection inside this block (oracle code in a simulated thread)."""

    def __enter__(self):
        self.entry = this_thread()
        if self.entry:
            self.entry[1].masked += 1

    def __exit__(self, *exc):
        if self.entry:
            self.entry[1].masked -= 1


def choose_actions(rng, traces, count, kinds, *, bias=None):
    """Place actions at distinct places of recorded traces: uniform over locations, not over time."""
    actions = []
    usable = [tid for tid, trace in enumerate(traces) if trace]
    if not usable:
        return actions
    index: dict = {}
    for _ in range(count):
        tid = rng.choice(usable)
        if tid not in index:
            places: dict = {}
            for pos, label in enumerate(traces[tid]):
                places.setdefault(str(label), []).append(pos + 1)
            index[tid] = places
        places = index[tid]
        labels = list(places)
        if bias is not None and rng.random() < 0.6:
            labels = [label for label in labels if bias(label)] or labels
        steps = places[rng.choice(labels)]
        step = rng.choice(steps[:3]) if rng.random() < 0.6 else rng.choice(steps)
        actions.append([tid, step, rng.choice(kinds), rng.randrange(6)])
    actions.sort()
    return actions


# ---------------------------------------------------------------------------------------------
# locks of the code under test
# ---------------------------------------------------------------------------------------------


class SimLock:
    """threading.Lock / RLock as seen by qLDPC: ownership is decided by the scheduler."""

    def __init__(self, reentrant: bool) -> None:
        self.reentrant = reentrant
        self.owner = None
        self.count = 0
        self.waiters: list = []

    def _me(self):
        entry = this_thread()
        return entry[1] if entry else _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        entry = this_thread()
        seam("lock.acquire")
        if self.owner is me and self.reentrant:
            self.count += 1
            return True
        while self.owner is not None:
            if not blocking or timeout == 0:
                return False
            if entry is None:
                raise HarnessError("simulated lock contended outside the simulation")
            sim, thread = entry
            if timeout > 0:
                target = sim._next(thread)
                if target is None:
                    return False
                sim._switch(thread, target, "lock.wait")
                timeout -= 1
                if timeout <= 0 and self.owner is not None:
                    return False
                continue
            self.waiters.append(thread)
            sim.block(thread, self)
            if sim.exceeded:
                raise SimAbort()
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            for thread in self.waiters:
                thread.blocked_on = None
            self.waiters.clear()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self.owner is self._me()


_real_lock, _real_rlock = threading.Lock, threading.RLock


def _owned_by_repo() -> bool:
    name = sys._getframe(2).f_globals.get("__name__", "")
    return name == "qldpc" or name.startswith("qldpc.") or name in ("run_search", "run_randomized_search")


def _lock_factory(*args, **kwargs):
    return SimLock(False) if _owned_by_repo() else _real_lock(*args, **kwargs)


def _rlock_factory(*args, **kwargs):
    return SimLock(True) if _owned_by_repo() else _real_rlock(*args, **kwargs)


def patch_locks() -> None:
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory


def warm(lines: bool = True) -> None:
    """Once per process, before forking: load third parties, compile the package."""
    import galois
    import numpy as np

    patch_locks()
    if lines:
        enable_lines()
    fresh()
    for order in (2, 3, 4, 5):
        field = galois.GF(order)
        a = field(np.arange(4).reshape(2, 2) % order)
        _ = (a @ a, a + a, a * a, a.row_reduce(), a.null_space(), np.linalg.matrix_rank(a), -a)
        _ = field.primitive_element
