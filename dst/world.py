"""The simulated environment of qLDPC: persistent store, GAP and git subprocesses, GroupNames over
HTTP, user input.  Every call is a seam: a scheduling point, a fault point and a logged event.

Faults are explicit: [site, n, kind, arg] fires at the n-th call of that site (counted over the
whole run).  Sites: store.read, store.write, store.open, gap, git, http, input.
"""

from __future__ import annotations

import builtins
import collections
import errno
import http.client
import io
import os
import pickle
import pickletools
import random
import re
import shlex
import sqlite3
import ssl
import subprocess

import diskcache
import numpy as np

from dst import sim
from dst.core import HarnessError, Result

W: World | None = None  # the world of the current run

_real_cache = diskcache.Cache
_real_popen = subprocess.Popen
_real_input = builtins.input
_MISSING = object()


class World:
    def __init__(self, faults=(), *, result: Result | None = None) -> None:
        self.result = result or Result()
        self.store: dict[str, dict[bytes, tuple]] = {}
        self.real_dir: str | None = None  # use the real diskcache below this directory
        self.pending: dict[tuple[str, int], tuple[str, int]] = {}
        for site, n, kind, arg in faults:
            self.pending[site, n] = (kind, arg)
        self.counts: collections.Counter = collections.Counter()
        self.faults_on = True
        self.truth = Truth()
        self.gap_installed = True
        self.gap_version = "4.12.2"
        self.git_installed = True
        self.online = True
        self.system_packages: set[str] = {"guava", "wedderga"}
        self.pkg_dirs: dict[str, str] = {}  # path -> "full" | "partial"
        self.answers: list[str] = []
        self.answered: list[str] = []
        self.installs: list[str] = []
        self.default_answer = "y"
        self.calls: collections.Counter = collections.Counter()
        self.calls_by: dict = {}
        self.chunk = 997
        self.entropy = random.Random(0)  # what the operating system gives to unseeded generators
        self.scratch: str | None = None  # directory name that is kept out of the event log

    def __enter__(self):
        global W
        W = self
        return self

    def __exit__(self, *exc):
        global W
        W = None

    def event(self, *what) -> None:
        entry = sim.this_thread()
        if self.scratch is not None:
            what = tuple(x.replace(self.scratch, "<scratch>") if isinstance(x, str) else x for x in what)
        self.result.note(entry[1].tid if entry else -1, *what)

    def call(self, what: str) -> None:
        self.calls[what] += 1
        self.my_calls()[what] += 1

    def my_calls(self) -> collections.Counter:
        """Calls to external services made by the running thread."""
        entry = sim.this_thread()
        return self.calls_by.setdefault(entry[1].tid if entry else -1, collections.Counter())

    def fault(self, site: str):
        """A seam: scheduling point, liveness of the node, and the fault (if any) to inject."""
        sim.seam(site)
        entry = sim.this_thread()
        node = entry[1].node if entry else sim._active
        if node is not None and node.dead:
            raise sim.SimCrash()
        n = self.counts[site]
        self.counts[site] += 1
        if not self.faults_on:
            return None
        found = self.pending.pop((site, n), None)
        if found is not None:
            self.result.faults[f"{site}:{found[0]}"] += 1
            self.event("fault", site, *found)
        return found

    def crash(self) -> None:
        """The process that makes this call dies."""
        entry = sim.this_thread()
        node = entry[1].node if entry else sim._active
        if node is not None:
            node.dead = True
        raise sim.SimCrash()


# ---------------------------------------------------------------------------------------------
# storage
# ---------------------------------------------------------------------------------------------

READ_FAULTS = ["eio", "timeout", "locked", "evict", "crash"]
WRITE_FAULTS = ["eio", "enospc", "timeout", "full", "locked", "lost", "crash", "crash-after"]


def _raise_store(kind: str) -> None:
    if kind == "eio":
        raise OSError(errno.EIO, "Input/output error (simulated)")
    if kind == "enospc":
        raise OSError(errno.ENOSPC, "No space left on device (simulated)")
    if kind == "timeout":
        raise diskcache.Timeout("simulated")
    if kind == "locked":
        raise sqlite3.OperationalError("database is locked (simulated)")
    if kind == "full":
        raise sqlite3.OperationalError("database or disk is full (simulated)")


def _key(key) -> bytes:
    # the identity diskcache gives keys: native for str/int/float/bytes, pickled otherwise
    if type(key) is bytes:
        return b"b" + key
    if type(key) in (str, float) or (type(key) is int and abs(key) < 2**63):
        return b"n" + repr(key if type(key) is str else float(key)).encode()
    return b"p" + pickletools.optimize(pickle.dumps(key, protocol=pickle.HIGHEST_PROTOCOL))


class SimCache:
    """In-memory emulation of diskcache.Cache: shared by every node, values copied through pickle."""

    def __init__(self, directory=None, timeout=60, disk=None, **settings) -> None:
        if W is None:
            raise HarnessError("disk cache opened outside a simulated world")
        found = W.fault("store.open")
        if found:
            if found[0] == "crash":
                W.crash()
            _raise_store(found[0])
        self.directory = os.fspath(directory) if directory is not None else "<tmp>"
        self._d = W.store.setdefault(self.directory, {})

    def _read(self, key, what):
        found = W.fault("store.read")
        if found:
            kind, arg = found
            if kind == "crash":
                W.crash()
            if kind == "evict":  # another process evicts or clears right now
                if arg % 2:
                    self._d.clear()
                else:
                    self._d.pop(_key(key), None)
            else:
                _raise_store(kind)
        item = self._d.get(_key(key), _MISSING)
        W.event("store", what, self.directory, repr(key)[:80], item is not _MISSING)
        return item

    def _write(self, key, value):
        found = W.fault("store.write")
        if found and found[0] == "crash":
            W.crash()
        if found:
            _raise_store(found[0])
        data = pickle.dumps(value, protocol=pickle.HIGHEST_PROTOCOL)
        key = pickle.loads(pickle.dumps(key))
        self._d[_key(key)] = (key, data)
        W.event("store", "set", self.directory, repr(key)[:80])
        if found and found[0] == "lost":  # culled right after the write was acknowledged
            self._d.pop(_key(key), None)
        if found and found[0] == "crash-after":
            W.crash()

    def __contains__(self, key):
        return self._read(key, "contains") is not _MISSING

    def __getitem__(self, key):
        item = self._read(key, "getitem")
        if item is _MISSING:
            raise KeyError(key)
        return pickle.loads(item[1])

    def get(self, key, default=None, read=False, expire_time=False, tag=False, retry=False):
        item = self._read(key, "get")
        value = default if item is _MISSING else pickle.loads(item[1])
        if expire_time or tag:
            return (value,) + (None,) * (bool(expire_time) + bool(tag))
        return value

    def read(self, key, retry=False):
        return self[key]

    def __setitem__(self, key, value):
        self._write(key, value)

    def set(self, key, value, expire=None, read=False, tag=None, retry=False):
        self._write(key, value)
        return True

    def add(self, key, value, expire=None, read=False, tag=None, retry=False):
        if _key(key) in self._d:
            W.fault("store.write")
            return False
        self._write(key, value)
        return True

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self.add(key, default)
            return self[key]

    def __delitem__(self, key, retry=True):
        W.fault("store.write")
        if self._d.pop(_key(key), None) is None:
            raise KeyError(key)

    def delete(self, key, retry=False):
        W.fault("store.write")
        return self._d.pop(_key(key), None) is not None

    def pop(self, key, default=None, expire_time=False, tag=False, retry=False):
        item = self._read(key, "pop")
        self._d.pop(_key(key), None)
        return default if item is _MISSING else pickle.loads(item[1])

    def touch(self, key, expire=None, retry=False):
        return self._read(key, "touch") is not _MISSING

    def clear(self, retry=False):
        W.fault("store.write")
        n = len(self._d)
        self._d.clear()
        return n

    def evict(self, tag, retry=False):
        return 0

    def expire(self, now=None, retry=False):
        return 0

    def cull(self, retry=False):
        return 0

    def check(self, fix=False, retry=False):
        return []

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __len__(self):
        return len(self._d)

    def iterkeys(self, reverse=False):
        keys = [key for key, _ in self._d.values()]
        keys.sort(key=lambda k: _key(k))
        for key in reversed(keys) if reverse else keys:
            yield key

    def __iter__(self):
        for key, _ in list(self._d.values()):
            yield key

    def __reversed__(self):
        for key, _ in list(self._d.values())[::-1]:
            yield key

    def transact(self, retry=False):
        return self

    def stats(self, enable=True, reset=False):
        return (0, 0)

    def volume(self):
        return sum(len(v) for _, v in self._d.values())

    def reset(self, key, value=None, update=True):
        return value

    def __getstate__(self):
        return (self.directory, 60, None)

    def __setstate__(self, state):
        self.__init__(*state)


class RealCache(_real_cache):
    """The real diskcache (SQLite on a scratch directory) with the same fault points."""

    def __init__(self, directory=None, timeout=60, disk=diskcache.Disk, **settings) -> None:
        found = W.fault("store.open")
        if found:
            if found[0] == "crash":
                W.crash()
            _raise_store(found[0])
        directory = os.fspath(directory)
        settings.setdefault("sqlite_synchronous", 0)
        if not directory.startswith(W.real_dir):
            directory = os.path.join(W.real_dir, directory.lstrip("/"))
        super().__init__(directory, timeout=timeout, disk=disk, **settings)

    def _fault_read(self, key):
        found = W.fault("store.read")
        if found:
            kind, arg = found
            if kind == "crash":
                W.crash()
            if kind == "evict":
                with _real_cache(self.directory) as other:
                    if arg % 2:
                        other.clear()
                    else:
                        other.delete(key)
            else:
                _raise_store(kind)

    def _fault_write(self, key, function):
        found = W.fault("store.write")
        if found and found[0] == "crash":
            W.crash()
        if found:
            _raise_store(found[0])
        out = function()
        W.event("store", "set", repr(key)[:80])
        if found and found[0] == "lost":
            with _real_cache(self.directory) as other:
                other.delete(key)
        if found and found[0] == "crash-after":
            W.crash()
        return out

    def __contains__(self, key):
        self._fault_read(key)
        return super().__contains__(key)

    def __getitem__(self, key):
        self._fault_read(key)
        value = super().get(key, default=_MISSING, retry=True)
        if value is _MISSING:
            raise KeyError(key)
        return value

    def get(self, key, *args, **kwargs):
        self._fault_read(key)
        return super().get(key, *args, **kwargs)

    def __setitem__(self, key, value):
        self._fault_write(key, lambda: _real_cache.set(self, key, value, retry=True))

    def set(self, key, value, *args, **kwargs):
        return self._fault_write(key, lambda: _real_cache.set(self, key, value, *args, **kwargs))

    def add(self, key, value, *args, **kwargs):
        return self._fault_write(key, lambda: _real_cache.add(self, key, value, *args, **kwargs))

    def clear(self, retry=False):
        W.fault("store.write")
        return super().clear(retry=retry)


class _CacheSeam:
    """Stands in for the diskcache.Cache class."""

    def __new__(cls, *args, **kwargs):
        if W is not None and W.real_dir is not None:
            return RealCache(*args, **kwargs)
        return SimCache(*args, **kwargs)


# ---------------------------------------------------------------------------------------------
# what the outside world knows
# ---------------------------------------------------------------------------------------------


def perm_string(cycles, sep=",") -> str:
    """1-indexed cycle notation."""
    if not cycles:
        return "()"
    return "".join("(" + sep.join(str(x + 1) for x in cycle) + ")" for cycle in cycles)


class Truth:
    """Ground truth of the simulated GAP library and of the simulated GroupNames.org."""

    def __init__(self) -> None:
        self.gap_groups: dict[str, list] = {}  # canonical group expression -> generators
        self.web_groups: dict[tuple[int, int], list] = {}
        self.numbers: dict[int, int] = {}
        self.structures: dict[str, str] = {}
        self.codes: dict[str, tuple[list[list[int]], str]] = {}
        self.idempotents: dict[tuple[str, int], list] = {}  # -> [[(coefficient text, cycles)]]
        self.search = None  # finds the generators of other groups


def canonical(text: str) -> str:
    return re.sub(r"\s+", "", text)


# ---------------------------------------------------------------------------------------------
# GAP
# ---------------------------------------------------------------------------------------------


class GapError(Exception):
    pass


class Sym:
    """A symbolic GAP object, identified by the expression that makes it."""

    def __init__(self, text: str, kind: str = "sym", value=None) -> None:
        self.text, self.kind, self.value = text, kind, value

    def __str__(self):
        return self.text


class Perm:
    def __init__(self, cycles) -> None:
        self.cycles = cycles

    def __str__(self):
        return perm_string(self.cycles)


_TOKEN = re.compile(
    r"""\s*(?:(?P<str>"(?:[^"\\]|\\.)*")|(?P<num>\d+)|(?P<id>[A-Za-z_][A-Za-z_0-9.]*)"""
    r"""|(?P<op>:=|->|<>|<=|>=|[-+*/^=<>(),;\[\]{}]))"""
)


def tokenize(text: str):
    tokens, pos = [], 0
    text = text.rstrip()
    while pos < len(text):
        match = _TOKEN.match(text, pos)
        if not match:
            raise GapError(f"Syntax error: illegal character near {text[pos:pos + 20]!r}")
        kind = match.lastgroup
        tokens.append((kind, match.group(kind)))
        pos = match.end()
    return tokens


def _gap_string(token: str) -> str:
    body = token[1:-1]
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), body)


class Gap:
    """A small interpreter for the part of the GAP language that qLDPC speaks."""

    def __init__(self, world: World, pkg_root: str | None) -> None:
        self.world = world
        self.pkg_root = pkg_root
        self.vars: dict = {}
        self.loaded: set[str] = set()
        self.out: list[str] = []
        self.format_stdout = True
        self.streams: dict[str, bool] = {}
        self.quit = False

    def has_package(self, name: str) -> bool:
        name = name.lower()
        if name in self.world.system_packages:
            return True
        if self.pkg_root is None:
            return False
        path = os.path.normpath(os.path.join(self.pkg_root, "pkg", name))
        return self.world.pkg_dirs.get(path) == "full"

    def emit(self, text: str, formatted: bool) -> None:
        if formatted:  # GAP breaks long lines at 80 columns
            lines = []
            for line in text.split("\n"):
                while len(line) > 78:
                    lines.append(line[:77] + "\\")
                    line = line[77:]
                lines.append(line)
            text = "\n".join(lines)
        self.out.append(text)

    def run(self, script: str) -> None:
        self.tokens = tokenize(script)
        self.pos = 0
        while self.pos < len(self.tokens) and not self.quit:
            self.statement()

    def peek(self, offset=0):
        index = self.pos + offset
        return self.tokens[index] if index < len(self.tokens) else (None, None)

    def take(self, value=None):
        token = self.peek()
        if token[0] is None or (value is not None and token[1] != value):
            raise GapError(f"Syntax error: {value} expected")
        self.pos += 1
        return token

    def skip_to(self, end: str) -> int:
        """Index of the matching `end` keyword of a block that starts at self.pos."""
        depth, index = 0, self.pos
        while index < len(self.tokens):
            word = self.tokens[index][1]
            if word in ("do", "then"):
                depth += 1
            if word in ("od", "fi"):
                depth -= 1
                if depth == 0:
                    return index
            index += 1
        raise GapError(f"Syntax error: {end} expected")

    def statement(self) -> None:
        kind, value = self.peek()
        if value == ";":
            self.take()
            return
        if value in ("QUIT", "quit"):
            self.quit = True
            return
        if value == "for":
            self.take()
            name = self.take()[1]
            self.take("in")
            items = self.expression()
            end = self.skip_to("od")
            self.take("do")
            start = self.pos
            if not isinstance(items, list):
                raise GapError("Error, usage: for <var> in <list>")
            for item in items:
                self.vars[name] = item
                self.pos = start
                while self.pos < end and not self.quit:
                    self.statement()
            self.pos = end
            self.take("od")
            self.end_statement()
            return
        if value == "if":
            self.take()
            condition = self.expression()
            end = self.skip_to("fi")
            self.take("then")
            if condition:
                while self.pos < end and not self.quit:
                    self.statement()
            self.pos = end
            self.take("fi")
            self.end_statement()
            return
        if kind == "id" and self.peek(1)[1] == ":=":
            self.take()
            self.take(":=")
            self.vars[value] = self.expression()
            self.end_statement()
            return
        self.expression()
        self.end_statement()

    def end_statement(self) -> None:
        if self.peek()[1] == ";":
            self.take()
        elif self.peek()[0] is not None:
            raise GapError("Syntax error: ; expected")

    def expression(self):
        left = self.term()
        while self.peek()[1] in ("+", "-", "*", "=", "<>", "<", ">", "<=", ">=", "^", "/"):
            op = self.take()[1]
            right = self.term()
            if op == "=":
                left = _text(left) == _text(right)
            elif op == "<>":
                left = _text(left) != _text(right)
            elif isinstance(left, int) and isinstance(right, int):
                left = {
                    "+": lambda: left + right,
                    "-": lambda: left - right,
                    "*": lambda: left * right,
                    "^": lambda: left**right,
                    "/": lambda: left // right,
                    "<": lambda: left < right,
                    ">": lambda: left > right,
                    "<=": lambda: left <= right,
                    ">=": lambda: left >= right,
                }[op]()
            else:
                left = Sym(f"{_text(left)}{op}{_text(right)}")
        return left

    def term(self):
        kind, value = self.take()
        if kind == "num":
            return int(value)
        if kind == "str":
            return _gap_string(value)
        if value == "-":
            return -self.term()
        if value == "(":
            if self.peek()[1] == ")":
                self.take()
                return Sym("()")
            first = self.expression()
            if self.peek()[1] == ",":  # a permutation literal
                cycle = [first]
                while self.peek()[1] == ",":
                    self.take()
                    cycle.append(self.expression())
                self.take(")")
                text = "(" + ",".join(map(str, cycle)) + ")"
                while self.peek()[1] == "(":  # (its next cycle)
                    self.take()
                    text += self.term_after_open()
                return Sym(text)
            self.take(")")
            return first
        if value == "[":
            items = []
            while self.peek()[1] != "]":
                items.append(self.expression())
                if self.peek()[1] == ",":
                    self.take()
            self.take("]")
            return items
        if kind == "id":
            if self.peek()[1] == "->":
                self.take()
                start = self.pos
                self.vars.setdefault(value, Sym(value))
                self.expression()
                return ("lambda", value, start, self.pos)
            if self.peek()[1] == "(":
                self.take()
                args = []
                while self.peek()[1] != ")":
                    args.append(self.expression())
                    if self.peek()[1] == ",":
                        self.take()
                self.take(")")
                return self.call(value, args)
            if value == "GAPInfo.Version":
                return self.world.gap_version
            if value in ("true", "false"):
                return value == "true"
            if value in self.vars:
                return self.vars[value]
            if value == "fail":
                return Sym("fail")
            raise GapError(f"Error, Variable: '{value}' must have a value")
        raise GapError(f"Syntax error: unexpected {value}")

    def term_after_open(self) -> str:
        cycle = [self.expression()]
        while self.peek()[1] == ",":
            self.take()
            cycle.append(self.expression())
        self.take(")")
        return "(" + ",".join(map(str, cycle)) + ")"

    def apply(self, function, arg):
        _, name, start, end = function
        saved, here = self.vars.get(name), self.pos
        self.vars[name] = arg
        self.pos = start
        out = self.expression()
        self.pos = here
        self.vars[name] = saved
        return out

    def call(self, name: str, args: list):
        truth = self.world.truth
        if name == "OutputTextUser":
            return Sym("*stdout*", "stream")
        if name == "SetPrintFormattingStatus":
            if isinstance(args[0], Sym) and args[0].kind == "stream":
                args[0].value = bool(args[1])
            else:
                self.format_stdout = bool(args[1])
            return None
        if name == "Print":
            self.emit("".join(_text(a) for a in args), self.format_stdout)
            return None
        if name in ("PrintTo", "AppendTo"):
            stream = args[0]
            if not (isinstance(stream, Sym) and stream.kind == "stream"):
                raise GapError("Error, PrintTo: first argument must be a filename or stream")
            self.emit("".join(_text(a) for a in args[1:]), stream.value is not False)
            return None
        if name == "LoadPackage":
            if self.has_package(args[0]):
                self.loaded.add(args[0].lower())
                return True
            return Sym("fail")
        if name == "TestPackageAvailability":
            return f"/gap/pkg/{args[0]}" if self.has_package(args[0]) else Sym("fail")
        if name == "NumberSmallGroups":
            if args[0] not in truth.numbers:
                raise GapError("Error, the library of groups of this size is not available")
            return truth.numbers[args[0]]
        if name == "StructureDescription":
            text = canonical(_text(args[0]))
            if text not in truth.structures:
                raise GapError("Error, no such group")
            return truth.structures[text]
        if name == "IsomorphismPermGroup":
            return Sym("iso", "iso", args[0])
        if name == "Image":
            iso, group = args
            if not isinstance(iso, Sym) or iso.kind != "iso" or _text(iso.value) != _text(group):
                raise GapError("Error, no method found for Image")
            return Sym(_text(group), "permgroup")
        if name == "GeneratorsOfGroup":
            text = canonical(_text(args[0]))
            if text not in truth.gap_groups and truth.search is not None:
                found = truth.search(text)
                if found is not None:
                    truth.gap_groups[text] = found
            if text not in truth.gap_groups:
                raise GapError(f"Error, no such group {text}")
            if not (isinstance(args[0], Sym) and args[0].kind == "permgroup"):
                return [Sym(f"f{i + 1}") for i in range(len(truth.gap_groups[text]))]
            return [Perm(cycles) for cycles in truth.gap_groups[text]]
        if name in ("CheckMat", "GeneratorMat", "LeftActingDomain"):
            self.need("guava", name)
            text = canonical(_text(args[0]))
            if text not in truth.codes:
                raise GapError(f"Error, no such code {text}")
            matrix, field = truth.codes[text]
            if name == "LeftActingDomain":
                return Sym(field)
            if name == "GeneratorMat":
                return [[1 - x for x in row] for row in matrix]
            return [list(row) for row in matrix]
        if name == "Int":
            return args[0]
        if name == "List":
            if len(args) == 1:
                return args[0]
            return [self.apply(args[1], item) for item in args[0]]
        if name == "Size":
            return len(args[0]) if isinstance(args[0], list) else Sym("size")
        if name == "GroupRing":
            return Sym(f"GroupRing({_text(args[0])},{_text(args[1])})", "ring", args)
        if name == "PrimitiveCentralIdempotentsByCharacterTable":
            self.need("wedderga", name)
            field, group = args[0].value
            match = re.fullmatch(r"GF\((\d+)\)", canonical(_text(field)))
            key = (canonical(_text(group)), int(match.group(1)) if match else -1)
            if key not in truth.idempotents:
                raise GapError("Error, cannot compute idempotents")
            parts = []
            for member in truth.idempotents[key]:
                parts.append("+".join(f"({c})*{perm_string(cycles)}" for c, cycles in member))
            return Sym("[ " + ", ".join(parts) + " ]")
        if name == "GF":
            return Sym(f"GF({','.join(_text(a) for a in args)})")
        # constructors of groups and codes stay symbolic
        if name in ("CheckMatCode", "AutomorphismGroup") or name.endswith("Code"):
            self.need("guava", name)
        if not (name.endswith("Group") or name.endswith("Code") or name in ("PSL", "SL", "GL")):
            raise GapError(f"Error, Variable: '{name}' must have a value")
        return Sym(f"{name}({','.join(canonical(_text(a)) for a in args)})")

    def need(self, package: str, name: str) -> None:
        if package not in self.loaded:
            raise GapError(f"Error, Variable: '{name}' must have a value")


def _text(value) -> str:
    if isinstance(value, bool):
        return "true" if value else "false"
    if isinstance(value, list):
        return "[ " + ", ".join(_text(v) for v in value) + " ]"
    if value is None:
        return ""
    return str(value)


# ---------------------------------------------------------------------------------------------
# subprocess
# ---------------------------------------------------------------------------------------------

GAP_FAULTS = ["missing", "fork", "killed", "killed-empty", "exit1", "stderr", "oom"]
GIT_FAULTS = ["missing", "offline", "killed", "killed-partial", "error"]


class SimPopen:
    """subprocess.Popen against simulated programs."""

    def __init__(
        self,
        args,
        bufsize=-1,
        executable=None,
        stdin=None,
        stdout=None,
        stderr=None,
        preexec_fn=None,
        close_fds=True,
        shell=False,
        cwd=None,
        env=None,
        universal_newlines=None,
        startupinfo=None,
        creationflags=0,
        restore_signals=True,
        start_new_session=False,
        pass_fds=(),
        *,
        user=None,
        group=None,
        extra_groups=None,
        encoding=None,
        errors=None,
        text=None,
        umask=-1,
        pipesize=-1,
        process_group=None,
    ) -> None:
        if W is None:
            raise HarnessError(f"subprocess outside a simulated world: {args}")
        if isinstance(args, str):
            args = shlex.split(args)
        self.args = args = [os.fspath(a) for a in args]
        self.pid = 4242
        self.returncode = None
        program = os.path.basename(args[0])
        W.call(program)
        out, err, code = self._simulate(program, args)
        self._code = code
        is_text = bool(text or universal_newlines or encoding or errors)
        merge = stderr == subprocess.STDOUT
        if merge:
            out += err
        wrap = (lambda s: io.StringIO(s)) if is_text else (lambda s: io.BytesIO(s.encode()))
        self.stdout = wrap(out) if stdout == subprocess.PIPE else None
        self.stderr = wrap(err) if stderr == subprocess.PIPE else None
        self.stdin = (io.StringIO() if is_text else io.BytesIO()) if stdin == subprocess.PIPE else None

    def _simulate(self, program, args):
        if program == "gap":
            return self._gap(args)
        if program == "git":
            return self._git(args)
        W.event("exec", program)
        raise FileNotFoundError(errno.ENOENT, f"No such file or directory: {args[0]!r}")

    def _gap(self, args):
        script = args[args.index("-c") + 1] if "-c" in args else ""
        probe = "GAPInfo.Version" in script
        found = W.fault("gap")
        kind, arg = found if found else (None, 0)
        if kind == "crash":
            W.crash()
        W.event("exec", "gap", "probe" if probe else re.sub(r".*false\);", "", script)[:120])
        entry = sim.this_thread()
        node = entry[1].node if entry else sim._active
        if node is not None and (not W.gap_installed or (probe and kind)):
            node.extra["degraded"] = True  # this process may rightly believe that there is no GAP
        if not W.gap_installed or kind == "missing":
            raise FileNotFoundError(errno.ENOENT, "No such file or directory: 'gap'")
        if kind == "fork":
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable (simulated)")
        root = None
        if "-l" in args:
            root = args[args.index("-l") + 1].lstrip(";")
        gap = Gap(W, root)
        if "-q" not in args:
            gap.out.append(" GAP 4.12.2 of 2022-12-18\n https://www.gap-system.org\n")
        err, code = "", 0
        try:
            gap.run(script)
        except GapError as error:
            err = f"{error}\nnot in any function at *stdin*:1\n"
            code = 1
        except (IndexError, TypeError, AttributeError, ValueError) as error:
            err = f"Error, no method found ({error})\n"
            code = 1
        out = "".join(gap.out)
        if kind in ("killed", "exit1", "stderr", "oom"):
            out = self._cut(out, arg)
        if kind == "killed-empty":
            out = ""
        if kind in ("killed", "killed-empty"):
            return out, "", -9
        if kind == "oom":
            return out, "gap: cannot extend the workspace any more!\n", 2
        if kind == "exit1":
            return out, "", 1
        if kind == "stderr":
            return out, "Error, user interrupt\n", 1
        return out, err, code

    @staticmethod
    def _cut(out: str, arg: int) -> str:
        """What reached the pipe before the program died: biased to line and token boundaries."""
        if not out:
            return out
        bounds = [m.end() for m in re.finditer(r"\n|[)\],]", out)]
        if arg % 3 and bounds:
            return out[: bounds[arg // 3 % len(bounds)]]
        return out[: arg % (len(out) + 1)]

    def _git(self, args):
        found = W.fault("git")
        kind, _ = found if found else (None, 0)
        if kind == "crash":
            W.crash()
        W.event("exec", "git", *[os.path.basename(a) for a in args[1:]])
        if not W.git_installed or kind == "missing":
            raise FileNotFoundError(errno.ENOENT, "No such file or directory: 'git'")
        rest = [a for a in args[1:] if not a.startswith("-")]
        quiet = "--quiet" in args or "-q" in args
        if not rest or rest[0] != "clone" or len(rest) < 2:
            return "", "usage: git clone\n", 129
        url = rest[1].rstrip("/")
        name = url.split("/")[-1].removesuffix(".git")
        target = os.path.normpath(rest[2] if len(rest) > 2 else os.path.join("/cwd", name))
        if W.pkg_dirs.get(target):
            return (
                "",
                f"fatal: destination path '{target}' already exists and is not an empty directory.\n",
                128,
            )
        banner = "" if quiet else f"Cloning into '{target}'...\n"
        if not W.online or kind == "offline":
            return "", banner + f"fatal: unable to access '{url}/': Could not resolve host\n", 128
        if not re.fullmatch(r"https://github\.com/gap-packages/(guava|wedderga)", url):
            return "", banner + "fatal: repository not found\n", 128
        if kind == "killed":  # git removed what it had written
            return "", banner, -15
        if kind == "killed-partial":
            W.pkg_dirs[target] = "partial"
            return "", banner, -9
        if kind == "error":
            return "", banner + "fatal: early EOF\nfatal: fetch-pack: invalid index-pack output\n", 128
        W.pkg_dirs[target] = "full"
        W.installs.append(name)
        W.event("installed", name)
        return "", banner, 0

    def communicate(self, input=None, timeout=None):
        sim.seam("proc.communicate")
        self.returncode = self._code
        out = self.stdout.read() if self.stdout is not None else None
        err = self.stderr.read() if self.stderr is not None else None
        return out, err

    def poll(self):
        self.returncode = self._code
        return self.returncode

    def wait(self, timeout=None):
        self.returncode = self._code
        return self.returncode

    def kill(self):
        self.returncode = self._code if self.returncode is None else self.returncode

    terminate = kill

    def send_signal(self, sig):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.wait()


class _PopenSeam:
    """Stands in for subprocess.Popen; real outside a simulated world (the driver itself)."""

    def __new__(cls, *args, **kwargs):
        if W is None:
            return _real_popen(*args, **kwargs)
        return SimPopen(*args, **kwargs)


# ---------------------------------------------------------------------------------------------
# GroupNames.org over HTTP
# ---------------------------------------------------------------------------------------------

HTTP_FAULTS = ["dns", "refused", "timeout", "ssl", "404", "500", "503", "truncate", "reset", "portal"]
PORTAL = b"<html><body>Please <a href='login'>log in</a> to this network.\n</body></html>\n"


def group_page(gens, order, index) -> str:
    text = "<br>\n".join(perm_string(g, " ") for g in gens)
    other = "<br>\n".join(perm_string([tuple(range(order))], " ") for _ in range(2))
    return (
        "<html><head><title>Group</title></head><body>\n<h1>G = Group</h1>\n"
        f"<pre class='pre' id='textgn0'>{other}</pre>\n"
        "<b><a href='x' class='wiki'>Permutation representations of G</a></b><br>"
        f"<a id='shl1' class='shl'>On {order} points</a>"
        f"<div id='shs1' class='shs'>Generators in S<sub>{order}</sub><br>"
        f"<pre class='pre' id='textgn1'>{text}</pre>&emsp;"
        "<button class='copytext' id='copygn1'>Copy</button><br>"
        f"<a id='shl2' class='shl'>Regular action</a>"
        f"<pre class='pre' id='textgn2'>{other}</pre>&emsp;"
        "<button class='copytext' id='copygn2'>Copy</button><br>\n</body></html>\n"
    )


def site_pages(truth: Truth) -> dict[str, str]:
    pages = {}
    for name, keep in (("", lambda n: n <= 60), ("index500.html", lambda n: True)):
        rows = ["<html><body>\n<table class='gptable'>"]
        for order, index in sorted(truth.web_groups):
            if not keep(order):
                continue
            rows.append(
                f'<tr><td id="g{order}_{index}"><a href="1/G{order}_{index}.html">G<sub>{order}</sub>'
                f'</a></td><td><a href="other.html">Kind</a></td><td><a href="T.html#{order}">'
                f"{order}</a></td><td>1</td><td>G{order},{index}x</td><td>{order},{index}</td></tr>"
            )
        rows.append("</table>\n</body></html>\n")
        pages[f"/~matyd/GroupNames/{name}"] = "\n".join(rows)
    for (order, index), gens in truth.web_groups.items():
        pages[f"/~matyd/GroupNames/1/G{order}_{index}.html"] = group_page(gens, order, index)
    return pages


class _Body(io.RawIOBase):
    """The bytes of a response, delivered in chunks, possibly cut or reset."""

    def __init__(self, data: bytes, chunk: int, reset_at: int | None) -> None:
        self.data, self.pos, self.chunk, self.reset_at = data, 0, chunk, reset_at

    def readable(self):
        return True

    def readinto(self, buffer):
        if self.reset_at is not None and self.pos >= self.reset_at:
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer (simulated)")
        end = min(self.pos + min(len(buffer), self.chunk), len(self.data))
        if self.reset_at is not None:
            end = min(end, max(self.reset_at, self.pos))
        part = self.data[self.pos : end]
        buffer[: len(part)] = part
        self.pos = end
        return len(part)


class SimSocket:
    def __init__(self, host: str, fault) -> None:
        self.host, self.found, self.request = host, fault, b""

    def sendall(self, data, flags=0):
        self.request += bytes(data)

    def makefile(self, mode="rb", *args, **kwargs):
        path = self.request.split(b" ")[1].decode()
        kind, arg = self.found if self.found else (None, 0)
        body = site_pages(W.truth).get(path) if self.host == "people.maths.bris.ac.uk" else None
        status = "200 OK"
        if body is None:
            status, body = "404 Not Found", "<html>Not Found</html>"
        data = body.encode()
        if kind in ("404", "500", "503"):
            status = {"404": "404 Not Found", "500": "500 Oops", "503": "503 Unavailable"}[kind]
            data = b"<html>error</html>"
        if kind == "portal":
            data = PORTAL
        length = len(data)
        reset_at = None
        header = f"HTTP/1.1 {status}\r\nContent-Type: text/html\r\nContent-Length: {length}\r\n"
        head = (header + "Connection: close\r\n\r\n").encode()
        if kind == "truncate":
            data = data[: arg % max(1, length)]
        if kind == "reset":
            reset_at = arg % max(1, len(head) + length)
        W.event("http", path, status)
        return io.BufferedReader(_Body(head + data, W.chunk, reset_at))

    def close(self):
        pass

    def settimeout(self, *args):
        pass

    def setsockopt(self, *args):
        pass

    def shutdown(self, *args):
        pass


def _connect(self):
    if W is None:
        raise HarnessError("network use outside a simulated world")
    W.call("http")
    found = W.fault("http")
    kind = found[0] if found else None
    if kind == "crash":
        W.crash()
    if not W.online or kind == "dns":
        import socket

        W.event("http", "unreachable")
        raise socket.gaierror(-2, "Name or service not known")
    if kind == "refused":
        raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
    if kind == "timeout":
        raise TimeoutError(errno.ETIMEDOUT, "timed out")
    if kind == "ssl":
        raise ssl.SSLError(1, "certificate verify failed (simulated)")
    self.sock = SimSocket(self.host, found)


def _input(prompt=""):
    if W is None:
        raise HarnessError("input() outside a simulated world")
    found = W.fault("input")
    W.call("input")
    if found:
        kind = found[0]
        if kind == "eof":
            raise EOFError("EOF when reading a line")
        if kind == "interrupt":
            raise KeyboardInterrupt
        if kind == "crash":
            W.crash()
    answer = W.answers.pop(0) if W.answers else W.default_answer
    W.answered.append(answer)
    W.event("input", answer)
    return answer


_real_default_rng = np.random.default_rng


def _default_rng(seed=None):
    """Entropy of the operating system comes from the world."""
    if seed is None and W is not None:
        seed = W.entropy.getrandbits(63)
    return _real_default_rng(seed)


_installed = False


def install() -> None:
    """Put the seams in place (once per process, before qLDPC is loaded)."""
    global _installed
    if _installed:
        return
    _installed = True
    diskcache.Cache = _CacheSeam
    subprocess.Popen = _PopenSeam
    builtins.input = _input
    http.client.HTTPSConnection.connect = _connect
    http.client.HTTPConnection.connect = _connect
    context = ssl.create_default_context()
    ssl._create_default_https_context = lambda *a, **k: context
    np.random.default_rng = _default_rng
    os.environ["PATH"] = os.environ.get("PATH", "")
    os.environ["no_proxy"] = "*"


def draw_faults(rng, sites: dict[str, list[str]], count: int, spread: int) -> list:
    """A handful of explicit faults, early occurrences preferred."""
    out = {}
    names = sorted(sites)
    for _ in range(count):
        site = rng.choice(names)
        n = min(rng.randrange(spread), rng.randrange(spread))
        out[site, n] = [site, n, rng.choice(sites[site]), rng.randrange(10_000)]
    return sorted(out.values())
