"""A scratch directory whose files fail: errors, short writes, process and machine crashes.

Real files in a real directory, reached through replaced `open`, `os.replace`, `os.rename`,
`os.remove`, `os.fsync`, `os.makedirs`.  Only paths inside the scratch directory of the running world
are affected.  Every operation is a scheduling point (through `World.fault`) and a fault point:

  disk.open   eio | enospc | eacces | crash | power
  disk.write  eio | enospc | short | crash | power        (a crash loses what Python still buffers)
  disk.read   eio | crash
  disk.sync   eio | crash | power
  disk.rename eio | crash | crash-after | power-after
  disk.remove eio | crash

"power" is a machine crash: of what was not synced, a prefix survives, or pages read back as zeros.
"""

from __future__ import annotations

import builtins
import errno
import io
import os
import shutil
import tempfile
import types

from dst import sim, world
from dst.core import HarnessError

_open = real_open = io.open
_os_open, _replace, _rename = os.open, os.replace, os.rename
_os_write, _os_close = os.write, os.close
_remove, _unlink, _fsync, _makedirs, _mkdir = os.remove, os.unlink, os.fsync, os.makedirs, os.mkdir

FAULTS = {
    "disk.open": ["eio", "enospc", "eacces", "crash", "power"],
    "disk.write": ["eio", "enospc", "short", "crash", "power"],
    "disk.read": ["eio", "crash"],
    "disk.sync": ["eio", "crash", "power"],
    "disk.rename": ["eio", "crash", "crash-after", "power-after"],
    "disk.remove": ["eio", "crash"],
}

D: Disk | None = None


class Disk:
    """Scratch directory of one run."""

    def __init__(self, buffer: int = 0, power: int = 0) -> None:
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="dst-disk-", dir="/tmp"))
        self.buffer = buffer
        self.power_arg = power
        self.dirty: dict[str, int] = {}  # path -> length that is known to be on stable storage
        self.fds: dict[int, tuple] = {}  # open descriptors: (path, node)
        self.powered = False

    def __enter__(self):
        global D
        D = self
        if world.W is not None:
            world.W.scratch = self.root
        return self

    def __exit__(self, *exc):
        global D
        D = None
        assert self.root.startswith("/tmp/dst-disk-")
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, name: str) -> str:
        return os.path.join(self.root, name)

    def owns(self, path) -> str | None:
        try:
            path = os.path.abspath(os.fsdecode(os.fspath(path)))
        except TypeError:
            return None
        return path if path == self.root or path.startswith(self.root + "/") else None

    def power_loss(self) -> None:
        """The machine goes down: unsynced data is lost, in part."""
        self.powered = True
        for n, (path, synced) in enumerate(sorted(self.dirty.items())):
            if not os.path.isfile(path):
                continue
            with _open(path, "rb") as stream:
                data = stream.read()
            rest = data[synced:]
            arg = self.power_arg + 7 * n
            if arg % 4 == 0:
                data = data[:synced]
            elif arg % 4 == 1:
                data = data[:synced] + bytes(len(rest))
            elif arg % 4 == 2:
                k = (arg // 4) % (len(rest) + 1)
                data = data[:synced] + rest[:k]
            else:
                k = (arg // 4) % (len(rest) + 1)
                m = (arg // 4) % 64 + 1
                data = data[:synced] + rest[:k] + bytes(len(rest[k : k + m])) + rest[k + m :]
            with _open(path, "wb") as stream:
                stream.write(data)
        self.dirty.clear()


def _node_dead() -> bool:
    entry = sim.this_thread()
    node = entry[1].node if entry else sim._active
    return node is not None and node.dead


def _die(power: bool) -> None:
    if power:
        D.power_loss()
    world.W.crash()


def _error(kind: str, path: str) -> None:
    name = os.path.basename(path)
    if kind == "eio":
        raise OSError(errno.EIO, "Input/output error (simulated)", name)
    if kind == "enospc":
        raise OSError(errno.ENOSPC, "No space left on device (simulated)", name)
    if kind == "eacces":
        raise PermissionError(errno.EACCES, "Permission denied (simulated)", name)


def _point(site: str, path: str):
    """A scheduling and fault point; returns the faults that the caller must carry out."""
    found = world.W.fault(site)
    if found is None:
        return None
    kind, arg = found
    if kind in ("crash", "power"):
        _die(kind == "power")
    _error(kind, path)
    return found


class RawFile(io.RawIOBase):
    def __init__(self, path: str, mode: str, opener=None) -> None:
        self.path = path
        flags = mode.replace("b", "").replace("t", "")
        self._writes = any(c in flags for c in "wax+")
        self._reads = "r" in flags or "+" in flags
        self.raw = io.FileIO(path, flags, opener=opener)
        self.node = (sim.this_thread() or (None, None))[1]
        self.node = self.node.node if self.node else sim._active
        self.disk = D
        if self._writes:
            D.dirty[path] = min(D.dirty.get(path, 1 << 60), os.fstat(self.raw.fileno()).st_size)
        D.fds[self.raw.fileno()] = (path, self)
        self.name = path
        self.mode = mode

    def _gone(self) -> bool:
        return (self.node is not None and self.node.dead) or D is not self.disk

    def readable(self):
        return self._reads

    def writable(self):
        return self._writes

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        return self.raw.seek(offset, whence)

    def tell(self):
        return self.raw.tell()

    def truncate(self, size=None):
        if self._gone():
            return 0
        _point("disk.write", self.path)
        return self.raw.truncate(size)

    def fileno(self):
        return self.raw.fileno()

    def readinto(self, buffer):
        found = _point("disk.read", self.path)
        limit = D.buffer or len(buffer)
        data = self.raw.read(min(limit, len(buffer)))
        buffer[: len(data)] = data
        return len(data)

    def write(self, data):
        data = bytes(data)
        if self._gone():
            return len(data)  # the process is dead: nothing reaches the file
        found = _point("disk.write", self.path)
        if found is not None and found[0] == "short" and len(data) > 1:
            data = data[: found[1] % (len(data) - 1) + 1]
        if D.buffer:
            data = data[: D.buffer]
        return self.raw.write(data)

    def close(self):
        if not self.closed:
            D is not None and D.fds.pop(self.raw.fileno(), None)
            try:
                super().close()
            finally:
                self.raw.close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    path = D.owns(file) if D is not None and not isinstance(file, int) else None
    if D is not None and isinstance(file, int) and file in D.fds and D.fds[file][1] is None:
        path, opener = D.fds[file][0], lambda *a, fd=file: fd
    if path is None:
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    _point("disk.open", path)
    raw = RawFile(path, mode, opener)
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        stream = io.BufferedRandom(raw, size)
    elif raw.writable():
        stream = io.BufferedWriter(raw, size)
    else:
        stream = io.BufferedReader(raw, size)
    if "b" in mode:
        return stream if buffering != 0 else raw
    text = io.TextIOWrapper(stream, encoding, errors, newline, line_buffering=buffering == 1)
    text.mode = mode
    return text


def _move(real):
    def move(src, dst, *args, **kwargs):
        a, b = (D.owns(src), D.owns(dst)) if D is not None else (None, None)
        if a is None or b is None:
            return real(src, dst, *args, **kwargs)
        found = _point("disk.rename", b)
        real(src, dst, *args, **kwargs)
        if a in D.dirty:
            D.dirty[b] = D.dirty.pop(a)
        else:
            D.dirty.pop(b, None)
        if found is not None:
            _die(found[0] == "power-after")

    return move


def _removal(real):
    def remove(path, *args, **kwargs):
        mine = D.owns(path) if D is not None and not kwargs.get("dir_fd") else None
        if mine is not None:
            _point("disk.remove", mine)
            D.dirty.pop(mine, None)
        return real(path, *args, **kwargs)

    return remove


def sync(fd):
    number = fd if isinstance(fd, int) else fd.fileno()
    if D is not None and number in D.fds:
        path = D.fds[number][0]
        _point("disk.sync", path)
        if path in D.dirty:
            D.dirty[path] = os.fstat(number).st_size
        return None
    return _fsync(fd)


def sys_open(path, flags, mode=0o777, *, dir_fd=None):
    mine = D.owns(path) if D is not None and dir_fd is None else None
    if mine is None:
        return _os_open(path, flags, mode, dir_fd=dir_fd)
    _point("disk.open", mine)
    fd = _os_open(path, flags, mode)
    D.fds[fd] = (mine, None)
    if flags & (os.O_WRONLY | os.O_RDWR):
        D.dirty[mine] = min(D.dirty.get(mine, 1 << 60), os.fstat(fd).st_size)
    return fd


def sys_write(fd, data):
    if D is not None and fd in D.fds:
        if _node_dead():
            return len(data)
        found = _point("disk.write", D.fds[fd][0])
        data = bytes(data)
        if found is not None and found[0] == "short" and len(data) > 1:
            data = data[: found[1] % (len(data) - 1) + 1]
    return _os_write(fd, data)


def sys_close(fd):
    if D is not None:
        D.fds.pop(fd, None)
    return _os_close(fd)


def install() -> None:
    """Put the seams in place (before qLDPC is loaded)."""
    if getattr(builtins.open, "_dst", False):
        return
    sim_open._dst = True
    builtins.open = sim_open
    io.open = sim_open
    os.open = sys_open
    os.replace = _move(_replace)
    os.rename = _move(_rename)
    os.remove = _removal(_remove)
    os.unlink = _removal(_unlink)
    os.fsync = sync
    os.write = sys_write
    os.close = sys_close
    # temporary files get names in a fixed order
    proxy = types.SimpleNamespace(**{k: getattr(io, k) for k in dir(io) if not k.startswith("__")})
    proxy.open = sim_open
    tempfile._io = proxy

    class Names:
        def __init__(self):
            self.n = 0

        def __iter__(self):
            return self

        def __next__(self):
            self.n += 1
            return f"t{self.n:07d}"

    names = Names()
    real = tempfile._get_candidate_names
    tempfile._get_candidate_names = lambda: names if D is not None else real()


__all__ = ["Disk", "FAULTS", "HarnessError", "install"]
