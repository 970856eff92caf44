"""Peer processes: simulated processes whose interpreter has a different string-hash seed.

`start([1, 2])` launches one zygote interpreter per hash seed.  A zygote is warmed up once and forks a
clean child for every connection; `call(hash_seed, module, function, argument)` runs
`module.function(argument)` there and returns its JSON result.  Peers are deterministic: they see
nothing but the requests, in order.
"""

from __future__ import annotations

import atexit
import contextlib
import importlib
import io
import json
import os
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time
import traceback

from dst.core import VERIF, HarnessError, Violation, repo_frame

_zygotes: dict[int, tuple] = {}
_directory: str | None = None
_owner: int | None = None
_connections: dict[int, tuple] = {}
_connections_pid: int | None = None


def start(hash_seeds, modules) -> None:
    """Start zygotes (once per check process, before it forks workers)."""
    global _directory, _owner
    if _zygotes:
        return
    _owner = os.getpid()
    _directory = tempfile.mkdtemp(prefix="dst-peer-")
    for seed in hash_seeds:
        path = os.path.join(_directory, str(seed))
        env = dict(os.environ, VERIF_HASHSEED=str(seed), PYTHONHASHSEED=str(seed))
        process = subprocess.Popen(
            [
                sys.executable,
                "-B",
                os.path.join(VERIF, "check.py"),
                "--peer",
                path,
                "--peer-modules",
                ",".join(modules),
                "--peer-parent",
                str(os.getpid()),
            ],
            env=env,
            stdin=subprocess.DEVNULL,
        )
        _zygotes[seed] = (process, path)
    atexit.register(stop)


def stop() -> None:
    if os.getpid() != _owner:
        return
    for process, _ in _zygotes.values():
        process.kill()
        process.wait()
    _zygotes.clear()
    if _directory:
        shutil.rmtree(_directory, ignore_errors=True)


def _connect(seed: int):
    global _connections_pid
    if _connections_pid != os.getpid():  # do not share a connection across a fork
        _connections.clear()
        _connections_pid = os.getpid()
    if seed not in _connections:
        _, path = _zygotes[seed]
        deadline = time.time() + 120
        while True:
            connection = socket.socket(socket.AF_UNIX)
            try:
                connection.connect(path)
                break
            except OSError:
                connection.close()
                if time.time() > deadline:
                    raise HarnessError(f"peer process with hash seed {seed} did not start")
                time.sleep(0.05)
        _connections[seed] = (connection, connection.makefile("r"), connection.makefile("w"))
    return _connections[seed]


def call(seed: int, module: str, function: str, argument):
    """Run a function in the peer process with this hash seed."""
    _, reader, writer = _connect(seed)
    writer.write(json.dumps([module, function, argument]) + "\n")
    writer.flush()
    line = reader.readline()
    if not line:
        _connections.pop(seed, None)
        raise HarnessError(f"peer process with hash seed {seed} died")
    out = json.loads(line)
    if "violation" in out:
        raise Violation(out["violation"][0], out["violation"][1])
    if "harness" in out:
        raise HarnessError(out["harness"])
    return out["value"]


def serve(path: str, modules: list[str], parent: int) -> int:
    """Main loop of a zygote."""
    for name in modules:
        importlib.import_module(name).warm_peer()
    server = socket.socket(socket.AF_UNIX)
    server.bind(path)
    server.listen(64)
    server.settimeout(1.0)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while os.getppid() == parent:
        try:
            connection, _ = server.accept()
        except (TimeoutError, InterruptedError):
            continue
        if os.fork() == 0:
            server.close()
            connection.settimeout(None)
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            try:
                _child(connection)
            finally:
                os._exit(0)
        connection.close()
    return 0


def _child(connection) -> None:
    from dst import core

    reader, writer = connection.makefile("r"), connection.makefile("w")
    for line in reader:
        module, function, argument = json.loads(line)
        core.reset_ambient()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                value = getattr(importlib.import_module(module), function)(argument)
            out = {"value": value}
        except Violation as err:
            out = {"violation": [err.kind, err.message]}
        except HarnessError as err:
            out = {"harness": str(err)}
        except BaseException as err:
            text = "".join(traceback.format_exception(err))[-2500:]
            if repo_frame(err):
                out = {"violation": [f"unexpected-{type(err).__name__}", text]}
            else:
                out = {"harness": text}
        writer.write(json.dumps(out) + "\n")
        writer.flush()
