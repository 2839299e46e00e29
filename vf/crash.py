"""Crash-point and fault injection at file-system operations.

The operation under test runs in a forked child.  A sys.audit hook in the child sees every
mutating file-system call the interpreter makes below a scratch root (open for writing, rename,
remove, mkdir, rmdir, link, sqlite connect) whoever issues it, so the enumeration does not depend
on how the code under test is written.  At the chosen call the child is ended (kill), ended in the
middle of the following write (torn), or made to see an I/O error (fault).
"""
from __future__ import annotations

import os
import pickle
import resource
import signal
import sys
from typing import Any, Callable

from .core import Inconclusive

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _path(p, dir_fd=-1) -> str | None:
    if isinstance(p, int):
        return None
    try:
        p = os.fsdecode(p)
    except TypeError:
        return None
    if not os.path.isabs(p):
        base = os.getcwd()
        if isinstance(dir_fd, int) and dir_fd >= 0:
            try:
                base = os.readlink(f"/proc/self/fd/{dir_fd}")
            except OSError:
                return None
        p = os.path.join(base, p)
    return os.path.normpath(p)


def classify(event: str, args: tuple) -> tuple[str, str] | None:
    """(kind, path) of a mutating file-system event, or None."""
    if event == "open":
        path, mode, flags = args
        fl = flags if isinstance(flags, int) else 0
        m = mode or ""
        if (isinstance(m, str) and any(ch in m for ch in "wax+")) or (fl & WRITE_FLAGS):
            p = _path(path)
            return ("open-w", p) if p else None
        return None
    if event == "os.remove":
        p = _path(args[0], args[1] if len(args) > 1 else -1)
        return ("remove", p) if p else None
    if event == "os.rmdir":
        p = _path(args[0], args[1] if len(args) > 1 else -1)
        return ("rmdir", p) if p else None
    if event == "os.mkdir":
        p = _path(args[0], args[2] if len(args) > 2 else -1)
        return ("mkdir", p) if p else None
    if event == "os.rename":
        p = _path(args[1], args[3] if len(args) > 3 else -1)
        return ("rename", p) if p else None
    if event in ("os.link", "os.symlink"):
        p = _path(args[1])
        return ("link", p) if p else None
    if event == "os.truncate":
        p = _path(args[0])
        return ("truncate", p) if p else None
    if event == "sqlite3.connect":
        p = _path(args[0])
        return ("sqlite", p) if p else None
    return None


def _child(fn, root, wfd, at, mode, limit, errno_):
    state = {"n": 0, "events": [], "armed": False, "busy": False}
    root = os.path.realpath(root)
    roots = {root, os.path.normpath(root)}
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def hook(event, args):
        if state["busy"] or not state["armed"]:
            return
        if event not in ("open", "os.remove", "os.rmdir", "os.mkdir", "os.rename", "os.link", "os.symlink", "os.truncate", "sqlite3.connect"):
            return
        state["busy"] = True
        try:
            r = classify(event, args)
            if r is None or not any(r[1] == x or r[1].startswith(x + "/") for x in roots):
                return
            k = state["n"]
            state["n"] += 1
            state["events"].append((r[0], os.path.relpath(r[1], root)))
            if at is not None and k == at:
                if mode == "kill":
                    os._exit(77)
                if mode == "torn":
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                if mode == "full":
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
                if mode == "fault":
                    raise OSError(errno_, os.strerror(errno_), r[1])
        finally:
            state["busy"] = False

    sys.addaudithook(hook)
    out: dict[str, Any]
    state["armed"] = True
    try:
        val = fn()
        out = {"status": "done", "value": val}
    except Exception as e:  # noqa: BLE001
        out = {"status": "raised", "error": type(e).__name__, "message": str(e)[:500]}
    state["armed"] = False
    if mode == "full":
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    out["events"] = state["events"]
    blob = pickle.dumps(out)
    with os.fdopen(wfd, "wb") as f:
        f.write(blob)
    os._exit(0)


def run(fn: Callable[[], Any], root, *, at: int | None = None, mode: str = "kill", limit: int = 0, errno_: int = 28) -> dict[str, Any]:
    """Run fn in a forked child with an optional injection at mutating event number ``at``."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        signal.alarm(0)
        os.close(r)
        try:
            _child(fn, str(root), w, at, mode, limit, errno_)
        except BaseException:  # noqa: BLE001
            import traceback

            traceback.print_exc()
        finally:
            os._exit(99)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        blob = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig == signal.SIGXFSZ:
            return {"status": "killed", "how": "torn"}
        raise Inconclusive(f"child ended by signal {sig}")
    code = os.WEXITSTATUS(st)
    if code == 77:
        return {"status": "killed", "how": "kill"}
    if code != 0 or not blob:
        raise Inconclusive(f"child ended with status {code}")
    return pickle.loads(blob)


def plan_points(events: list[tuple[str, str]], sizes: dict[str, int] | None = None) -> list[tuple[int, str, int]]:
    """All injection points for a recorded run: kill before each event and after the last, I/O error at
    each event, and a torn / disk-full write at each opening of a file for writing."""
    pts: list[tuple[int, str, int]] = []
    for k, (kind, path) in enumerate(events):
        pts.append((k, "kill", 0))
        pts.append((k, "fault", 0))
        if kind == "open-w":
            for lim in (0, 1, 37, 300):
                pts.append((k, "torn", lim))
                pts.append((k, "full", lim))
    return pts
