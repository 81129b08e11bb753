"""Crash points: every mutating file operation under a directory, and every write
to a file opened there.  The crash is a real process death (os._exit) in a forked
child, so nothing that runs after it can repair or hide what it left behind."""

from __future__ import annotations

import json
import os
import sys
import traceback

CRASH_RC = 77

_MUT = {
    "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate",
}


class CrashPoint:
    def __init__(self, root: str, at: int | None, on_event=None, raises: bool = False) -> None:
        self.raises = raises
        self.root = os.path.realpath(str(root))
        self.at = at
        self.n = 0
        self.names: list[str] = []
        self.armed = False
        self.on_event = on_event

    def hit(self, what: str, before_die=None) -> None:
        if not self.armed:
            return
        self.n += 1
        self.names.append(what)
        if self.at is not None and self.n == self.at:
            if self.raises:
                raise OSError(28, "No space left on device (injected)")
            if before_die is not None:
                before_die()
            os._exit(CRASH_RC)

    def install(self) -> None:
        def inside(p) -> bool:
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if not isinstance(p, (str, os.PathLike)):
                return False
            p = os.path.abspath(os.fspath(p))
            return p.startswith(self.root)

        def hook(event, args):
            if not self.armed:
                return
            if event == "open":
                path, mode, flags = args
                if isinstance(path, int):
                    return
                w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (
                    isinstance(flags, int) and (flags & (os.O_WRONLY | os.O_RDWR))
                )
                if w and inside(path):
                    self.hit(f"open {os.path.relpath(os.path.abspath(os.fspath(path)), self.root)}")
            elif event in _MUT:
                # rmtree uses dir_fd-relative names: count those as well.
                a = args[0]
                rel = not (isinstance(a, (str, bytes)) and os.path.isabs(a))
                if rel or inside(a) or (event == "os.rename" and inside(args[1])):
                    self.hit(f"{event} {args[0]}")

        sys.addaudithook(hook)


class TornFile:
    """Wraps a file opened for writing: each write is a crash point that leaves
    only a prefix of the data behind."""

    def __init__(self, fp, cp: CrashPoint) -> None:
        self._fp = fp
        self._cp = cp

    def write(self, data):
        def torn():
            try:
                self._fp.write(bytes(memoryview(data))[: len(data) // 2] if not isinstance(data, str) else data[: len(data) // 2])
                self._fp.flush()
            except Exception:
                pass

        self._cp.hit("write", torn)
        return self._fp.write(data)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        return self._fp.close()

    def __getattr__(self, k):
        return getattr(self._fp, k)


def torn_file_system(inner, cp: CrashPoint):
    """A FileSystem that delegates to `inner` with TornFile on writes."""
    from fairseq2.file_system import FileMode, FileSystem

    ns = {}

    def mk(name):
        def f(self, *a, **k):
            return getattr(inner, name)(*a, **k)

        return f

    for name in dir(FileSystem):
        if name.startswith("__"):
            continue
        attr = getattr(FileSystem, name)
        if isinstance(attr, property):
            ns[name] = property(lambda self, name=name: getattr(inner, name))
        elif callable(attr) and not name.startswith("_"):
            ns[name] = mk(name)

    def _open(self, path, mode=FileMode.READ):
        fp = inner.open(path, mode)
        return fp if mode == FileMode.READ else TornFile(fp, cp)

    def _open_text(self, path, mode=FileMode.READ):
        fp = inner.open_text(path, mode)
        return fp if mode == FileMode.READ else TornFile(fp, cp)

    ns["open"] = _open
    ns["open_text"] = _open_text

    if isinstance(cp, YieldPoint):
        for name in ("move", "remove", "make_directory", "remove_directory", "exists"):

            def f(self, *a, name=name, **k):
                cp.hit(name)
                return getattr(inner, name)(*a, **k)

            ns[name] = f
    cls = type("TornFileSystem", (FileSystem,), ns)
    return cls()


class YieldPoint:
    """Stands in for CrashPoint: file operations are scheduling points instead."""

    def __init__(self, world) -> None:
        self.world = world

    def hit(self, what: str, before_die=None) -> None:
        self.world.yield_point(what)


def in_child(fn, timeout: float = 120.0):
    """Runs fn() in a forked child; returns ("ok", json) | ("crash", None) | ("error", text)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            out = json.dumps({"ok": fn()})
        except BaseException:  # noqa: BLE001
            out = json.dumps({"error": traceback.format_exc()})
        try:
            with os.fdopen(w, "w") as fp:
                fp.write(out)
        except BaseException:  # noqa: BLE001
            code = 5
        os._exit(code)
    os.close(w)
    import select
    import time

    buf = b""
    end = time.time() + timeout
    with os.fdopen(r, "rb", buffering=0) as fp:
        while True:
            left = end - time.time()
            if left <= 0:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                return "error", "timeout: the operation never finishes"
            ready, _, _ = select.select([fp], [], [], left)
            if not ready:
                continue
            b = fp.read(65536)
            if not b:
                break
            buf += b
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    if rc == CRASH_RC:
        return "crash", None
    if not buf:
        return "error", f"child died with {rc}"
    d = json.loads(buf)
    if "error" in d:
        return "error", d["error"]
    return "ok", d["ok"]
