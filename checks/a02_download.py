"""A02: the asset download cache is crash-safe and always returns the complete asset."""

from __future__ import annotations

import io
import json
import os
import random
import shutil
import signal
import socket
import struct
import sys
import tarfile
import tempfile
import zipfile
from http.server import BaseHTTPRequestHandler, HTTPServer
from pathlib import Path

from vlib import tlc
from vlib.core import Machinery
from vlib.pool import pmap

NOBODY = 65534
KINDS = {  # file name and how it is packed
    "file": ("model file.bin", "file"), "pt": ("m.pt", "zipfile"), "zip": ("x.zip", "zip"), "zip1": ("x1.zip", "zip"),
    "tar": ("x.tar", "w"), "tgz": ("x.tar.gz", "w:gz"), "tar1": ("x1.tar", "w"), "tbz": ("noname", "w:bz2"),
}
OK = ("length", "length", "none", "chunked", "redirect", "badlength", "disposition")
FAIL = ("404", "500", "short", "chunkcut", "drop", "rst", "loop", "garbage", "shortrst", "nothing")


def tree(kind, key, v):
    """What version v of the asset consists of."""
    rng = random.Random(f"{kind}/{key}/{v}")
    if kind in ("file", "pt"):
        return {"": rng.randbytes(rng.choice([0, 10, 8192, 20000]) + 1)}
    if kind in ("zip1", "tar1"):
        return {"": rng.randbytes(9000)}
    return {"a.txt": rng.randbytes(200), f"dir/b{v}.bin": rng.randbytes(9000), "dir/deep/c": v.encode() * 40, "a.json": b"{}"}


def pack(kind, files):
    how = KINDS[kind][1]
    if how == "file":
        return files[""]
    files = {k or "weights.bin": d for k, d in files.items()}
    out = io.BytesIO()
    if how.startswith("zip"):
        with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
            for k, d in files.items():
                z.writestr(k, d)
    else:
        with tarfile.open(fileobj=out, mode=how) as t:
            for k, d in files.items():
                i = tarfile.TarInfo(k)
                i.size = len(d)
                t.addfile(i, io.BytesIO(d))
    return out.getvalue()


def spoil(kind, data, rng):
    """An archive that cannot be extracted."""
    if KINDS[kind][1] == "zip":
        how = rng.choice(["cut", "flip", "empty"])
        if how == "empty":
            out = io.BytesIO()
            zipfile.ZipFile(out, "w").close()
            return out.getvalue()
        if how == "flip":
            return data[:300] + bytes(b ^ 0x55 for b in data[300:600]) + data[600:]
    return data[: 5000 if KINDS[kind][1] == "w" else len(data) // 2]


def evil(kind, rng, outside):
    """An archive that tries to leave its place."""
    out = io.BytesIO()
    names = ["../../escaped", "../escaped", str(outside / "escaped"), "x/../../../escaped"]
    rng.shuffle(names)
    if KINDS[kind][1] == "zip":
        with zipfile.ZipFile(out, "w") as z:
            z.writestr("a.txt", b"a")
            for n in names:
                z.writestr(n, b"evil")
    else:
        with tarfile.open(fileobj=out, mode=KINDS[kind][1]) as t:
            if rng.random() < 0.5:
                for n in names:
                    i = tarfile.TarInfo(n)
                    i.size = 4
                    t.addfile(i, io.BytesIO(b"evil"))
            else:
                i = tarfile.TarInfo("link")
                i.type = tarfile.SYMTYPE
                i.linkname = rng.choice([str(outside), "../.."])
                t.addfile(i)
                i = tarfile.TarInfo("link/escaped")
                i.size = 4
                t.addfile(i, io.BytesIO(b"evil"))
    return out.getvalue()


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    root: Path

    def log_message(self, *a):
        pass

    def handle(self):
        try:
            super().handle()
        except OSError:
            pass

    def reset(self):
        self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.connection.close()

    def do_GET(self):
        self.close_connection = True
        ctl = json.loads((self.root / "ctl.json").read_text())
        with open(self.root / "hits", "a") as fp:
            fp.write(self.path + "\n")
        data = (self.root / "body").read_bytes()
        how = ctl["how"]
        if how == "redirect" and "again" not in self.path:
            self.send_response(302)
            self.send_header("Location", self.path.replace("/asset", "/again/asset"))
            self.send_header("Content-Length", "0")
            self.end_headers()
            return
        if how == "loop":
            self.send_response(302)
            self.send_header("Location", self.path)
            self.send_header("Content-Length", "0")
            self.end_headers()
            return
        if how in ("404", "500"):
            self.send_response(int(how))
            self.send_header("Content-Length", str(len(data)))
            self.end_headers()
            self.wfile.write(data)
            return
        if how == "drop":
            return
        if how == "garbage":
            self.wfile.write(b"what is this\r\n\r\n" + data)
            return
        self.send_response(200)
        if how == "disposition":
            self.send_header("Content-Disposition", ctl["disposition"])
        if how in ("chunked", "chunkcut"):
            self.send_header("Transfer-Encoding", "chunked")
        elif how == "badlength":
            self.send_header("Content-Length", "many")
        elif how in ("short", "shortrst", "rst"):
            self.send_header("Content-Length", str(len(data) + 7))
        elif how != "none":
            self.send_header("Content-Length", str(len(data)))
        self.end_headers()
        if how in ("chunked", "chunkcut"):
            n = 3000
            for i in range(0, len(data) if how == "chunked" else len(data) // 2, n):
                c = data[i : i + n]
                self.wfile.write(b"%x\r\n" % len(c) + c + b"\r\n")
            if how == "chunked":
                self.wfile.write(b"0\r\n\r\n")
            else:
                self.wfile.write(b"%x\r\nxx" % n)
        elif how == "rst":
            self.reset()
        elif how == "nothing":
            pass
        else:
            self.wfile.write(data)
            if how == "shortrst":
                self.reset()


class Kill:
    """Ends the process at its n-th step on the file system."""

    def __init__(self, n):
        self.left = n

    def __call__(self, *a):
        self.left -= 1
        if self.left == 0:
            os._exit(77)

    def arm(self):
        def hook(event, args):
            if event == "open":
                if not isinstance(args[0], (str, bytes)) or not isinstance(args[2], int) or not args[2] & (os.O_WRONLY | os.O_RDWR):
                    return
            elif event not in ("os.rename", "os.remove", "os.rmdir", "os.mkdir", "os.link", "os.symlink", "os.truncate", "os.listdir"):
                return
            self()

        sys.addaudithook(hook)
        # and in the middle of a file
        def halves(d, dst):
            dst.write(d[: len(d) // 2])
            dst.flush()
            self()
            dst.write(d[len(d) // 2 :])

        def tcopy(src, dst, length=None, exception=OSError, bufsize=None):
            d = src.read() if length is None else src.read(length)
            halves(d, dst)
            if length is not None and len(d) < length:
                raise exception("unexpected end of data")

        shutil.copyfileobj = lambda src, dst, length=0: halves(src.read(), dst)
        tarfile.copyfileobj = tcopy


def reporter(kill):
    from fairseq2.utils.progress import ProgressReporter, ProgressTask

    class Task(ProgressTask):
        def start(self): ...

        def step(self, value=1):
            kill()

        def close(self): ...

    class Reporter(ProgressReporter):
        def create_task(self, name, total, completed=0, *, start=True):
            return Task()

        def __enter__(self):
            return self

        def __exit__(self, *a): ...

    return Reporter()


def found(p):
    """The tree at p."""
    p = Path(p)
    if p.is_file():
        return {"": p.read_bytes()}
    return {str(f.relative_to(p)): f.read_bytes() for f in sorted(p.rglob("*")) if f.is_file()}


def request(cache, uri, r, kill, fs, api, out):
    """In a process of its own."""
    signal.alarm(60)
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    from fairseq2.assets.download_manager import AssetDownloadError, StandardAssetDownloadManager
    from fairseq2.file_system import GlobalFileSystem, NativeLocalFileSystem
    from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
    from fairseq2.utils.uri import Uri

    k = Kill(kill)
    rep = reporter(k) if kill else NOOP_PROGRESS_REPORTER
    m = StandardAssetDownloadManager(cache, GlobalFileSystem() if fs == "global" else NativeLocalFileSystem(), rep, rep)
    u = Uri.maybe_parse(uri)
    if kill:
        k.arm()
    try:
        p = getattr(m, api)(u, "name", force=r == "force", local_only=r == "local")
        k.left = 0
        res = {"out": "ok", "path": str(p)}
    except AssetDownloadError as ex:
        k.left = 0
        res = {"out": "fail", "why": str(ex)}
    except BaseException as ex:  # noqa: BLE001
        k.left = 0
        res = {"out": f"raised {ex!r}"[:300]}
    os.write(out, json.dumps(res).encode())


def strays(root, cache):
    """Files that are in none of the places a request may write to."""
    return [str(p.relative_to(root)) for p in root.rglob("*") if cache not in p.parents and p not in (cache, cache.parent, root / "outside")]


def tops(cache):
    """The contents of every asset in the cache, by name without suffix."""
    out = {}
    for p in sorted(cache.iterdir()):
        out.setdefault(p.name.split(".")[0], []).append((p.name, sorted((str(q.relative_to(p)), q.stat().st_size) for q in p.rglob("*"))))
    return out


def play(a):
    plan, seed = a
    rng = random.Random(seed)
    import bz2  # noqa: F401
    import encodings.idna  # noqa: F401
    import http.client  # noqa: F401
    import lzma  # noqa: F401

    import fairseq2.assets.download_manager
    import fairseq2.file_system  # noqa: F401

    base = Path(tempfile.mkdtemp(prefix="verif-a02-", dir="/tmp"))
    server = 0
    try:
        srv, root = base / "server", base / "client"
        top = root / "top"
        cache = top / "cache"
        outside = root / "outside"
        for d in (srv, cache, outside):
            d.mkdir(parents=True)
        for d in (base, root, top, cache, outside):
            os.chown(d, NOBODY, NOBODY)
        http = HTTPServer(("127.0.0.1", 0), Handler)
        port = http.server_address[1]
        server = os.fork()
        if server == 0:
            try:
                signal.alarm(400)
                Handler.root = srv
                http.serve_forever()
            finally:
                os._exit(0)
        http.server_close()

        kinds = {k: plan["kinds"][k] for k in "AB"}
        names = {k: KINDS[kinds[k]][0] for k in "AB"}
        if kinds["A"] == "file":
            names["A"] = rng.choice([names["A"], "..%2F..%2Fescaped", "%2E%2E", "", "..%2Fescaped", "f?q=1&r=%2F", "%2Ftmp%2Fx"])
        uris = {k: f"http://127.0.0.1:{port}/asset{k}/{names[k].replace(' ', '%20')}" for k in "AB"}
        vs = {k: {v: tree(kinds[k], k, v) for v in ("1", "2", "3")} for k in "AB"}
        if kinds["A"] == "pt":
            vs["A"] = {v: {"": pack("pt", t)} for v, t in vs["A"].items()}
        if kinds["B"] == "pt":
            vs["B"] = {v: {"": pack("pt", t)} for v, t in vs["B"].items()}
        trees = {k: dict(vs[k]) for k in "AB"}
        ev = []
        before = {}
        for q in plan["reqs"]:
            k, m, how = q["k"], q["sv"]["m"], q["how"]
            kind = kinds[k]
            how = how or rng.choice(OK if m in ("ok", "bad", "evil") else FAIL)
            disp = ""
            if how == "disposition":
                good = names[k] if kind != "file" else rng.choice(["other.bin", "../../escaped", "../escaped", "/tmp/escaped-a02", "..", "a/b", str(outside / "escaped")])
                disp = f'attachment; filename="{good}"'
            v = q["sv"]["v"]
            if m == "evil":
                body = evil(kind, rng, outside)
            else:
                body = trees[k][v][""] if kind in ("file", "pt") else pack(kind, trees[k][v])
                if m == "bad":
                    body = spoil(kind, body, rng)
            (srv / "body").write_bytes(body)
            (srv / "ctl.json").write_text(json.dumps({"how": how, "disposition": disp}))
            (srv / "hits").write_text("")
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    request(cache, uris[k], q["r"], q["kill"], q["fs"], q["api"], wr)
                except PermissionError as ex:
                    os.write(wr, json.dumps({"machinery": repr(ex)}).encode())
                finally:
                    os._exit(0)
            os.close(wr)
            got = b""
            while b := os.read(rd, 65536):
                got += b
            os.close(rd)
            _, st = os.waitpid(pid, 0)
            e = {"k": k, "r": q["r"], "sv": q["sv"], "how": how + (f" {disp}" if disp else "") + (f" killed at {q['kill']}" if q["kill"] else "") + f" {kind} {names[k]}",
                 "out": "", "v": "", "hits": 0, "outside": "", "strays": 0}
            hits = (srv / "hits").read_text().split()
            e["hits"] = sum(h.startswith((f"/asset{k}/", f"/again/asset{k}/")) for h in hits)
            e["strays"] = len(hits) - e["hits"]
            out = []
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
                e["out"] = "crash"
            elif got:
                r = json.loads(got)
                if "machinery" in r:
                    raise Machinery(r["machinery"])
                e["out"] = r["out"]
                if r["out"] == "ok":
                    p = Path(r["path"])
                    if cache not in p.resolve().parents or p.name.startswith("."):
                        out.append(f"returned {p}")
                    t = found(p)
                    e["v"] = next((w for w, x in trees[k].items() if x == t), "something else")
            else:
                e["out"] = "does not come to an end" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else f"died ({st})"
            out += strays(root, cache)
            if os.path.exists("/tmp/escaped-a02"):
                out.append("/tmp/escaped-a02")
                os.unlink("/tmp/escaped-a02")
            now = tops(cache)
            # What belongs to this asset is what only its requests touch.
            for h in set(before) | set(now):
                if before.get(h) != now.get(h):
                    owner = plan.setdefault("owner", {}).setdefault(h, k)
                    if owner != k:
                        out.append(f"cache/{h} of {owner}")
            before = now
            e["outside"] = " ".join(out)[:300]
            ev.append(e)
            if m == "evil":
                if e["out"] == "ok":
                    ev[-1]["sv"] = {"m": "ok", "v": e["v"]}  # only where it went matters
                break
            if out:
                break
        return {"cfg": {"kinds": kinds}, "ev": ev, "_info": {"seed": seed}}
    finally:
        if server:
            os.kill(server, signal.SIGKILL)
            os.waitpid(server, 0)
        shutil.rmtree(base, ignore_errors=True)


def plan(rng):
    kinds = {"A": rng.choice(list(KINDS)), "B": rng.choice(list(KINDS))}
    kill = rng.choice([0, 0.35, 0.6])
    reqs = []
    for _ in range(rng.randrange(3, 9)):
        k = "A" if rng.random() < 0.75 else "B"
        arch = kinds[k] not in ("file", "pt")
        m = rng.choice(["ok", "ok", "ok", "fail"] + (["bad"] if arch and kinds[k] != "tbz" else []))
        x = rng.random() < kill
        reqs.append({"k": k, "r": rng.choice(["plain", "plain", "force", "local"]), "sv": {"m": m, "v": rng.choice("123")}, "how": "",
                     "kill": rng.choice([rng.randrange(1, 8), rng.randrange(1, 40)]) if x else 0, "fs": rng.choice(["global", "global", "native"]),
                     "api": rng.choice(["download_model", "download_tokenizer", "download_dataset"])})
    if rng.random() < 0.1 and kinds["B"] not in ("file", "pt"):
        reqs.append({"k": "B", "r": "force", "sv": {"m": "evil", "v": "1"}, "how": "length", "kill": 0, "fs": "global", "api": "download_model"})
    return {"kinds": kinds, "reqs": reqs}


def sweep(rng, kind, first, n):
    """Kills the n-th step of one request and looks at what the next ones make of it."""
    base = {"k": "A", "how": "length", "fs": "global", "api": "download_model", "kill": 0}
    reqs = []
    if first == "force":
        reqs.append(base | {"r": "plain", "sv": {"m": "ok", "v": "1"}})
    reqs.append(base | {"r": first, "sv": {"m": "ok", "v": "2"}, "kill": n})
    tail = [base | {"r": "local", "sv": {"m": "ok", "v": "3"}}, base | {"r": "plain", "sv": {"m": rng.choice(["ok", "fail"]), "v": "3"}, "how": ""},
            base | {"r": "local", "sv": {"m": "ok", "v": "1"}}, base | {"r": "plain", "sv": {"m": "ok", "v": "1"}}]
    return {"kinds": {"A": kind, "B": "file"}, "reqs": reqs + tail[rng.randrange(2) :]}


def run(ctx):
    for arch in ("TRUE", "FALSE"):
        tlc.model_check(ctx, "AssetCacheDesign", overrides={"Archive": arch, "Depth": ctx.pick(4, 7)},
                        allow_uncovered=() if arch == "TRUE" else ("Extract3", "Extract4"), timeout=800)
    cases = [(plan(ctx.rng), ctx.rng.random()) for _ in range(ctx.pick(700, 12000))]
    for kind in ("file", "zip", "tgz") if ctx.quick else KINDS:
        for first in ("plain", "force"):
            for n in range(1, 26 if ctx.quick else 50):
                cases.append((sweep(ctx.rng, kind, first, n), ctx.rng.random()))
    traces = pmap(ctx, play, cases, 10)
    for o in ("ok", "fail", "crash"):
        ctx.count("requests_" + o, sum(e["out"] == o for t in traces for e in t["ev"]))
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    ctx.assumptions.append("a crash ends the process; data already written by it survives (no power failures)")
    tlc.validate(ctx, "AssetCacheTrace", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if e["out"] == "ok" and e["sv"]["m"] == "ok"]
        if not c:
            return None
        rng.choice(c)["v"] = "something else"
        return t

    tlc.selftest(ctx, "AssetCacheTrace", traces, corrupt)
