"""F01: every file system implementation does to a tree what the specification says."""

from __future__ import annotations

import os
import random
import shutil
from pathlib import Path

from vlib import tlc
from vlib.pool import pmap

# Names for "a" and "b", with patterns and what they match.
NAMES = [
    (("a", "b"), [("*", "ab"), ("a*", "a"), ("?", "ab"), ("c*", "")]),
    (("step_1", "step_10"), [("*", "ab"), ("step_*", "ab"), ("step_1", "a"), ("*0", "b"), ("step_1?", "b"), ("step", "")]),
    (("run[1]", "run1"), [("*", "ab"), ("run*", "ab"), ("*1", "b"), ("run[0-9]", "b"), ("*]", "a")]),
    (("x*", "xy"), [("*", "ab"), ("x?", "ab"), ("*y", "b")]),
    (("w h?", "w hy"), [("*", "ab"), ("w *", "ab"), ("*y", "b")]),
    (("{a,b}", "ä.pt"), [("*", "ab"), ("*.pt", "b"), ("{*", "a")]),
    ((".hid", "hid"), [("*hid", "ab"), ("hid", "b"), ("h*", "b")]),
    (("model.safetensors", "model"), [("*.safetensors", "a"), ("*", "ab")]),
    (("f:1", "f%20#1"), [("*", "ab"), ("f:*", "a"), ("*#1", "b")]),
]
PLAIN = [0, 1, 6, 7]
TOPS = ["t", "t[1]", "t *", "run{1}", "t?.d"]


def text(c):
    return "".join(f"<{x}é>\n" for x in c)


def chunks(s):
    out = []
    for line in s.split("\n")[:-1]:
        if not (line.startswith("<") and line.endswith("é>")):
            return ["garbled"]
        out.append(int(line[1:-2]))
    return out if s == text(out) else ["garbled"]


def make(kind):
    import fsspec.implementations.local as fs_local
    from fairseq2.file_system import FileSystemRegistry, FSspecFileSystem, GlobalFileSystem, NativeLocalFileSystem, _register_filesystems

    if not FileSystemRegistry._resolvers:
        _register_filesystems(None)
    if kind == "native":
        return NativeLocalFileSystem(), ""
    if kind == "generic":
        return FSspecFileSystem(fs_local.LocalFileSystem(), ""), ""
    if kind == "global":
        return GlobalFileSystem(), ""
    if kind == "memory" and not any("memory" in str(f) for _, f in FileSystemRegistry._resolvers):
        import fsspec

        FileSystemRegistry.register(lambda p: str(p).startswith("memory:/"), MemoryFactory(FSspecFileSystem(fsspec.filesystem("memory"), "memory://")))
    return GlobalFileSystem(), kind + "://"


class MemoryFactory:
    def __init__(self, fs):
        self.fs = fs

    def __call__(self):
        return self.fs

    def __str__(self):
        return "memory"


KINDS = ["native", "generic", "global", "file", "local"]


def store(top):
    """Files of the store in memory, as a tree on disk."""
    import fsspec

    m = fsspec.filesystem("memory")
    shutil.rmtree(top)
    top.mkdir()
    for k, f in m.store.items():
        p = Path(k)
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(bytes(f.getbuffer()))


def fill(top):
    import fsspec

    m = fsspec.filesystem("memory")
    m.store.clear()
    m.pseudo_dirs[:] = [""]
    for d, _, files in os.walk(top):
        for f in files:
            m.pipe_file(os.path.join(d, f), Path(d, f).read_bytes())


def put_tree(at, nodes, real):
    for x in sorted(nodes, key=lambda x: len(x["p"])):
        p = at.joinpath(*[real[n] for n in x["p"]])
        if x["k"] == "dir":
            p.mkdir(parents=True, exist_ok=True)
        else:
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(text(x["c"]))


def tree_of(at, back):
    out = []

    def go(d, p):
        for e in sorted(os.scandir(d), key=lambda e: e.name):
            q = p + [back.get(e.name, e.name)]
            if e.is_dir(follow_symlinks=False):
                out.append({"p": q, "k": "dir", "c": []})
                go(e.path, q)
            else:
                out.append({"p": q, "k": "file", "c": chunks(Path(e.path).read_text())})

    go(at, [])
    return out


def play(case):
    kind, tree, hist, ni, ti, seed, base = case
    from fairseq2.file_system import FileMode

    rng = random.Random(seed)
    (na, nb), pats = NAMES[ni]
    real, back = {"a": na, "b": nb}, {na: "a", nb: "b"}
    box = Path(base) / f"f{os.getpid()}_{seed}_{kind}"
    top = box / TOPS[ti]
    top.mkdir(parents=True)
    # A relative path that escaped lands here, and shows in the tree.
    os.chdir(top)
    put_tree(top, tree, real)
    fs, prefix = make(kind)
    if kind == "memory":
        fill(top)

    def path(p, as_str=False):
        s = prefix + str(top.joinpath(*[real[n] for n in p]))
        return s if as_str else Path(s)

    def under(s):
        """Names of a path given by the file system."""
        s = str(s)
        if prefix:
            if not s.startswith(prefix[:-1]):
                return ["without prefix", s]
            s = "/" + s[len(prefix) - 1:].lstrip("/")
        try:
            return [back.get(x, x) for x in Path(s).relative_to(top).parts]
        except ValueError:
            return ["elsewhere", s]

    evs = []
    for n, h in enumerate(hist, 1):
        o, p, q = h["o"], list(h["p"]), list(h["q"])
        e = {"o": o, "p": p, "q": q, "x": n, "r": [], "res": "ok"}
        P = path(p)
        side = box / "side"
        if o == "putfile":
            side.write_text(text([n]))
        elif o == "putdir":
            side.mkdir()
            e["src"] = h["src"]
            put_tree(side, h["src"], real)
        try:
            if o in ("write", "append"):
                m = FileMode.WRITE if o == "write" else FileMode.APPEND
                if rng.random() < 0.5:
                    with fs.open(P, m) as fp:
                        fp.write(text([n]).encode())
                else:
                    with fs.open_text(P, m) as fp:
                        fp.write(text([n]))
            elif o == "read":
                k = rng.randrange(3)
                if k == 0:
                    got = fs.cat(P).decode()
                elif k == 1:
                    with fs.open(P) as fp:
                        got = fp.read().decode()
                else:
                    with fs.open_text(P) as fp:
                        got = fp.read()
                e["r"] = chunks(got)
            elif o in ("exists", "is_file", "is_dir"):
                e["r"] = [{True: 1, False: 0}.get(getattr(fs, o)(P), 2)]
            elif o == "remove":
                fs.remove(P)
            elif o == "rmdir":
                fs.remove_directory(P)
            elif o == "mkdir":
                fs.make_directory(P)
            elif o == "move":
                fs.move(P, path(q))
            elif o == "copy":
                fs.copy_directory(P, path(q))
            elif o in ("putfile", "putdir"):
                fs.copy_from_local(side, path(q, rng.random() < 0.5))
            elif o == "tmp":
                with fs.tmp_directory(P) as d:
                    d2 = d / "x"
                    with fs.open(d2, FileMode.WRITE) as fp:
                        fp.write(b"1")
                    if not (fs.is_dir(d) and under(d)[:-1] == p and fs.cat(d2) == b"1"):
                        e["r"] = ["no such directory", str(d)]
            elif o in ("glob", "glob2"):
                pat, names = pats[h["pat"] % len(pats)]
                e["names"] = list(names)
                got = list(fs.glob(P, pat if o == "glob" else "*/" + pat))
                e["r"] = [under(x) for x in got]
                if not all(fs.exists(x) for x in got):
                    e["res"] = "unusable path"
            elif o == "walk":
                errs = []
                for d, files in fs.walk_directory(P, on_error=errs.append):
                    e["r"].append([under(d), [back.get(f, f) for f in files]])
                    if not all(fs.is_file(Path(d).joinpath(f)) for f in files):
                        e["res"] = "unusable path"
                if errs:
                    e["res"] = "reported" if len(errs) == 1 and isinstance(errs[0], OSError) else f"errors {errs}"
            elif o == "resolve":
                got = fs.resolve(P)
                if not str(got).endswith(str(top.joinpath(*[real[n] for n in p]))) or fs.exists(got) != fs.exists(P):
                    e["r"] = [str(got)]
        except FileNotFoundError:
            e["res"] = "missing"
        except OSError:
            e["res"] = "error"
        except Exception as ex:  # noqa: BLE001
            e["res"] = f"{type(ex).__name__}: {ex}"[:200]
        if side.is_dir():
            shutil.rmtree(side)
        elif side.exists():
            side.unlink()
        if kind == "memory":
            store(top)
        e["tree"] = tree_of(top, back)
        evs.append(e)
        if any(len(x["p"]) > 4 or not {"a", "b"}.issuperset(x["p"]) for x in e["tree"]):
            break
    os.chdir(base)
    shutil.rmtree(box, ignore_errors=True)
    return {"cfg": {"tree": tree}, "ev": evs, "_info": {"kind": kind, "names": [na, nb], "top": TOPS[ti], "tree": tree, "hist": hist, "seed": seed}}


PATHS = [[x] for x in "ab"] + [[x, y] for x in "ab" for y in "ab"] + [["a", "a", "b"], ["b", "a", "a"], ["a", "b", "b"]]


def some_tree(rng):
    out = []
    for x in "ab":
        k = rng.choice(["none", "file", "dir", "dir"])
        if k == "none":
            continue
        out.append({"p": [x], "k": k, "c": [100 + len(out)] if k == "file" else []})
        if k == "dir":
            for y in "ab":
                k = rng.choice(["none", "file", "file", "dir"])
                if k != "none":
                    out.append({"p": [x, y], "k": k, "c": [100 + len(out)] if k == "file" else []})
    return out


def some_op(rng):
    o = rng.choice(["write", "write", "append", "read", "exists", "is_file", "is_dir", "remove", "rmdir", "mkdir", "move", "move", "copy", "putfile",
                    "putdir", "tmp", "glob", "glob2", "walk", "resolve"])
    p, q = rng.choice(PATHS), rng.choice(PATHS)
    if o in ("mkdir", "exists", "is_dir", "tmp", "glob", "glob2", "walk", "resolve") and rng.random() < 0.3:
        p = []
    if o == "copy" and (p[:len(q)] == q or q[:len(p)] == p):
        return some_op(rng)
    h = {"o": o, "p": p, "q": q, "pat": rng.randrange(100)}
    if o == "putdir":
        h["src"] = some_tree(rng)
        if rng.random() < 0.1:
            h["q"] = []
    return h


def corrupt(t, rng):
    e = rng.choice(t["ev"])
    if e["o"] in ("walk", "copy", "putdir", "putfile"):
        return None
    k = rng.randrange(3)
    if k == 0 and e["tree"]:
        e["tree"].pop(rng.randrange(len(e["tree"])))
    elif k == 1 and e["o"] in ("exists", "is_file", "is_dir"):
        e["r"] = [1 - e["r"][0]]
    elif k == 2:
        e["res"] = {"ok": "missing", "missing": "ok", "error": "ok"}.get(e["res"], "?")
    else:
        return None
    return t


def run(ctx):
    import fsspec.implementations.local  # noqa: F401

    tlc.model_check(ctx, "FileTreeDesign", timeout=600)
    if not ctx.quick:
        tlc.model_check(ctx, "FileTreeDesign", overrides={"Depth": 2}, timeout=850)
        tlc.model_check(ctx, "FileTreeDesign", overrides={"Names": '{"a"}', "Deep": 4, "Depth": 3}, timeout=850)
    rng = ctx.rng
    firsts = tlc.generate(ctx, "FileTreeDesign", overrides={"Emitting": "TRUE"})
    cases = []

    def add(tree, hist, kind):
        # Stores of objects take special characters of some paths for patterns.
        plain = kind == "memory"
        cases.append((kind, tree, hist, rng.choice(PLAIN) if plain else rng.randrange(len(NAMES)), 0 if plain else rng.randrange(len(TOPS)), len(cases), str(ctx.scratch)))

    todo = firsts if not ctx.quick else rng.sample(firsts, min(len(firsts), 2000))
    for f in todo:
        tree = [{"p": list(x["p"]), "k": x["k"], "c": [7] if x["k"] == "file" else []} for x in f["tree"]]
        hist = [{"o": h["o"], "p": list(h["p"]), "q": list(h["q"])} for h in f["hist"]]
        for kind in KINDS if not ctx.quick else rng.sample(KINDS, min(2, len(KINDS))):
            add(tree, hist, kind)
    for _ in range(ctx.pick(400, 8000)):
        tree, hist = some_tree(rng), [some_op(rng) for _ in range(rng.randrange(3, 12))]
        for kind in KINDS:
            add(tree, hist, kind)
    solid = tlc.generate(ctx, "FileTreeDesign", overrides={"Emitting": "TRUE", "Solid": "TRUE", "Depth": 2})
    ctx.count("histories_of_a_remote_store", min(len(solid), ctx.pick(600, 10**6)))
    for f in solid if not ctx.quick else rng.sample(solid, min(len(solid), 600)):
        tree = [{"p": list(x["p"]), "k": x["k"], "c": [7] if x["k"] == "file" else []} for x in f["tree"]]
        hist = []
        for h in f["hist"]:
            hist.append({"o": h["o"], "p": list(h["p"]), "q": list(h["q"])})
            look = rng.choice(["exists", "is_file", "is_dir", "glob", "glob2", "walk", "tmp"])
            at = [] if look == "tmp" else rng.choice(PATHS[:6])
            if h["o"] in ("write", "append") and rng.random() < 0.7:
                look, at = "read", list(h["p"])
            hist.append({"o": look, "p": at, "q": [], "pat": rng.randrange(100)})
        add(tree, hist, "memory")
    traces = pmap(ctx, play, cases, 64)
    ctx.sample(traces[-1]["ev"][:3])
    tlc.validate(ctx, "FileTreeTrace", traces)
    tlc.selftest(ctx, "FileTreeTrace", traces[-500:], corrupt)
