"""R01: dependency resolution: one shared instance, right selection, no partial state."""

from __future__ import annotations

import random

from vlib import tlc
from vlib.pool import pmap

HANDLES = ("lazy", "call", "iter", "look", "self")


class Fail(Exception):
    def __init__(self, reg):
        super().__init__(reg)
        self.reg = reg


class Driver:
    """One container and what is known of the objects made with it."""

    def __init__(self, regs, rng):
        from fairseq2.runtime.dependency import DependencyContainer

        self.c = DependencyContainer()
        self.regs = regs
        self.rng = rng
        self.made = []
        self.objs = []
        self.calls = {}
        self.T = {t: type(t, (), {}) for t in sorted({r["t"] for r in regs} | {d["t"] for r in regs for d in r["deps"]} | {"A", "B"})}
        self.impl = {}

    def name(self, kls):
        return next((t for t, k in self.T.items() if k is kls), str(kls))

    @staticmethod
    def key(k):
        return None if k == "" else (("y", 1) if k == "y" else k)

    @staticmethod
    def unkey(k):
        return "" if k is None else ("y" if k == ("y", 1) else k)

    def finish(self, obj, i, args, handles):
        """An object of registration i is complete."""
        r = self.regs[i - 1]
        if self.calls[i] <= r["fails"]:
            raise Fail(i)
        self.made.append({"reg": i, "args": args})
        self.objs.append(obj)
        obj._id, obj._handles = len(self.made), handles
        return obj

    def bump(self, i):
        self.calls[i] = self.calls.get(i, 0) + 1

    def provider(self, i):
        r = self.regs[i - 1]
        Impl = type(f"P{i}", (self.T[r["t"]] if r["out"] != "wrong" else object,), {})

        def provide(resolver):
            args = []
            for d in r["deps"]:
                t, k = self.T[d["t"]], self.key(d["k"])
                if d["op"] == "req":
                    args.append([resolver.resolve(t, key=k)._id])
                elif d["op"] == "opt":
                    o = resolver.maybe_resolve(t, key=k)
                    args.append([] if o is None else [o._id])
                else:
                    args.append([o._id for o in resolver.collection.resolve(t, key=k)])
            self.bump(i)
            if r["out"] == "none":
                if self.calls[i] <= r["fails"]:
                    raise Fail(i)
                return None
            return self.finish(Impl(), i, args, {})

        return provide

    def wired(self, i):
        """A class whose constructor asks for the dependencies of registration i."""
        from collections.abc import Callable, Collection, Iterable, Sequence
        from typing import Optional

        from fairseq2.runtime.dependency import DependencyResolver
        from fairseq2.runtime.lazy import Lazy
        from fairseq2.runtime.lookup import Lookup

        r, rng = self.regs[i - 1], self.rng
        default = object()
        names, ann, ops = [], {}, []
        junk = rng.random() < 0.3
        for j, d in enumerate(r["deps"]):
            t, n = self.T[d["t"]], f"a{j}"
            text = n
            if d["op"] == "req":
                a = t
            elif d["op"] == "opt":
                w = rng.randrange(4) if j == len(r["deps"]) - 1 else rng.randrange(3)
                a = [t | None, Optional[t], None | t, t][w]
                if w == 3:
                    text += "=default"
            elif d["op"] == "all":
                a = rng.choice([Sequence, Collection])[t]
            else:
                a = {"lazy": Lazy[t], "call": Callable[[], t], "iter": Iterable[t], "look": Lookup[t], "self": DependencyResolver}[d["op"]]
            names.append(text)
            ann[n] = a
        if junk:
            names += ["*args", "z1=1", "z2=2", "**kw"]
            ann |= {"z1": int, "z2": int | str}
        me = self

        def body(self, vals, junk_=()):
            me.bump(i)
            args, handles = [], {}
            for j, (d, v) in enumerate(zip(r["deps"], vals)):
                op = d["op"]
                if op in ("lazy", "call", "iter", "look"):
                    args.append([])
                    handles[j + 1] = (op, v)
                elif op == "self":
                    args.append([] if v is me.c else [-1])
                elif op == "all":
                    args.append([o._id for o in v])
                else:
                    args.append([] if v is None or v is default else [v._id])
            if tuple(junk_) not in ((), (1, 2)):
                args.append([-2])
            me.finish(self, i, args, handles)

        env = {"body": body, "default": default}
        exec(f"def __init__(self, {', '.join(names)}):\n    body(self, [{', '.join(ann_n for ann_n in ann if ann_n[0] == 'a')}]{', (z1, z2)' if junk else ''})", env)
        init = env["__init__"]
        init.__annotations__ = dict(ann)
        return type(f"W{i}", (self.T[r["t"]],), {"__init__": init})

    def can_wire(self, r):
        return r["out"] == "obj" and all(d["k"] == "" for d in r["deps"])

    def must_wire(self, r):
        return any(d["op"] in HANDLES for d in r["deps"])

    def register(self, i):
        from fairseq2.error import InvalidOperationError

        r = self.regs[i - 1]
        t, k = self.T[r["t"]], self.key(r["k"])
        c = self.c.collection if r["coll"] else self.c
        try:
            if r["out"] == "inst":
                o = type(f"I{i}", (t,), {})()
                o._id = 1000 + i
                c.register_instance(t, o, key=k)
            elif self.must_wire(r) or (self.can_wire(r) and self.rng.random() < 0.5):
                c.register_type(t, self.wired(i), key=k, singleton=r["single"])
            else:
                c.register(t, self.provider(i), key=k, singleton=r["single"])
            return {"op": "register", "i": i, "ok": True}
        except InvalidOperationError:
            return {"op": "register", "i": i, "ok": False}

    def look(self, op):
        """Performs one operation; its event."""
        from fairseq2.error import InternalError
        from fairseq2.runtime.dependency import (
            DependencyCycleError,
            DependencyLookup,
            DependencyNotFoundError,
            wire_object,
        )

        e = dict(op)
        before = len(self.made)
        res = {"s": "", "id": 0, "t": "", "k": "", "path": [], "reg": 0}
        ids = []
        kls, k = self.T.get(e.get("t")), self.key(e.get("k", ""))

        def put(o):
            if o is None:
                res["s"] = "none"
            else:
                res["s"], res["id"] = "obj", getattr(o, "_id", -1)

        try:
            if e["op"] == "resolve":
                put(self.c.resolve(kls, key=k))
            elif e["op"] == "maybe":
                put(self.c.maybe_resolve(kls, key=k))
            elif e["op"] == "all":
                for o in self.c.collection.resolve(kls, key=k):
                    ids.append(o._id)
                res["s"] = "obj"
            elif e["op"] == "keys":
                c = self.c.collection if e["coll"] else self.c
                if not e["coll"] and self.rng.random() < 0.5:
                    c = DependencyLookup(self.c, kls)
                    return e | {"keys": [self.unkey(x) for x in c.iter_keys()]}
                return e | {"keys": [self.unkey(x) for x in c.iter_keys(kls)]}
            elif e["op"] == "wire":
                put(wire_object(self.c, self.impl[e["i"]]))
            elif e["op"] == "use":
                op, v = self.objs[e["id"] - 1]._handles[e["j"]]
                if op == "lazy":
                    put(v.get())
                elif op == "call":
                    put(v())
                elif op == "look":
                    put(v.maybe_get(None))
                else:
                    for o in v:
                        ids.append(o._id)
                    res["s"] = "obj"
        except DependencyNotFoundError as ex:
            res |= {"s": "nf", "t": self.name(ex.kls), "k": self.unkey(ex.key)}
        except DependencyCycleError as ex:
            res |= {"s": "cycle", "path": [[self.name(t), self.unkey(k)] for t, k in ex.cycle]}
        except Fail as ex:
            res |= {"s": "fail", "reg": ex.reg}
        except InternalError:
            res["s"] = "wrong"
        except Exception as ex:  # noqa: BLE001
            res["s"] = f"{type(ex).__name__}: {ex}"
        return e | {"res": res, "ids": ids, "made": self.made[before:]}


def history(regs, rng, length, late=True):
    """Registers (in order), looks things up and uses handles."""
    d = Driver(regs, rng)
    ev = []
    wires = [i for i in range(1, len(regs) + 1) if regs[i - 1].get("wire")]
    late_i = {i for i in range(1, len(regs) + 1) if late and rng.random() < 0.04}
    for i in range(1, len(regs) + 1):
        if i in wires:
            d.impl[i] = d.wired(i)
        elif i not in late_i:
            ev.append(d.register(i))
    keyset = sorted({(r["t"], r["k"]) for r in regs} | {("A", ""), ("B", "")})
    for _ in range(length):
        x = rng.random()
        t, k = rng.choice(keyset)
        hs = [(o._id, j) for o in d.objs for j in getattr(o, "_handles", {})]
        if x < 0.3 and hs:
            id, j = rng.choice(hs)
            ev.append(d.look({"op": "use", "id": id, "j": j}))
        elif x < 0.55:
            ev.append(d.look({"op": "resolve", "t": t, "k": k}))
        elif x < 0.75:
            ev.append(d.look({"op": "maybe", "t": t, "k": k}))
        elif x < 0.88:
            ev.append(d.look({"op": "all", "t": t, "k": k}))
        elif x < 0.93 and wires:
            ev.append(d.look({"op": "wire", "i": rng.choice(wires), "t": "", "k": ""}))
        elif x < 0.96:
            ev.append(d.look({"op": "keys", "t": t, "coll": rng.random() < 0.5}))
        elif late_i:
            ev.append(d.register(late_i.pop()))
    strip = [{k: v for k, v in r.items() if k != "wire"} for r in regs]
    return {"cfg": {"regs": strip}, "ev": ev, "_info": {"regs": strip}}


def world(rng):
    """A larger random set of registrations."""
    types = ["A", "B", "C", "D", "E"][: rng.randrange(2, 6)]
    keys = ["", "", "x", "y"]
    regs = []
    dag = rng.random() < 0.6  # mostly without cycles, so that things get made
    for _ in range(rng.randrange(2, 9)):
        t = rng.choice(types)
        deps = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            u = rng.choice([x for x in types if x > t] or types) if dag else rng.choice(types)
            op = rng.choice(["req", "req", "opt", "opt", "all"]) if not dag or u > t else rng.choice(["lazy", "call", "look", "iter"])
            deps.append({"op": op, "t": u, "k": rng.choice(keys) if rng.random() < 0.3 else ""})
        if rng.random() < 0.4:
            for _ in range(rng.randrange(1, 3)):
                deps.append({"op": rng.choice(HANDLES), "t": rng.choice(types), "k": ""})
        if any(d["op"] in HANDLES for d in deps):
            for d in deps:
                d["k"] = ""
        out = "obj" if any(d["op"] in HANDLES for d in deps) else rng.choices(["obj", "none", "wrong", "inst"], [12, 1, 1, 1])[0]
        regs.append({"t": t, "k": rng.choice(keys), "coll": rng.random() < 0.35, "single": out != "inst" and rng.random() < 0.5, "out": out,
                     "fails": rng.choice([0] * 8 + [1, 2]) if out != "inst" else 0, "deps": deps if out != "inst" else []})
    if rng.random() < 0.4:
        deps = [{"op": rng.choice(["req", "opt", "all", *HANDLES]), "t": rng.choice(types), "k": ""} for _ in range(rng.randrange(0, 4))]
        regs.append({"t": rng.choice(types), "k": "", "coll": False, "single": False, "out": "obj", "fails": 0, "deps": deps, "wire": True})
    return regs


def job(a):
    regs, seed, length = a
    rng = random.Random(seed)
    return history(world(rng) if regs is None else regs, rng, length)


def run(ctx):
    tlc.model_check(ctx, "ContainerGen", overrides={"Depth": ctx.pick("2", "3")}, timeout=800, coverage=False)
    worlds = tlc.generate(ctx, "ContainerGen", overrides={"Emitting": "TRUE"}, limit=100000)
    ctx.rng.shuffle(worlds)
    worlds = worlds[: ctx.pick(2000, 100000)]
    cases = [(w, ctx.rng.random(), 6) for w in worlds] + [(None, ctx.rng.random(), ctx.rng.randrange(5, 16)) for _ in range(ctx.pick(2200, 60000))]
    traces = pmap(ctx, job, cases, 100)
    ev = [e for t in traces for e in t["ev"] if "res" in e]
    for s in ("obj", "none", "nf", "cycle", "fail", "wrong"):
        ctx.count("result_" + s, sum(e["res"]["s"] == s for e in ev))
    ctx.count("handles_used", sum(e["op"] == "use" for e in ev))
    ctx.sample(traces[-1]["ev"])
    tlc.validate(ctx, "ContainerTrace", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if "res" in e]
        if not c:
            return None
        e = rng.choice(c)
        if e["made"]:
            e["made"].append(e["made"][-1])
        else:
            e["res"]["id"] += 1
        return t

    tlc.selftest(ctx, "ContainerTrace", traces, corrupt)
