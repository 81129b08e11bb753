"""Replays scope histories (gangs, device, data type) in real threads through the
public functions, and records what every thread sees after each step."""

from __future__ import annotations

import queue
import threading

import torch

from vlib.crashfs import in_child

CTORS = {
    "ones": lambda: torch.ones(2),
    "zeros": lambda: torch.zeros((1, 2)),
    "empty": lambda: torch.empty(3),
    "full": lambda: torch.full((2,), 1.5),
    "tensor": lambda: torch.tensor([1.0, 2.0]),
    "rand": lambda: torch.empty(2).new_ones(2),
    "linspace": lambda: torch.linspace(0, 1, 3),
    "eye": lambda: torch.eye(2),
    "randn": lambda: torch.randn(2),
}


class Boom(Exception):
    pass


class Worker(threading.Thread):
    def __init__(self):
        super().__init__(daemon=True)
        self.q: queue.Queue = queue.Queue()
        self.r: queue.Queue = queue.Queue()
        self.stack: list = []
        self.start()

    def run(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.r.put(("ok", f(self)))
            except BaseException as ex:  # noqa: BLE001
                self.r.put(("err", ex))

    def do(self, f):
        self.q.put(f)
        st, v = self.r.get(timeout=60)
        if st == "err":
            raise v
        return v


def dtype_name(d):
    return str(d).removeprefix("torch.")


def replay(hist, threads, made):
    from fairseq2.data_type import get_current_dtype, set_dtype
    from fairseq2.device import get_current_device, set_device
    from fairseq2.gang import (
        FakeGang,
        Gangs,
        create_fake_gangs,
        get_current_gangs,
        get_default_gangs,
        set_default_gangs,
        set_gangs,
    )

    def mk(dev):
        g = FakeGang(torch.device(dev), rank=0, size=2)
        f = FakeGang(torch.device(dev))
        return Gangs(root=g, dp=g, rdp=g, sdp=f, tp=f, pp=f)

    gangs = {1: mk("cpu"), 2: create_fake_gangs(torch.device("cpu")), 3: mk("cuda:0"), 4: mk("cuda:0")}

    def which(g):
        for i, x in gangs.items():
            if x is g:
                return ["gang", i]
        all1 = all(getattr(g, k).size == 1 and getattr(g, k).rank == 0 for k in ("root", "dp", "rdp", "sdp", "tp", "pp"))
        return ["local" if all1 else "strange", str(g.device)]

    def view(_):
        o = {"cur": {}, "def": {}, "made": [], "explicit": []}
        for d in ("cpu", "cuda:0", "meta"):
            dd = torch.device(d)
            o["cur"][d] = which(get_current_gangs(dd))
            o["def"][d] = which(get_default_gangs(dd))
        o["here"] = which(get_current_gangs())
        o["dev"] = str(get_current_device())
        o["dtype"] = dtype_name(get_current_dtype())
        for name in made:
            t = CTORS[name]()
            o["made"].append({"how": name, "got": {"dtype": dtype_name(t.dtype), "dev": str(t.device)}})
        if made:
            for dt in (torch.float64, torch.int32):
                t = torch.ones(2, dtype=dt, device="cpu")
                o["explicit"].append({"asked": {"dtype": dtype_name(dt), "dev": "cpu"},
                                      "got": {"dtype": dtype_name(t.dtype), "dev": str(t.device)}})
        return o

    ws = [Worker() for _ in range(threads)]
    evs = []
    for a in hist:
        ev = dict(a)
        res = "ok"
        k = a["a"]

        def step(w):
            if k in ("enter", "with"):
                s = a["s"]
                if s["k"] == "gang":
                    cm = gangs[s["g"]] if k == "with" else set_gangs(gangs[s["g"]], meta=s["meta"])
                elif s["k"] == "dev":
                    cm = set_device(torch.device(s["d"]))
                else:
                    cm = set_dtype(getattr(torch, s["d"]))
                cm.__enter__()
                w.stack.append(cm)
            elif k == "exit":
                w.stack.pop().__exit__(None, None, None)
            elif k == "raise":
                cm = w.stack.pop()
                ex = Boom("boom")
                try:
                    swallowed = cm.__exit__(Boom, ex, None)
                except Boom:
                    swallowed = False
                return "swallowed" if swallowed else "raised"
            return "ok"

        if k == "default":
            set_default_gangs(gangs[a["g"]], meta=a["meta"])
        else:
            try:
                res = ws[a["t"] - 1].do(step)
            except Exception as ex:  # noqa: BLE001
                res = f"{type(ex).__name__}: {ex}"
        ev["res"] = res
        ev["view"] = [w.do(view) for w in ws]
        evs.append(ev)
    for w in ws:
        w.q.put(None)
    return evs


def in_fresh_process(args):
    hists, threads, made = args
    out = []
    for h in hists:
        st, r = in_child(lambda: replay(h, threads, made))
        if st != "ok":
            r = [{**h[0], "res": str(r)[-400:], "view": [{"cur": {}, "def": {}, "made": [], "explicit": [], "here": [], "dev": "",
                                                          "dtype": ""}] * threads}]
        out.append({"cfg": {"threads": threads}, "ev": r, "_info": h})
    return out
