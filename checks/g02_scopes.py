"""G02: the current gangs are scoped to thread, device and block."""

from __future__ import annotations

from vlib import tlc
from vlib.pool import pmap
from vlib.scopes import in_fresh_process


def collect(ctx, hists, threads, made):
    chunks = [(hists[i : i + 25], threads, made) for i in range(0, len(hists), 25)]
    return [t for r in pmap(ctx, in_fresh_process, chunks, 1) for t in r]


def corrupter(key):
    def corrupt(t, rng):
        e = rng.choice(t["ev"])
        v = rng.choice(e["view"])
        if key == "cur":
            d = rng.choice(["cpu", "cuda:0", "meta"])
            v["cur"][d] = ["gang", 4] if v["cur"][d] != ["gang", 4] else ["local", "cpu"]
        else:
            m = rng.choice(v["made"])
            m["got"]["dtype"] = "float16" if m["got"]["dtype"] != "float16" else "bfloat16"
        return t

    return corrupt


def run(ctx):
    from fairseq2 import init_fairseq2
    from fairseq2.gang import get_default_gangs

    init_fairseq2(no_progress=True)
    get_default_gangs  # resolved in each child, so that no state is shared between histories

    tlc.model_check(ctx, "ScopesGen", overrides={"Emitting": "FALSE", "Depth": ctx.pick("3", "4"), "Types": "{\"float16\"}"}, timeout=800)
    short = tlc.generate(ctx, "ScopesGen", overrides={"Depth": "2"})
    hists = short
    mid = tlc.generate(ctx, "ScopesGen", overrides={"Depth": "3", "Gangs": "{1, 3}"})
    ctx.rng.shuffle(mid)
    hists += mid[: ctx.pick(400, 20000)]
    for depth, num in ((6, ctx.pick(400, 4000)), (12, ctx.pick(300, 3000))):
        hists += tlc.generate(ctx, "ScopesGen", overrides={"Depth": depth, "Gangs": "{1, 2, 3, 4}"}, num=num, depth=depth + 2, limit=num)
    traces = collect(ctx, hists, 2, [])
    three = tlc.generate(ctx, "ScopesGen", overrides={"Depth": 10, "Threads": "{1, 2, 3}"}, num=ctx.pick(100, 1000), depth=12,
                         limit=ctx.pick(100, 1000))
    traces += collect(ctx, three, 3, [])
    ctx.sample(traces[-1]["_info"])
    tlc.validate(ctx, "ScopesTrace", traces)
    tlc.selftest(ctx, "ScopesTrace", traces, corrupter("cur"))
