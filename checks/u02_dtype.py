"""U02: the current data type and device are scoped to thread and block."""

from __future__ import annotations

from checks.g02_scopes import collect, corrupter
from vlib import tlc
from vlib.scopes import CTORS

T2 = '{"float16", "bfloat16"}'
T3 = '{"float16", "bfloat16", "float64"}'


def run(ctx):
    from fairseq2 import init_fairseq2

    init_fairseq2(no_progress=True)
    tlc.model_check(ctx, "ScopesGen", overrides={"Emitting": "FALSE", "Depth": ctx.pick("4", "5"), "Gangs": "{}", "Types": T2}, timeout=800,
                    allow_uncovered=("EnterObj", "Deft"))
    hists = tlc.generate(ctx, "ScopesGen", overrides={"Depth": ctx.pick("3", "4"), "Gangs": "{}", "Types": T2})
    ctx.rng.shuffle(hists)
    hists = hists[: ctx.pick(500, 4000)]
    for depth, num in ((7, ctx.pick(300, 3000)), (14, ctx.pick(200, 2000))):
        hists += tlc.generate(ctx, "ScopesGen", overrides={"Depth": depth, "Gangs": "{}", "Types": T3}, num=num, depth=depth + 2, limit=num)
    names = list(CTORS)
    traces = []
    # Half of the histories look after every step, the others make a few tensors only.
    traces += collect(ctx, hists[::2], 2, names)
    traces += collect(ctx, hists[1::2], 2, ["ones", "full"])
    ctx.sample(traces[-1]["_info"])
    tlc.validate(ctx, "ScopesTrace", traces)
    tlc.selftest(ctx, "ScopesTrace", traces, corrupter("made"))
