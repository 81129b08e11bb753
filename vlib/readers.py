"""Replays histories of data readers over several ranks."""

from __future__ import annotations

import random

from vlib.simgang import SimGang, SimStuck, World, raise_first


class Pipeline:
    """A data pipeline over 1..n, with the life cycle of the native one: iterators share its position."""

    def __init__(self, n, fail_at=None):
        self.n, self.pos, self.fail_at = n, 0, fail_at

    def __iter__(self):
        outer = self

        class It:
            def __iter__(self):
                return self

            def __next__(self):
                return outer._next()

        return It()

    def _next(self):
        from fairseq2.data.data_pipeline import DataPipelineError

        if self.fail_at == self.pos:
            raise DataPipelineError("broken example")
        if self.pos == self.n:
            raise StopIteration()
        self.pos += 1
        return self.pos

    def reset(self, reset_rng=False):
        self.pos = 0

    def state_dict(self, strict=True):
        return {"pos": self.pos, "strict": strict}

    def load_state_dict(self, sd):
        self.pos = sd["pos"]


def gangs_of(dp):
    import torch
    from fairseq2.gang import FakeGang, Gangs

    one = FakeGang(torch.device("cpu"))
    return Gangs(root=dp, dp=dp, rdp=dp, sdp=one, tp=one, pp=one)


def make(p, gangs, r, strict, fail_at=None):
    from fairseq2.datasets.data_reader import DataPipelineReader, SyncMode

    pipe = Pipeline(p["len"][r], fail_at)
    reader = DataPipelineReader(pipe, gangs, num_accumulate=p["k"], drop_remainder=p["drop"], sync=p["sync"],
                                sync_mode=SyncMode.UNTIL_LAST if p["last"] else SyncMode.UNTIL_FIRST, strict_state=strict)
    return pipe, reader


def play(p, h, gangs, r, strict):
    """One rank's part; per event what it saw."""
    pipe, reader = make(p, gangs, r, strict)
    saved, out = [], []
    for a in h:
        k = a["a"]
        if k == "read":
            try:
                out.append(list(next(reader)))
            except StopIteration:
                out.append([-1])
        elif k == "reset":
            reader.reset()
            out.append("ok")
        elif k == "save":
            sd = reader.state_dict()
            saved.append(sd)
            out.append(bool(sd["strict"]) if "strict" in sd else None)
        elif k == "load":
            if a["fresh"]:
                pipe, reader = make(p, gangs, r, strict)
            reader.load_state_dict(saved[a["i"] - 1])
            out.append("ok")
    return out, reader.num_accumulate


def assemble(p, h, strict, per_rank):
    evs = [{"a": "about", "k": per_rank[0][1]}]
    for i, a in enumerate(h):
        e = dict(a)
        outs = [x[0][i] for x in per_rank]
        if a["a"] == "read":
            e["got"] = outs
        elif a["a"] == "save":
            e["res"] = "ok"
            e["strict"] = outs[0]
        else:
            e["res"] = "ok"
        evs.append(e)
    return {"cfg": {"p": p, "strict": strict}, "ev": evs, "_info": {"p": p, "h": h}}


def simulated(c, seed):
    """The history with all ranks as scheduled tasks of one process."""
    rng = random.Random(seed)
    p, h = c["p"], c["h"]
    strict = rng.random() < 0.5
    w = World(p["n"], chooser=lambda names, _: rng.randrange(len(names)))
    try:
        ts = w.run([lambda r=r: play(p, h, gangs_of(SimGang(w, range(p["n"]), r)), r, strict) for r in range(p["n"])])
        raise_first(ts, w)
        return assemble(p, h, strict, [t.result for t in ts])
    except SimStuck as ex:
        what = str(ex)
    except Exception as ex:  # noqa: BLE001
        what = f"{type(ex).__name__}: {ex}"
    return {"cfg": {"p": p, "strict": strict}, "ev": [{"a": "stuck", "what": what}], "_info": c}


def failing(p, r, at):
    """A source that fails after `at` batches, on a rank of its own."""
    import torch
    from fairseq2.datasets.data_reader import DataReadError
    from fairseq2.gang import FakeGang

    _, reader = make(p, gangs_of(FakeGang(torch.device("cpu"))), r, True, at)
    evs = []
    for _ in range(at // p["k"]):
        evs.append({"a": "read", "got": [list(next(reader))]})
    try:
        got = str(next(reader))
    except DataReadError:
        got = "DataReadError"
    except StopIteration:
        got = "end"
    except Exception as ex:  # noqa: BLE001
        got = type(ex).__name__
    evs.append({"a": "fail", "got": got})
    return {"cfg": {"p": p, "strict": True}, "ev": evs, "_info": p}


def members(gang, cases):
    g = gangs_of(gang)
    return [play(c["p"], c["h"], g, gang.rank, True) for c in cases]
