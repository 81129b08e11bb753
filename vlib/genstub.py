"""Models for generation that are a table of probabilities and a hash of the text."""

from __future__ import annotations

import math

import torch
from torch import Tensor

ROWS = 31


def table(rng, V, spread):
    """Rows of log probabilities."""
    out = []
    for _ in range(ROWS):
        x = torch.tensor([rng.gauss(0.0, spread) for _ in range(V)], dtype=torch.float64)
        out.append(torch.log_softmax(x, -1))
    return torch.stack(out)


def units(x, unit=1e5):
    x = float(x)
    return round(x * unit) if math.isfinite(x) and abs(x) < 1e4 else -(2**30)


def models():
    from fairseq2.models.clm import CausalLM
    from fairseq2.models.seq2seq import Seq2SeqModel
    from fairseq2.nn import IncrementalState

    class State(IncrementalState):
        def __init__(self, h):
            self.h = h
            self.n = 0

        def reorder(self, new_order):
            self.h = self.h.index_select(0, new_order)

        def size_bytes(self):
            return 0

        def capacity_bytes(self):
            return 0

    class Core:
        def setup(self, lp, temperature, shift):
            self.logits = (lp * temperature + shift).to(torch.float32)
            self.lost = False

        def run(self, src, seqs, bag):
            state = bag.maybe_get_state(self, State)
            if state is None:
                state = State(src % ROWS)
                bag.set_state(self, state)
            if bag.step_nr != state.n or state.h.size(0) != seqs.size(0):
                self.lost = True
            h, out = state.h, []
            for k in range(seqs.size(1)):
                h = (h * 7 + (seqs[:, k] + 1) * 3 + 1) % ROWS
                out.append(self.logits[h])
            state.h = h
            state.n += seqs.size(1)
            return torch.stack(out, 1)

    class LM(CausalLM, Core):
        def forward(self, seqs: Tensor, seqs_layout, targets=None, *, state_bag=None, **kw):
            assert not seqs_layout.packed and not seqs_layout.padded
            return self.run(torch.zeros(seqs.size(0), dtype=torch.int64), seqs, state_bag)

    class S2S(Seq2SeqModel, Core):
        def forward(self, source_seqs, source_seqs_layout, target_seqs, target_seqs_layout, targets=None, *, state_bag=None, **kw):
            # The sum of the real tokens of each source.
            src = torch.stack([s[:n].sum() for s, n in zip(source_seqs, source_seqs_layout.seq_lens)])
            return self.run(src, target_seqs, state_bag)

    return LM, S2S


def processors(procs):
    from fairseq2.generation.step_processor import BannedSequenceProcessor, NGramRepeatBlockProcessor

    return [NGramRepeatBlockProcessor(p["n"]) if p["k"] == "ngram" else BannedSequenceProcessor([torch.tensor(q) - 1 for q in p["seqs"]]) for p in procs]


def batch(seqs, pad):
    """A batch of sequences of tokens 1..V."""
    from fairseq2.nn import BatchLayout

    n = max(len(s) for s in seqs)
    t = torch.full((len(seqs), n), pad, dtype=torch.int64)
    for i, s in enumerate(seqs):
        t[i, : len(s)] = torch.tensor(s) - 1
    return t, BatchLayout.of(t, [len(s) for s in seqs])


def case(rng, beam):
    """The configuration of one batch of prompts, as the specification sees it."""
    V = rng.randrange(max(6, 2 * beam + 4), 2 * beam + 9) if rng.random() < 0.7 else rng.randrange(4, 7)
    toks = list(range(1, V + 1))
    rng.shuffle(toks)
    eos = toks[0]
    pad = toks[1] if rng.random() < 0.7 else 0
    unk = toks[2] if rng.random() < 0.6 else 0
    free = [t for t in range(1, V + 1) if t != pad]
    n = rng.randrange(1, 5)
    plens = [rng.randrange(1, 6) for _ in range(n)] if rng.random() < 0.7 else [rng.randrange(1, 6)] * n
    # prompts may hold anything: EOS, UNK, tokens that are forbidden further on
    prompts = [[rng.choice(free if rng.random() < 0.9 else list(range(1, V + 1))) for _ in range(k)] for k in plens]
    s2s = rng.random() < 0.4
    sources = [[rng.randrange(1, 20) for _ in range(rng.randrange(1, 5))] for _ in range(n)] if s2s else []
    procs = []
    if rng.random() < 0.3:
        procs.append({"k": "ngram", "n": rng.randrange(2, 4), "seqs": []})
    if rng.random() < 0.3:
        procs.append({"k": "seqs", "n": 0, "seqs": [[rng.choice(free) for _ in range(rng.randrange(1, 4))] for _ in range(rng.randrange(1, 3))]})
    mingen = rng.choice([1, 1, 2, 3])
    maxgen = mingen + rng.randrange(0, 6)
    longest = max(plens)
    maxseq = rng.choice([100, 100, longest + 1, longest + rng.randrange(1, 7)])
    return {
        "V": V, "eos": eos, "pad": pad, "unk": unk, "B": beam, "prompts": prompts, "sources": sources,
        "procs": procs, "mingen": mingen, "maxgen": maxgen, "maxseq": maxseq,
        "echo": rng.random() < 0.5, "norm": rng.random() < 0.7, "len_penalty": rng.choice([0.0, 0.5, 1.0, 1.0, 2.0]),
        "temperature": rng.choice([1.0, 0.5, 2.0]), "shift": rng.choice([0.0, 3.0]),
        "unk_penalty": rng.choice([0.0, 0.7, 2.0]) if unk else 0.0,
        "chunk": rng.choice([None, 1, 2, 3, 512]), "capacity": rng.choice([None, 1, 16]),
        "spread": rng.choice([0.8, 1.5, 2.5]), "seed": rng.randrange(1 << 30), "model_max": rng.random() < 0.3,
        "gens": rng.randrange(1, 5), "scores": rng.random() < 0.8,
    }


def build(c):
    """The model, prompts and generator arguments of a case."""
    import random

    from fairseq2.data.tokenizers import VocabularyInfo

    rng = random.Random(c["seed"])
    lp = table(rng, c["V"], c["spread"])
    LM, S2S = models()
    s2s = bool(c["sources"])
    limit = c["maxseq"] if c["model_max"] else 200
    model = S2S(100, limit) if s2s else LM(limit)
    model.setup(lp, c["temperature"], c["shift"])
    vocab = VocabularyInfo(size=c["V"], unk_idx=c["unk"] - 1 if c["unk"] else None, bos_idx=None, eos_idx=c["eos"] - 1, pad_idx=c["pad"] - 1 if c["pad"] else None)
    padding = c["pad"] - 1 if c["pad"] else 0
    args = list(batch(c["prompts"], padding))
    if s2s:
        args = list(batch(c["sources"], 17)) + args
        longest = max(len(s) for s in c["sources"])
        # maxgen = int(0.5 longest + b)
        maxgen = (0.5, c["maxgen"] - int(0.5 * longest))
    else:
        maxgen = c["maxgen"]
    kw = dict(
        min_gen_len=c["mingen"], max_gen_len=maxgen, max_seq_len=None if c["model_max"] else c["maxseq"], echo_prompt=c["echo"], normalize_scores=c["norm"],
        temperature=c["temperature"], unk_penalty=c["unk_penalty"], len_penalty=c["len_penalty"], prefill_chunk_size=c["chunk"], decode_capacity_increment=c["capacity"],
        step_processors=processors(c["procs"]),
    )
    return s2s, lp, model, vocab, args, kw


def config(c, lp):
    """The configuration for the specification."""
    srcs = [sum(x - 1 for x in s) for s in c["sources"]] or [0] * len(c["prompts"])
    keep = ("V", "eos", "pad", "unk", "B", "prompts", "procs", "mingen", "maxgen", "maxseq", "echo", "norm", "gens", "scores")
    return {k: c[k] for k in keep} | {
        "srcs": srcs,
        "strict": False,
        "pen": units(c["unk_penalty"]),
        "lp": [[units(x) for x in row] for row in lp],
        "pow": [round(1000 * n ** c["len_penalty"]) for n in range(1, 120)],
    }
