"""Tiny models of the families of the library, with random weights."""

from __future__ import annotations

VOCAB = 17

# Builders return the model and what the self attention of its layers sees: [k, n, src],
# where src is the layer (from 1) whose keys the layer uses.


def _same(n, k="causal", size=0):
    return [{"k": k, "n": size, "src": i + 1} for i in range(n)]


def _llama(rng, window):
    from fairseq2.models.llama import LLaMAConfig, create_llama_model

    heads, tied, n = rng.choice([2, 4]), rng.random() < 0.5, rng.randrange(1, 3)
    model = create_llama_model(
        LLaMAConfig(
            model_dim=8 * heads, max_seq_len=40, vocab_size=VOCAB, tied_embeddings=tied, shard_embed_dim=not tied, num_layers=n, num_attn_heads=heads,
            num_key_value_heads=rng.choice([1, 2, heads]), ffn_inner_dim=24, ffn_inner_dim_multiple_of=8, use_scaled_rope=rng.random() < 0.3,
        )
    )
    return model, _same(n)


def _qwen(rng, window):
    from fairseq2.models.qwen import QwenConfig, create_qwen_model

    norm, n = rng.random() < 0.5, rng.randrange(1, 3)
    model = create_qwen_model(
        QwenConfig(
            model_dim=16, max_seq_len=40, vocab_size=VOCAB, tied_embeddings=rng.random() < 0.5, num_layers=n, num_attn_heads=4, num_key_value_heads=rng.choice([1, 2]),
            head_dim=rng.choice([None, 6]), qkv_proj_bias=rng.random() < 0.5, q_norm=norm, k_norm=norm, ffn_inner_dim=24,
        )
    )
    return model, _same(n)


def _mistral(rng, window):
    from fairseq2.models.mistral import MistralConfig, create_mistral_model

    n = rng.randrange(1, 3)
    model = create_mistral_model(
        MistralConfig(model_dim=16, max_seq_len=40, vocab_size=VOCAB, attn_window_len=window, num_layers=n, num_attn_heads=4, num_key_value_heads=rng.choice([1, 2, 4]), ffn_inner_dim=24)
    )
    return model, _same(n, "window", window)


def _olmo(rng, window):
    from fairseq2.models.olmo import OLMOConfig, create_olmo_model

    n = rng.randrange(1, 4)
    kinds = [rng.choice(["sliding_attention", "full_attention"]) for _ in range(n)]
    local = rng.random() < 0.7
    model = create_olmo_model(
        OLMOConfig(
            model_dim=16, max_seq_len=40, vocab_size=VOCAB, pad_idx=0, num_layers=n, num_attn_heads=4, num_key_value_heads=4, ffn_inner_dim=24,
            sliding_window=window if local else None, layer_types=kinds if local else None,
        )
    )
    return model, [x | {"k": "window", "n": window} if local and k == "sliding_attention" else x for x, k in zip(_same(n), kinds)]


def _llama4(rng, window):
    from fairseq2.models.llama4 import Llama4Config, create_llama4_model
    from fairseq2.models.llama4.config import Llama4ExpertsConfig

    n, nope = rng.randrange(1, 4), rng.choice([None, 2])
    model = create_llama4_model(
        Llama4Config(
            model_dim=16, max_seq_len=40, vocab_size=VOCAB, num_layers=n, num_attn_heads=2, num_key_value_heads=rng.choice([1, 2]), ffn_inner_dim=24, ffn_inner_dim_multiple_of=8,
            experts=Llama4ExpertsConfig(num_experts=2, interleave_moe_layer_step=2), attention_chunk_size=window, use_qk_norm=rng.random() < 0.5, nope_layer_interval=nope,
        )
    )
    return model, [x if nope and (i + 1) % nope == 0 else x | {"k": "chunk", "n": window} for i, x in enumerate(_same(n))]


def _gemma3n(rng, window):
    from fairseq2.models.gemma3n import Gemma3nConfig
    from fairseq2.models.gemma3n.factory import create_gemma3n_model

    layers, shared = rng.choice([(5, 0), (6, 0), (10, 0), (8, 3), (10, 5)])
    model = create_gemma3n_model(
        Gemma3nConfig(
            model_dim=16, max_seq_len=40, vocab_size=VOCAB, num_layers=layers, num_attn_heads=2, num_key_value_heads=1, head_dim=8, ffn_inner_dim=24, altup_hidden_dim=24,
            sliding_window=window, num_kv_shared_layers=shared, laurel_rank=4, vocab_size_per_layer_input=VOCAB, hidden_size_per_layer_input=4,
        )
    )
    kinds = _same(layers)
    for i, x in enumerate(kinds):
        if (i + 1) % 5 and i + 1 < layers:
            x |= {"k": "window", "n": window}
        if i >= layers - shared:  # uses the keys of the last layer of its kind that has its own
            x["src"] = max(y["src"] for y in kinds[: layers - shared] if y["k"] == x["k"])
    return model, kinds


def _nllb(rng, window):
    from fairseq2.models.nllb import NllbConfig, create_nllb_model

    n = rng.randrange(1, 3)
    model = create_nllb_model(
        NllbConfig(model_dim=16, max_seq_len=40, vocab_size=VOCAB, num_encoder_layers=rng.randrange(1, 3), num_decoder_layers=n, num_encoder_attn_heads=2, num_decoder_attn_heads=2, ffn_inner_dim=24)
    )
    return model, _same(n)


def _s2t(rng, window):
    from fairseq2.models.s2t_transformer import S2TTransformerConfig, create_s2t_transformer_model

    n = rng.randrange(1, 3)
    model = create_s2t_transformer_model(
        S2TTransformerConfig(
            model_dim=16, max_source_seq_len=40, num_fbank_channels=8, max_target_seq_len=40, target_vocab_size=VOCAB, num_encoder_layers=1, num_decoder_layers=n,
            num_encoder_attn_heads=2, num_decoder_attn_heads=2, ffn_inner_dim=24,
        )
    )
    return model, _same(n)


def _plain(rng, window):
    """A decoder of the generic parts: learned or sinusoidal positions, or ALiBi."""
    from fairseq2.models.transformer import ALiBiAttentionBias, CausalAttentionBias, FeedForwardNetwork, LocalAttentionStateFactory, StandardFeedForwardNetwork, StandardMultiheadAttention, TransformerEmbeddingFrontend, TransformerNormOrder, create_default_sdpa
    from fairseq2.models.transformer_lm import StandardTransformerLMDecoder, StandardTransformerLMDecoderLayer, TransformerLM
    from fairseq2.nn import LearnedPositionEncoder, Linear, SinusoidalPositionEncoder, StandardEmbedding, StandardLayerNorm

    kind = rng.choice(["alibi", "learned", "sin"])
    window = window if rng.random() < 0.6 and kind != "alibi" else None
    state = LocalAttentionStateFactory(window) if window and rng.random() < 0.6 else None
    order = rng.choice([TransformerNormOrder.PRE, TransformerNormOrder.POST])

    def norm():
        return StandardLayerNorm(16, bias=True)

    def layer():
        bias = ALiBiAttentionBias(4) if kind == "alibi" else CausalAttentionBias(attn_window_len=window)
        return StandardTransformerLMDecoderLayer(
            StandardMultiheadAttention(16, 4, create_default_sdpa(bias), num_key_value_heads=rng.choice([1, 2, 4]), state_factory=state), norm(), StandardFeedForwardNetwork(16, 24, bias=True), norm(), norm_order=order
        )

    pos = {"alibi": None, "learned": LearnedPositionEncoder(16, 40), "sin": SinusoidalPositionEncoder(16, 40)}[kind]
    front = TransformerEmbeddingFrontend(16, StandardEmbedding(VOCAB, 16, None), pos)
    n = rng.randrange(1, 3)
    dec = StandardTransformerLMDecoder([layer() for _ in range(n)], norm() if order == TransformerNormOrder.PRE else None)
    model = TransformerLM(16, front, dec, Linear(16, VOCAB, bias=False), rng.choice([None, 0]), 40)
    return model, _same(n, "alibi" if kind == "alibi" else "window" if window else "causal", window or 0)


def _encoder(rng, window):
    """An encoder of standard layers or Conformer blocks; packed batches only without convolutions."""
    from torch.nn import Module

    from fairseq2.models.conformer import ConformerBlock, ConformerConvolution
    from fairseq2.models.transformer import IdentityBias, RelativePositionalEncoding, RelativePositionSDPA, ShawRelativePositionSDPA, StandardFeedForwardNetwork, StandardMultiheadAttention, StandardTransformerEncoder, StandardTransformerEncoderLayer, TransformerNormOrder, create_default_sdpa
    from fairseq2.models.wav2vec2 import Wav2Vec2PositionEncoder
    from fairseq2.nn import LearnedPositionEncoder, RotaryEncoder, SinusoidalPositionEncoder, StandardLayerNorm

    conv, sdpa = rng.random() < 0.7, rng.choice(["default", "default", "relative", "shaw"])
    pos = rng.choice(["learned", "sin", "conv" if conv else "sin", "none"])
    rotary = RotaryEncoder(4, 40) if rng.random() < 0.5 and sdpa == "default" else None
    order = rng.choice([TransformerNormOrder.PRE, TransformerNormOrder.POST])

    def norm():
        return StandardLayerNorm(16, bias=True)

    def attn():
        if sdpa == "relative":
            impl = RelativePositionSDPA(16, 4, RelativePositionalEncoding(16, 40), IdentityBias())
        elif sdpa == "shaw":
            impl = ShawRelativePositionSDPA(16, 4, IdentityBias(), 3, max_rhs_rel_pos=rng.choice([None, 1]), use_rel_pos_values=rng.random() < 0.5)
        else:
            impl = create_default_sdpa(IdentityBias())
        return StandardMultiheadAttention(16, 4, impl, pos_encoder=rotary)

    def ffn():
        return StandardFeedForwardNetwork(16, 24, bias=True)

    def layer():
        if conv:
            cnn = ConformerConvolution(16, rng.choice([3, 4, 5]), causal_depthwise_conv=rng.random() < 0.5, norm_type=rng.choice(["batch_norm", "layer_norm"]))
            return ConformerBlock(norm(), ffn(), norm(), attn(), norm(), cnn, norm(), ffn(), norm())
        return StandardTransformerEncoderLayer(attn(), norm(), ffn(), norm(), norm_order=order)

    class Encoder(Module):
        def __init__(self, n):
            super().__init__()
            self.pos = {"learned": LearnedPositionEncoder(16, 40), "sin": SinusoidalPositionEncoder(16, 40), "conv": Wav2Vec2PositionEncoder(16, rng.choice([3, 4]), 2), "none": None}[pos]
            self.enc = StandardTransformerEncoder([layer() for _ in range(n)], norm() if order == TransformerNormOrder.PRE else None)

        def forward(self, seqs, layout):
            return self.enc(seqs if self.pos is None else self.pos(seqs, layout), layout)

    n = rng.randrange(1, 3)
    model = Encoder(n)
    model.vt_packs = not conv and sdpa == "default"
    return model, _same(n, "none")


LMS = {"llama": _llama, "qwen": _qwen, "mistral": _mistral, "olmo": _olmo, "llama4": _llama4, "gemma3n": _gemma3n, "plain": _plain}
S2S = {"nllb": _nllb, "s2t": _s2t}
ENCODERS = {"encoder": _encoder}


def make(family, seed, window, sdpa):
    """A model of the family in evaluation mode."""
    import random

    import torch

    from fairseq2.models.transformer import NaiveSDPA, TorchSDPA, set_default_sdpa_factory

    torch.manual_seed(seed)
    set_default_sdpa_factory(NaiveSDPA if sdpa == "naive" else TorchSDPA)
    model, layers = (LMS | S2S | ENCODERS)[family](random.Random(seed), window)
    model.vt_layers = layers
    model.eval()
    with torch.no_grad():
        for name, p in model.named_parameters():
            if "router" in name or ".experts." in name:  # left uninitialised by the model
                p.copy_(torch.randn_like(p) * 0.3)
            elif (p == 0).all() or (p == 1).all():
                p.add_(torch.randn_like(p) * 0.3)
    return model
