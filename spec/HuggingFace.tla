------------------------------ MODULE HuggingFace ------------------------------
(* Exporting a model to Hugging Face Transformers.                               *)
(*                                                                               *)
(* fairseq2 and Transformers name the parameters of the same architecture        *)
(* differently, and lay out the rows of the query and key projections of LLaMA   *)
(* models differently: fairseq2 rotates neighbouring coordinates (2k, 2k+1) of a *)
(* head together, Transformers the coordinates (k, k + D/2).  An export is right *)
(* if a model that Transformers builds from the exported configuration takes     *)
(* exactly the exported tensors, every tensor holds the rows of the parameter it *)
(* stands for in the order Transformers expects, and hence computes the same     *)
(* function; and if importing the export gives back the model.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

(* --- Rotary rows ------------------------------------------------------------ *)
(* The coordinates of a head of size D that are rotated together, and at which   *)
(* frequency: pair k, coordinates first and second.                              *)
Neighbours(D) == {<<k, 2 * k, (2 * k) + 1>> : k \in 0..((D \div 2) - 1)}
Halves(D)     == {<<k, k, k + (D \div 2)>> : k \in 0..((D \div 2) - 1)}
(* Row of fairseq2 that row r of the exported projection holds.                  *)
Source(D, r) ==
    LET h == r \div D  i == r % D
        k == i % (D \div 2)  c == i \div (D \div 2) IN
    (h * D) + (2 * k) + c
(* Row of the export that row r of the imported projection holds.                *)
Back(D, r) ==
    LET h == r \div D  i == r % D
        k == i \div 2  c == i % 2 IN
    (h * D) + k + (c * (D \div 2))

(* --- Names ------------------------------------------------------------------ *)
(* Pairs of names in fairseq2 and in Transformers; # stands for a number.        *)
Stem == {<<"decoder_frontend.embed.weight", "model.embed_tokens.weight">>,
         <<"decoder.layer_norm.weight", "model.norm.weight">>,
         <<"final_proj.weight", "lm_head.weight">>}
Layer(fs, hf) == <<"decoder.layers.#." \o fs, "model.layers.#." \o hf>>
Projections == {Layer("self_attn.q_proj.weight", "self_attn.q_proj.weight"),
                Layer("self_attn.k_proj.weight", "self_attn.k_proj.weight"),
                Layer("self_attn.v_proj.weight", "self_attn.v_proj.weight"),
                Layer("self_attn.output_proj.weight", "self_attn.o_proj.weight"),
                Layer("ffn.gate_proj.weight", "mlp.gate_proj.weight"),
                Layer("ffn.inner_proj.weight", "mlp.up_proj.weight"),
                Layer("ffn.output_proj.weight", "mlp.down_proj.weight")}
PreNorms == {Layer("self_attn_layer_norm.weight", "input_layernorm.weight"),
             Layer("ffn_layer_norm.weight", "post_attention_layernorm.weight")}
PostNorms == {Layer("self_attn_layer_norm.weight", "post_attention_layernorm.weight"),
              Layer("ffn_layer_norm.weight", "post_feedforward_layernorm.weight")}
HeadNorms == {Layer("self_attn.q_norm.weight", "self_attn.q_norm.weight"),
              Layer("self_attn.k_norm.weight", "self_attn.k_norm.weight")}
Biases == {Layer("self_attn.q_proj.bias", "self_attn.q_proj.bias"),
           Layer("self_attn.k_proj.bias", "self_attn.k_proj.bias"),
           Layer("self_attn.v_proj.bias", "self_attn.v_proj.bias")}
(* The reference implementation of LLaMA has names of its own, and the rotary    *)
(* layout of fairseq2.                                                           *)
Ref == {<<"decoder_frontend.embed.weight", "tok_embeddings.weight">>,
        <<"decoder.layer_norm.weight", "norm.weight">>,
        <<"final_proj.weight", "output.weight">>,
        <<"decoder.layers.#.self_attn.q_proj.weight", "layers.#.attention.wq.weight">>,
        <<"decoder.layers.#.self_attn.k_proj.weight", "layers.#.attention.wk.weight">>,
        <<"decoder.layers.#.self_attn.v_proj.weight", "layers.#.attention.wv.weight">>,
        <<"decoder.layers.#.self_attn.output_proj.weight", "layers.#.attention.wo.weight">>,
        <<"decoder.layers.#.self_attn_layer_norm.weight", "layers.#.attention_norm.weight">>,
        <<"decoder.layers.#.ffn.gate_proj.weight", "layers.#.feed_forward.w1.weight">>,
        <<"decoder.layers.#.ffn.output_proj.weight", "layers.#.feed_forward.w2.weight">>,
        <<"decoder.layers.#.ffn.inner_proj.weight", "layers.#.feed_forward.w3.weight">>,
        <<"decoder.layers.#.ffn_layer_norm.weight", "layers.#.ffn_norm.weight">>}
GStem == {<<"decoder_frontend.embed.weight", "model.language_model.embed_tokens.weight">>,
          <<"decoder_frontend.embed_tokens_per_layer.weight", "model.language_model.embed_tokens_per_layer.weight">>,
          <<"decoder_frontend.per_layer_model_projection.weight", "model.language_model.per_layer_model_projection.weight">>,
          <<"decoder_frontend.per_layer_projection_norm.weight", "model.language_model.per_layer_projection_norm.weight">>,
          <<"decoder.altup_projections.#.weight", "model.language_model.altup_projections.#.weight">>,
          <<"decoder.altup_unembed_projections.#.weight", "model.language_model.altup_unembed_projections.#.weight">>,
          <<"decoder.layer_norm.weight", "model.language_model.norm.weight">>,
          <<"final_proj.proj.weight", "lm_head.weight">>}
GLayer(fs, hf) == <<"decoder.layers.#." \o fs, "model.language_model.layers.#." \o hf>>
GSame == {"self_attn.q_proj.weight", "self_attn.k_proj.weight", "self_attn.v_proj.weight", "self_attn.q_norm.weight", "self_attn.k_norm.weight",
          "input_layernorm.weight", "post_attention_layernorm.weight", "pre_feedforward_layernorm.weight", "post_feedforward_layernorm.weight",
          "laurel.linear_left.weight", "laurel.linear_right.weight", "laurel.post_laurel_norm.weight",
          "altup.correct_output_scale", "altup.correction_coefs.weight", "altup.prediction_coefs.weight", "altup.modality_router.weight", "altup.router_norm.weight",
          "per_layer_input_gate.weight", "per_layer_projection.weight", "post_per_layer_input_norm.weight"}
GLayers == {GLayer(n, n) : n \in GSame} \cup
           {GLayer("self_attn.output_proj.weight", "self_attn.o_proj.weight"), GLayer("ffn.gate_proj.weight", "mlp.gate_proj.weight"),
            GLayer("ffn.inner_proj.weight", "mlp.up_proj.weight"), GLayer("ffn.output_proj.weight", "mlp.down_proj.weight")}
ALayer(fs, hf) == <<"audio_tower.encoder.layers.#." \o fs, "model.audio_tower.conformer.#." \o hf>>
AStem == {<<"audio_tower.subsample.conv_0.weight", "model.audio_tower.subsample_conv_projection.conv_0.conv.weight">>,
          <<"audio_tower.subsample.norm_0.weight", "model.audio_tower.subsample_conv_projection.conv_0.norm.weight">>,
          <<"audio_tower.subsample.conv_1.weight", "model.audio_tower.subsample_conv_projection.conv_1.conv.weight">>,
          <<"audio_tower.subsample.norm_1.weight", "model.audio_tower.subsample_conv_projection.conv_1.norm.weight">>,
          <<"audio_tower.subsample.proj.weight", "model.audio_tower.subsample_conv_projection.input_proj_linear.weight">>,
          <<"audio_tower.embedder.embedding.weight", "model.embed_audio.embedding.weight">>,
          <<"audio_tower.embedder.hard_embedding_norm.weight", "model.embed_audio.hard_embedding_norm.weight">>,
          <<"audio_tower.embedder.soft_embedding_norm.weight", "model.embed_audio.soft_embedding_norm.weight">>,
          <<"audio_tower.embedder.embedding_projection.weight", "model.embed_audio.embedding_projection.weight">>}
ALayers == {ALayer("self_attn_layer_norm.weight", "attention.pre_attn_norm.weight"),
            ALayer("self_attn.q_proj.weight", "attention.attn.q_proj.weight"),
            ALayer("self_attn.k_proj.weight", "attention.attn.k_proj.weight"),
            ALayer("self_attn.v_proj.weight", "attention.attn.v_proj.weight"),
            ALayer("self_attn.sdpa.per_dim_scale", "attention.attn.per_dim_scale"),
            ALayer("self_attn.sdpa.pos_proj.weight", "attention.attn.relative_position_embedding.pos_proj.weight"),
            ALayer("self_attn.output_proj.weight", "attention.post.weight"),
            ALayer("self_attn_post_norm.weight", "attention.post_norm.weight"),
            ALayer("ffn1_layer_norm.weight", "ffw_layer_start.pre_layer_norm.weight"),
            ALayer("ffn1.inner_proj.weight", "ffw_layer_start.ffw_layer_1.weight"),
            ALayer("ffn1.output_proj.weight", "ffw_layer_start.ffw_layer_2.weight"),
            ALayer("ffn1_post_layer_norm.weight", "ffw_layer_start.post_layer_norm.weight"),
            ALayer("conv_layer_norm.weight", "lconv1d.pre_layer_norm.weight"),
            ALayer("conv.pointwise_conv1.weight", "lconv1d.linear_start.weight"),
            ALayer("conv.depthwise_conv.weight", "lconv1d.depthwise_conv1d.weight"),
            ALayer("conv.layer_norm.weight", "lconv1d.conv_norm.weight"),
            ALayer("conv.pointwise_conv2.weight", "lconv1d.linear_end.weight"),
            ALayer("ffn2_layer_norm.weight", "ffw_layer_end.pre_layer_norm.weight"),
            ALayer("ffn2.inner_proj.weight", "ffw_layer_end.ffw_layer_1.weight"),
            ALayer("ffn2.output_proj.weight", "ffw_layer_end.ffw_layer_2.weight"),
            ALayer("ffn2_post_layer_norm.weight", "ffw_layer_end.post_layer_norm.weight"),
            ALayer("layer_norm.weight", "norm.weight")}
Families == {"llama", "ref", "qwen2", "qwen3", "olmo", "gemma", "audio"}
Names(fam) ==
    CASE fam = "llama" -> Stem \cup Projections \cup PreNorms
      [] fam = "ref"   -> Ref
      [] fam = "qwen2" -> Stem \cup Projections \cup PreNorms \cup Biases
      [] fam = "qwen3" -> Stem \cup Projections \cup PreNorms \cup HeadNorms
      [] fam = "olmo"  -> Stem \cup Projections \cup PostNorms \cup HeadNorms
      [] fam = "gemma" -> GStem \cup GLayers
      [] fam = "audio" -> AStem \cup ALayers
(* The reference format keeps the tied projection.                               *)
Dropped(c) == IF c.fam \in {"llama", "qwen2", "qwen3", "olmo"} /\ c.tied THEN {"final_proj.weight"} ELSE {}
HasName(fam, fs) == \E p \in Names(fam) : p[1] = fs
NameOf(fam, fs) == (CHOOSE p \in Names(fam) : p[1] = fs)[2]

(* Rows of the exported tensor, as rows of the tensor of fairseq2.               *)
Rows(c, fs, n) ==
    [i \in 1..n |-> IF c.fam = "llama" /\ fs \in {"decoder.layers.#.self_attn.q_proj.weight", "decoder.layers.#.self_attn.k_proj.weight"}
                    THEN Source(c.head, i - 1) ELSE i - 1]

(* --- Configuration ---------------------------------------------------------- *)
UpTo(n, m) == m * (((n + m) - 1) \div m)
(* Inner dimension of the feed forward networks of LLaMA; mult and scale are     *)
(* given as fractions.                                                           *)
Inner(c) ==
    IF c.fam /= "llama" THEN c.ffn
    ELSE LET a == (c.ffn * c.mult[1]) \div c.mult[2]
             b == (a * c.scale[1]) \div c.scale[2] IN UpTo(b, c.multiple)
(* Which layers attend through a window.                                         *)
Kinds(c) ==
    [i \in 1..c.layers |->
        IF c.window = 0 THEN "full_attention"
        ELSE IF c.fam = "gemma" THEN IF (i % 5) = 0 \/ i = c.layers THEN "full_attention" ELSE "sliding_attention"
        ELSE IF c.kinds /= <<>> THEN c.kinds[i]
        ELSE IF (i % 4) = 0 \/ i = c.layers THEN "full_attention" ELSE "sliding_attention"]
Class(c) ==
    CASE c.fam = "llama" -> "LlamaForCausalLM"
      [] c.fam = "qwen2" -> "Qwen2ForCausalLM"
      [] c.fam = "qwen3" -> "Qwen3ForCausalLM"
      [] c.fam = "olmo"  -> IF c.window > 0 THEN "Olmo3ForCausalLM" ELSE "Olmo2ForCausalLM"
      [] c.fam = "gemma" -> "Gemma3nForConditionalGeneration"
(* What the exported configuration says; numbers that are not whole are given in *)
(* thousandths (rope) or billionths (eps).                                       *)
Exported(c) ==
    [arch |-> Class(c), model |-> c.model, inner |-> Inner(c), layers |-> c.layers, heads |-> c.heads, kv |-> c.kv, head |-> c.head,
     vocab |-> c.vocab, len |-> c.len, tied |-> c.tied, eps |-> c.eps,
     window |-> IF \E i \in 1..c.layers : Kinds(c)[i] = "sliding_attention" THEN c.window ELSE 0,
     kinds |-> Kinds(c), rope |-> c.rope]
(* Tensors of fairseq2 that a Transformers model of these dimensions has no use  *)
(* for: the keys and values of the layers that use those of another one.         *)
Unused(c) ==
    IF c.fam = "gemma"
    THEN {<<i, n>> : i \in (c.layers - c.shared)..(c.layers - 1), n \in {"self_attn.k_proj.weight", "self_attn.v_proj.weight", "self_attn.k_norm.weight"}}
    ELSE {}
===============================================================================
