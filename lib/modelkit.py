"""Tiny random models of every family, built by the real factories."""
from __future__ import annotations

import math

import torch
import fairseq2.recipe  # noqa: F401


def randomize(model, seed, gain=1.0):
    """Give every parameter a random value (initial zeros would hide errors)."""
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for name, p in model.named_parameters():
            if p.ndim >= 2:
                fan = p[0].numel()
                std = gain / math.sqrt(fan)
                p.copy_(torch.randn(p.shape, generator=g) * std)
            elif name.endswith("bias"):
                p.copy_(torch.randn(p.shape, generator=g) * 0.3)
            else:
                p.copy_(1 + torch.randn(p.shape, generator=g) * 0.2)
    return model


def heads_of(rng, mult=2):
    kv = rng.choice([1, 2])
    return kv * rng.choice([1, 2, 3]), kv


def lm_desc(rng, family, *, max_seq_len=48, vocab=23):
    """A JSON-able description of a random tiny model of a decoder-only family."""
    nh, kv = heads_of(rng)
    hd = rng.choice([4, 8])
    d = dict(family=family, nh=nh, kv=kv, hd=hd, layers=rng.randint(1, 3), vocab=vocab, max_seq_len=max_seq_len, tied=rng.random() < 0.5, seed=rng.randrange(1 << 30))
    if family == "llama":
        d.update(scaled=rng.random() < 0.4, octx=rng.choice([4, 16, 64]))
    elif family == "llama4":
        d.update(chunk=rng.choice([2, 3, 4, 7, 100]), nope=rng.choice([None, 1, 2]), qk=rng.random() < 0.5, moe=rng.random() < 0.5, top_k=rng.choice([1, 2]), shared=rng.random() < 0.7)
    elif family == "mistral":
        d.update(window=rng.choice([1, 2, 3, 4, 5, 7, 100]))
    elif family == "qwen":
        d.update(head_dim=rng.choice([None, 4, 8]), qkv_bias=rng.random() < 0.5, qn=rng.random() < 0.5, kn=rng.random() < 0.5)
    elif family == "olmo":
        w = rng.choice([None, 1, 2, 3, 5, 8])
        types = None
        if w is not None and rng.random() < 0.6:
            types = [rng.choice(["sliding_attention", "full_attention"]) for _ in range(d["layers"])]
        d.update(window=w, types=types, yarn=rng.random() < 0.4, yfactor=rng.choice([1.0, 4.0, 8.0]), octx=rng.choice([8, 16, 256]))
    elif family == "gemma3n":
        n = rng.choice([2, 3, 6, 7, 8])
        shared = 0
        if n >= 6 and rng.random() < 0.75:
            # a source of both types (local and global) must precede the consumers
            shared = rng.randint(1, n - 5)
        d.update(layers=n, window=rng.choice([1, 2, 3, 5, 64]), kv_shared=shared, altup=rng.choice([2, 3]), ple=4)
    return d


LM_FAMILIES = ["llama", "llama4", "mistral", "qwen", "olmo", "gemma3n"]


def lm_config(d):
    f = d["family"]
    dim = d["nh"] * d["hd"]
    common = dict(model_dim=dim, max_seq_len=d["max_seq_len"], vocab_size=d["vocab"], num_layers=d["layers"], num_attn_heads=d["nh"], num_key_value_heads=d["kv"])
    if f == "llama":
        from fairseq2.models.llama.config import LLaMAConfig, LLaMARoPEScaleConfig

        return LLaMAConfig(**common, tied_embeddings=d["tied"], shard_embed_dim=not d["tied"], ffn_inner_dim=dim * 2, ffn_inner_dim_multiple_of=d.get("ffn_mult", 4), use_scaled_rope=d["scaled"], rope_scale=LLaMARoPEScaleConfig(original_context_length=d["octx"]), pad_idx=d.get("pad_idx"))
    if f == "llama4":
        from fairseq2.models.llama4.config import Llama4Config, Llama4ExpertsConfig

        ex = Llama4ExpertsConfig(num_experts=3, use_shared_expert=d["shared"], top_k=d["top_k"], interleave_moe_layer_step=2 if d["moe"] else 100)
        return Llama4Config(**common, tied_embeddings=d["tied"], shard_embed_dim=not d["tied"], ffn_inner_dim=dim * 2, ffn_inner_dim_multiple_of=4, experts=ex, attention_chunk_size=d["chunk"], use_qk_norm=d["qk"], nope_layer_interval=d["nope"])
    if f == "mistral":
        from fairseq2.models.mistral.config import MistralConfig

        return MistralConfig(**common, attn_window_len=d["window"], ffn_inner_dim=dim * 2)
    if f == "qwen":
        from fairseq2.models.qwen.config import QwenConfig

        return QwenConfig(**common, tied_embeddings=d["tied"], head_dim=d["head_dim"], qkv_proj_bias=d["qkv_bias"], q_norm=d["qn"], k_norm=d["kn"], ffn_inner_dim=dim * 2)
    if f == "olmo":
        from fairseq2.models.olmo.config import OLMOConfig, YaRNScaleConfig

        y = YaRNScaleConfig(scale_factor=d["yfactor"], original_max_seq_len=d["octx"]) if d["yarn"] else None
        return OLMOConfig(**common, pad_idx=0, tied_embeddings=d["tied"], shard_embed_dim=not d["tied"], ffn_inner_dim=dim * 2, sliding_window=d["window"], layer_types=d["types"], yarn_scale_config=y)
    from fairseq2.models.gemma3n.config import Gemma3nConfig

    return Gemma3nConfig(**common, pad_idx=0, head_dim=d["hd"], ffn_inner_dim=dim * 2, altup_hidden_dim=dim * 2, sliding_window=d["window"], num_kv_shared_layers=d["kv_shared"], laurel_rank=3, altup_num_inputs=d["altup"], vocab_size_per_layer_input=d["vocab"], hidden_size_per_layer_input=d["ple"])


def lm_create(config, family):
    if family == "llama":
        from fairseq2.models.llama.factory import create_llama_model as f
    elif family == "llama4":
        from fairseq2.models.llama4.factory import create_llama4_model as f
    elif family == "mistral":
        from fairseq2.models.mistral.factory import create_mistral_model as f
    elif family == "qwen":
        from fairseq2.models.qwen.factory import create_qwen_model as f
    elif family == "olmo":
        from fairseq2.models.olmo.factory import create_olmo_model as f
    else:
        from fairseq2.models.gemma3n.factory import create_gemma3n_model as f
    return f(config)


def make_lm(d):
    torch.manual_seed(d["seed"])
    return randomize(lm_create(lm_config(d), d["family"]), d["seed"], gain=1.3).eval()


S2S_FAMILIES = ["nllb", "s2t_transformer", "s2t_conformer"]


def s2s_desc(rng, family, *, vocab=23):
    nh = rng.choice([1, 2])
    return dict(family=family, nh=nh, dnh=rng.choice([1, 2]), hd=8, enc=rng.randint(1, 2), dec=rng.randint(1, 3), vocab=vocab, rel=rng.random() < 0.5, seed=rng.randrange(1 << 30))


def s2s_config(d):
    f = d["family"]
    dim = d["nh"] * d["hd"] * 2
    if f == "nllb":
        from fairseq2.models.nllb.config import NllbConfig

        return NllbConfig(model_dim=dim, max_seq_len=64, vocab_size=d["vocab"], pad_idx=0, num_encoder_layers=d["enc"], num_decoder_layers=d["dec"], num_encoder_attn_heads=d["nh"], num_decoder_attn_heads=d["dnh"], ffn_inner_dim=dim * 2, dropout_p=0.1)
    if f == "s2t_transformer":
        from fairseq2.models.s2t_transformer.config import S2TTransformerConfig

        return S2TTransformerConfig(model_dim=dim, max_source_seq_len=64, num_fbank_channels=6, max_target_seq_len=64, target_vocab_size=d["vocab"], pad_idx=1, num_encoder_layers=d["enc"], num_decoder_layers=d["dec"], num_encoder_attn_heads=d["nh"], num_decoder_attn_heads=d["dnh"], ffn_inner_dim=dim * 2, dropout_p=0.1)
    from fairseq2.models.s2t_conformer.config import S2TConformerConfig

    return S2TConformerConfig(model_dim=dim, max_source_seq_len=64, num_fbank_channels=6, max_target_seq_len=64, target_vocab_size=d["vocab"], pad_idx=1, use_relative_pos=d["rel"], num_encoder_layers=d["enc"], num_decoder_layers=d["dec"], num_encoder_attn_heads=d["nh"], num_decoder_attn_heads=d["dnh"], depthwise_conv_kernel_size=5, ffn_inner_dim=dim * 2, dropout_p=0.1)


def make_s2s(d):
    f = d["family"]
    if f == "nllb":
        from fairseq2.models.nllb.factory import create_nllb_model as c
    elif f == "s2t_transformer":
        from fairseq2.models.s2t_transformer.factory import create_s2t_transformer_model as c
    else:
        from fairseq2.models.s2t_conformer.factory import create_s2t_conformer_model as c
    torch.manual_seed(d["seed"])
    return randomize(c(s2s_config(d)), d["seed"], gain=1.3).eval()


def w2v2_desc(rng):
    conf = rng.random() < 0.4
    return dict(
        family="wav2vec2", nh=rng.choice([1, 2]), hd=8, fbank=rng.random() < 0.4, conformer=conf, pos=rng.choice(["conv", "conv", "relative", "rotary"]),
        depth=rng.choice([1, 1, 2, 3]), kernel=rng.choice([3, 4, 7, 8]), groups=rng.choice([1, 2]), layers=rng.randint(1, 2), pre=(not conf) and rng.random() < 0.5,
        bias=rng.random() < 0.5, descs=rng.choice([[[12, 4, 2], [12, 2, 2]], [[8, 5, 3], [16, 3, 2], [12, 2, 1]]]), stride=rng.choice([1, 2, 3]), lnf=rng.random() < 0.5, seed=rng.randrange(1 << 30),
    )


def w2v2_encoder_config(d):
    from fairseq2.models.transformer import TransformerNormOrder
    from fairseq2.models.wav2vec2.config import Wav2Vec2EncoderConfig

    dim = d["nh"] * d["hd"]
    return Wav2Vec2EncoderConfig(
        model_dim=dim, max_seq_len=64, feature_dim=4 * d["stride"] if d["fbank"] else 12, use_fbank=d["fbank"], layer_norm_features=d["lnf"],
        feature_extractor_layer_descs=[tuple(x) for x in d["descs"]], feature_extractor_bias=d["bias"], feature_extractor_layer_norm_convs=True,
        feature_grad_scale=1.0, num_fbank_channels=4 if d["fbank"] else 0, fbank_stride=d["stride"] if d["fbank"] else 0, sample_fbank_every_k=1 if d["fbank"] else 0,
        pos_encoder_type=d["pos"], pos_encoder_depth=d["depth"], pos_conv_kernel_size=d["kernel"], num_pos_conv_groups=d["groups"],
        use_conformer=d["conformer"], num_encoder_layers=d["layers"], num_encoder_attn_heads=d["nh"], ffn_inner_dim=dim * 2, dropout_p=0.1, attn_dropout_p=0.1,
        layer_drop_p=0.05, norm_order=TransformerNormOrder.PRE if d["pre"] else TransformerNormOrder.POST, depthwise_conv_kernel_size=5 if d["conformer"] else 0,
    )


def make_w2v2_asr(d, vocab=11):
    from fairseq2.models.wav2vec2.asr.config import Wav2Vec2AsrConfig
    from fairseq2.models.wav2vec2.asr.factory import create_wav2vec2_asr_model

    torch.manual_seed(d["seed"])
    cfg = Wav2Vec2AsrConfig(encoder_config=w2v2_encoder_config(d), target_vocab_size=vocab, use_masking=False)
    return randomize(create_wav2vec2_asr_model(cfg), d["seed"], gain=1.3).eval()
