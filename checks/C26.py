"""C26: state dict conversion is lossless."""
import io
import os
import random
import re
import shutil
import subprocess
import sys
from contextlib import redirect_stderr, redirect_stdout

import torch

from vlib import Check, main, scratch

HG = ["llama", "qwen", "olmo", "gemma3n"]
REF = ["llama", "mistral", "llama4", "nllb", "s2t_transformer", "s2t_conformer", "wav2vec2", "wav2vec2_asr", "w2vbert", "jepa"]

# Names of the parameters in the original frameworks, written down from those
# frameworks: (pattern of the fairseq2 name, name there).
LLAMA_REF = [
    (r"decoder\.layers\.(\d+)\.self_attn\.q_proj\.", r"layers.\1.attention.wq."),
    (r"decoder\.layers\.(\d+)\.self_attn\.k_proj\.", r"layers.\1.attention.wk."),
    (r"decoder\.layers\.(\d+)\.self_attn\.v_proj\.", r"layers.\1.attention.wv."),
    (r"decoder\.layers\.(\d+)\.self_attn\.output_proj\.", r"layers.\1.attention.wo."),
    (r"decoder\.layers\.(\d+)\.self_attn_layer_norm\.", r"layers.\1.attention_norm."),
    (r"decoder\.layers\.(\d+)\.ffn\.gate_proj\.", r"layers.\1.feed_forward.w1."),
    (r"decoder\.layers\.(\d+)\.ffn\.output_proj\.", r"layers.\1.feed_forward.w2."),
    (r"decoder\.layers\.(\d+)\.ffn\.inner_proj\.", r"layers.\1.feed_forward.w3."),
    (r"decoder\.layers\.(\d+)\.ffn_layer_norm\.", r"layers.\1.ffn_norm."),
    (r"decoder\.layer_norm\.", r"norm."),
    (r"decoder_frontend\.embed\.", r"tok_embeddings."),
    (r"final_proj\.", r"output."),
]
FS_DECODER = [
    (r"decoder\.layers\.(\d+)\.self_attn\.output_proj\.", r"decoder.layers.\1.self_attn.out_proj."),
    (r"decoder\.layers\.(\d+)\.encoder_decoder_attn\.output_proj\.", r"decoder.layers.\1.encoder_attn.out_proj."),
    (r"decoder\.layers\.(\d+)\.encoder_decoder_attn\.", r"decoder.layers.\1.encoder_attn."),
    (r"decoder\.layers\.(\d+)\.encoder_decoder_attn_layer_norm\.", r"decoder.layers.\1.encoder_attn_layer_norm."),
    (r"decoder\.layers\.(\d+)\.ffn\.inner_proj\.", r"decoder.layers.\1.fc1."),
    (r"decoder\.layers\.(\d+)\.ffn\.output_proj\.", r"decoder.layers.\1.fc2."),
    (r"decoder\.layers\.(\d+)\.ffn_layer_norm\.", r"decoder.layers.\1.final_layer_norm."),
    (r"decoder_frontend\.embed\.", r"decoder.embed_tokens."),
    (r"final_proj\.", r"decoder.output_projection."),
]


def fs_encoder(fs2, fs):
    return [
        (fs2 + r"layers\.(\d+)\.self_attn\.output_proj\.", fs + r"layers.\1.self_attn.out_proj."),
        (fs2 + r"layers\.(\d+)\.ffn\.inner_proj\.", fs + r"layers.\1.fc1."),
        (fs2 + r"layers\.(\d+)\.ffn\.output_proj\.", fs + r"layers.\1.fc2."),
        (fs2 + r"layers\.(\d+)\.ffn_layer_norm\.", fs + r"layers.\1.final_layer_norm."),
        (fs2 + r"layers\.(\d+)\.", fs + r"layers.\1."),
    ]


def fs_conformer(fs2, fs):
    out = []
    for a, b in [
        (r"ffn([12])_layer_norm\.", r"ffn\2.layer_norm."), (r"ffn([12])\.inner_proj\.", r"ffn\2.w_1."), (r"ffn([12])\.output_proj\.", r"ffn\2.w_2."),
        (r"self_attn_layer_norm\.", "self_attn_layer_norm."), (r"self_attn\.q_proj\.", "self_attn.linear_q."), (r"self_attn\.k_proj\.", "self_attn.linear_k."),
        (r"self_attn\.v_proj\.", "self_attn.linear_v."), (r"self_attn\.output_proj\.", "self_attn.linear_out."), (r"self_attn\.sdpa\.r_proj\.", "self_attn.linear_pos."),
        (r"self_attn\.sdpa\.u_bias", "self_attn.pos_bias_u"), (r"self_attn\.sdpa\.v_bias", "self_attn.pos_bias_v"), (r"conv_layer_norm\.", "conv_module.layer_norm."),
        (r"conv\.pointwise_conv1\.", "conv_module.pointwise_conv1."), (r"conv\.depthwise_conv\.", "conv_module.depthwise_conv."), (r"conv\.batch_norm\.", "conv_module.batch_norm."),
        (r"conv\.pointwise_conv2\.", "conv_module.pointwise_conv2."), (r"layer_norm\.", "final_layer_norm."),
    ]:
        out.append((fs2 + r"layers\.(\d+)\." + a, fs + r"layers.\1." + b))
    return out


def w2v2_names(p=""):
    return fs_encoder(r"encoder\.", p + "encoder.") + [
        (r"encoder_frontend\.pos_encoder\.conv\.", p + "encoder.pos_conv.0."),
        (r"encoder_frontend\.pos_encoder\.layers\.(\d+)\.conv\.", p + r"encoder.pos_conv.\1.0."),
        (r"encoder_frontend\.feature_extractor\.layers\.(\d+)\.conv\.", p + r"feature_extractor.conv_layers.\1.0."),
        (r"encoder_frontend\.feature_extractor\.layers\.(\d+)\.layer_norm\.", p + r"feature_extractor.conv_layers.\1.2.1."),
        (r"encoder_frontend\.feature_extractor\.layers\.0\.group_norm\.", p + "feature_extractor.conv_layers.0.2."),
        (r"encoder_frontend\.post_extract_layer_norm\.", p + "layer_norm."),
        (r"encoder_frontend\.model_dim_proj\.", p + "post_extract_proj."),
        (r"encoder_frontend\.layer_norm\.", p + "encoder.layer_norm."),
        (r"encoder\.layer_norm\.", p + "encoder.layer_norm."),
        (r"masker\.temporal_mask_embed", p + "mask_emb"),
        (r"quantizer\.entries", p + "quantizer.vars"),
        (r"quantizer\.entry_proj\.", p + "quantizer.weight_proj."),
        (r"final_target_proj\.", p + "project_q."),
        (r"final_proj\.", "w2v_encoder.proj." if p else "final_proj."),
    ]


NAMES = {
    "llama": LLAMA_REF,
    "mistral": LLAMA_REF,
    "llama4": [
        (r"decoder\.layers\.(\d+)\.self_attn_layer_norm\.weight", r"layers.\1.attention.wqkv.layer_norm_weight"),
        (r"decoder\.layers\.(\d+)\.ffn\.router", r"layers.\1.feed_forward.router_DE"),
        (r"decoder\.layers\.(\d+)\.ffn\.shared_expert\.gate_proj\.", r"layers.\1.feed_forward.w_in_shared_FD."),
        (r"decoder\.layers\.(\d+)\.ffn\.shared_expert\.inner_proj\.", r"layers.\1.feed_forward.w_swiglu_FD."),
        (r"decoder\.layers\.(\d+)\.ffn\.shared_expert\.output_proj\.", r"layers.\1.feed_forward.w_out_shared_DF."),
        (r"decoder\.layers\.(\d+)\.ffn\.experts\.gate_proj", r"layers.\1.feed_forward.experts.moe_w_in_eD_F"),
        (r"decoder\.layers\.(\d+)\.ffn\.experts\.inner_proj", r"layers.\1.feed_forward.experts.moe_w_swiglu_eD_F"),
        (r"decoder\.layers\.(\d+)\.ffn\.experts\.output_proj", r"layers.\1.feed_forward.experts.moe_w_out_eF_D"),
        (r"decoder\.layers\.(\d+)\.ffn\.output_proj\.weight", r"layers.\1.feed_forward.mlp.fc2_weight"),
        *[x for x in LLAMA_REF if "ffn_layer" not in x[0] and "self_attn_layer" not in x[0]],
    ],
    "nllb": FS_DECODER + fs_encoder(r"encoder\.", "encoder.") + [(r"encoder_frontend\.embed\.", "encoder.embed_tokens."), (r"encoder_frontend\.layer_norm\.", "encoder.layernorm_embedding."), (r"decoder_frontend\.layer_norm\.", "decoder.layernorm_embedding.")],
    "s2t_transformer": FS_DECODER + fs_encoder(r"encoder\.", "encoder.transformer_") + [(r"encoder_frontend\.feature_extractor\.layers\.(\d+)\.conv\.", r"encoder.subsample.conv_layers.\1.")],
    "s2t_conformer": FS_DECODER + fs_conformer(r"encoder\.", "encoder.conformer_") + [(r"encoder_frontend\.feature_extractor\.layers\.(\d+)\.conv\.", r"encoder.subsample.conv_layers.\1."), (r"encoder_frontend\.proj\.", "encoder.linear.")],
    "wav2vec2": w2v2_names(),
    "wav2vec2_asr": w2v2_names("w2v_encoder.w2v_model."),
    "w2vbert": fs_conformer(r"w2v2_model\.encoder\.", "encoder.") + [
        (r"w2v2_model\.encoder_frontend\.post_extract_layer_norm\.", "layer_norm."), (r"w2v2_model\.encoder_frontend\.model_dim_proj\.", "post_extract_proj."),
        (r"w2v2_model\.encoder_frontend\.pos_encoder\.conv\.", "encoder.pos_conv.0."), (r"w2v2_model\.masker\.temporal_mask_embed", "mask_emb"), (r"w2v2_model\.quantizer\.entries", "quantizer.vars"),
        (r"w2v2_model\.quantizer\.entry_proj\.", "quantizer.weight_proj."), (r"w2v2_model\.final_proj\.", "final_proj."), (r"w2v2_model\.final_target_proj\.", "project_q."),
        (r"w2v2_model\.encoder\.layer_norm\.", "encoder.layer_norm."), (r"final_bert_proj\.", "mlm_proj."),
    ],
    "jepa": [
        (r"encoder\.layers\.(\d+)\.self_attn\.output_proj\.", r"module.backbone.blocks.\1.attn.proj."),
        (r"encoder\.layers\.(\d+)\.self_attn_layer_norm\.", r"module.backbone.blocks.\1.norm1."),
        (r"encoder\.layers\.(\d+)\.ffn\.inner_proj\.", r"module.backbone.blocks.\1.mlp.fc1."),
        (r"encoder\.layers\.(\d+)\.ffn\.output_proj\.", r"module.backbone.blocks.\1.mlp.fc2."),
        (r"encoder\.layers\.(\d+)\.ffn_layer_norm\.", r"module.backbone.blocks.\1.norm2."),
        (r"encoder\.layer_norm\.", "module.backbone.norm."),
        (r"encoder_frontend\.feature_extractor\.conv\.", "module.backbone.patch_embed.proj."),
    ],
}


def rename(key, names):
    for p, r in names:
        n, k = re.subn("^" + p, r, key)
        if k:
            return n
    return key


def fresh(sd):
    return {k: v.detach().clone() for k, v in sd.items()}


def same(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b)


class C26(Check):
    id = "C26"
    rule = "round trips reproduce every name and value; converted checkpoints load strictly on both sides; the outputs of the two frameworks agree (1e-4 relative)"
    required = ["kind_hg", "kind_ref", "kind_arch", "kind_keymap", "kind_cli", "hg_loaded", "outputs_equal", "round_trips", "many_layers", "tied", "refused", *("hg_" + f for f in HG), *("ref_" + f for f in REF)]
    assumptions = ["models that have no counterpart in Transformers (e.g. Qwen with query/key/value bias and query/key norm) are not exported", "the reference formats are restated in the check"]
    case_timeout = 240

    def gen(self, rng, tier):
        quick = tier == "quick"
        for i in range(100 if quick else 2500):
            yield self.hg_case(rng, HG[i % 4])
        for i in range(100 if quick else 2000):
            yield self.ref_case(rng, REF[i % len(REF)])
        for i in range(150 if quick else 3000):
            yield dict(kind="keymap", seed=rng.randrange(1 << 30))
        for f in ["llama", "qwen", "olmo", "gemma3n"]:
            for part in range(3):
                yield dict(kind="arch", family=f, part=part)
        for i in range(3 if quick else 24):
            d = self.hg_case(rng, HG[i % 3])
            yield dict(d, kind="cli")

    def hg_case(self, rng, f):
        from modelkit import lm_desc

        d = lm_desc(rng, f)
        if rng.random() < 0.15 and f != "gemma3n":
            d["layers"] = rng.randint(11, 13)
            if d.get("types"):
                d["types"] = [rng.choice(["sliding_attention", "full_attention"]) for _ in range(d["layers"])]
        if f == "llama":
            d["ffn_mult"] = rng.choice([1, 4, 8, 16])
            d["inner"], d["inner_scale"], d["inner_mul"] = rng.choice([2, 3, 4]), rng.choice([1.0, 2 / 3]), rng.choice([1.0, 1.3])
            d["theta"] = rng.choice([10000.0, 500000.0, 100.0])
        if f == "qwen":
            if d["qkv_bias"]:
                d.update(qn=False, kn=False, head_dim=rng.choice([None, d["hd"]]))
            else:
                d.update(qn=True, kn=True)
            d["theta"] = rng.choice([10000.0, 1000000.0, 50.0])
        if f == "olmo":
            d["theta"] = rng.choice([500000.0, 10000.0, 50.0])
            d["eps"] = rng.choice([1e-6, 1e-5, 1e-3])
            d["truncate"] = rng.random() < 0.7
        if f == "gemma3n":
            d["local"] = rng.choice([2, 3])
        return dict(kind="hg", family=f, model=d, seed=rng.randrange(1 << 30))

    def ref_case(self, rng, f):
        from modelkit import lm_desc, s2s_desc, w2v2_desc

        c = dict(kind="ref", family=f, seed=rng.randrange(1 << 30), wrap=rng.random() < 0.5, extras=rng.random() < 0.5, prefix=rng.random() < 0.15)
        if f in ("llama", "mistral", "llama4"):
            d = lm_desc(rng, f)
            d["tied"] = d["tied"] and f == "llama"
        elif f in ("nllb", "s2t_transformer", "s2t_conformer"):
            d = s2s_desc(rng, f)
        elif f == "jepa":
            d = dict(nh=rng.choice([1, 2]), hd=rng.choice([4, 12]), video=rng.random() < 0.5, layers=rng.randint(1, 3), bias=rng.random() < 0.7, seed=rng.randrange(1 << 30))
        else:
            d = w2v2_desc(rng)
            if f == "w2vbert":
                d.update(conformer=True, fbank=True, pos=rng.choice(["relative", "rotary"]), layers=rng.randint(2, 3), pre=False, lnf=rng.random() < 0.5)
            else:
                d.update(conformer=False, fbank=False, pos="conv", lnf=not d["pre"])  # as in fairseq
                if f == "wav2vec2_asr":
                    d["depth"] = 1
        if rng.random() < 0.12:
            n = rng.randint(11, 12)
            d.update({k: n for k in ("layers", "enc", "dec") if k in d})
        c["model"] = d
        return c

    def setup_worker(self):
        import modelkit  # noqa: F401
        import fairseq2
        import transformers
        import warnings

        fairseq2.init_fairseq2()
        transformers.utils.logging.set_verbosity(50)
        transformers.utils.logging.disable_progress_bar()
        warnings.filterwarnings("ignore")

    def run(self, c, obs):
        obs.count("kind_" + c["kind"])
        getattr(self, c["kind"])(c, obs)

    # -- Hugging Face ------------------------------------------------------

    def build(self, d):
        from modelkit import lm_config, lm_create, randomize

        cfg = lm_config(d)
        if d["family"] == "llama":
            cfg.ffn_inner_dim = cfg.model_dim * d["inner"]
            cfg.ffn_inner_dim_scale, cfg.ffn_inner_dim_multiplier = d["inner_scale"], d["inner_mul"]
        if "theta" in d:
            cfg.rope_theta = d["theta"]
        if "eps" in d:
            cfg.rms_norm_eps = d["eps"]
        if d.get("yarn") and d.get("window") is not None:
            cfg.yarn_scale_config.truncate = d["truncate"]
        if "local" in d:
            cfg.altup_hidden_dim = cfg.model_dim * d["local"]
        return cfg, lambda c: randomize(lm_create(c, d["family"]), d["seed"], gain=1.3).eval()

    def converter(self, f):
        from fairseq2.models.family import ModelFamily
        from fairseq2.models.hg import get_hugging_face_converter
        from fairseq2.runtime.dependency import get_dependency_resolver

        fam = get_dependency_resolver().resolve(ModelFamily, key=f)
        return get_hugging_face_converter(f), fam

    def export(self, f, sd, cfg, dir):
        from fairseq2.models.hg import HuggingFaceConfig, save_hugging_face_model

        conv, _ = self.converter(f)
        if f == "gemma3n":
            e = conv._exporter(sd, cfg)
            hc, hs = HuggingFaceConfig(e.config, e.config_kls_name, e.arch), e.state_dict
        else:
            hc, hs = conv.to_hg_config(cfg), conv.to_hg_state_dict(sd, cfg)
        if dir is not None:
            save_hugging_face_model(dir, hs, hc)
        return hc, hs

    def hg(self, c, obs):
        import copy

        from fairseq2.nn import BatchLayout

        d, f = c["model"], c["family"]
        cfg, make = self.build(d)
        model = make(copy.deepcopy(cfg))
        orig = fresh(model.state_dict())
        obs.count("hg_" + f)
        if d["layers"] > 10:
            obs.count("many_layers")
        if d["tied"]:
            obs.count("tied")
        dir = scratch("c26")
        try:
            hc, hs = self.export(f, model.state_dict(), cfg, dir)
            obs.count("tensors", len(hs))
            # Tied parameters are exported once.
            drop = 1 if d["tied"] or f == "gemma3n" else 0
            obs.check(len(hs) == len(orig) - drop, f"{f}-parameter-count", lambda: f"{len(orig)} parameters became {len(hs)}: {sorted(orig)} {sorted(hs)}")
            now = model.state_dict()
            obs.check(all(same(now[k], v) for k, v in orig.items()), f"{f}-model-changed", "the export changed the parameters of the model")
            self.check_hf(c, obs, f, d, dir, hc, hs, model)
            # And back, from the files.
            self.back(c, obs, f, cfg, make, dir, orig)
        finally:
            shutil.rmtree(dir, ignore_errors=True)

    def check_hf(self, c, obs, f, d, dir, hc, hs, model):
        import copy

        import transformers

        from fairseq2.nn import BatchLayout

        out = io.StringIO()
        with redirect_stdout(out), redirect_stderr(out):
            if f == "gemma3n":
                # The multimodal class needs a vision library; its language model does not.
                from safetensors.torch import load_file, save_file

                text = transformers.AutoConfig.from_pretrained(dir).text_config
                sub = dir / "text"
                text.save_pretrained(sub)
                sd = {}
                for p in dir.glob("*.safetensors"):
                    sd.update(load_file(p))
                save_file({k.replace("model.language_model.", "model."): v for k, v in sd.items()}, sub / "model.safetensors", metadata={"format": "pt"})
                hm, info = transformers.Gemma3nForCausalLM.from_pretrained(sub, output_loading_info=True, attn_implementation="eager", dtype=torch.float32)
                n = d["layers"] - d["kv_shared"]
                # Shared layers have no key/value parameters of their own in Transformers.
                info["unexpected_keys"] = [k for k in info["unexpected_keys"] if not ((m := re.match(r"model\.layers\.(\d+)\.self_attn\.(k_proj|v_proj|k_norm)\.", k)) and int(m[1]) >= n)]
                bad = {k: sorted(map(str, v))[:5] for k, v in info.items() if v}
            else:
                try:
                    hm, info = getattr(transformers, hc.arch).from_pretrained(dir, output_loading_info=True, attn_implementation="eager", dtype=torch.float32)
                except Exception as e:
                    obs.violate(f"{f}-hg-load", f"{type(e).__name__}: {str(e)[:300]} {out.getvalue()[-600:]}")
                    return
                bad = {k: sorted(map(str, v))[:5] for k, v in info.items() if v}
        obs.check(not bad, f"{f}-hg-not-strict", lambda: f"Transformers loads the export with {bad}")
        obs.count("hg_loaded")
        if d.get("yarn") and d.get("window") is not None:
            y = [hc.data["rope_scaling"], *hc.data.get("rope_parameters", {}).values()]
            obs.check(all(x.get("truncate") is d["truncate"] and x["factor"] == d["yfactor"] and x["rope_theta"] == d["theta"] for x in y), "olmo-yarn-config", lambda: str(y))
            if not d["truncate"]:
                return  # Transformers 5.22 ignores `truncate` of individual layer types.
        hm.eval()
        g = torch.Generator().manual_seed(c["seed"])
        n = random.Random(c["seed"]).randint(2, min(24, d["max_seq_len"]))
        x = torch.randint(1, d["vocab"], (2, n), generator=g)
        with torch.no_grad():
            a, b = model(x, BatchLayout.of(x)), hm(input_ids=x).logits
        scale = float(a.abs().max()) + 1e-6
        err = float((a - b).abs().max())
        limit = 2e-4 * scale
        if err > limit:
            # Some random models are ill-conditioned: allow what rounding of their parameters does.
            twin = copy.deepcopy(model)
            with torch.no_grad():
                for _ in range(4):
                    for p, q in zip(twin.parameters(), model.parameters()):
                        p.copy_(q * (1 + 1.2e-7 * torch.randn(q.shape, generator=g)))
                    limit = max(limit, min(5 * float((twin(x, BatchLayout.of(x)) - a).abs().max()), 0.02 * scale))
            obs.count("ill_conditioned")
        obs.check(err <= limit, f"{f}-hg-outputs", lambda: f"outputs differ by {err:.3g} (scale {scale:.3g}) after the export")
        obs.check(float(a.std()) > 1e-4, "trivial-outputs", "outputs are constant")
        obs.count("outputs_equal")

    def back(self, c, obs, f, cfg, make, dir, orig):
        import copy

        from safetensors.torch import load_file

        from fairseq2.models.utils.checkpoint import ModelCheckpointMismatchError, set_model_state
        from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER

        _, fam = self.converter(f)
        files = sorted(dir.glob("*.safetensors"))
        loaded = {}
        for p in files:
            loaded.update(load_file(p))
        back = fam._state_dict_converter(loaded, copy.deepcopy(cfg))
        tied = ["decoder_frontend.embed.weight", "final_proj.proj.weight"]
        if f == "gemma3n" and sum(k in back for k in tied) == 1:
            # One tensor with two names; either one restores both (checked below).
            orig2 = {k: v for k, v in orig.items() if k in back or k not in tied}
        else:
            orig2 = orig
        self.compare(obs, f"{f}-round-trip", orig2, back)
        torch.manual_seed(c["seed"] % 1000)
        other = make(copy.deepcopy(cfg))
        with torch.no_grad():
            for p in other.parameters():
                p.zero_()
        set_model_state(other, back.items(), NOOP_PROGRESS_REPORTER)
        got = other.state_dict()
        obs.check(all(same(got[k], v) for k, v in orig.items()), f"{f}-loaded", lambda: f"{[k for k, v in orig.items() if not same(got[k], v)][:5]} differ after loading")
        # A checkpoint that lacks or has one more parameter, or a wrong shape, must be refused.
        rng = random.Random(c["seed"] + 1)
        k = rng.choice([k for k in back if "embed" not in k and "final_proj" not in k])
        how = rng.choice(["missing", "extra", "shape"])
        bad = dict(back)
        if how == "missing":
            del bad[k]
        elif how == "extra":
            bad[k + "x"] = bad[k]
        else:
            v = bad[k]
            bad[k] = v.reshape(-1)[None] if v.ndim == 1 else v.reshape(-1)
        try:
            set_model_state(other, bad.items(), NOOP_PROGRESS_REPORTER)
            obs.violate("mismatch-accepted", f"a checkpoint with {how} {k} was loaded")
        except ModelCheckpointMismatchError as e:
            obs.check(k in str(e), "mismatch-message", lambda: f"{k} ({how}) not named in: {str(e)[:300]}")
            obs.count("refused")

    def compare(self, obs, what, want, got):
        missing, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
        obs.check(not missing and not extra, what + "-names", lambda: f"missing {missing[:6]} extra {extra[:6]}")
        diff = [k for k in want if k in got and not same(want[k], got[k])]
        obs.check(not diff, what + "-values", lambda: f"{len(diff)} parameters differ, first {diff[0]}: {tuple(want[diff[0]].shape)} {tuple(got[diff[0]].shape)}")
        obs.count("round_trips")
        obs.state((what, len(want)))

    # -- Reference formats ---------------------------------------------------

    def ref_model(self, c):
        import modelkit as K

        d, f = c["model"], c["family"]
        if f in ("llama", "mistral", "llama4"):
            cfg = K.lm_config(d)
            return cfg, K.make_lm(d)
        if f in ("nllb", "s2t_transformer", "s2t_conformer"):
            return K.s2s_config(d), K.make_s2s(d)
        torch.manual_seed(d["seed"])
        if f == "jepa":
            from fairseq2.models.jepa.config import JepaConfig, JepaEncoderConfig
            from fairseq2.models.jepa.factory import create_jepa_model

            dims = ((4, 8, 8), (2, 4, 4)) if d["video"] else ((8, 8), (4, 4))
            cfg = JepaConfig(encoder_config=JepaEncoderConfig(model_dim=d["nh"] * d["hd"], input_dims=dims[0], patch_dims=dims[1], num_encoder_layers=d["layers"], num_encoder_attn_heads=d["nh"], qkv_bias=d["bias"]))
            return cfg, K.randomize(create_jepa_model(cfg), d["seed"]).eval()
        ec = K.w2v2_encoder_config(d)
        if f == "wav2vec2_asr":
            from fairseq2.models.wav2vec2.asr.config import Wav2Vec2AsrConfig
            from fairseq2.models.wav2vec2.asr.factory import create_wav2vec2_asr_model

            cfg = Wav2Vec2AsrConfig(encoder_config=ec, target_vocab_size=11, use_masking=d["bias"])
            return cfg, K.randomize(create_wav2vec2_asr_model(cfg), d["seed"]).eval()
        from fairseq2.models.wav2vec2.config import Wav2Vec2Config
        from fairseq2.models.wav2vec2.factory import create_wav2vec2_model

        cfg = Wav2Vec2Config(encoder_config=ec, final_dim=8, quantized_dim=8, num_codebook_entries=4, num_codebooks=2)
        if f == "wav2vec2":
            return cfg, K.randomize(create_wav2vec2_model(cfg), d["seed"]).eval()
        from fairseq2.models.w2vbert.config import W2VBertConfig
        from fairseq2.models.w2vbert.factory import create_w2vbert_model

        ec.layer_drop_p = 0.0
        cfg = W2VBertConfig(w2v2_config=cfg, num_bert_encoder_layers=1, num_target_codebooks=1)
        return cfg, K.randomize(create_w2vbert_model(cfg), d["seed"]).eval()

    def ref(self, c, obs):
        from fairseq2.models.family import ModelFamily
        from fairseq2.models.utils.checkpoint import set_model_state
        from fairseq2.runtime.dependency import get_dependency_resolver
        from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER

        f, d = c["family"], c["model"]
        obs.count("ref_" + f)
        if max(d.get(k, 0) for k in ("layers", "enc", "dec")) > 10:
            obs.count("many_layers")
        cfg, model = self.ref_model(c)
        orig = fresh(model.state_dict())
        fam = get_dependency_resolver().resolve(ModelFamily, key=f)
        convert = fam._state_dict_converter
        if c["prefix"] and f in ("nllb", "s2t_transformer", "s2t_conformer", "wav2vec2", "wav2vec2_asr", "w2vbert"):
            # A fairseq2 model saved while wrapped by a data parallel module.
            back = convert({"model": {"module." + k: v for k, v in fresh(orig).items()}}, cfg)
            self.compare(obs, f"{f}-module-prefix", orig, back)
            return
        sd = self.to_ref(f, d, cfg, fresh(orig))
        n = len(sd)
        if c["extras"]:
            if f in ("nllb", "s2t_transformer", "s2t_conformer", "wav2vec2", "wav2vec2_asr", "w2vbert"):
                sd["encoder.version"] = torch.tensor([3.0])
                sd["decoder.version"] = torch.tensor([3.0])
                sd["encoder.embed_positions._float_tensor"] = torch.zeros(1)
                sd["decoder.embed_positions._float_tensor"] = torch.zeros(1)
            elif f in ("llama", "llama4"):
                sd["rope.freqs"] = torch.zeros(4)
            if f == "llama4":
                sd["vision_encoder.x"] = torch.zeros(2)
                sd["layers.0.attention.wo._extra_state"] = io.BytesIO()
                sd["layers.0.feed_forward.running_gate_stats_3E"] = torch.zeros(3)
        if f == "jepa":
            sd = {"encoder" if c["wrap"] else "target_encoder": sd, "opt": {}}
            if c["extras"]:
                sd["target_encoder" if c["wrap"] else "encoder"] = dict(sd[next(iter(sd))])
                if c["wrap"]:  # the target encoder takes precedence
                    sd["encoder"] = {k: v + 1 for k, v in sd["encoder"].items()}
        elif c["wrap"] and f not in ("mistral", "llama4"):
            sd = {"model": sd, "args": None}
        back = convert(sd, cfg)
        want = dict(orig)
        for k in want:
            if k.endswith("quantizer.num_updates"):
                want[k] = torch.zeros_like(want[k])
        if f in ("wav2vec2", "w2vbert"):
            k = next(k for k in want if k.endswith("quantizer.num_updates"))
            obs.check(k in back and back[k].shape == want[k].shape, f"{f}-num-updates", lambda: f"{back.get(k)}")
            back[k] = want[k]
        self.compare(obs, f"{f}-reference", want, back)
        other = type(model)
        with torch.no_grad():
            for p in model.parameters():
                p.zero_()
        set_model_state(model, back.items(), NOOP_PROGRESS_REPORTER)
        got = model.state_dict()
        obs.check(all(same(got[k], v) for k, v in want.items() if not k.endswith("num_updates")), f"{f}-loaded", "parameters differ after loading")
        if f == "llama":
            from fairseq2.models.llama.interop import convert_to_ref_llama_state_dict

            ref = convert_to_ref_llama_state_dict(fresh(orig))
            self.compare(obs, "llama-to-reference", self.to_ref(f, dict(d, tied=False), cfg, fresh(orig)), ref)

    def to_ref(self, f, d, cfg, sd):
        names = NAMES[f]
        out = {}
        if f == "jepa":
            rest = {}
            for k, v in sd.items():
                m = re.match(r"encoder\.layers\.(\d+)\.self_attn\.q_proj\.(weight|bias)$", k)
                if m:
                    out[f"module.backbone.blocks.{m[1]}.attn.qkv.{m[2]}"] = torch.cat([v, sd[k.replace("q_proj", "k_proj")], sd[k.replace("q_proj", "v_proj")]])
                elif not re.search(r"self_attn\.[kv]_proj\.", k):
                    rest[k] = v
            out["module.backbone.pos_embed"] = torch.zeros(1, 4)
            sd = rest
        if f == "llama4":
            rest = {}
            for k, v in sd.items():
                m = re.match(r"decoder\.layers\.(\d+)\.self_attn\.q_proj\.weight$", k)
                if m:
                    out[f"layers.{m[1]}.attention.wqkv.weight"] = torch.cat([v, sd[k.replace("q_proj", "k_proj")], sd[k.replace("q_proj", "v_proj")]])
                elif re.search(r"self_attn\.[kv]_proj\.", k):
                    pass
                elif m := re.match(r"decoder\.layers\.(\d+)\.ffn_layer_norm\.weight$", k):
                    moe = f"decoder.layers.{m[1]}.ffn.router" in sd
                    out[f"layers.{m[1]}.feed_forward." + ("norm.weight" if moe else "mlp.layer_norm_weight")] = v
                else:
                    rest[k] = v
            sd = rest
        for k, v in sd.items():
            if k.endswith("quantizer.num_updates"):
                continue
            if k == "final_proj.weight" and d.get("tied"):
                continue
            out[rename(k, names)] = v
        if f == "nllb":
            # fairseq orders the control symbols as BOS, PAD, EOS, UNK.
            e = sd["final_proj.weight"]
            e = torch.cat([e[[2, 0, 3, 1]], e[4:]])
            for k in ("encoder.embed_tokens.weight", "decoder.embed_tokens.weight", "decoder.output_projection.weight"):
                out[k] = e.clone()
        return out

    # -- Architectures -----------------------------------------------------

    def arch(self, c, obs):
        import transformers

        from fairseq2.models.hg import HuggingFaceConfig, save_hugging_face_model

        f = c["family"]
        conv, fam = self.converter(f)
        names = sorted(fam.get_archs())
        for name in names[c["part"] :: 3]:
            cfg = fam.maybe_get_arch_config(name)
            with torch.device("meta"):
                model = fam._factory(cfg)
            sd = model.state_dict()
            want = {k: (tuple(v.shape), v.dtype) for k, v in sd.items()}
            dir = scratch("c26")
            try:
                hc, hs = self.export(f, dict(sd), cfg, None)
                save_hugging_face_model(dir, {"x": torch.zeros(1)}, hc)
                out = io.StringIO()
                with redirect_stdout(out), redirect_stderr(out), torch.device("meta"):
                    hcfg = transformers.AutoConfig.from_pretrained(dir)
                    if f == "gemma3n":
                        hm = transformers.Gemma3nForCausalLM(hcfg.text_config)
                    else:
                        hm = getattr(transformers, hc.arch)(hcfg)
            finally:
                shutil.rmtree(dir, ignore_errors=True)
            theirs = {k: tuple(v.shape) for k, v in hm.state_dict().items()}
            ours = {k: tuple(v.shape) for k, v in hs.items()}
            if f == "gemma3n":
                ours = {k.replace("model.language_model.", "model."): v for k, v in ours.items() if "audio" not in k}
                n = cfg.num_layers - cfg.num_kv_shared_layers
                ours = {k: v for k, v in ours.items() if not ((m := re.match(r"model\.layers\.(\d+)\.self_attn\.(k_proj|v_proj|k_norm)\.", k)) and int(m[1]) >= n)}
            if cfg.tied_embeddings:
                theirs.pop("lm_head.weight", None)
                ours.pop("lm_head.weight", None)
            bad = [(k, ours.get(k), theirs.get(k)) for k in sorted(set(ours) | set(theirs)) if ours.get(k) != theirs.get(k)]
            obs.check(not bad, f"{f}-arch", lambda: f"{name}: {len(bad)} parameters do not match Transformers: {bad[:4]}")
            back = fam._state_dict_converter(dict(hs), cfg)
            got = {k: (tuple(v.shape), v.dtype) for k, v in back.items()}
            diff = [k for k in set(want) | set(got) if want.get(k) != got.get(k)]
            obs.check(not diff, f"{f}-arch-round-trip", lambda: f"{name}: {sorted(diff)[:5]}")
            obs.count("archs")
            obs.count("arch_params", len(ours))

    # -- Key maps --------------------------------------------------------------

    def keymap(self, c, obs):
        from fairseq2.models.utils.checkpoint import convert_fairseq_state_dict, convert_state_dict, create_reverse_key_map

        rng = random.Random(c["seed"])
        # A random one-to-one map between dotted names, some of them indexed.
        words = ["a", "layers", "attn", "q_proj", "norm", "ab", "a_b", "proj", "q", "x1"]
        fwd, left, right, pairs = {}, set(), set(), []
        for i in range(rng.randint(1, 10)):
            l = [f"l{i}" if rng.random() < 0.8 else rng.choice(words) + str(i)] + rng.choices(words, k=rng.randint(0, 3))
            r = [f"r{i}"] + rng.choices(words, k=rng.randint(0, 3))
            indexed = rng.random() < 0.6
            if indexed:
                pl, pr = rng.randint(1, len(l)), rng.randint(1, len(r))
                lp = r"\.".join(l[:pl] + ["([0-9]+)"] + l[pl:])
                rp = ".".join(r[:pr] + [r"\1"] + r[pr:])
            else:
                lp, rp = r"\.".join(l), ".".join(r)
            fwd[("^" if rng.random() < 0.9 else "") + lp + r"\."] = rp + "."
            for idx in rng.sample([0, 1, 2, 9, 10, 11, 100, 123], rng.randint(1, 5)) if indexed else [None]:
                for leaf in rng.sample(["weight", "bias", "inner.weight", "weight_g"], rng.randint(1, 3)):
                    if indexed:
                        k1 = ".".join(l[:pl] + [str(idx)] + l[pl:] + [leaf])
                        k2 = ".".join(r[:pr] + [str(idx)] + r[pr:] + [leaf])
                    else:
                        k1, k2 = ".".join(l + [leaf]), ".".join(r + [leaf])
                    pairs.append((k1, k2))
        for j in range(rng.randint(0, 3)):
            pairs.append((f"other{j}.w", f"other{j}.w"))
        rng.shuffle(pairs)
        src = {a: object() for a, _ in pairs}
        want = {b: src[a] for a, b in pairs}
        keep = dict(src)
        got = convert_state_dict(src, fwd)
        obs.check(src == keep and list(src) == list(keep), "keymap-input-changed", "the source was changed")
        obs.check(got.keys() == want.keys() and all(got[k] is want[k] for k in want), "keymap-convert", lambda: f"map {fwd}: got {sorted(got)} want {sorted(want)}")
        back = convert_state_dict(got, create_reverse_key_map(fwd))
        obs.check(back.keys() == src.keys() and all(back[k] is src[k] for k in src), "keymap-reverse", lambda: f"map {fwd} reverse {create_reverse_key_map(fwd)}: got {sorted(back)} want {sorted(src)}")
        extra = {k: object() for k in ("encoder.version", "decoder.version", "encoder.embed_positions._float_tensor", "decoder.embed_positions._float_tensor") if rng.random() < 0.5}
        got = convert_fairseq_state_dict({**extra, **src}, fwd)
        obs.check(got.keys() == want.keys() and all(got[k] is want[k] for k in want), "keymap-fairseq", lambda: f"got {sorted(got)} want {sorted(want)}")
        obs.count("keys", len(src))
        obs.state(("keymap", len(fwd), len(src)))

    # -- Export command --------------------------------------------------------

    def cli(self, c, obs):
        import copy
        import pathlib

        from fairseq2.checkpoint import StandardModelMetadataDumper
        from fairseq2.file_system import FileSystem
        from fairseq2.runtime.dependency import get_dependency_resolver
        from fairseq2.utils.structured import ValueConverter
        from fairseq2.utils.yaml import YamlDumper

        d, f = c["model"], c["family"]
        cfg, make = self.build(d)
        model = make(copy.deepcopy(cfg))
        orig = fresh(model.state_dict())
        r = get_dependency_resolver()
        dir = scratch("c26")
        try:
            StandardModelMetadataDumper(r.resolve(FileSystem), r.resolve(YamlDumper), r.resolve(ValueConverter)).dump(dir, f, copy.deepcopy(cfg))
            p = dir / "step_1/model/pp_00/tp_00"
            p.mkdir(parents=True)
            torch.save(model.state_dict(), p / "sdp_00.pt")
            out = dir / "hg"
            lib = pathlib.Path(__file__).resolve().parent.parent / "lib"
            code = "import sys; sys.path.insert(0, sys.argv.pop(1)); import vlib; vlib.setup_fairseq2(None); import fairseq2.recipe; from fairseq2.models.utils.hg_export import main; sys.exit(main())"
            q = subprocess.run([sys.executable, "-c", code, str(lib), "--no-rich", "--checkpoint-dir", str(dir), "checkpoint_step_1", str(out)], capture_output=True, text=True, cwd=dir, timeout=200, env={**os.environ, "HOME": str(dir), "FAIRSEQ2_CACHE_DIR": str(dir / "cache")})
            obs.check(q.returncode == 0, f"{f}-export-command", lambda: f"exit {q.returncode}: {q.stdout[-400:]} {q.stderr[-1200:]}")
            hc, hs = self.export(f, model.state_dict(), cfg, None)
            self.check_hf(c, obs, f, d, out, hc, hs, model)
            self.back(c, obs, f, cfg, make, out, orig)
            obs.count("exported")
        finally:
            shutil.rmtree(dir, ignore_errors=True)


if __name__ == "__main__":
    main(C26())
