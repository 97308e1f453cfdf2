"""C21: what a model computes for a sequence does not depend on its batch."""
import random

import torch

from vlib import Check, main

TOL = 4e-4


class C21(Check):
    id = "C21"
    rule = "outputs and parameter gradients of a padded or packed batch with poisoned padding equal those of each sequence alone; padded inputs receive no gradient; batch layouts describe their batch; masks stay within the sequences"
    required = {"kind_lm": 40, "kind_s2s": 25, "kind_asr": 40, "kind_block": 60, "kind_layout": 100, "kind_mask": 60, "padded": 150, "packed": 60, "sequences": 500, "poisoned_positions": 1500, "gradients": 150, "rejected": 30, "masked": 100}

    def gen(self, rng, tier):
        from modelkit import LM_FAMILIES, S2S_FAMILIES, lm_desc, s2s_desc, w2v2_desc

        n = 1300 if tier == "quick" else 9000
        for _ in range(n):
            kind = rng.choices(["lm", "s2s", "asr", "block", "layout", "mask"], [8, 5, 8, 8, 14, 7])[0]
            c = dict(kind=kind, seed=rng.randrange(1 << 30), layout=rng.choice(["padded", "padded", "packed"]), n=rng.randint(1, 4), extra=rng.choice([0, 0, 1, 3, 9]), poison=rng.choice([0.0, 1.0, -37.0, 1000.0]), grad=rng.random() < 0.5)
            if kind == "lm":
                c["model"] = lm_desc(rng, rng.choice(LM_FAMILIES))
                c["lens"] = [rng.randint(1, 9) for _ in range(c["n"])]
            elif kind == "s2s":
                c["model"] = s2s_desc(rng, rng.choice(S2S_FAMILIES))
                c["lens"] = [rng.randint(1, 9) for _ in range(c["n"])]
                c["src"] = [rng.randint(1, 9) if c["model"]["family"] == "nllb" else rng.randint(1, 40) for _ in range(c["n"])]
                c["extra_src"] = rng.choice([0, 1, 5, 8])
                if c["model"]["family"] != "nllb":
                    c["layout"] = "padded"
            elif kind == "asr":
                c["model"] = w2v2_desc(rng)
                c["lens"] = [rng.randint(24, 54) for _ in range(c["n"])]
                c["layout"] = "padded"
            elif kind == "block":
                c["block"] = rng.choice(["encoder", "encoder", "conformer", "decoder", "fbank_subsampler", "stacked_pos"])
                c["nh"], c["depth"], c["norm"], c["causal"], c["cn"], c["k"] = rng.choice([1, 2]), rng.randint(1, 3), rng.choice(["PRE", "POST"]), rng.random() < 0.5, rng.choice(["batch_norm", "layer_norm"]), rng.choice([3, 4, 5, 9])
                c["lens"] = [rng.randint(1, 12) for _ in range(c["n"])]
                if c["block"] in ("conformer", "fbank_subsampler", "stacked_pos"):
                    c["layout"] = "padded"
            elif kind == "layout":
                c["lens"] = [rng.choice([1, 1, 2, 3, 7, rng.randint(1, 30)]) for _ in range(rng.randint(1, 6))]
                c["bad"] = rng.choice([None, None, None, "zero", "long", "count", "negative", "ndim", "empty"])
            else:
                c["lens"] = [rng.randint(4, 60) for _ in range(rng.randint(1, 5))]
                c["span"] = rng.randint(1, min(c["lens"]))
                c["prob"] = rng.choice([0.1, 0.3, 0.65, 0.9, 1.0])
            yield c

    def run(self, c, obs):
        obs.count(f"kind_{c['kind']}")
        getattr(self, "run_" + c["kind"])(c, obs)

    # --

    def compare(self, obs, what, want, got, rounding=None):
        if want.shape != got.shape:
            obs.violate(what, f"shape {tuple(got.shape)} instead of {tuple(want.shape)}")
            return
        err = float((want - got).abs().max()) if want.numel() else 0.0
        scale = max(1.0, float(want.abs().max())) if want.numel() else 1.0
        tol = TOL * scale
        if rounding is not None and tol < err < 0.05 * scale:
            # An ill-conditioned case: how much does rounding of the weights change the result?
            obs.count("ill_conditioned")
            tol += 10 * rounding()
        obs.check(torch.isfinite(got).all().item() and err <= tol, what, lambda: f"differs by {err:.3g} (magnitude {scale:.3g}, shape {tuple(want.shape)})")

    def differential(self, c, obs, module, alone, batched, where_out, n):
        """``alone(i)`` and ``batched()`` give outputs; ``where_out(i)`` locates i in the batch."""
        params = [p for p in module.parameters() if p.requires_grad]
        wants = [alone(i) for i in range(n)]
        w = [torch.randn(x.shape, generator=torch.Generator().manual_seed(c["seed"] + i)) for i, x in enumerate(wants)]
        if c["grad"]:
            g1 = torch.autograd.grad(sum((x * y).sum() for x, y in zip(wants, w)), params, allow_unused=True)
        jitter = []

        def jittered():
            """The largest effect of relative changes of 1e-6 to the weights, per output and gradient."""
            if not jitter:
                saved = [p.detach().clone() for p in module.parameters()]
                g = torch.Generator().manual_seed(c["seed"])
                outs, grads = [0.0] * n, [0.0] * len(params)
                for _ in range(3):
                    with torch.no_grad():
                        for p, q in zip(module.parameters(), saved):
                            p.copy_(q * (1 + 1e-6 * torch.randn(q.shape, generator=g)))
                    again = [alone(i) for i in range(n)]
                    outs = [max(o, float((x - y).abs().max())) for o, x, y in zip(outs, wants, again)]
                    if c["grad"]:
                        gs = torch.autograd.grad(sum((x * y).sum() for x, y in zip(again, w)), params, allow_unused=True)
                        grads = [max(o, 0.0 if a is None else float((a - b).abs().max())) for o, a, b in zip(grads, g1, gs)]
                with torch.no_grad():
                    for p, q in zip(module.parameters(), saved):
                        p.copy_(q)
                jitter.append((outs, grads))
            return jitter[0]

        out = batched()
        for i in range(n):
            self.compare(obs, "output", wants[i], out[where_out(i)], lambda: jittered()[0][i])
            obs.count("sequences")
        if c["grad"]:
            g2 = torch.autograd.grad(sum((out[where_out(i)] * w[i]).sum() for i in range(n)), params, allow_unused=True, retain_graph=True)
            for j, (p, a, b) in enumerate(zip(params, g1, g2)):
                zero = torch.zeros_like(p)
                self.compare(obs, "gradient", zero if a is None else a, zero if b is None else b, lambda: jittered()[1][j])
            obs.count("gradients")
        obs.count(c["layout"])
        return out

    def run_lm(self, c, obs):
        from modelkit import make_lm
        from nnkit import pack_rows

        m = make_lm(c["model"])
        v = c["model"]["vocab"]
        rng = random.Random(c["seed"])
        rows = [torch.tensor([rng.randrange(1, v) for _ in range(k)]) for k in c["lens"]]
        poison = rng.randrange(v)
        x, layout, where = pack_rows(rows, c["layout"], extra=c["extra"], poison=poison)
        obs.count("poisoned_positions", x.numel() - sum(c["lens"]))
        pad = c["layout"] == "packed"
        if pad and c["model"]["family"] == "gemma3n":
            c = dict(c, layout="padded")
            x, layout, where = pack_rows(rows, "padded", extra=c["extra"], poison=poison)
        obs.state((c["model"]["family"], c["layout"], tuple(sorted(c["lens"])), c["extra"]))
        from fairseq2.nn import BatchLayout

        self.differential(c, obs, m, lambda i: m(rows[i][None], BatchLayout.of(rows[i][None]))[0], lambda: m(x, layout), lambda i: where[i], c["n"])

    def run_s2s(self, c, obs):
        from fairseq2.nn import BatchLayout
        from modelkit import make_s2s
        from nnkit import pack_rows

        m = make_s2s(c["model"])
        v = c["model"]["vocab"]
        rng = random.Random(c["seed"])
        g = torch.Generator().manual_seed(c["seed"])
        rows = [torch.tensor([rng.randrange(2, v) for _ in range(k)]) for k in c["lens"]]
        if c["model"]["family"] == "nllb":
            src = [torch.tensor([rng.randrange(2, v) for _ in range(k)]) for k in c["src"]]
            poison = rng.randrange(v)
        else:
            src = [torch.randn(k, 6, generator=g) for k in c["src"]]
            poison = c["poison"]
        x, xl, _ = pack_rows(src, c["layout"], extra=c["extra_src"], poison=poison)
        y, yl, where = pack_rows(rows, c["layout"], extra=c["extra"], poison=rng.randrange(v))
        obs.count("poisoned_positions", x[..., 0].numel() - sum(c["src"]) if x.ndim == 3 else x.numel() - sum(c["src"]))
        obs.state((c["model"]["family"], c["layout"], tuple(sorted(c["lens"])), c["extra_src"] > 0))
        self.differential(c, obs, m, lambda i: m(src[i][None], BatchLayout.of(src[i][None]), rows[i][None], BatchLayout.of(rows[i][None]))[0], lambda: m(x, xl, y, yl), lambda i: where[i], c["n"])

    def run_asr(self, c, obs):
        from fairseq2.nn import BatchLayout
        from modelkit import make_w2v2_asr
        from nnkit import pack_rows

        d = c["model"]
        m = make_w2v2_asr(d)
        g = torch.Generator().manual_seed(c["seed"])
        rows = [torch.randn(k, 4, generator=g) if d["fbank"] else torch.randn(k, generator=g) for k in c["lens"]]
        x, xl, _ = pack_rows(rows, "padded", extra=c["extra"], poison=c["poison"])
        obs.count("poisoned_positions", x.shape[0] * x.shape[1] - sum(c["lens"]))
        obs.state(("asr", d["fbank"], d["conformer"], d["pos"], d["depth"], tuple(sorted(c["lens"]))))
        lay = {}

        def alone(i):
            o, l = m(rows[i][None], BatchLayout.of(rows[i][None]))
            lay[i] = l.seq_lens[0]
            return o[0]

        def batched():
            o, l = m(x, xl)
            for i in range(c["n"]):
                obs.check(l.seq_lens[i] == lay[i], "contracted-length", lambda: f"sequence {i} of {c['lens'][i]}: {l.seq_lens[i]} in the batch, {lay[i]} alone")
            return o

        self.differential(c, obs, m, alone, batched, lambda i: (i, slice(0, lay[i])), c["n"])
        with torch.no_grad():
            t = [torch.randint(1, 11, (max(1, min(3, lay[i] // 3)),), generator=g) for i in range(c["n"])]
            loss = [m(rows[i][None], BatchLayout.of(rows[i][None]), t[i][None], BatchLayout.of(t[i][None])) for i in range(c["n"])]
            tb, tl, _ = pack_rows(t, "padded", extra=c["extra"], poison=10)
            self.compare(obs, "ctc-loss", sum(loss), m(x, xl, tb, tl))

    def run_block(self, c, obs):
        from fairseq2.models.conformer import ConformerBlock, ConformerConvolution
        from fairseq2.models.s2t_transformer.feature_extractor import Conv1dFbankSubsampler
        from fairseq2.models.transformer import AttentionBiasCache, IdentityBias, CausalAttentionBias, StandardFeedForwardNetwork, StandardMultiheadAttention, StandardTransformerEncoder, StandardTransformerEncoderLayer, TransformerNormOrder, create_default_sdpa
        from fairseq2.models.transformer_lm import StandardTransformerLMDecoder, StandardTransformerLMDecoderLayer
        from fairseq2.models.wav2vec2.position_encoder import Wav2Vec2PositionEncoder, Wav2Vec2StackedPositionEncoder
        from fairseq2.nn import BatchLayout, RotaryEncoder, StandardLayerNorm
        from modelkit import randomize
        from nnkit import pack_rows

        dim = c["nh"] * 8
        torch.manual_seed(c["seed"])
        ln = lambda: StandardLayerNorm(dim, bias=True)
        ffn = lambda: StandardFeedForwardNetwork(dim, dim * 2, bias=True)
        order = TransformerNormOrder[c["norm"]]

        def mha(bias):
            return StandardMultiheadAttention(dim, c["nh"], create_default_sdpa(bias), pos_encoder=RotaryEncoder(8, 64))

        b = c["block"]
        din = dim
        if b == "encoder":
            m = StandardTransformerEncoder([StandardTransformerEncoderLayer(mha(IdentityBias()), ln(), ffn(), ln(), norm_order=order, dropout_p=0.1) for _ in range(c["depth"])], ln() if c["norm"] == "PRE" else None)
            f = lambda x, l: (m(x, l), l)
        elif b == "decoder":
            m = StandardTransformerLMDecoder([StandardTransformerLMDecoderLayer(mha(CausalAttentionBias(attn_window_len=c["k"])), ln(), ffn(), ln(), norm_order=order, dropout_p=0.1) for _ in range(c["depth"])], ln())
            f = lambda x, l: (m(x, l), l)
        elif b == "conformer":
            m = StandardTransformerEncoder([ConformerBlock(ln(), ffn(), ln(), mha(IdentityBias()), ln(), ConformerConvolution(dim, c["k"] | 1 if not c["causal"] else c["k"], causal_depthwise_conv=c["causal"], norm_type=c["cn"]), ln(), ffn(), ln(), dropout_p=0.1) for _ in range(c["depth"])])
            f = lambda x, l: (m(x, l), l)
        elif b == "fbank_subsampler":
            m = Conv1dFbankSubsampler(din, 10, dim, kernel_sizes=[c["k"] | 1] * c["depth"])
            f = m
        else:
            m = Wav2Vec2PositionEncoder(dim, c["k"], c["nh"]) if c["depth"] == 1 else Wav2Vec2StackedPositionEncoder(dim, c["k"] * c["depth"], c["nh"], c["depth"])
            f = lambda x, l: (m(x, l), l)
        randomize(m, c["seed"], 1.3).eval()
        for name, buf in m.named_buffers():
            if name.endswith("running_mean"):
                buf.normal_()
        g = torch.Generator().manual_seed(c["seed"])
        rows = [torch.randn(k, din, generator=g) for k in c["lens"]]
        x, xl, where = pack_rows(rows, c["layout"], extra=c["extra"], poison=c["poison"])
        x.requires_grad_(True)
        obs.count("poisoned_positions", x[..., 0].numel() - sum(c["lens"]))
        obs.state((b, c["layout"], c["depth"], tuple(sorted(c["lens"])), c["extra"]))
        lay = {}

        def alone(i):
            o, l = f(rows[i][None], BatchLayout.of(rows[i][None]))
            lay[i] = l.seq_lens[0]
            return o[0]

        def loc(i):
            return where[i] if b not in ("fbank_subsampler",) else (i, slice(0, lay[i]))

        out = self.differential(c, obs, m, alone, lambda: f(x, xl)[0], loc, c["n"])
        (gx,) = torch.autograd.grad(sum(out[loc(i)].sin().sum() for i in range(c["n"])), [x])
        pad = torch.ones(x.shape[:-1], dtype=torch.bool)
        for k in where:
            pad[k] = False
        obs.check((gx[pad] == 0).all().item(), "padding-gradient", lambda: f"{b}: padded positions receive gradients up to {float(gx[pad].abs().max())}")
        for i in range(c["n"]):  # and no other sequence of the batch does
            (gi,) = torch.autograd.grad(f(x, xl)[0][loc(i)].sin().sum(), [x])
            other = torch.ones(x.shape[:-1], dtype=torch.bool)
            other[where[i]] = False
            obs.check((gi[other] == 0).all().item(), "cross-gradient", lambda: f"{b}: sequence {i} sends gradients to other positions")

    def run_layout(self, c, obs):
        from fairseq2.nn import BatchLayout

        lens, packed, bad = list(c["lens"]), c["layout"] == "packed", c["bad"]
        width = (sum(lens) if packed else max(lens)) + c["extra"]
        shape = (width,) if packed else (len(lens), width)
        if bad is not None:
            if bad == "zero":
                lens[-1] = 0
            elif bad == "negative":
                lens[0] = -1
            elif bad == "long":
                lens[-1] += width
            elif bad == "count" and not packed:
                lens.append(1)
            elif bad == "ndim":
                shape = (1, *shape) if packed else shape[:1]
            elif bad == "empty":
                shape = (0,) if packed else (len(lens), 0)
            else:
                return
            try:
                l = BatchLayout(shape, lens, packed=packed)
            except ValueError:
                obs.count("rejected")
                obs.check(True, "rejected")
            else:
                obs.violate("accepted-bad-layout", f"{shape} {lens} packed={packed} gives {l}")
            return
        l = BatchLayout(shape, lens, packed=packed)
        x = torch.zeros(*shape, 2)
        l2 = BatchLayout.of(x, lens, packed=packed)
        pos = torch.full(shape, -1)
        begins, o = [0], 0
        for i, k in enumerate(lens):
            if packed:
                pos[o : o + k] = torch.arange(k)
                o += k
                begins.append(o)
            else:
                pos[i, :k] = torch.arange(k)
                begins.append((i + 1) * width)
        for q in (l, l2):
            obs.check(torch.equal(q.position_indices, pos), "position-indices", lambda: f"{shape} {lens}: {q.position_indices}")
            obs.check(list(q.seq_lens) == lens and q.seq_lens_pt.tolist() == lens, "seq-lens")
            obs.check(list(q.seq_begin_indices) == begins and q.seq_begin_indices_pt.tolist() == begins, "seq-begin-indices", lambda: f"{q.seq_begin_indices} != {begins}")
            obs.check(q.min_seq_len == min(lens) and q.max_seq_len == max(lens) and q.width == width, "extent", lambda: f"{q}")
            obs.check(q.padded == bool((pos < 0).any()) and q.packed == packed, "flags", lambda: f"{q}")
        obs.state(("layout", packed, tuple(lens), c["extra"]))
        full = BatchLayout(shape, None, packed=packed)
        obs.check(not full.padded and full.seq_lens_pt.tolist() == ([width] if packed else [width] * len(lens)), "full-layout", lambda: f"{full}")
        obs.check(int((full.position_indices < 0).sum()) == 0, "full-layout")

    def run_mask(self, c, obs):
        from fairseq2.models.wav2vec2.masker import StandardWav2Vec2Masker
        from fairseq2.nn import BatchLayout
        from fairseq2.nn.utils.mask import compute_row_mask

        lens, span, width = c["lens"], c["span"], max(c["lens"]) + c["extra"]
        torch.manual_seed(c["seed"])
        lt = torch.tensor(lens)
        if span >= min(lens):
            try:
                compute_row_mask((len(lens), width), span, c["prob"], lt)
            except ValueError:
                obs.count("rejected")
                obs.check(True, "rejected")
            else:
                obs.violate("short-row-accepted", f"span {span}, lengths {lens}")
            return
        n_spans = int((c["prob"] / span * (lt - 1)).to(torch.int64).min())
        m = compute_row_mask((len(lens), width), span, c["prob"], lt)
        if n_spans == 0:
            obs.check(m is None or m.numel() == 0 or not m.any(), "no-span-mask")
            return
        obs.count("masked")
        counts = m.sum(1).tolist()
        obs.check(m.shape == (len(lens), width) and m.dtype == torch.bool, "mask-shape")
        obs.check(len(set(counts)) == 1, "unequal-masking", lambda: f"{counts}")
        obs.check(span <= counts[0] <= n_spans * span, "mask-amount", lambda: f"{counts} with {n_spans} spans of {span}")
        for i, k in enumerate(lens):
            obs.check(not m[i, k:].any().item(), "masked-padding", lambda: f"row {i} of {k}: {m[i].nonzero().flatten().tolist()}")
            obs.check(counts[i] < k, "everything-masked", lambda: f"row {i}: {counts[i]} of {k}")
        masker = StandardWav2Vec2Masker(6, span, c["prob"], 0)
        x = torch.randn(len(lens), width, 6)
        y, mask = masker(x.clone(), BatchLayout((len(lens), width), lens))
        obs.check(torch.equal(y[~mask], x[~mask]), "unmasked-changed")
        obs.check(torch.equal(y[mask], masker.temporal_mask_embed.expand_as(y[mask])), "masked-value")
        obs.check(not mask[torch.arange(width)[None] >= lt[:, None]].any().item(), "masked-padding")
        obs.state(("mask", tuple(lens), span, n_spans))


if __name__ == "__main__":
    main(C21())
