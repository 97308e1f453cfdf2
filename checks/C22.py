"""C22: attention implementations against the definition."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main

IMPLS = ["naive", "torch", "softcap", "shaw", "relative", "flash2"]


class C22(Check):
    id = "C22"
    rule = (
        "every attention implementation (naive, PyTorch, soft-capped, Shaw, relative, and FlashAttention 2 over a stand-in "
        "that follows its documentation) and multi-head attention (grouped heads, norms, rotary encoders, cross attention) "
        "runs on random queries, keys and values in padded, packed and plain layouts, with identity, causal, windowed, "
        "chunked and ALiBi biases, unequal query and key lengths and huge values in the padding; outputs and weights of all "
        "valid queries are compared with an explicit double precision loop over the allowed keys, and padded positions "
        "must stay finite"
    )
    required = ["sequences", "padded", "packed", "plain", "windowed", "chunked", "alibi", "longer_keys", "weights", "mha", "cross", "forbidden_pairs", "bias_reused", "gradients"] + ["impl_" + i for i in IMPLS]
    assumptions = ["FlashAttention itself is not available: a stand-in with its documented window and causality semantics takes its place", "causal queries are never longer than their keys"]

    def setup(self, tier):
        self.fake_flash()
        import nnkit  # noqa: F401

    def setup_worker(self):
        self.fake_flash()

    def fake_flash(self):
        import types

        if "flash_attn" in sys.modules:
            return
        m = types.ModuleType("flash_attn")
        m.flash_attn_func = flash_attn_func
        m.flash_attn_varlen_func = flash_attn_varlen_func
        import importlib.machinery

        m.__spec__ = importlib.machinery.ModuleSpec("flash_attn", None)
        # Other libraries look for the real package.
        import fairseq2.recipe  # noqa: F401
        for n in [n for n in sys.modules if n.startswith("fairseq2.models.transformer.sdpa.flash2")]:
            mod = sys.modules.pop(n)
        sys.modules["flash_attn"] = m
        try:
            import fairseq2.models.transformer.sdpa.flash2 as f2
        finally:
            del sys.modules["flash_attn"]
        self.__class__.flash2 = f2.Flash2SDPA

    def gen(self, rng, tier):
        n = 2200 if tier == "quick" else 25000
        for i in range(n):
            impl = rng.choice(IMPLS)
            heads = rng.choice([1, 2, 4])
            layout = rng.choice(["batch", "batch", "packed", "plain"])
            if impl in ("shaw", "relative") and layout == "packed":
                layout = "batch"
            kinds = ["identity", "causal", "causal", "window", "chunked", "alibi"]
            if impl == "flash2":
                kinds = ["identity", "causal", "window"]
                if layout == "batch":
                    layout = "plain"
            kind = rng.choice(kinds)
            if layout == "packed" and kind == "alibi":
                kind = "identity"
            bias = {"identity": ["identity", None], "causal": ["causal", None], "window": ["causal", rng.choice([1, 2, 3, 5, 8])], "chunked": ["chunked", rng.choice([1, 2, 3, 5])], "alibi": ["alibi", None]}[kind]
            num = rng.choice([1, 2, 3])
            same = layout == "plain"
            a = rng.randrange(1, 8)
            qs = [a if same else rng.randrange(1, 8) for _ in range(num)]
            rel = rng.choice(["equal", "longer", "any"])
            b = rng.randrange(0, 6)
            ks = []
            for q in qs:
                if rel == "equal" or impl == "relative" or impl == "shaw" and not same:
                    ks.append(q)
                elif rel == "longer" or kind != "identity" or impl == "shaw":
                    ks.append(q + (b if same else rng.randrange(0, 6)))
                else:
                    ks.append(b + 1 if same else rng.randrange(1, 9))
            yield {"s": rng.randrange(1 << 30), "impl": impl, "heads": heads, "kv": rng.choice([h for h in (1, 2, 4) if heads % h == 0]), "dim": rng.choice([2, 4, 8]), "vdim": rng.choice([None, 3]), "layout": layout, "bias": bias, "q": qs, "k": ks,
                   "extra": 0 if same else rng.choice([0, 0, 1, 3]), "kextra": 0 if same else rng.choice([0, 0, 1, 3]), "scale": rng.choice([None, None, 1.0, 0.3]), "cap": rng.choice([0.7, 5.0, 30.0]), "double": rng.random() < 0.5,
                   "poison": rng.choice([0.0, 1e3, -1e6, 1e15]), "weights": rng.random() < 0.5, "mha": rng.random() < 0.35, "qnorm": rng.random() < 0.4, "rope": rng.random() < 0.4, "relv": rng.random() < 0.5, "lhs": rng.choice([0, 1, 2, 9]), "rhs": rng.choice([None, 0, 1, 4])}

    def run(self, case, obs):
        import nnkit
        import torch
        from fairseq2.models.transformer import AttentionBiasCache

        c = case
        dt = torch.float64 if c["double"] else torch.float32
        # Softmax runs in single precision.
        tol = 2e-6 if c["double"] else 2e-5
        g = torch.Generator().manual_seed(c["s"])
        H, K = c["heads"], c["dim"]
        bias = tuple(c["bias"])
        if c["mha"]:
            return self.run_mha(c, obs, g, dt)
        V = K if c["vdim"] is None or c["impl"] in ("shaw", "relative", "flash2") else c["vdim"]
        sdpa, extra, extra_v, kw = self.make(c, g, dt)
        cache = AttentionBiasCache()
        for again in range(2):
            rows = [[torch.randn(n, H, d, generator=g, dtype=dt) for n, d in ((a, K), (b, K), (b, V))] for a, b in zip(c["q"], c["k"])]
            lay = "packed" if c["layout"] == "packed" else "batch"
            q, ql, qw = nnkit.pack_rows([r[0] for r in rows], lay, extra=c["extra"], poison=c["poison"])
            kx = c["extra"] if c["impl"] == "relative" or c["impl"] == "shaw" and c["layout"] == "batch" else c["kextra"]
            k, kl, kw_ = nnkit.pack_rows([r[1] for r in rows], lay, extra=kx, poison=c["poison"])
            v, _, _ = nnkit.pack_rows([r[2] for r in rows], lay, extra=kx, poison=c["poison"])
            if c["impl"] in ("shaw", "relative") and q.shape[1] != k.shape[1] and (ql.padded or kl.padded):
                obs.count("skipped")
                return
            keep = [t.clone() for t in (q, k, v)]
            if c["impl"] == "flash2" and (ql.padded or kl.padded):
                from fairseq2.error import NotSupportedError

                try:
                    sdpa(q, ql, k, kl, v, cache)
                    obs.violate("padding-accepted", "FlashAttention 2 accepted a padded batch")
                except NotSupportedError:
                    obs.count("rejected")
                return
            q.requires_grad_(), k.requires_grad_(), v.requires_grad_()
            if lay == "packed":
                # The interface has no batch dimension then.
                pass
            needs = c["weights"] and c["impl"] not in ("torch", "flash2")
            out, weights = sdpa(q, ql, k, kl, v, cache, needs_weights=needs)
            obs.check(out.shape == (*q.shape[:-1], V) and out.dtype == dt, "shape", lambda: f"{tuple(out.shape)} {out.dtype}")
            obs.check((weights is not None) == needs, "weights-returned", "")
            for t, kt, name in zip((q, k, v), keep, "qkv"):
                obs.check(torch.equal(t.detach(), kt), "inputs-modified", name)
            obs.check(bool(out.detach().isfinite().all()), "not-finite", lambda: f"padded or valid positions hold {out}; {c}")
            for n, (r, w) in enumerate(zip(rows, qw)):
                obs.count("sequences")
                a, b = r[0].shape[0], r[1].shape[0]
                obs.count("forbidden_pairs", sum(not nnkit.allowed(bias, i, j, a, b) for i in range(a) for j in range(b)))
                want, ww = nnkit.ref_attention(*r, bias, extra=extra and extra(r), extra_v=extra_v, **kw)
                d = (out.detach()[w].double() - want).abs().max()
                if not obs.check(d < tol * (1 + want.abs().max()), "attention", lambda: f"sequence {n} of q {c['q']} k {c['k']}: off by {float(d):.3g}; {c}"):
                    return
                if needs:
                    obs.count("weights")
                    if lay == "packed":
                        got = weights.detach()[:, w[0], kw_[n][0]]
                        rest = weights.detach()[:, w[0], :].sum(-1)
                    else:
                        got = weights.detach()[n, :, :a, :b]
                        rest = weights.detach()[n, :, :a, :].sum(-1)
                    obs.check((got.double() - ww).abs().max() < tol, "attention-weights", lambda: f"{got} instead of {ww}; {c}")
                    obs.check((rest.double() - 1).abs().max() < 1e-5, "weights-sum", lambda: f"{rest}")
                if n:
                    continue
                # Only allowed keys receive gradient, and they all do.
                gq, gk, gv = torch.autograd.grad(out[w].sum(), (q, k, v), retain_graph=True)
                seen = gv.abs().reshape(*gv.shape[: 1 if lay == "packed" else 2], -1).sum(-1) > 0
                exp = torch.zeros_like(seen)
                idx = torch.tensor([any(nnkit.allowed(bias, i, j, a, b) for i in range(a)) for j in range(b)])
                exp[kw_[n]] = idx
                obs.check(not bool((seen & ~exp).any()), "leaking-gradient", lambda: f"values {seen.nonzero().tolist()} receive gradient, expected {exp.nonzero().tolist()}; {c}")
                bad = gk.abs().reshape(*gk.shape[: 1 if lay == "packed" else 2], -1).sum(-1) > 0
                obs.check(not bool((bad & ~exp).any()), "leaking-gradient", lambda: f"keys {bad.nonzero().tolist()} receive gradient; {c}")
                obs.count("gradients")
            if again:
                obs.count("bias_reused")
        obs.count("impl_" + c["impl"])
        obs.count("packed" if lay == "packed" else "padded" if ql.padded or kl.padded else "plain")
        if bias[0] == "causal" and bias[1]:
            obs.count("windowed")
        if bias[0] in ("chunked", "alibi"):
            obs.count(bias[0])
        if any(b > a for a, b in zip(c["q"], c["k"])):
            obs.count("longer_keys")
        obs.state(c["impl"], c["layout"], str(bias), tuple(c["q"]), tuple(c["k"]), H)
        obs.sample = {"implementation": c["impl"], "bias": bias, "queries": c["q"], "keys": c["k"], "layout": c["layout"]}

    def make(self, c, g, dt):
        import nnkit
        import torch
        from fairseq2.models.transformer import NaiveSDPA, RelativePositionalEncoding, RelativePositionSDPA, ShawRelativePositionSDPA, TorchSDPA
        from fairseq2.models.transformer.sdpa.soft_capped import SoftCappedSDPA

        H, K = c["heads"], c["dim"]
        bias = nnkit.bias_of(tuple(c["bias"]), H)
        drop = 0.5  # not applied in evaluation mode
        extra = extra_v = None
        kw = {}
        impl = c["impl"]
        if impl == "naive":
            kw["scale"] = c["scale"]
            m = NaiveSDPA(bias, dropout_p=drop, scale=c["scale"])
        elif impl == "torch":
            kw["scale"] = c["scale"]
            m = TorchSDPA(bias, dropout_p=drop, scale=c["scale"])
        elif impl == "softcap":
            kw["soft_cap"] = c["cap"]
            m = SoftCappedSDPA(bias, dropout_p=drop, soft_cap=c["cap"])
        elif impl == "flash2":
            m = self.flash2(bias, dropout_p=drop)
        elif impl == "shaw":
            m = ShawRelativePositionSDPA(H * K, H, bias, c["lhs"], max_rhs_rel_pos=c["rhs"], use_rel_pos_values=c["relv"], dtype=dt)
            rhs = c["lhs"] if c["rhs"] is None else c["rhs"]
            ek = m.rel_k_embed.weight.detach().double()
            ev = m.rel_v_embed.weight.detach().double() if c["relv"] else None

            def idx(r, i, j):
                return max(-c["lhs"], min(rhs, j - (i + len(r[1]) - len(r[0])))) + c["lhs"]

            cur = [None]

            def extra(r):
                cur[0] = r
                return lambda h, i, j: float(r[0][i, h].double() @ ek[idx(r, i, j)]) * K**-0.5

            if ev is not None:
                extra_v = lambda h, i, j: ev[idx(cur[0], i, j)]  # noqa: E731
        else:
            enc = RelativePositionalEncoding(H * K, 20)
            m = RelativePositionSDPA(H * K, H, enc, bias, dtype=dt)
            w = m.r_proj.weight.detach().double()
            u, vb = m.u_bias.detach().double(), m.v_bias.detach().double()

            def enc_of(d):
                e = torch.zeros(H * K, dtype=torch.float64)
                f = torch.exp(torch.arange(0, H * K, 2, dtype=torch.float64) * -__import__("math").log(10000.0) / (H * K))
                e[0::2], e[1::2] = torch.sin(d * f), torch.cos(d * f)
                return e

            def extra(r):
                def f(h, i, j):
                    rr = (w @ enc_of(i - j)).view(H, K)[h]
                    q = r[0][i, h].double()
                    return float(u[h] @ r[1][j, h].double() + (q + vb[h]) @ rr) * K**-0.5

                return f

            # The frequency table is in single precision.
            c["double"] and kw.update()
        m.eval()
        return m, extra, extra_v, kw

    def run_mha(self, c, obs, g, dt):
        import nnkit
        import torch
        from fairseq2.models.transformer import AttentionBiasCache, AttentionWeightStoreHook, NaiveSDPA, StandardMultiheadAttention, TorchSDPA
        from fairseq2.nn import RMSNorm, RotaryEncoder

        H, K, KV = c["heads"], c["dim"], c["kv"]
        M = H * K
        bias = tuple(c["bias"])
        cross = any(a != b for a, b in zip(c["q"], c["k"])) and not c["rope"]
        kd = M + 2 if cross and c["relv"] else M
        hooks = []
        sdpa = (TorchSDPA if not c["weights"] else NaiveSDPA)(nnkit.bias_of(bias, H))
        mk = lambda: RMSNorm(K, bias=False, dtype=dt)  # noqa: E731
        m = StandardMultiheadAttention(
            M, H, sdpa, num_key_value_heads=KV, kv_dim=kd if kd != M else None, q_norm=mk() if c["qnorm"] else None, k_norm=mk() if c["qnorm"] else None,
            pos_encoder=RotaryEncoder(K, 30) if c["rope"] else None, dtype=dt,
        )
        m.eval()
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(torch.randn(p.shape, generator=g, dtype=dt) * 0.5)
        if c["weights"]:
            m.register_attn_weight_hook(AttentionWeightStoreHook(hooks))
        ks = c["k"] if cross else c["q"]
        if bias[0] != "identity" and any(b < a for a, b in zip(c["q"], ks)):
            ks = c["q"]
        qs = [torch.randn(n, M, generator=g, dtype=dt) for n in c["q"]]
        kk = [torch.randn(n, kd, generator=g, dtype=dt) for n in ks] if cross else qs
        lay = "packed" if c["layout"] == "packed" else "batch"
        x, xl, xw = nnkit.pack_rows(qs, lay, extra=c["extra"], poison=min(c["poison"], 1e3))
        if cross:
            y, yl, yw = nnkit.pack_rows(kk, lay, extra=c["kextra"], poison=min(c["poison"], 1e3))
        else:
            y, yl, yw = x, xl, xw
        with torch.no_grad():
            out = m(x, xl, y, yl, y, AttentionBiasCache())
        obs.check(bool(out.isfinite().all()), "not-finite", lambda: f"{c}")
        wq, wk, wv, wo = (p.weight.detach().double() for p in (m.q_proj, m.k_proj, m.v_proj, m.output_proj))
        bq, bk, bv, bo = (p.bias.detach().double() for p in (m.q_proj, m.k_proj, m.v_proj, m.output_proj))

        def norm(t, n):
            if n is None:
                return t
            return t * torch.rsqrt(t.pow(2).mean(-1, keepdim=True) + n.eps) * n.weight.detach().double()

        def rope(t):
            if not c["rope"]:
                return t
            o = torch.empty_like(t)
            for p in range(t.shape[0]):
                for d in range(0, K, 2):
                    a = torch.tensor(p * 10000.0 ** (-d / K), dtype=torch.float64)
                    o[p, :, d] = t[p, :, d] * a.cos() - t[p, :, d + 1] * a.sin()
                    o[p, :, d + 1] = t[p, :, d] * a.sin() + t[p, :, d + 1] * a.cos()
            return o

        for n, (q0, k0, w) in enumerate(zip(qs, kk, xw)):
            q = rope(norm((q0.double() @ wq.T + bq).view(len(q0), H, K), m.q_norm))
            k = rope(norm((k0.double() @ wk.T + bk).view(len(k0), KV, K), m.k_norm))
            v = (k0.double() @ wv.T + bv).view(len(k0), KV, K)
            k = torch.stack([k[:, h // (H // KV)] for h in range(H)], 1)
            v = torch.stack([v[:, h // (H // KV)] for h in range(H)], 1)
            want, ww = nnkit.ref_attention(q, k, v, bias)
            want = want.flatten(1) @ wo.T + bo
            d = (out[w].double() - want).abs().max()
            tol = 1e-4 if c["rope"] or dt == torch.float32 or c["qnorm"] else 2e-6
            if not obs.check(d < tol * (1 + want.abs().max()), "multihead", lambda: f"sequence {n} of q {c['q']} k {ks}: off by {float(d):.3g}; {c}"):
                return
            if hooks:
                aw = hooks[0][1]
                got = aw[:, w[0], yw[n][0]] if lay == "packed" else aw[n, :, : len(q0), : len(k0)]
                obs.check((got.double() - ww).abs().max() < 1e-4, "multihead-weights", lambda: f"{c}")
                obs.count("weights")
            obs.count("sequences")
        obs.count("mha")
        if cross:
            obs.count("cross")
        obs.state("mha", H, KV, lay, str(bias), tuple(c["q"]), tuple(ks))


# Stand-ins, following the documentation of flash-attn 2: a query at position i
# attends to keys in [i + Sk - Sq - left, i + Sk - Sq + right], inclusive, where
# -1 is no limit, and causal aligns to the bottom right corner.
def flash_attn_func(q, k, v, dropout_p=0.0, softmax_scale=None, causal=False, window_size=(-1, -1), **kw):
    import torch

    sq, sk = q.shape[1], k.shape[1]
    i = torch.arange(sq)[:, None] + sk - sq
    j = torch.arange(sk)[None]
    left, right = window_size
    if causal:
        right = 0
    ok = torch.ones(sq, sk, dtype=torch.bool)
    if left >= 0:
        ok &= j >= i - left
    if right >= 0:
        ok &= j <= i + right
    s = torch.einsum("nshk,nthk->nhst", q, k) * (softmax_scale or q.shape[-1] ** -0.5)
    s = s.masked_fill(~ok, -torch.inf)
    return torch.einsum("nhst,nthv->nshv", torch.softmax(s, -1), v)


def flash_attn_varlen_func(q, k, v, cu_seqlens_q, cu_seqlens_k, max_seqlen_q, max_seqlen_k, dropout_p=0.0, softmax_scale=None, causal=False, window_size=(-1, -1), **kw):
    import torch

    a, b = cu_seqlens_q.tolist(), cu_seqlens_k.tolist()
    out = []
    for n in range(len(a) - 1):
        assert a[n + 1] - a[n] <= max_seqlen_q and b[n + 1] - b[n] <= max_seqlen_k
        out.append(flash_attn_func(q[None, a[n] : a[n + 1]], k[None, b[n] : b[n + 1]], v[None, b[n] : b[n + 1]], dropout_p, softmax_scale, causal, window_size)[0])
    return torch.cat(out)


if __name__ == "__main__":
    main(C22())
