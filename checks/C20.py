"""C20: decoding step by step with cached state equals decoding in one pass."""
import random

import torch

from vlib import Check, main

TOL = 3e-4


class C20(Check):
    id = "C20"
    rule = "the output of every decoding step equals, at the positions of the step, the output of one pass over the whole prefix of each sequence, for every split in steps, and after every reordering, repetition, growth and shrinkage of the batch"
    required = {"kind_lm": 40, "kind_s2s": 20, "kind_mha": 80, "kind_decoder": 20, "steps": 2000, "chunks": 300, "reorders": 300, "same_size_reorders": 80, "window_exceeded": 50, "chunk_over_window": 20, "static_reorders": 40, "grouped_heads": 60, "capacity_growth": 100, "reordered_rows_differ": 200}

    def gen(self, rng, tier):
        from modelkit import LM_FAMILIES, S2S_FAMILIES, lm_desc, s2s_desc

        n = 620 if tier == "quick" else 9000
        for _ in range(n):
            kind = rng.choices(["lm", "s2s", "mha", "decoder"], [8, 3, 10, 3])[0]
            c = dict(kind=kind, seed=rng.randrange(1 << 30))
            if kind == "lm":
                c["model"] = lm_desc(rng, rng.choice(LM_FAMILIES))
            elif kind == "s2s":
                c["model"] = s2s_desc(rng, rng.choice(S2S_FAMILIES))
                c["src"] = None
            elif kind == "mha":
                c["mha"] = mha_desc(rng)
            else:
                c["dec"] = dict(kind=rng.choice(["lm", "s2s"]), norm=rng.choice(["POST", "PRE"]), layers=rng.randint(1, 3), pos=rng.choice([None, "sin", "learned", "rotary"]), mha=mha_desc(rng, cross=False), seed=rng.randrange(1 << 30))
            c["bsz"] = rng.randint(1, 4)
            c["total"] = rng.randint(2, 20)
            c["inc"] = rng.choice([None, 1, 2, 3, 5, 16])
            c["max_steps"] = rng.choice([c["total"] + 1, c["total"] + 1, c["total"] + 7])
            c["steps"] = split(rng, c["total"])
            orders, b = [], c["bsz"]
            for _s in c["steps"]:
                o = None
                if rng.random() < 0.45:
                    nb = b if rng.random() < 0.5 else rng.randint(1, 5)
                    o = list(range(b)) if rng.random() < 0.1 else [rng.randrange(b) for _ in range(nb)]
                    if nb == b and rng.random() < 0.4:
                        o = rng.sample(range(b), b)
                    b = len(o)
                orders.append(o)
            c["orders"] = orders
            yield c

    def run(self, c, obs):
        with torch.inference_mode():
            self._run(c, obs)

    def _run(self, c, obs):
        from fairseq2.nn import BatchLayout, IncrementalStateBag

        kind = c["kind"]
        obs.count(f"kind_{kind}")
        sys_ = build(c)
        rng = random.Random(c["seed"])
        g = torch.Generator().manual_seed(c["seed"])
        bag = IncrementalStateBag(c["max_steps"], capacity_increment=c["inc"])
        prefixes = [[] for _ in range(c["bsz"])]
        sources = sys_.sources(c["bsz"], rng, g)
        pos = 0
        growth = set()
        for n, (step, order) in enumerate(zip(c["steps"], c["orders"])):
            new = [sys_.draw(step, rng, g) for _ in prefixes]
            prefixes = [p + x for p, x in zip(prefixes, new)]
            seqs = sys_.batch(new)
            out = sys_.call(seqs, BatchLayout.of(seqs), sources, bag)
            full_in = sys_.batch(prefixes)
            want = sys_.call(full_in, BatchLayout.of(full_in), sources, None)[:, pos : pos + step]
            err = float((out - want).abs().max())
            scale = max(1.0, float(want.abs().max()))
            obs.count("steps")
            obs.check(out.shape == want.shape, "shape", f"{tuple(out.shape)} vs {tuple(want.shape)}")
            obs.check(torch.isfinite(out).all().item(), "not-finite", lambda: f"step {n} at {pos}")
            obs.check(err <= TOL * scale, "step-differs", lambda: f"{sys_.name}: step {n} (positions {pos}..{pos + step - 1}, {len(prefixes)} rows) differs by {err:.3g} from the full pass of magnitude {scale:.3g}")
            if step > 1 and pos > 0:
                obs.count("chunks")
            if sys_.window and pos + step > sys_.window:
                obs.count("window_exceeded")
                if pos > 0 and step > sys_.window:
                    obs.count("chunk_over_window")
            growth.add(bag.capacity_bytes())
            obs.check(0 <= bag.size_bytes() <= bag.capacity_bytes(), "size", lambda: f"size {bag.size_bytes()} capacity {bag.capacity_bytes()}")
            obs.state((sys_.name, step, min(pos, 6), order is None, len(prefixes), c["inc"]))
            pos += step
            bag.increment_step_nr(step)
            obs.check(bag.step_nr == pos, "step-nr", f"{bag.step_nr} != {pos}")
            if order is not None:
                bag.reorder(torch.tensor(order))
                if len(order) == len(prefixes):
                    obs.count("same_size_reorders")
                if order != list(range(len(order))) or len(order) != len(prefixes):
                    obs.count("reordered_rows_differ")
                prefixes = [list(prefixes[i]) for i in order]
                sources = sys_.reorder_sources(sources, order)
                obs.count("reorders")
                if sources is not None:
                    obs.count("static_reorders")
        if len(growth) > 1:
            obs.count("capacity_growth")
        if sys_.grouped:
            obs.count("grouped_heads")



def split(rng, total):
    mode = rng.choice(["ones", "prefill", "random"])
    if mode == "ones":
        return [1] * total
    if mode == "prefill":
        p = rng.randint(1, total)
        return [p] + [1] * (total - p)
    out = []
    while total:
        s = min(total, rng.choice([1, 1, 2, 3, 4, 8]))
        out.append(s)
        total -= s
    return out


def mha_desc(rng, cross=None):
    kv = rng.choice([1, 2])
    nh = kv * rng.choice([1, 2])
    bias = rng.choice([("causal", None), ("causal", None), ("causal", rng.choice([1, 2, 3, 4, 6, 9])), ("causal", rng.choice([1, 2, 3, 4, 6, 9])), ("chunked", rng.choice([1, 2, 3, 5])), ("alibi", None)])
    d = dict(nh=nh, kv=kv, hd=4, bias=bias, pos=rng.choice([None, None, "rotary"]), sdpa=rng.choice(["torch", "naive", "flex"] if False else ["torch", "naive"]), bool_bias=rng.random() < 0.5, q_norm=rng.random() < 0.3, k_norm=rng.random() < 0.3, seed=rng.randrange(1 << 30), cross=rng.random() < 0.2 if cross is None else cross)
    d["local"] = bias[0] == "causal" and bias[1] is not None and rng.random() < 0.75
    return d


def make_mha(d, *, bias=None, pos=True):
    from fairseq2.models.transformer import LocalAttentionStateFactory, NaiveSDPA, StandardMultiheadAttention, TorchSDPA
    from fairseq2.nn import RotaryEncoder, StandardLayerNorm
    from nnkit import bias_of

    b = bias_of(tuple(bias or d["bias"]), d["nh"])
    sdpa = TorchSDPA(b) if d["sdpa"] == "torch" else NaiveSDPA(b)
    return StandardMultiheadAttention(
        d["nh"] * d["hd"], d["nh"], sdpa, num_key_value_heads=d["kv"],
        q_norm=StandardLayerNorm(d["hd"], bias=True) if d["q_norm"] else None,
        k_norm=StandardLayerNorm(d["hd"], bias=True) if d["k_norm"] else None,
        pos_encoder=RotaryEncoder(d["hd"], 64) if d["pos"] and pos else None,
        bias=d["bool_bias"],
        state_factory=LocalAttentionStateFactory(d["bias"][1]) if d["local"] and bias is None else None,
    )


class System:
    window = None
    grouped = False

    def sources(self, n, rng, g):
        return None

    def reorder_sources(self, s, order):
        return None


class Tokens(System):
    def draw(self, step, rng, g):
        return [rng.randrange(2, self.vocab) for _ in range(step)]

    def batch(self, rows):
        return torch.tensor(rows)


class LM(Tokens):
    def __init__(self, d):
        from modelkit import make_lm

        self.m = make_lm(d)
        self.vocab = d["vocab"]
        self.name = d["family"]
        self.window = d.get("window") or d.get("chunk")
        self.grouped = d["nh"] != d["kv"]

    def call(self, seqs, layout, sources, bag):
        return self.m(seqs, layout, state_bag=bag)


class S2S(Tokens):
    def __init__(self, d):
        from modelkit import make_s2s

        self.m = make_s2s(d)
        self.vocab = d["vocab"]
        self.name = d["family"]

    def sources(self, n, rng, g):
        if self.name == "nllb":
            return [torch.tensor([rng.randrange(2, self.vocab) for _ in range(rng.randint(1, 9))]) for _ in range(n)]
        return [torch.randn(rng.randint(8, 40), 6, generator=g) for _ in range(n)]

    def reorder_sources(self, s, order):
        return [s[i] for i in order]

    def call(self, seqs, layout, sources, bag):
        from nnkit import pack_rows

        src, sl, _ = pack_rows(sources, "padded")
        if bag is not None and bag.step_nr > 0:
            src = torch.zeros_like(src)  # cached: must not be consulted again
        return self.m(src, sl, seqs, layout, state_bag=bag)


class Vectors(System):
    def draw(self, step, rng, g):
        return [torch.randn(self.dim, generator=g) for _ in range(step)]

    def batch(self, rows):
        return torch.stack([torch.stack(r) for r in rows])


class MHA(Vectors):
    def __init__(self, d):
        from modelkit import randomize

        torch.manual_seed(d["seed"])
        self.d = d
        self.dim = d["nh"] * d["hd"]
        self.m = randomize(make_mha(d, bias=("identity", None) if d["cross"] else None, pos=not d["cross"]), d["seed"], 1.3).eval()
        self.name = "cross" if d["cross"] else f"mha-{d['bias'][0]}-{d['local']}"
        self.window = None if d["cross"] else d["bias"][1]
        self.grouped = d["nh"] != d["kv"]

    def sources(self, n, rng, g):
        if not self.d["cross"]:
            return None
        out = [torch.randn(rng.randint(1, 7), self.dim, generator=g) for _ in range(n)]
        self.width = max(map(len, out))  # of the encoder output, kept when rows are dropped
        return out

    def reorder_sources(self, s, order):
        return None if s is None else [s[i] for i in order]

    def call(self, seqs, layout, sources, bag):
        from fairseq2.models.transformer import AttentionBiasCache
        from nnkit import pack_rows

        if sources is None:
            return self.m(seqs, layout, seqs, layout, seqs, AttentionBiasCache(), state_bag=bag)
        k, kl, _ = pack_rows(sources, "padded", extra=self.width - max(map(len, sources)))
        if bag is not None and bag.step_nr > 0:
            if self.d["seed"] % 2:
                k = k * 0 + 7.0  # cached: must not be consulted again
        return self.m(seqs, layout, k, kl, k, AttentionBiasCache(), state_bag=bag)


class Decoder(Vectors):
    """Decoders put together by hand from their building blocks."""

    def __init__(self, d):
        from fairseq2.models.transformer import StandardFeedForwardNetwork, StandardTransformerDecoder, StandardTransformerDecoderLayer, TransformerNormOrder
        from fairseq2.models.transformer_lm import StandardTransformerLMDecoder, StandardTransformerLMDecoderLayer
        from fairseq2.nn import LearnedPositionEncoder, SinusoidalPositionEncoder, StandardLayerNorm
        from modelkit import randomize

        m = d["mha"]
        self.d = d
        self.dim = dim = m["nh"] * m["hd"]
        torch.manual_seed(d["seed"])
        order = TransformerNormOrder[d["norm"]]
        ln = lambda: StandardLayerNorm(dim, bias=True)
        m = dict(m, pos="rotary" if d["pos"] == "rotary" else None)
        layers = []
        for _ in range(d["layers"]):
            ffn = StandardFeedForwardNetwork(dim, dim * 2, bias=True)
            if d["kind"] == "lm":
                layers.append(StandardTransformerLMDecoderLayer(make_mha(m), ln(), ffn, ln(), norm_order=order, dropout_p=0.1))
            else:
                layers.append(StandardTransformerDecoderLayer(make_mha(m), ln(), make_mha(m, bias=("identity", None), pos=False), ln(), ffn, ln(), norm_order=order, dropout_p=0.1))
        self.pos = None
        if d["pos"] == "sin":
            self.pos = SinusoidalPositionEncoder(dim, 64)
        elif d["pos"] == "learned":
            self.pos = LearnedPositionEncoder(dim, 64)
        final = None if d["norm"] == "POST" else ln()
        if d["kind"] == "lm":
            self.m = StandardTransformerLMDecoder(layers, final)
        else:
            self.m = StandardTransformerDecoder(layers, final)
        randomize(self.m, d["seed"], 1.3).eval()
        if self.pos is not None:
            randomize(self.pos, d["seed"] + 1).eval()
        self.name = f"decoder-{d['kind']}-{d['norm']}-{d['pos']}"
        self.window = m["bias"][1]
        self.grouped = m["nh"] != m["kv"]

    def sources(self, n, rng, g):
        if self.d["kind"] == "lm":
            return None
        out = [torch.randn(rng.randint(1, 7), self.dim, generator=g) for _ in range(n)]
        self.width = max(map(len, out))  # of the encoder output, kept when rows are dropped
        return out

    def reorder_sources(self, s, order):
        return None if s is None else [s[i] for i in order]

    def call(self, seqs, layout, sources, bag):
        from nnkit import pack_rows

        if self.pos is not None:
            seqs = self.pos(seqs, layout, state_bag=bag)
        if sources is None:
            return self.m(seqs, layout, state_bag=bag)
        k, kl, _ = pack_rows(sources, "padded", extra=self.width - max(map(len, sources)))
        return self.m(seqs, layout, k, kl, state_bag=bag)


def build(c):
    if c["kind"] == "lm":
        return LM(c["model"])
    if c["kind"] == "s2s":
        return S2S(c["model"])
    if c["kind"] == "mha":
        return MHA(c["mha"])
    return Decoder(c["dec"])


if __name__ == "__main__":
    main(C20())
