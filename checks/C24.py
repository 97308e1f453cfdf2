"""C24: position encoders against their formulas."""
import math
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main

KINDS = ["sin", "sin_legacy", "learned", "rotary", "rotary_llama", "reference", "dual", "sin2d", "sin3d"]


class C24(Check):
    id = "C24"
    rule = (
        "all position encoders run on random sequences in plain, padded and packed layouts, with any number of head "
        "dimensions, at any start step of incremental decoding, close to their length limit, in several data types; the "
        "output at every valid position is compared with the encoder's formula evaluated in double precision at the "
        "position within its own sequence; rotary encodings must keep norms and shift-invariant scores; too long "
        "sequences must be rejected"
    )
    required = ["positions", "padded", "packed", "plain", "start_steps", "rejected", "at_limit", "relative_scores", "training_ignores_state", "reset_again"] + ["kind_" + k for k in KINDS]

    def setup(self, tier):
        import nnkit  # noqa: F401

    def gen(self, rng, tier):
        for i in range(2500 if tier == "quick" else 30000):
            kind = rng.choice(KINDS)
            dim = rng.choice([2, 4, 6, 8, 16, 64])
            if kind == "dual":
                dim = rng.choice([4, 8, 16])
            if kind in ("sin2d", "sin3d"):
                yield {"s": rng.randrange(1 << 30), "kind": kind, "dim": rng.choice([4, 8, 12, 24, 48] if kind == "sin2d" else [8, 16, 24, 48]), "grid": [rng.randrange(1, 6) for _ in range(2 if kind == "sin2d" else 3)], "n": rng.choice([1, 3]), "uniform": rng.random() < 0.5, "dt": rng.choice(["float32", "float64"])}
                continue
            layout = rng.choice(["plain", "padded", "packed"])
            num = rng.choice([1, 2, 4])
            a = rng.randrange(1, 9)
            lens = [a if layout == "plain" else rng.randrange(1, 9) for _ in range(num)]
            if layout == "plain" and num > 1 and rng.random() < 0.2:
                lens = [1] * num
            mx = rng.choice([max(lens), max(lens), max(lens) + rng.randrange(1, 4), 20, 300, 4096])
            step = rng.choice([None, None, 0, 1, 2, mx - max(lens), mx // 2])
            over = rng.random() < 0.1
            if over and step is None and max(lens) > 1:
                mx = max(lens) - rng.randrange(1, max(lens))
            elif step is not None:
                step = max(0, min(step, mx - max(lens)))
                if over:
                    step = mx - max(lens) + rng.choice([1, 2, 5])
            yield {"s": rng.randrange(1 << 30), "kind": kind, "dim": dim, "layout": layout, "lens": lens, "extra": rng.choice([0, 1, 3]) if layout != "plain" else 0, "max": mx, "step": step, "heads": rng.choice([[], [], [2], [2, 3]]),
                   "theta": rng.choice([10000.0, 500.0, 500000.0]), "dt": rng.choice(["float32", "float32", "float64", "bfloat16"]), "train": rng.random() < 0.15,
                   "llama": [rng.choice([8.0, 32.0]), rng.choice([[1.0, 4.0], [1.0, 2.0]]), rng.choice([16, 64, 8192])], "legacy": rng.choice([0, 1, 3])}

    # Independent formulas, in double precision.
    def rot_freqs(self, c, dim, theta):
        f = [theta ** (-d / dim) for d in range(0, dim, 2)]
        if c["kind"] == "rotary_llama":
            factor, (lo, hi), old = c["llama"]
            out = []
            for x in f:
                wl = 2 * math.pi / x
                if wl < old / hi:
                    out.append(x)
                elif wl > old / lo:
                    out.append(x / factor)
                else:
                    s = (old / wl - lo) / (hi - lo)
                    out.append((1 - s) * x / factor + s * x)
            f = out
        return f

    def sin_table(self, pos, dim, num_sin, correction):
        """First ``dim`` of sines, then cosines."""
        f = [10000.0 ** (-i / max(num_sin - correction, 1)) for i in range(num_sin)]
        return ([math.sin(pos * x) for x in f] + [math.cos(pos * x) for x in f])[:dim]

    def want(self, c, m, x, pos):
        """x: (*, E) in double precision."""
        import torch

        k, E = c["kind"], c["dim"]
        if k in ("sin", "sin_legacy"):
            p = pos + (1 + c["legacy"] if k == "sin_legacy" else 0)
            return x + torch.tensor(self.sin_table(p, E, E // 2, 1), dtype=torch.float64)
        if k == "learned":
            return x + m.weight.detach().double()[pos + 1]
        out = torch.empty_like(x)

        def pairs(off, dim, theta, a, b):
            for n, f in enumerate(self.rot_freqs(c, dim, theta)):
                co, si = math.cos(pos * f), math.sin(pos * f)
                i, j = off + a(n), off + b(n)
                out[..., i] = x[..., i] * co - x[..., j] * si
                out[..., j] = x[..., i] * si + x[..., j] * co

        if k == "reference":
            pairs(0, E, c["theta"], lambda n: n, lambda n: n + E // 2)
        elif k == "dual":
            pairs(0, E // 2, c["theta"], lambda n: 2 * n, lambda n: 2 * n + 1)
            pairs(E // 2, E // 2, 100000.0, lambda n: 2 * n, lambda n: 2 * n + 1)
        else:
            pairs(0, E, c["theta"], lambda n: 2 * n, lambda n: 2 * n + 1)
        return out

    def make(self, c):
        from fairseq2.models.llama import LLaMARoPEScaleConfig
        from fairseq2.models.llama.factory import init_llama_rope_freqs
        from fairseq2.nn import LearnedPositionEncoder, ReferenceRotaryEncoder, RotaryEncoder, SinusoidalPositionEncoder
        from fairseq2.nn.position_encoder import DualRotaryEncoder

        E, mx, k = c["dim"], c["max"], c["kind"]
        if k == "sin":
            return SinusoidalPositionEncoder(E, mx)
        if k == "sin_legacy":
            return SinusoidalPositionEncoder(E, mx, _legacy_pad_idx=c["legacy"])
        if k == "learned":
            return LearnedPositionEncoder(E, mx)
        if k == "rotary":
            return RotaryEncoder(E, mx, theta=c["theta"])
        if k == "rotary_llama":
            f, ff, old = c["llama"]
            sc = LLaMARoPEScaleConfig(factor=f, frequency_factors=tuple(ff), original_context_length=old)
            return RotaryEncoder(E, mx, theta=c["theta"], freqs_init_fn=lambda e: init_llama_rope_freqs(e, sc))
        if k == "reference":
            return ReferenceRotaryEncoder(E, mx, theta=c["theta"])
        return DualRotaryEncoder(E, mx, theta=c["theta"])

    def run(self, case, obs):
        import nnkit
        import torch
        from fairseq2.nn import IncrementalStateBag

        c = case
        obs.count("kind_" + c["kind"])
        dt = getattr(torch, c["dt"])
        g = torch.Generator().manual_seed(c["s"])
        if c["kind"] in ("sin2d", "sin3d"):
            return self.run_nd(c, obs, dt, g)
        torch.manual_seed(c["s"])
        m = self.make(c)
        m.train(c["train"])
        rows = [torch.randn(n, *c["heads"], c["dim"], generator=g).to(dt) for n in c["lens"]]
        x, lay, where = nnkit.pack_rows(rows, "packed" if c["layout"] == "packed" else "batch", extra=c["extra"], poison=1e3)
        bag = None
        start = 0
        if c["step"] is not None:
            bag = IncrementalStateBag(c["max"] + 100)
            if c["step"]:
                bag.increment_step_nr(c["step"])
            start = 0 if c["train"] else c["step"]
            obs.count("training_ignores_state" if c["train"] else "start_steps")
        keep = x.clone()
        mx = start + max(c["lens"])
        if mx > c["max"]:
            try:
                m(x, lay, state_bag=bag)
                obs.violate("too-long-accepted", f"{c}")
            except ValueError:
                obs.count("rejected")
            return
        if mx == c["max"]:
            obs.count("at_limit")
        for again in range(2):
            out = m(x, lay, state_bag=bag)
            obs.check(torch.equal(x, keep), "input-modified", "")
            if not obs.check(out.shape == x.shape and (out.dtype == dt or c["kind"] == "learned"), "shape", lambda: f"{tuple(out.shape)} {out.dtype} for {tuple(x.shape)} {dt}"):
                return
            eps = {torch.float32: 1e-5, torch.float64: 1e-5, torch.bfloat16: 2e-2}[dt]
            for n, (r, w) in enumerate(zip(rows, where)):
                got = out.detach()[w].double()
                for p in range(len(r)):
                    obs.count("positions")
                    want = self.want(c, m, r[p].double(), start + p)
                    tol = (eps + 4e-7 * (start + p + 4)) * (1 + float(want.abs().max()))
                    d = float((got[p] - want).abs().max())
                    if not obs.check(d < tol, "encoding", lambda: f"position {start + p} of sequence {n}: {got[p].tolist()} instead of {want.tolist()}; {c}"):
                        return
            if again:
                obs.count("reset_again")
            elif c["kind"] != "learned":
                m.reset_parameters()
            elif not c["train"]:
                gr = torch.autograd.grad(out[where[0]].sum(), m.weight)[0].abs().sum(-1)
                used = set((gr > 0).nonzero().flatten().tolist())
                exp = {start + p + 1 for p in range(c["lens"][0])}
                obs.check(used == exp, "gradient", lambda: f"positions {used} receive gradient instead of {exp}")
        if c["kind"] in ("rotary", "reference", "dual", "rotary_llama") and dt != torch.bfloat16 and not c["train"]:
            self.relative(c, m, g, obs)
        obs.count(c["layout"] if c["layout"] != "padded" or lay.padded else "plain")
        obs.state(c["kind"], c["layout"], c["dim"], tuple(c["lens"]), start, len(c["heads"]))
        obs.sample = {"kind": c["kind"], "lens": c["lens"], "layout": c["layout"], "start": start}

    def relative(self, c, m, g, obs):
        """Norms are kept, and scores depend on the distance only."""
        import torch
        from fairseq2.nn import BatchLayout

        mx = min(c["max"], 64)
        q = torch.randn(c["dim"], generator=g).expand(1, mx, -1).contiguous()
        k = torch.randn(c["dim"], generator=g).expand(1, mx, -1).contiguous()
        lay = BatchLayout.of(q)
        a, b = m(q, lay)[0].double(), m(k, lay)[0].double()
        n = (a.norm(dim=-1) - q[0].double().norm(dim=-1)).abs().max()
        obs.check(n < 1e-4 * (1 + c["dim"]), "norm", lambda: f"norms change by {float(n)}")
        s = a @ b.T
        for d in range(-mx + 1, mx):
            diag = torch.diagonal(s, d)
            spread = float(diag.max() - diag.min())
            obs.count("relative_scores", len(diag))
            obs.check(spread < 2e-4 * (1 + c["dim"]), "relative", lambda: f"scores at distance {d} spread by {spread}; {c}")

    def run_nd(self, c, obs, dt, g):
        import torch
        from fairseq2.nn import Sinusoidal2dPositionEncoder, Sinusoidal3dPositionEncoder

        E, grid = c["dim"], tuple(c["grid"])
        if c["kind"] == "sin2d":
            m = Sinusoidal2dPositionEncoder(E, grid)
            dims = [math.ceil(E / 4) * 2] * 2
        else:
            m = Sinusoidal3dPositionEncoder(E, grid, uniform_power=c["uniform"])
            dims = [math.ceil(E / 6) * 2] * 3 if c["uniform"] else [math.ceil(E / 4) * 2, math.ceil(E / 8) * 2, math.ceil(E / 8) * 2]
        if sum(dims) - dims[-1] >= E:
            obs.count("small_dims")
            return
        x = torch.randn(c["n"], *grid, E, generator=g).to(dt)
        out = m(x)
        obs.check(out.shape == x.shape and out.dtype == dt, "shape", f"{out.shape}")
        for pos in __import__("itertools").product(*map(range, grid)):
            want = []
            for p, d in zip(pos, dims):
                want += self.sin_table(p, min(d, E - len(want)), d // 2, 0)
            diff = (out[(slice(None), *pos)].double() - x[(slice(None), *pos)].double() - torch.tensor(want, dtype=torch.float64)).abs().max()
            obs.count("positions")
            if not obs.check(float(diff) < 1e-5, "encoding", lambda: f"{pos} of {grid}: off by {float(diff)}; {c}"):
                return
        obs.state(c["kind"], E, grid)


if __name__ == "__main__":
    main(C24())
