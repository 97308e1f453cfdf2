"""C23: tensor parallel layers equal their unsharded originals."""
import contextlib
import copy
import math
import os
import random
import sys
import threading

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main


def strict_gangs():
    """Ranks are threads; as on a real backend, tensors must be contiguous and
    must not share memory with themselves."""
    import tgang

    base = tgang.make_gang_class()
    if getattr(base, "strict", False):
        return

    def checked(name):
        plain = getattr(base, name)

        def f(self, *args, **kw):
            for a in args:
                for t in a if isinstance(a, (list, tuple)) else [a]:
                    if hasattr(t, "is_contiguous") and not t.is_contiguous():
                        raise ValueError(f"Tensors must be contiguous ({name})")
            return plain(self, *args, **kw)

        return f

    class Strict(base):
        strict = True

        def __bool__(self):
            return True

    for n in ("all_reduce", "all_gather", "all_gather_to_list", "broadcast"):
        setattr(Strict, n, checked(n))
    make = tgang.make_gang_class

    def create(self, ranks):
        g = base.create_gang(self, ranks)
        if g is not None:
            g.__class__ = Strict
        return g

    Strict.create_gang = create
    tgang.make_gang_class = lambda: Strict
    return make


LOCK = threading.RLock()


@contextlib.contextmanager
def seeded(seed):
    """Threads share the random number generator of the process."""
    import torch

    with LOCK:
        torch.manual_seed(seed)
        yield


class C23(Check):
    id = "C23"
    rule = (
        "real sharded layers, blocks and models of random sizes run on several ranks (threads, and processes over gloo) and compared with their unsharded originals: "
        "outputs, gradients of inputs and parameters, initialization, unsharding, training"
    )
    required = ["ops", "layers", "unsharded", "initialized", "refused", "blocks", "decoded", "experts", "specs", "models", "grads", "gloo", "trained", "clipped", "dropout_runs"]
    assumptions = ["results are compared up to float rounding"]
    workers = 6
    case_timeout = 90

    def setup_worker(self):
        import fairseq2
        import fairseq2.recipe  # noqa: F401

        fairseq2.init_fairseq2()
        strict_gangs()

    def gen(self, rng, tier):
        n = 1000 if tier == "quick" else 9000
        for _ in range(n):
            yield {"kind": rng.choices(["ops", "layer", "block", "experts", "spec", "model", "gloo", "train", "clip"], [5, 10, 8, 3, 3, 10, 2, 1, 3])[0], "s": rng.randrange(1 << 40)}

    def run(self, case, obs):
        getattr(self, "run_" + case["kind"])(random.Random(case["s"]), obs, case)

    # -- helpers --------------------------------------------------------------
    def ranks(self, obs, size, fn, what, *, tp=None, real=False):
        """fn(gangs, rank) on each rank; None after a violation."""
        from fairseq2.gang import create_parallel_gangs

        tp = tp or size

        def body(root, r):
            return fn(create_parallel_gangs(root, tp_size=tp), r)

        if real:
            import gloo

            out = gloo.run(size, body)
            bad = [o for o in out if o[0] != "ok"]
            if any(o[0] in ("hang", "init-failed") for o in bad) and all(o[0] in ("hang", "init-failed") for o in bad):
                obs.inconclusive(f"gloo: {[o[0] for o in bad]}")
            if bad:
                obs.violate("failed", f"{what}: {[o[:2] for o in out]}\n{[o[2] for o in bad if o[0] == 'error'][:1]}")
                return None
            return [o[1] for o in out]
        from tgang import run_ranks

        out = run_ranks(size, body, join_timeout=60)
        errs = [v for st, v in out if st == "error"]
        if errs:
            first = next((e for e in errs if "rank " not in str(e)), errs[0])
            import traceback

            obs.violate("failed", f"{what}: {''.join(traceback.format_exception(first))[-1500:]}")
            return None
        if any(st == "hang" for st, _ in out):
            obs.violate("failed", f"{what}: ranks hang")
            return None
        return [v for _, v in out]

    def close(self, obs, mech, got, want, why, tol=1e-9):
        import torch

        scale = max(1.0, float(want.detach().abs().max()) if want.numel() else 1.0)
        ok = got.shape == want.shape and torch.allclose(got.detach().double(), want.detach().double(), rtol=tol, atol=tol * scale)
        obs.check(ok, mech, lambda: f"{why()}: shape {tuple(got.shape)}, expected {tuple(want.shape)}" if got.shape != want.shape else f"{why()}: off by {float((got.detach().double() - want.detach().double()).abs().max())} of {scale}")
        return ok

    @staticmethod
    def piece(t, dim, rank, size):
        n = t.size(dim) // size
        return t.narrow(dim, rank * n, n)

    def load(self, obs, sharded, full, gangs, what):
        """Loads the parameters of the original by the declared dimensions."""
        import torch
        from fairseq2.nn import get_shard_dims

        dims = get_shard_dims(sharded)
        src = dict(full.named_parameters())
        mine = dict(sharded.named_parameters())
        if src.keys() != mine.keys():
            obs.violate("parameters", f"{what()}: parameters {sorted(set(src) ^ set(mine))} of only one of them")
            return None
        with torch.no_grad():
            for n, p in mine.items():
                q = src[n]
                if n in dims:
                    q = self.piece(q, dims[n], gangs.tp.rank, gangs.tp.size)
                if p.shape != q.shape:
                    obs.violate("shard-dims", f"{what()}: {n} is {tuple(p.shape)} of {tuple(src[n].shape)}, declared dimension {dims.get(n)}")
                    return None
                p.copy_(q)
        return dims

    def same_grads(self, obs, sharded, full, dims, rank, size, what, tol=1e-9):
        src = dict(full.named_parameters())
        for n, p in sharded.named_parameters():
            g = src[n].grad
            if g is None:
                obs.check(p.grad is None or not p.grad.any(), "parameter-gradient", lambda: f"{what()}: {n} has a gradient")
                continue
            if n in dims:
                g = self.piece(g, dims[n], rank, size)
            obs.count("grads")
            if p.grad is None:
                obs.violate("parameter-gradient", f"{what()}: {n} has no gradient")
                continue
            self.close(obs, "parameter-gradient", p.grad, g, lambda: f"{what()}: gradient of {n} on rank {rank}", tol)

    # -- collectives ----------------------------------------------------------
    def run_ops(self, rng, obs, case, real=False):
        import torch
        from fairseq2.ops import tensor_parallel as T

        size = rng.choice([2, 3, 4]) if not real else 2
        dims = rng.choice([1, 2, 3])
        dim = rng.choice([-1, rng.randrange(dims)])
        shape = [rng.choice([1, 2, 3]) for _ in range(dims)]
        op = rng.choice(["reduce", "scatter", "gather", "reduce_on_backward"])
        if op == "scatter":
            shape[dim] *= size
        kind = rng.choice(["plain", "transposed", "expanded", "strided"])
        gkind = rng.choice(["plain", "transposed", "expanded"])
        other = rng.random() < 0.5
        g = torch.Generator().manual_seed(case["s"])

        def make(shape, kind):
            if kind == "transposed":
                return torch.randn(shape[::-1], generator=g, dtype=torch.float64).permute(*reversed(range(len(shape))))
            if kind == "expanded":
                return torch.randn([1] + list(shape[1:]), generator=g, dtype=torch.float64).expand(shape)
            if kind == "strided":
                return torch.randn(list(shape[:-1]) + [shape[-1] * 2], generator=g, dtype=torch.float64)[..., ::2]
            return torch.randn(shape, generator=g, dtype=torch.float64)

        xs = [make(shape, kind) for _ in range(size)]
        if op == "scatter":
            xs = [xs[0].clone() if i else xs[0] for i in range(size)]
        oshape = list(shape)
        if op == "gather":
            oshape[dim] *= size
        if op == "scatter":
            oshape[dim] //= size
        ups = [make(oshape, gkind) for _ in range(size)]
        if op in ("reduce", "gather"):
            ups = [ups[0]] * size  # What follows is the same on each rank.
        ups = [u.clone(memory_format=torch.preserve_format) if gkind != "expanded" else u for u in ups]
        exp = {
            "reduce": lambda r: (sum(xs), ups[r]),
            "scatter": lambda r: (self.piece(xs[0], dim, r, size), torch.cat(ups, dim)),
            "gather": lambda r: (torch.cat(xs, dim), self.piece(ups[r], dim, r, size)),
            "reduce_on_backward": lambda r: (xs[r], sum(ups)),
        }[op]
        want = [tuple(t.clone() for t in exp(r)) for r in range(size)]
        xs0, ups0 = [x.clone() for x in xs], [u.clone() for u in ups]
        what = lambda: f"{op} of {kind} {shape} over dim {dim} on {size} ranks, gradient {gkind}, residual {other}"  # noqa: E731

        def rank(gangs, r):
            x = xs[r].detach()
            x = x.requires_grad_() if kind in ("plain",) else x.requires_grad_(True)
            seen = []
            f = getattr(T, op)
            y = f(x, gangs.tp) if op in ("reduce", "reduce_on_backward") else f(x, gangs.tp, dim)
            w = torch.zeros_like(y.detach(), memory_format=torch.contiguous_format).requires_grad_()
            out = y
            if other:
                out = y + w  # Both get the same gradient tensor.
                out.register_hook(lambda t: seen.append(t))
            up = ups[r]
            out.backward(up)
            return y.detach().clone(), x.grad, w.grad, [s.clone() for s in seen], x.detach().clone(), up.clone()

        res = self.ranks(obs, size, rank, what(), real=real)
        obs.count("ops")
        obs.state(("op", op, size, kind, gkind, other, dims))
        if res is None:
            return
        for r, (y, gx, gw, seen, x, up) in enumerate(res):
            self.close(obs, "collective", y, want[r][0], lambda: f"{what()}: output on rank {r}")
            self.close(obs, "collective-gradient", gx, want[r][1], lambda: f"{what()}: gradient on rank {r}")
            if other:
                self.close(obs, "caller-changed", gw, ups0[r], lambda: f"{what()}: gradient of another operand on rank {r}")
                for s in seen:
                    self.close(obs, "caller-changed", s, ups0[r], lambda: f"{what()}: gradient of the output on rank {r}")
            self.close(obs, "caller-changed", x, xs0[r], lambda: f"{what()}: input on rank {r}")
            self.close(obs, "caller-changed", up, ups0[r], lambda: f"{what()}: incoming gradient on rank {r}")

    # -- layers ---------------------------------------------------------------
    def layer(self, rng, tp):
        """(description, create(), shard(module, gangs), unshard(module), input)."""
        kind = rng.choice(["column", "row", "vocab", "embed"])
        d = dict(kind=kind, bias=rng.random() < 0.5, inp=rng.randint(1, 4) * (tp if kind == "row" else 1), out=rng.randint(1, 4) * (tp if kind in ("column", "embed") else 1), lead=rng.choice([[], [3], [2, 3]]))
        if kind == "vocab":
            d["inp"] = rng.randint(1, 4) * tp
        d["pad"] = rng.choice([None, 0, d["inp"] - 1, rng.randrange(d["inp"])]) if kind in ("vocab", "embed") else None
        d["gather"] = rng.random() < 0.6  # gather_output, or scatter_input
        d["reduce"] = d["bias"] or rng.random() < 0.7
        d["init"] = rng.random() < 0.5
        return d

    def run_layer(self, rng, obs, case, real=False):
        import torch
        import torch.nn as nn
        import fairseq2.nn as fnn

        tp = rng.choice([1, 2, 2, 3, 4]) if not real else 2
        size = tp * rng.choice([1, 1, 2]) if not real else 2
        d = self.layer(rng, tp)
        kind = d["kind"]
        old_api = rng.random() < 0.2
        what = lambda: f"{d} on {tp} of {size} ranks, deprecated={old_api}"  # noqa: E731

        def init(m):
            nn.init.normal_(m.weight, std=2.0)
            if getattr(m, "bias", None) is not None:
                nn.init.normal_(m.bias)

        init_fn = init if d["init"] else None
        dt = torch.float64

        def create(cls=None, **kw):
            if kind in ("column", "row"):
                return (cls or fnn.Linear)(d["inp"], d["out"], d["bias"], init_fn=init_fn, dtype=dt, **kw)
            return (cls or fnn.StandardEmbedding)(d["inp"], d["out"], d["pad"], init_fn=init_fn, dtype=dt, **kw)

        cls = {"column": fnn.ColumnShardedLinear, "row": fnn.RowShardedLinear, "vocab": fnn.VocabShardedEmbedding, "embed": fnn.ShardedEmbedding}[kind]
        opts = {"column": dict(gather_output=d["gather"]), "row": dict(scatter_input=d["gather"], reduce_output=d["reduce"])}.get(kind, {})
        with seeded(case["s"] & 0xFFFF):
            full = create()
            state_after = torch.get_rng_state()
        g = torch.Generator().manual_seed(case["s"])
        if kind in ("column", "row"):
            x = torch.randn(d["lead"] + [d["inp"]], generator=g, dtype=dt, requires_grad=True)
        else:
            x = torch.randint(0, d["inp"], d["lead"] + [rng.randint(1, 5)], generator=g)
        y = full(x)
        w = torch.randn(y.shape, generator=g, dtype=dt)
        ((y * w).sum() + (y**2).sum() / 2).backward()
        before = copy.deepcopy(full.state_dict())
        again = rng.random() < 0.5

        def rank(gangs, r):
            t = gangs.tp
            # A new layer has the parameters that an unsharded layer would have. The
            # ranks share the random generator, so this comes before anything else.
            with seeded(case["s"] & 0xFFFF):
                new = create(cls, gangs=gangs, **opts)
                same_rng = torch.equal(torch.get_rng_state(), state_after)
                if again:
                    torch.manual_seed(case["s"] & 0xFFFF)
                    with torch.no_grad():
                        for p in new.parameters():
                            p.fill_(7.0)
                    new.reset_parameters()
            gangs.root.barrier()
            if kind in ("column", "row"):
                kw = dict(gang=t) if old_api else dict(gangs=gangs)
                m = cls.from_linear(full, **kw, **opts)
            else:
                m = cls.from_embedding(full, **(dict(gang=t) if old_api else dict(gangs=gangs)))
            dims = fnn.get_shard_dims(m)
            xr = x.detach().clone()
            if kind == "row" and not d["gather"] and t.size > 1:
                xr = self.piece(xr, -1, t.rank, t.size).clone()
            if xr.is_floating_point():
                xr.requires_grad_()
            wr = w
            if kind == "column" and not d["gather"]:
                wr = self.piece(w, -1, t.rank, t.size)
            x0 = xr.detach().clone()
            out = m(xr)
            part = kind == "row" and not d["reduce"] and t.size > 1
            tgt = out
            if part:
                from fairseq2.ops.tensor_parallel import reduce

                tgt = reduce(out, t)
            ((tgt * wr).sum() + (tgt**2).sum() / 2).backward()
            res = dict(tp=t.rank, out=tgt.detach(), local=out.detach(), gx=xr.grad, same_x=torch.equal(xr.detach(), x0), params={n: p.detach().clone() for n, p in m.named_parameters()}, grads={n: p.grad for n, p in m.named_parameters()}, dims=dims)
            if kind in ("column", "row"):
                un = m.to_linear()
            else:
                un = m.to_embedding()
            res["un"] = {k: v.clone() for k, v in un.state_dict().items()}
            res["un_kind"] = type(un).__name__
            res["rng"] = same_rng
            res["init"] = {n: p.detach().clone() for n, p in new.named_parameters()}
            return res

        res = self.ranks(obs, size, rank, what(), tp=tp, real=real)
        obs.count("layers")
        obs.state(("layer", kind, tp, size, d["bias"], d["gather"], d["reduce"], d["pad"] is None, d["init"], len(d["lead"])))
        if res is None:
            return
        dim_of = {"column": {"weight": 0, "bias": 0}, "row": {"weight": 1}, "vocab": {"weight": 0}, "embed": {"weight": 1}}[kind]
        for r, v in enumerate(res):
            t = v["tp"]
            want = y
            if kind == "column" and not d["gather"]:
                want = self.piece(y, -1, t, tp)
            self.close(obs, "output", v["out"], want, lambda: f"{what()}: output on rank {r}")
            if v["gx"] is not None:
                gx = x.grad
                if kind == "row" and not d["gather"]:
                    gx = self.piece(gx, -1, t, tp)
                self.close(obs, "input-gradient", v["gx"], gx, lambda: f"{what()}: gradient of the input on rank {r}")
            obs.check(v["same_x"], "caller-changed", lambda: f"{what()}: input on rank {r}")
            for n, p in full.named_parameters():
                cut = lambda a: self.piece(a, dim_of[n], t, tp) if n in dim_of else a  # noqa: E731, B023
                obs.check(torch.equal(v["params"][n], cut(before[n])), "shard", lambda: f"{what()}: {n} on rank {r}")
                obs.check(torch.equal(v["un"][n], before[n]) and v["un_kind"] == type(full).__name__, "unshard", lambda: f"{what()}: {n} on rank {r}")
                obs.count("unsharded")
                obs.count("grads")
                self.close(obs, "parameter-gradient", v["grads"][n], cut(p.grad), lambda: f"{what()}: gradient of {n} on rank {r}")
                obs.check(torch.equal(v["init"][n], cut(before[n])), "initialization", lambda: f"{what()}: {n} on rank {r} is initialized differently")
            obs.check(v["rng"], "initialization", lambda: f"{what()}: random state on rank {r} differs after initialization")
            obs.check(v["dims"] == {n: k for n, k in dim_of.items() if n in before}, "shard-dims", lambda: f"{what()}: {v['dims']}")
            obs.count("initialized")
        obs.check(all(torch.equal(a, before[k]) for k, a in full.state_dict().items()), "caller-changed", lambda: f"{what()}: original layer")
        if tp > 1 and not real:
            self.indivisible(rng, obs, kind, cls, tp)

    def indivisible(self, rng, obs, kind, cls, tp):
        """Sizes that cannot be split evenly are refused on every rank."""
        from tgang import run_ranks
        from fairseq2.gang import create_parallel_gangs
        import torch

        n = rng.choice([k for k in range(1, 12) if k % tp])
        a, b = (n, 6) if kind in ("row", "vocab") else (6, n)

        def rank(root, r):
            gangs = create_parallel_gangs(root, tp_size=tp)
            try:
                cls(a, b, False, gangs=gangs, dtype=torch.float64) if kind in ("row", "column") else cls(a, b, gangs=gangs, dtype=torch.float64)
                return "accepted"
            except ValueError:
                return "refused"

        out = run_ranks(tp, rank, join_timeout=30)
        obs.count("refused")
        obs.check(all(o == ("ok", "refused") for o in out), "indivisible", lambda: f"{kind} {a}x{b} over {tp} ranks: {out}")

    # -- blocks ---------------------------------------------------------------
    def run_block(self, rng, obs, case, real=False):
        import torch
        from fairseq2.models import transformer as T
        from fairseq2.models.transformer.attention_bias import AttentionBiasCache
        from fairseq2.nn import BatchLayout, IncrementalStateBag, LayerNorm, RMSNorm, RotaryEncoder, StandardLayerNorm  # noqa: F401

        tp = rng.choice([2, 2, 3, 4]) if not real else 2
        kind = rng.choice(["mha", "mha", "mha", "ffn", "dauphin", "glu"])
        bias = rng.random() < 0.5
        dt = torch.float64
        g = torch.Generator().manual_seed(case["s"])
        lens = [rng.randint(1, 6) for _ in range(rng.randint(1, 3))]
        if kind == "mha":
            kv = tp * rng.choice([1, 1, 2])
            nh = kv * rng.choice([1, 2, 3])
            hd = rng.choice([2, 4])
            dim = rng.choice([nh * hd, 6])
            cross = rng.random() < 0.3
            kvd = rng.choice([None, 5]) if cross else None
            norms = [rng.choice([None, None, "rms", "ln"]) for _ in range(3)]
            rope = rng.random() < 0.4 and not cross
            causal = rng.random() < 0.5 and not cross
            obias = rng.choice([None, True, False])
            cfg = f"heads {nh}/{kv}x{hd} dim {dim} cross {cross} kv_dim {kvd} norms {norms} rope {rope} causal {causal} bias {bias}/{obias}"
        else:
            dim = rng.randint(1, 6)
            inner = tp * rng.randint(1, 5)
            scale = rng.choice([1.0, 2 / 3])
            mult = tp * rng.choice([1, 2])
            act = rng.random() < 0.3
            cfg = f"{dim}->{inner} bias {bias} act {act} scale {scale} multiple {mult}"
        what = lambda: f"{kind} {cfg} on {tp} ranks, lengths {lens}"  # noqa: E731

        def norm(k):
            if k is None:
                return None
            return RMSNorm(hd, bias=False, dtype=dt) if k == "rms" else StandardLayerNorm(hd, bias=True, dtype=dt)

        def create(gangs):
            kw = {} if gangs is None else {"gangs": gangs}
            if kind == "mha":
                b = T.CausalAttentionBias() if causal else T.IdentityBias()
                return T.StandardMultiheadAttention(
                    dim, nh, T.NaiveSDPA(b), head_dim=hd, num_key_value_heads=kv, kv_dim=kvd, q_norm=norm(norms[0]), k_norm=norm(norms[1]), v_norm=norm(norms[2]),
                    pos_encoder=RotaryEncoder(hd, 64) if rope else None, bias=bias, output_proj_bias=obias, dtype=dt, **kw)
            a = torch.nn.GELU() if act else None
            if kind == "ffn":
                return T.StandardFeedForwardNetwork(dim, inner, bias, inner_activation=a, dtype=dt, **kw)
            if kind == "dauphin":
                return T.DauphinFeedForwardNetwork(dim, inner, bias, inner_activation=a, dtype=dt, **kw)
            return T.GLUFeedForwardNetwork(dim, inner, bias, gate_activation=a, inner_dim_scale=scale, inner_dim_to_multiple=mult, dtype=dt, **kw)

        with seeded(1):
            full = create(None)
        with torch.no_grad():
            for p in full.parameters():
                p.copy_(torch.randn(p.shape, generator=g, dtype=dt) * (0.5 if p.ndim > 1 else 1.0) + (0.0 if p.ndim > 1 else 0.5))
        width = max(lens)
        x = torch.randn(len(lens), width, dim, generator=g, dtype=dt)
        mem = torch.randn(len(lens), 4, kvd or dim, generator=g, dtype=dt) if kind == "mha" and cross else None
        w = torch.randn(len(lens), width, dim, generator=g, dtype=dt)
        hook = kind == "mha" and rng.random() < 0.3

        def forward(m, xx, mm):
            if kind != "mha":
                return m(xx)
            lay = BatchLayout.of(xx, lens)
            if mm is None:
                return m(xx, lay, xx, lay, xx, AttentionBiasCache())
            ml = BatchLayout.of(mm)
            return m(xx, lay, mm, ml, mm, AttentionBiasCache())

        valid = torch.zeros(len(lens), width, 1, dtype=dt)
        for i, n in enumerate(lens):
            valid[i, :n] = 1

        def go(m):
            xx, mm = x.clone().requires_grad_(), None if mem is None else mem.clone().requires_grad_()
            out = forward(m, xx, mm) * valid
            ((out * w).sum() + (out**2).sum() / 2).backward()
            return out.detach(), xx.grad, None if mm is None else mm.grad

        y, gx, gm = go(full)
        steps = kind == "mha" and not cross and causal and rng.random() < 0.7

        def decode(m):
            # One step at a time, as in generation.
            bag = IncrementalStateBag(max_num_steps=8)
            m.eval()
            outs = []
            with torch.no_grad():
                for i in range(width):
                    s = x[:, i : i + 1]
                    lay = BatchLayout.of(s)
                    outs.append(m(s, lay, s, lay, s, AttentionBiasCache(), state_bag=bag))
                    bag.increment_step_nr()
            m.train()
            return torch.cat(outs, 1)

        ref_steps = decode(full) if steps else None

        def rank(gangs, r):
            with LOCK:
                m = create(gangs)
            dims = self.load(obs, m, full, gangs, what)
            if dims is None:
                return None
            gangs.root.barrier()
            o = go(m)
            s = decode(m) if steps else None
            if real:
                return o, s, {n: p.grad for n, p in m.named_parameters()}, dims
            return o, s, m, dims

        res = self.ranks(obs, tp, rank, what(), real=real)
        obs.count("blocks")
        obs.state(("block", kind, tp, bias, cfg if kind == "mha" else "", steps, hook))
        if res is None or any(v is None for v in res):
            return
        # Rotary encoders and norms compute in single precision.
        single = kind == "mha" and (rope or any(norms))
        tol = 2e-5 if single else 1e-9
        for r, ((o, ox, om), s, m, dims) in enumerate(res):
            self.close(obs, "output", o, y, lambda: f"{what()}: output on rank {r}", tol)
            self.close(obs, "input-gradient", ox, gx, lambda: f"{what()}: gradient of the input on rank {r}", tol)
            if gm is not None:
                self.close(obs, "input-gradient", om, gm, lambda: f"{what()}: gradient of the keys on rank {r}", tol)
            if steps:
                obs.count("decoded")
                self.close(obs, "decoding", s, ref_steps, lambda: f"{what()}: step by step on rank {r}", tol)
            if not real:
                self.same_grads(obs, m, full, dims, r, tp, what, tol)
            else:
                src = dict(full.named_parameters())
                for n, gr in m.items():
                    want = src[n].grad if n not in dims else self.piece(src[n].grad, dims[n], r, tp)
                    self.close(obs, "parameter-gradient", gr, want, lambda: f"{what()}: gradient of {n} on rank {r}", tol)

    # -- experts --------------------------------------------------------------
    def run_experts(self, rng, obs, case):
        import torch
        from fairseq2.models.llama4.moe import MoE
        from fairseq2.models.llama4.sharder import MoESharder
        from fairseq2.models.transformer.experts import GroupedExpertNetwork, TPShardedExpertNetwork
        from fairseq2.sharder import ShardSpec

        tp = rng.choice([2, 2, 3, 4])
        whole = rng.random() < 0.6
        ne, dim, inner = rng.choice([1, 2, 3]), rng.randint(1, 5), tp * rng.randint(1, 3)
        reduce_output = rng.random() < 0.6
        shared = rng.random() < 0.6
        k = rng.randint(1, ne)
        dt = torch.float64
        what = lambda: f"{'MoE' if whole else 'experts'} {ne} of {dim}x{inner}, shared {shared}, top {k}, reduce {reduce_output}, {tp} ranks"  # noqa: E731
        g = torch.Generator().manual_seed(case["s"])
        with LOCK:
            torch.set_default_dtype(dt)
            try:
                full = MoE(dim, inner, num_experts=ne, use_shared_expert=shared, capacity_factor=1.0, top_k=k, inner_dim_scale=1.0, inner_dim_to_multiple=tp) if whole else GroupedExpertNetwork(ne, dim, inner, dtype=dt)
            finally:
                torch.set_default_dtype(torch.float32)
        with torch.no_grad():
            for p in full.parameters():
                p.copy_(torch.randn(p.shape, generator=g, dtype=dt))
        x = torch.randn(2, 3, dim, generator=g, dtype=dt) if whole else torch.randn(ne, 4, dim, generator=g, dtype=dt)
        w = torch.randn(x.shape, generator=g, dtype=dt)
        names = {n: p.detach().clone() for n, p in full.named_parameters()}

        def go(m, red=lambda o: o):
            xx = x.clone().requires_grad_()
            out = red(m(xx))
            ((out * w).sum() + (out**2).sum() / 2).backward()
            return out.detach(), xx.grad

        copies = [copy.deepcopy(full) for _ in range(tp)]
        y, gx = go(full)

        def rank(gangs, r):
            from fairseq2.ops.tensor_parallel import reduce

            if whole:
                m = MoESharder().shard(copies[r], gangs, ShardSpec(dim=-1))
                return go(m), m
            m = TPShardedExpertNetwork.from_grouped_expert_network(copies[r], gangs.tp, reduce_output=reduce_output)
            return go(m, (lambda o: o) if reduce_output else (lambda o: reduce(o, gangs.tp))), m

        res = self.ranks(obs, tp, rank, what())
        obs.count("experts")
        obs.state(("experts", whole, tp, ne, shared, k, reduce_output))
        if res is None:
            return
        src = dict(full.named_parameters())
        for r, ((o, ox), m) in enumerate(res):
            self.close(obs, "output", o, y, lambda: f"{what()}: output on rank {r}")
            self.close(obs, "input-gradient", ox, gx, lambda: f"{what()}: gradient of the input on rank {r}")
            obs.check(set(dict(m.named_parameters())) == set(names), "parameters", lambda: f"{what()}: {sorted(names)}")
            for n, p in m.named_parameters():
                gr, orig = src[n].grad, names[n]
                cut = lambda a: a  # noqa: E731
                if p.shape != orig.shape:
                    leaf = n.rsplit(".", 2 if n.endswith("weight") else 1)[-2 if n.endswith("weight") else -1]
                    row = leaf == "output_proj"
                    if n.endswith(".weight"):
                        cut = lambda a: self.piece(a, 1 if row else 0, r, tp)  # noqa: E731, B023
                    else:
                        def cut(a):
                            b = a.view(ne, -1, a.shape[-1])
                            return self.piece(b, 1 if row else 2, r, tp).reshape(-1, a.shape[-1] if row else a.shape[-1] // tp)  # noqa: B023
                obs.check(torch.equal(p.detach(), cut(orig)), "shard", lambda: f"{what()}: {n} on rank {r}")
                if gr is None:
                    continue
                obs.count("grads")
                self.close(obs, "parameter-gradient", p.grad if p.grad is not None else torch.zeros_like(p), cut(gr), lambda: f"{what()}: gradient of {n} on rank {r}")

    # -- shard specifications -------------------------------------------------
    def run_spec(self, rng, obs, case):
        import torch
        from fairseq2.nn import ColumnShardedLinear, Linear, RowShardedLinear, ShardedEmbedding, StandardEmbedding, VocabShardedEmbedding
        from fairseq2.sharder import EmbeddingSharder, LinearSharder, ShardSpec, ShardSpecError, StandardModelSharder

        tp = rng.choice([1, 2, 2, 3])
        dim, vocab, inner = tp * rng.randint(1, 3), tp * rng.randint(2, 4), tp * rng.randint(1, 3)
        n = rng.randint(1, 3)
        edim = rng.choice([0, 1])
        bias = rng.random() < 0.5
        dt = torch.float64

        class Block(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.up = Linear(dim, inner, bias, dtype=dt)
                self.down = Linear(inner, dim, bias, dtype=dt)
                self.mix = Linear(dim, dim, bias, dtype=dt)

            def forward(self, x):
                return x + self.down(torch.relu(self.up(x))) + self.mix(x)

        class Net(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.emb = StandardEmbedding(vocab, dim, dtype=dt)
                self.layers = torch.nn.ModuleList(Block() for _ in range(n))
                self.out = Linear(dim, vocab, bias, dtype=dt)

            def forward(self, x):
                x = self.emb(x)
                for m in self.layers:
                    x = m(x)
                return self.out(x)

        specs = {r"^emb$": ShardSpec(dim=edim), r".*\.up$": ShardSpec(dim=0, region_boundary=True), r".*\.down$": ShardSpec(dim=1, region_boundary=True)}
        if rng.random() < 0.7:
            specs[r".*\.mix$"] = ShardSpec(dim=rng.choice([0, 1]))
        if rng.random() < 0.7:
            specs[r"^out$"] = ShardSpec(dim=rng.choice([0, 1]))
        with seeded(case["s"] & 0xFFFF):
            full = Net()
        copies = [copy.deepcopy(full) for _ in range(tp)]
        g = torch.Generator().manual_seed(case["s"])
        x = torch.randint(0, vocab, (2, 4), generator=g)
        w = torch.randn(2, 4, vocab, generator=g, dtype=dt)

        def go(m):
            out = m(x)
            ((out * w).sum() + (out**2).sum() / 2).backward()
            return out.detach()

        y = go(full)
        what = lambda: f"{specs} on {tp} ranks"  # noqa: E731

        def rank(gangs, r):
            from fairseq2.nn import get_shard_dims

            StandardModelSharder([LinearSharder(), EmbeddingSharder()]).shard(copies[r], gangs, specs)
            return go(copies[r]), get_shard_dims(copies[r])

        res = self.ranks(obs, tp, rank, what())
        obs.count("specs")
        obs.state(("spec", tp, edim, bias, n, tuple((k, s.dim) for k, s in specs.items())))
        if res is None:
            return
        for r, (o, dims) in enumerate(res):
            self.close(obs, "output", o, y, lambda: f"{what()}: output on rank {r}")
            if tp == 1:
                obs.check(not dims, "spec", lambda: f"{what()}: sharded on one rank")
                continue
            self.same_grads(obs, copies[r], full, dims, r, tp, what)
            for path, m in copies[r].named_modules():
                if not path or path == "layers" or (path.startswith("layers.") and path.count(".") == 1):
                    continue
                import re

                hit = [s for k, s in specs.items() if re.match(k, path)]
                kls = {("emb", 0): VocabShardedEmbedding, ("emb", 1): ShardedEmbedding, ("lin", 0): ColumnShardedLinear, ("lin", 1): RowShardedLinear}
                want = (StandardEmbedding if path == "emb" else Linear) if not hit else kls[("emb" if path == "emb" else "lin", hit[0].dim)]
                obs.check(type(m) is want, "spec", lambda: f"{what()}: {path} is {type(m).__name__}, expected {want.__name__}")
        if tp > 1:
            bad, path = rng.choice([(ShardSpec(dim=2), "^out$"), (ShardSpec(dim=0), r"^layers\.0$"), (ShardSpec(dim=0, region_boundary=True), "^emb$"), (ShardSpec(dim=-1), "^emb$")])

            def refuse(gangs, r):
                m = Net()
                try:
                    StandardModelSharder([LinearSharder(), EmbeddingSharder()]).shard(m, gangs, {path: bad})
                    return "accepted"
                except ShardSpecError:
                    return "refused"

            out = self.ranks(obs, tp, refuse, what())
            obs.count("refused")
            obs.check(out is None or set(out) == {"refused"}, "spec", lambda: f"{path}: {bad} is {out}")

    # -- models ---------------------------------------------------------------
    def make(self, rng):
        """A random model whose heads can be split: (name, create(), inputs, run(model, inputs), tp)."""
        import torch
        from fairseq2.nn import BatchLayout
        from modelkit import LM_FAMILIES, S2S_FAMILIES, lm_config, lm_create, lm_desc, s2s_desc, w2v2_desc

        tp = rng.choice([2, 2, 3])
        fam = rng.choice([f for f in LM_FAMILIES if f != "llama4"] * 2 + S2S_FAMILIES + ["wav2vec2"])
        g = torch.Generator().manual_seed(rng.randrange(1 << 30))
        vocab = 12
        if fam in LM_FAMILIES:
            d = lm_desc(rng, fam, vocab=vocab)
            d["kv"] = tp * rng.choice([1, 2])
            d["nh"] = d["kv"] * rng.choice([1, 2])
            d["tied"] = False
            d["ffn_mult"] = 12

            def create():
                return lm_create(lm_config(d), fam)

            lens = [rng.randint(1, 7) for _ in range(rng.randint(1, 3))]
            x = torch.randint(1, vocab, (len(lens), max(lens)), generator=g)

            def run(m):
                return m(x, BatchLayout.of(x, lens)), lens
        elif fam in S2S_FAMILIES:
            d = s2s_desc(rng, fam, vocab=vocab)
            d["nh"] = d["dnh"] = tp * rng.choice([1, 2])
            d["rel"] = False  # its parameters are not sharded
            import modelkit

            def create():
                if fam == "nllb":
                    from fairseq2.models.nllb.factory import create_nllb_model as c
                elif fam == "s2t_transformer":
                    from fairseq2.models.s2t_transformer.factory import create_s2t_transformer_model as c
                else:
                    from fairseq2.models.s2t_conformer.factory import create_s2t_conformer_model as c
                return c(modelkit.s2s_config(d))

            lens = [rng.randint(2, 6) for _ in range(rng.randint(1, 3))]
            x = torch.randint(2, vocab, (len(lens), max(lens)), generator=g)
            slens = [rng.randint(8, 20) for _ in lens]
            src = torch.randint(2, vocab, (len(lens), max(slens)), generator=g) if fam == "nllb" else torch.randn(len(lens), max(slens), 6, generator=g)

            def run(m):
                return m(src, BatchLayout.of(src, slens), x, BatchLayout.of(x, lens)), lens
        else:
            from fairseq2.models.wav2vec2.asr.config import Wav2Vec2AsrConfig
            from fairseq2.models.wav2vec2.asr.factory import create_wav2vec2_asr_model
            from modelkit import w2v2_encoder_config

            d = w2v2_desc(rng)
            d["nh"], d["hd"] = tp * rng.choice([1, 2]), 4
            d["groups"] = 1
            if d["pos"] == "relative":  # its parameters are not sharded
                d["pos"] = "rotary"

            def create():
                return create_wav2vec2_asr_model(Wav2Vec2AsrConfig(encoder_config=w2v2_encoder_config(d), target_vocab_size=vocab, use_masking=False))

            slens = [rng.randint(24, 54) for _ in range(rng.randint(1, 3))]
            src = torch.randn(len(slens), max(slens), 4, generator=g) if d["fbank"] else torch.randn(len(slens), max(slens), generator=g)

            def run(m):
                lg, lay = m(src, BatchLayout.of(src, slens))
                return lg, list(lay.seq_lens)
        return fam, d, create, run, tp

    def run_model(self, rng, obs, case, real=False):
        import torch
        from fairseq2.error import NotSupportedError
        from fairseq2.gang import set_gangs
        from modelkit import randomize

        fam, d, create, run, tp = self.make(rng)
        if real and tp > 2:
            return self.run_layer(rng, obs, case, real=True)
        what = lambda: f"{d} on {tp} ranks"  # noqa: E731
        with seeded(case["s"] & 0xFFFF):
            full = create()
        randomize(full, case["s"] & 0xFFFF, gain=1.3).eval()
        init = {n: p.detach().clone() for n, p in full.named_parameters()}
        w = {}

        def go(m):
            out, lens = run(m)
            valid = torch.zeros(out.shape[:2] + (1,))
            for i, n in enumerate(lens):
                valid[i, :n] = 1
            out = out.float() * valid
            k = tuple(out.shape)
            if k not in w:
                w[k] = torch.randn(out.shape, generator=torch.Generator().manual_seed(5)) / out.numel() ** 0.5
            (out * w[k]).sum().backward()
            return out.detach()

        with seeded(case["s"] & 0xFFFF):
            twin = create()
        twin.load_state_dict(full.state_dict())
        twin.eval()
        y = go(full)
        # How much rounding matters here.
        with torch.no_grad():
            gg = torch.Generator().manual_seed(9)
            for p in twin.parameters():
                p.mul_(1 + 1e-6 * torch.randn(p.shape, generator=gg))
        ty = go(twin)
        tol = 1e-4 + 30 * float((ty - y).abs().max() / max(1.0, float(y.abs().max())))
        gtol = {}
        tp_params = dict(twin.named_parameters())
        for n, p in full.named_parameters():
            if p.grad is not None:
                gtol[n] = 1e-4 + 30 * float((tp_params[n].grad - p.grad).abs().max() / max(1.0, float(p.grad.abs().max())))
        if not math.isfinite(tol) or tol > 1e-2:
            obs.count("ill_conditioned")
            return

        def rank(gangs, r):
            try:
                with LOCK, set_gangs(gangs, meta=True):
                    m = create()
            except (NotSupportedError, ValueError, TypeError) as ex:
                return "refused", repr(ex), None
            m.eval()
            dims = self.load(obs, m, full, gangs, what)
            if dims is None:
                return None
            o = go(m)
            return o, {n: p.grad for n, p in m.named_parameters()}, dims

        res = self.ranks(obs, tp, rank, what(), real=real)
        obs.count("models")
        obs.state(("model", fam, tp, tuple(sorted((k, str(v)) for k, v in d.items() if k not in ("seed", "family")))))
        if res is None or any(v is None for v in res):
            return
        kinds = {isinstance(v[0], str) for v in res}
        if True in kinds:
            obs.check(kinds == {True}, "refused", lambda: f"{what()}: refused on some ranks only")
            obs.violate("model-refused", f"{what()}: {res[0][1]}")
            return
        src = dict(full.named_parameters())
        for r, (o, grads, dims) in enumerate(res):
            self.close(obs, "output", o, y, lambda: f"{what()}: output on rank {r}", tol)
            for n, gr in grads.items():
                q = src[n].grad
                if q is None:
                    continue
                scale = max(1e-3, float(q.abs().max()))
                q = q if n not in dims else self.piece(q, dims[n], r, tp)
                obs.count("grads")
                if gr is None:
                    obs.violate("parameter-gradient", f"{what()}: {n} on rank {r} has no gradient")
                    continue
                obs.check(bool(((gr - q).abs() <= gtol[n] * max(1.0, scale) * 2).all()), "parameter-gradient", lambda: f"{what()}: gradient of {n} on rank {r} off by {float((gr - q).abs().max())} of {scale}, tolerance {gtol[n]}")
        obs.check(all(torch.equal(p.detach(), init[n]) for n, p in full.named_parameters()), "caller-changed", what)

    # -- over gloo ------------------------------------------------------------
    def run_gloo(self, rng, obs, case):
        obs.count("gloo")
        rng.choice([self.run_ops, self.run_layer, self.run_block, self.run_model])(rng, obs, case, real=True)

    # -- gradient clipping ----------------------------------------------------
    def small(self, rng, tp, drop):
        import torch
        from fairseq2.models import transformer as T
        from fairseq2.models.transformer.attention_bias import AttentionBiasCache
        from fairseq2.nn import BatchLayout, ColumnShardedLinear, RMSNorm, ShardedEmbedding, VocabShardedEmbedding

        kv = tp
        nh, hd = kv * rng.choice([1, 2]), 4
        dim, vocab = nh * hd, tp * 4
        emb = rng.choice([VocabShardedEmbedding, ShardedEmbedding])
        norm = rng.random() < 0.6
        freeze = rng.choice([None, None, "emb", "ffn"])

        class Net(torch.nn.Module):
            def __init__(self, gangs):
                super().__init__()
                kw = {} if gangs is None else {"gangs": gangs}
                self.emb = emb(vocab, dim, **kw)
                self.attn = T.StandardMultiheadAttention(dim, nh, T.NaiveSDPA(T.CausalAttentionBias()), num_key_value_heads=kv, q_norm=RMSNorm(hd, bias=False) if norm else None, k_norm=RMSNorm(hd, bias=False) if norm else None, bias=True, **kw)
                self.ffn = T.GLUFeedForwardNetwork(dim, tp * 4, True, inner_dim_scale=1.0, **kw)
                self.norm = RMSNorm(dim, bias=True)
                self.drop = torch.nn.Dropout(drop)
                self.out = ColumnShardedLinear(dim, vocab, True, **kw)
                if freeze:
                    for p in getattr(self, freeze).parameters():
                        p.requires_grad_(False)

            def forward(self, x):
                lay = BatchLayout.of(x)
                h = self.drop(self.emb(x))
                h = h + self.drop(self.attn(h, lay, h, lay, h, AttentionBiasCache()))
                return self.out(self.norm(h + self.drop(self.ffn(h))))

        return Net, vocab, (emb.__name__, norm, freeze, nh)

    def run_clip(self, rng, obs, case):
        """Clipping depends on all gradients, wherever they are."""
        import torch
        from fairseq2.nn.utils.grad import clip_grad_norm

        tp = rng.choice([2, 2, 3])
        Net, vocab, desc = self.small(rng, tp, 0.0)
        with seeded(case["s"] & 0xFFFF):
            full = Net(None)
        limit = rng.choice([None, 0.01, 0.1, 1.0, 100.0])
        norm_type = rng.choice([2.0, 2.0, 1.0, 3.0, math.inf])
        g = torch.Generator().manual_seed(case["s"])
        x = torch.randint(0, vocab, (2, 4), generator=g)
        w = torch.randn(2, 4, vocab, generator=g)
        what = lambda: f"{desc} on {tp} ranks, max_norm {limit}, norm {norm_type}"  # noqa: E731

        def go(m):
            (m(x) * w).sum().backward()
            return clip_grad_norm(m, limit, norm_type)

        (full(x) * w).sum().backward()
        gs = [p.grad for p in full.parameters() if p.grad is not None]
        want = torch.linalg.vector_norm(torch.cat([q.double().flatten() for q in gs]), norm_type)
        factor = 1.0 if limit is None else min(1.0, limit / (float(want) + 1e-6))
        for q in gs:
            q.mul_(factor)

        def rank(gangs, r):
            with LOCK:
                m = Net(gangs)
            dims = self.load(obs, m, full, gangs, what)
            return None if dims is None else (go(m), m, dims)

        res = self.ranks(obs, tp, rank, what())
        obs.count("clipped")
        obs.state(("clip", tp, desc, limit, norm_type))
        if res is None or any(v is None for v in res):
            return
        for r, (n, m, dims) in enumerate(res):
            self.close(obs, "gradient-norm", n, want, lambda: f"{what()}: norm on rank {r}", 1e-4)
            self.same_grads(obs, m, full, dims, r, tp, what, 1e-4)

    # -- training -------------------------------------------------------------
    def run_train(self, rng, obs, case):
        """A training run on tensor parallel ranks follows the one on a single rank."""
        import shutil

        import torch
        import ckpt
        import gloo
        import trainkit as tk
        from vlib import scratch

        drop = rng.choice([0.0, 0.3])
        dp = 1
        Net, vocab, desc = self.small(rng, 2, drop)
        with seeded(case["s"] & 0xFFFF):
            full = Net(None)
        steps, limit = rng.randint(2, 5), rng.choice([None, 0.05, 0.5])
        g = torch.Generator().manual_seed(case["s"])
        data = [[[torch.randint(0, vocab, (2, 4), generator=g)] for _ in range(rng.choice([1, 2]))] for _ in range(steps)]
        w = torch.randn(2, 4, vocab, generator=g)
        what = lambda: f"{desc} {steps} steps, dropout {drop}, max_grad_norm {limit}"  # noqa: E731

        class B:
            def __init__(self, ids):
                self.x = ids[0] if isinstance(ids, list) else ids

            def to(self, device, *, non_blocking=False):
                pass

        def train(net, gangs, d):
            from fairseq2.trainer import TrainUnit

            class Unit(TrainUnit):
                @property
                def model(self):
                    return net

                def prepare_metric_bag(self, bag):
                    pass

                def process_batch(self, batch, bag):
                    out = net(batch.x)
                    return (out.log_softmax(-1) * w).sum(), 8

            opt = torch.optim.SGD(net.parameters(), lr=0.02)
            t = tk.make_trainer(model=tk_model(net), unit=Unit(), reader=tk.make_list_reader(lambda e: data, B), gangs=gangs, optimizer=opt, manager=ckpt.make_manager(d, gangs), max_num_steps=steps, max_grad_norm=limit)
            tk.run_trainer(t)

        def tk_model(net):
            return net

        def single():
            net = copy.deepcopy(full)
            d = scratch()
            try:
                train(net, tk.single_gangs(), d)
            finally:
                shutil.rmtree(d, ignore_errors=True)
            return net

        d = scratch()

        def rank(root, r):
            from fairseq2.gang import create_parallel_gangs
            from fairseq2.nn import get_shard_dims

            gangs = create_parallel_gangs(root, tp_size=2)
            m = Net(gangs)
            self.load(obs, m, full, gangs, what)
            train(m, gangs, d)
            return {n: p.detach() for n, p in m.named_parameters()}, get_shard_dims(m)

        try:
            out = gloo.run(2 * dp, rank)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        obs.count("trained")
        obs.state(("train", desc, drop, limit, steps))
        if any(o[0] in ("hang", "init-failed") for o in out) and not any(o[0] == "error" for o in out):
            obs.inconclusive(f"gloo: {[o[0] for o in out]}")
        if any(o[0] != "ok" for o in out):
            obs.violate("failed", f"{what()}: {[o[1:] for o in out if o[0] != 'ok']}"[:1800])
            return
        (a, dims), (b, _) = out[0][1], out[1][1]
        for n, p in a.items():
            if n not in dims:
                self.close(obs, "replicas", b[n], p, lambda: f"{what()}: {n} differs between the ranks", 1e-6)
        if drop:
            obs.count("dropout_runs")
            return
        ref = single()
        for n, p in ref.named_parameters():
            for r, v in enumerate((a, b)):
                q = p if n not in dims else self.piece(p, dims[n], r, 2)
                self.close(obs, "training", v[n], q, lambda: f"{what()}: {n} on rank {r} after training", 2e-4)


if __name__ == "__main__":
    main(C23())
