"""C33: learning rates follow their schedule."""
import io
import itertools
import math
import random
import warnings

import torch

from vlib import Check, main

KINDS = ["cosine", "cosine_cycles", "myle", "noam", "polynomial", "tri_stage", "passthrough"]


def ref_cosine(c, g, t, mode):
    """The documented formula; `mode` says how fractional cycle lengths are read."""
    w, b, s, f = c["warmup"], g["lr"], g["start"], g["final"]
    if t < w:
        return s + (b - s) * t / w
    k, m = t - w, c["cycle_mul"]
    nr, off, length = 0, 0, c["cycle_len"]
    while k - off >= length - 1e-9:
        off += length
        nr += 1
        length = m**nr * c["cycle_len"]
        if mode == "floor":
            length = int(length + 1e-9)
        elif mode == "round":
            length = round(length)
    q = c["lr_mul"] ** nr
    return q * (f + 0.5 * (b - f) * (1 + math.cos(math.pi * (k - off) / length)))


def ref_myle(c, g, t):
    w = c["warmup"]
    return g["start"] + (g["lr"] - g["start"]) * t / w if t < w else g["lr"] * math.sqrt(w / t)


def ref_noam(c, g, t):
    w = c["warmup"]
    if t < w:
        return g["lr"] * t / w / math.sqrt(w)
    return g["lr"] if t == 0 else g["lr"] / math.sqrt(t)


def ref_poly(c, g, t):
    w, n = c["warmup"], c["num_steps"]
    if t < w:
        return g["start"] + (g["lr"] - g["start"]) * t / w
    if t >= n:
        return g["final"]
    return g["final"] + (g["lr"] - g["final"]) * ((n - t) / (n - w)) ** c["power"]


def ref_tri(c, g, t, stages):
    a, h, d = stages
    b, s, f = g["lr"], g["start_scale"], g["final_scale"]
    if t < a:
        return b * (s + (1 - s) * t / a)
    if t < a + h:
        return b
    if t < a + h + d:
        return b * f ** ((t - a - h) / d)
    return b * f


class C33(Check):
    id = "C33"
    rule = "the learning rate of each group at each step equals an independent closed form to 1e-9 (relative; 1e-5 for single precision tensors), stays within its bounds, and continues after save/restore"
    required = ["steps", "restored", "via_recipe", "tensor_lr", "several_groups", "cycles_seen", "rejected", *("kind_" + k for k in KINDS)]
    assumptions = ["cycle multipliers are at least 1 and final scales of the tri-stage schedule positive", "fractional cycle and stage lengths may be rounded in any consistent way"]

    def gen(self, rng, tier):
        for i in range(1500 if tier == "quick" else 30000):
            yield self.one(rng, KINDS[i % len(KINDS)])
        for i in range(60):
            yield dict(kind="reject", seed=rng.randrange(1 << 30))

    def one(self, rng, kind):
        n = rng.choice([1, 1, 2, 3])
        groups = []
        for _ in range(n):
            lr = rng.choice([1.0, 0.5, 1e-3, 3e-4, 7.0])
            groups.append(dict(lr=lr, start=rng.choice([0.0, 0.1, 0.5]) * lr, final=rng.choice([0.0, 0.1, 0.2, 1.0, 1.5]) * lr, start_scale=rng.choice([0.01, 0.5, 1.0, 0.0]), final_scale=rng.choice([0.01, 0.3, 1.0])))
        num_steps = rng.choice([1, 2, 3, 5, 10, 17, 40, 100, 333])
        c = dict(kind=kind, groups=groups, num_steps=num_steps, warmup=rng.choice([0, 1, 2, 5, 13]), seed=rng.randrange(1 << 30), tensor=rng.random() < 0.3, double=rng.random() < 0.5, recipe=rng.random() < 0.4, shared=rng.random() < 0.3)
        if c["shared"]:
            for k in ("start", "final", "start_scale", "final_scale"):
                for g in groups:
                    g[k] = groups[0][k]
        if kind == "cosine":
            c.update(cycle_len=rng.choice([1, 2, 7, 30, 100]), cycle_mul=1.0, lr_mul=rng.choice([1.0, 0.5, 0.9]), auto_len=rng.random() < 0.3)
            if c["auto_len"]:
                c["warmup"] = rng.randint(0, max(0, num_steps - 1))
                c["cycle_len"] = num_steps - c["warmup"]
        elif kind == "cosine_cycles":
            c.update(cycle_len=rng.choice([1, 2, 3, 4, 5, 7, 10, 20, 80]), cycle_mul=rng.choice([2.0, 3.0, 5.0, 10.0, 7.0, 1.2, 1.5, 1.1, 2.5, round(rng.uniform(1.01, 4.0), 2)]), lr_mul=rng.choice([1.0, 0.5, 0.9, 1.1]), auto_len=False)
        elif kind == "myle":
            c["warmup"] = max(1, c["warmup"])
        elif kind == "polynomial":
            c.update(power=rng.choice([1.0, 2.0, 0.5, 1.7]), warmup=rng.randint(0, num_steps - 1))
        elif kind == "tri_stage":
            a = rng.choice([0.0, 0.1, 0.3, 0.29, 1 / 3, 0.5, round(rng.random(), 2)])
            h = rng.choice([0.0, 0.1, 0.4, round(rng.uniform(0, 1 - a), 2)])
            h = min(h, 1 - a)
            c["ratio"] = [a, h, 1 - a - h]
        c["total"] = rng.choice([num_steps, num_steps + 5, 2 * num_steps, 300]) + c["warmup"]
        if tier_long := rng.random() < 0.05:
            c["total"] = 3000
        return c

    def setup_worker(self):
        import fairseq2.recipe  # noqa: F401
        import fairseq2.optim.lr_schedulers  # noqa: F401
        import fairseq2.recipe.composition.lr_schedulers  # noqa: F401

        warnings.filterwarnings("ignore")

    def run(self, c, obs):
        if c["kind"] == "reject":
            self.reject(c, obs)
        else:
            self.follow(c, obs)

    def optimizer(self, c):
        ps = []
        dtype = torch.float64 if c["double"] else torch.float32
        for g in c["groups"]:
            lr = torch.tensor(g["lr"], dtype=dtype) if c["tensor"] else g["lr"]
            ps.append(dict(params=[torch.nn.Parameter(torch.zeros(1))], lr=lr))
        return torch.optim.SGD(ps, lr=0.1, foreach=False)

    def scheduler(self, c, opt):
        import fairseq2.optim.lr_schedulers as L

        def per(k):
            v = [g[k] for g in c["groups"]]
            return v[0] if c["shared"] else v

        k = c["kind"]
        if c["recipe"] and not c["tensor"]:
            return self.recipe(c, opt, per)
        if k in ("cosine", "cosine_cycles"):
            return L.CosineAnnealingLR(opt, c["cycle_len"], c["warmup"], cycle_mul=c["cycle_mul"], lr_mul=c["lr_mul"], start_lr=self.t(c, per("start")), final_lr=self.t(c, per("final")))
        if k == "myle":
            return L.MyleLR(opt, c["warmup"], start_lr=self.t(c, per("start")))
        if k == "noam":
            return L.NoamLR(opt, c["warmup"])
        if k == "polynomial":
            return L.PolynomialDecayLR(opt, c["num_steps"], c["warmup"], power=c["power"], start_lr=self.t(c, per("start")), final_lr=self.t(c, per("final")))
        if k == "tri_stage":
            return L.TriStageLR(opt, c["num_steps"], tuple(c["ratio"]), start_lr_scale=per("start_scale"), final_lr_scale=per("final_scale"))
        return L.PassthroughLR(opt)

    def t(self, c, v):
        if not c["tensor"] or c["seed"] % 2:
            return v
        dtype = torch.float64 if c["double"] else torch.float32
        return [torch.tensor(x, dtype=dtype) for x in v] if isinstance(v, list) else torch.tensor(v, dtype=dtype)

    def recipe(self, c, opt, per):
        import fairseq2.recipe.composition.lr_schedulers as comp
        import fairseq2.recipe.config as K
        from fairseq2.optim.lr_schedulers import LRScheduler, PassthroughLR
        from fairseq2.recipe.component import ComponentManager, _StandardComponentManager
        from fairseq2.runtime.dependency import DependencyContainer
        from torch.optim import Optimizer

        k = c["kind"]
        reg = K.RegimeSection(num_steps=c["num_steps"])
        box = DependencyContainer()
        box.register_instance(Optimizer, opt)
        box.register_instance(K.RegimeSection, reg)
        comp._register_lr_schedulers(box)
        if k in ("cosine", "cosine_cycles"):
            cfg = K.CosineAnnealingLRConfig(cycle_len=None if c["auto_len"] else c["cycle_len"], num_warmup_steps=c["warmup"], cycle_mul=c["cycle_mul"], lr_mul=c["lr_mul"], start_lr=per("start"))
            if c["seed"] % 2:
                cfg.final_lr, cfg.final_lr_scale = per("final"), None
            else:
                cfg.final_lr_scale = [g["final"] / g["lr"] for g in c["groups"]]
            name = K.COSINE_ANNEALING_LR
        elif k == "myle":
            cfg, name = K.MyleLRConfig(num_warmup_steps=c["warmup"], start_lr=per("start")), K.MYLE_LR
        elif k == "noam":
            cfg, name = K.NoamLRConfig(num_warmup_steps=c["warmup"]), K.NOAM_LR
        elif k == "polynomial":
            cfg, name = K.PolynomialDecayLRConfig(num_warmup_steps=c["warmup"], power=c["power"], start_lr=per("start"), final_lr=per("final")), K.POLYNOMIAL_DECAY_LR
        elif k == "tri_stage":
            cfg, name = K.TriStageLRConfig(stage_ratio=tuple(c["ratio"]), start_lr_scale=per("start_scale"), final_lr_scale=per("final_scale")), K.TRI_STAGE_LR
        else:
            return PassthroughLR(opt)
        self.obs.count("via_recipe")
        return _StandardComponentManager(box, None).create_component(LRScheduler, name, cfg)

    def refs(self, c):
        """The candidate curves: functions of (group, step)."""
        k = c["kind"]
        if k in ("cosine", "cosine_cycles"):
            return [lambda g, t, m=m: ref_cosine(c, g, t, m) for m in ("real", "floor", "round")]
        if k == "tri_stage":
            out = set()
            for r in c["ratio"]:
                x = r * c["num_steps"]
            opts = [sorted({math.floor(r * c["num_steps"] + 1e-9), int(r * c["num_steps"]), round(r * c["num_steps"]), math.ceil(r * c["num_steps"] - 1e-9)}) for r in c["ratio"]]
            return [lambda g, t, s=s: ref_tri(c, g, t, s) for s in itertools.product(*opts) if abs(sum(s) - c["num_steps"]) <= 2]
        f = dict(myle=ref_myle, noam=ref_noam, polynomial=ref_poly, passthrough=lambda c, g, t: g["lr"])[k]
        return [lambda g, t: f(c, g, t)]

    def follow(self, c, obs):
        from fairseq2.optim.lr_schedulers import get_effective_lr

        self.obs = obs
        obs.count("kind_" + c["kind"])
        if c["tensor"]:
            obs.count("tensor_lr")
        if len(c["groups"]) > 1:
            obs.count("several_groups")
        rng = random.Random(c["seed"])
        opt = self.optimizer(c)
        sch = self.scheduler(c, opt)
        refs = self.refs(c)
        n, k, total = len(c["groups"]), c["kind"], c["total"]
        saves = sorted({rng.randint(0, total) for _ in range(2)})
        saved, curve = {}, []
        tol = 1e-9 if not c["tensor"] else 1e-7 if c["double"] else 2e-5
        if c["tensor"] and c["double"]:
            tol = 1e-6  # scales are multiplied in single precision by some paths
        big = max(max(g["lr"], g["start"], g["final"]) for g in c["groups"])
        for t in range(total):
            if t in saves:
                buf = io.BytesIO()
                torch.save((sch.state_dict(), opt.state_dict()), buf)
                saved[t] = buf.getvalue()
            now = [float(g["lr"]) for g in opt.param_groups]
            obs.check([float(x) for x in sch.get_last_lr()] == now, "last-lr", lambda: f"step {t}: get_last_lr() {sch.get_last_lr()}, optimizer {now}")
            obs.check(float(get_effective_lr(sch)) == now[0], "effective-lr", lambda: f"{get_effective_lr(sch)} {now}")
            curve.append(now)
            left = []
            for f in refs:
                want = [f(g, t) for g in c["groups"]]
                if all(abs(a - b) <= tol * max(big, abs(b)) for a, b in zip(now, want)):
                    left.append(f)
            if not left:
                obs.violate(f"{k}-curve", f"step {t}: learning rates {now}, expected {[f(g, t) for f in refs[:1] for g in c['groups']]} (previous {curve[-3:-1]})")
                return
            refs = left
            if k != "cosine_cycles" or c["lr_mul"] <= 1:
                for g, x in zip(c["groups"], now):
                    if k in ("cosine", "cosine_cycles"):
                        nr_lo = min(g["start"], 0.0 if c["lr_mul"] < 1 else g["final"], g["lr"])
                        hi = max(g["start"], g["lr"], g["final"])
                    elif k == "tri_stage":
                        nr_lo, hi = g["lr"] * min(g["start_scale"], g["final_scale"], 1), g["lr"]
                    elif k == "polynomial":
                        nr_lo, hi = min(g["start"], g["final"], g["lr"]), max(g["start"], g["final"], g["lr"])
                    else:
                        nr_lo, hi = 0.0, max(g["lr"], g["start"])
                    obs.check(nr_lo - tol * big <= x <= hi + tol * big, f"{k}-bounds", lambda: f"step {t}: {x} not in [{nr_lo}, {hi}]")
            opt.step()
            sch.step()
            obs.count("steps", n)
        if k in ("cosine", "cosine_cycles") and total - c["warmup"] > c["cycle_len"]:
            obs.count("cycles_seen")
        obs.state((k, n, c["warmup"], c["num_steps"], c["tensor"]))
        for t, b in saved.items():
            # A new process: new optimizer and scheduler, then load, in either order.
            opt = self.optimizer(c)
            sch = self.scheduler(c, opt)
            a, o = torch.load(io.BytesIO(b), weights_only=False)
            if rng.random() < 0.5:
                sch.load_state_dict(a)
                opt.load_state_dict(o)
            else:
                opt.load_state_dict(o)
                sch.load_state_dict(a)
            for u in range(t, min(total, t + 60)):
                now = [float(g["lr"]) for g in opt.param_groups]
                if u > t or not c["tensor"]:
                    obs.check(now == curve[u], f"{k}-restore", lambda: f"restored at step {t}; at step {u} {now}, uninterrupted {curve[u]}")
                obs.check(all(abs(x - float(y)) <= tol * big for x, y in zip(curve[u], sch.get_last_lr())), f"{k}-restore-last", lambda: f"{sch.get_last_lr()} {curve[u]}")
                opt.step()
                sch.step()
            obs.count("restored")

    def reject(self, c, obs):
        """Settings without a defined curve are reported when the scheduler is created."""
        from fairseq2.utils.validation import ValidationError

        rng = random.Random(c["seed"])
        d = self.one(rng, rng.choice(["cosine", "polynomial"]))
        d.update(recipe=True, tensor=False)
        d["warmup"] = d["num_steps"] + rng.choice([0, 1, 7])
        d["auto_len"] = True
        self.obs = obs
        try:
            self.scheduler(d, self.optimizer(d))
            obs.violate("accepted", f"{d['kind']} with {d['warmup']} warmup steps of {d['num_steps']} was accepted")
        except ValidationError:
            obs.count("rejected")
        d = self.one(rng, rng.choice(["cosine", "polynomial", "myle", "tri_stage"]))
        d.update(tensor=False, shared=False)
        opt = self.optimizer(d)
        d["groups"] = d["groups"] + d["groups"][:1]
        try:
            self.scheduler(d, opt)
            obs.violate("accepted", f"{d['kind']} with {len(d['groups'])} values for {len(opt.param_groups)} groups was accepted")
        except (ValueError, ValidationError):
            obs.count("rejected")


if __name__ == "__main__":
    main(C33())
