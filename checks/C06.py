"""C06: overflowing fp16 steps leave no trace."""
import copy
import math
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main, scratch


class Automaton:
    """What the scale has to do."""

    def __init__(self, scale, factor, window, low):
        self.scale, self.factor, self.window, self.low = scale, factor, window, low
        self.streak = 0

    def step(self, overflow):
        """-> (old, new, scaled, overflowed, exploded)"""
        old = self.scale
        if overflow:
            self.streak = 0
            new = old / self.factor
            if new < self.low:
                self.scale = self.low
                return old, self.low, False, True, True
            self.scale = new
            return old, new, False, True, False
        self.streak += 1
        if self.streak == self.window:
            self.streak = 0
            if old * self.factor < 2.0**128:
                self.scale = old * self.factor
                return old, self.scale, True, False, False
        return old, old, False, False, False


def near(a, b):
    return a == b or math.isclose(a, b, rel_tol=1e-5)


class C06(Check):
    id = "C06"
    rule = (
        "fp16 loss scalers (plain, and sharded over gloo ranks) and real trainer runs driven by generated sequences of good, infinite and NaN gradients; every step's "
        "scale, parameters and optimizer state judged by an automaton and a reference optimizer; non-trivial = at least one overflow and one good step"
    )
    required = ["overflows", "good_steps", "growths", "explosions", "restores", "trainer_overflows", "trainer_explosions", "sharded_overflows", "fp16_steps", "clean_step_comparisons", "one_rank_overflows", "small_scale_overflows"]
    assumptions = ["fp16 loss scaling emulated by enabling torch's gradient scalers for CPU"]

    def setup_worker(self):
        import fairseq2.recipe  # noqa: F401 (import order)
        import trainkit

        trainkit.emulate_fp16_scaling()

    def settings(self, rng):
        exact = rng.random() < 0.8
        factor = rng.choice([2.0, 2.0, 4.0, 8.0]) if exact else rng.choice([1.5, 3.0, 10.0])
        init = 2.0 ** rng.choice([16, 10, 4, 1, 0, -3, -10, -18, 100, 120])
        if not exact:
            init = min(max(init, 1.0), 65536.0)  # rounding must not decide whether it is too low
        low = init / factor ** rng.choice([0, 1, 2, 3, 5]) if exact else init * 1e-33
        if exact and rng.random() < 0.25:
            low = 0.0001 if init > 0.001 else init / 16
        return {"factor": factor, "init": init, "low": low, "window": rng.choice([1, 2, 3, 4, 7]), "exact": exact}

    def gen(self, rng, tier):
        q = tier == "quick"
        for i in range(500 if q else 6000):
            p = rng.choice([0.1, 0.3, 0.6])
            yield {
                "k": "scaler", "s": rng.randrange(1 << 30), **self.settings(rng), "opt": rng.choice(["sgd", "mom", "adam", "adamw", "fused", "groups"]),
                "dtype": rng.choice(["f32", "f32", "f16", "mixed"]), "unscale": rng.random() < 0.7,
                "seq": [rng.choice(["inf", "nan", "-inf", "one"]) if rng.random() < p else "ok" for _ in range(rng.randrange(5, 30))], "save": rng.choice([0, 0.2, 1]),
            }
        for i in range(120 if q else 1500):
            p = rng.choice([0.1, 0.3, 0.6])
            st = self.settings(rng)
            if not st["exact"]:
                st = {"factor": 2.0, "init": 64.0, "low": 64.0 / 2 ** rng.randrange(0, 6), "window": rng.randrange(1, 5), "exact": True}
            n = rng.randrange(4, 24)
            yield {
                "k": "trainer", "s": rng.randrange(1 << 30), **st, "n": n, "bad": {str(b): rng.choice(["inf", "nan"]) for b in range(n) if rng.random() < p},
                "opt": rng.choice(["sgd", "adamw"]), "acc": rng.choice([1, 1, 2]), "clip": rng.choice([None, 0.5]), "lr": rng.choice(["none", "noam", "tri"]),
                "normalize": rng.random() < 0.6, "cuts": [rng.randrange(1, 8) for _ in range(rng.randrange(0, 3))],
            }
        for i in range(24 if q else 200):
            yield {
                "k": "sharded", "s": rng.randrange(1 << 30), **self.settings(rng), "size": rng.choice([2, 2, 3, 4]), "grid": rng.choice(["tp", "sdp"]), "opt": rng.choice(["mom", "adam"]),
                "seq": [rng.choice(["inf", "nan", "one", "one"]) if rng.random() < 0.35 else "ok" for _ in range(rng.randrange(5, 14))],
            }

    def run(self, case, obs):
        getattr(self, "run_" + case["k"])(case, obs)

    # --- scaler ---

    def make_opt(self, name, params):
        import torch

        if name == "sgd":
            return torch.optim.SGD(params, lr=0.1)
        if name == "mom":
            return torch.optim.SGD(params, lr=0.1, momentum=0.9, weight_decay=0.01)
        if name == "adam":
            return torch.optim.Adam(params, lr=0.01, eps=1e-3)
        if name == "fused":
            return torch.optim.AdamW(params, lr=0.01, eps=1e-3, fused=True)
        if name == "groups":
            params = list(params)
            return torch.optim.Adam([{"params": params[:1], "lr": 0.05}, {"params": params[1:]}], lr=0.01, eps=1e-3, amsgrad=True)
        return torch.optim.AdamW(params, lr=0.01, eps=1e-3)

    def snapshot(self, params, opt):
        import torch

        out = [p.detach().clone() for p in params]
        for p in params:
            st = opt.state.get(p, {})
            for k in sorted(st):
                v = st[k]
                out.append(v.detach().clone() if isinstance(v, torch.Tensor) else torch.tensor(0.0 if v is None else float(v)))
        return out

    def same(self, a, b):
        import torch

        return len(a) == len(b) and all(x.dtype == y.dtype and torch.equal(x, y) for x, y in zip(a, b))

    def drive(self, case, obs, gangs, sharded=False, rank=0, size=1):
        """Runs one scaler over the sequence; returns observed rows."""
        import io

        import torch
        from fairseq2.optim.fp16_loss_scaler import StandardFloat16LossScaler

        f16, f32 = torch.float16, torch.float32
        gen = torch.Generator().manual_seed(case["s"] % 99991 + 17 * rank)
        dts = {"f32": [f32] * 3, "f16": [f16] * 3, "mixed": [f32, f16, f32]}[case.get("dtype", "f32")]
        opt_name = case["opt"]
        if opt_name == "fused" and any(d == f16 for d in dts):
            opt_name = "adamw"
        make = lambda: [torch.nn.Parameter(t.clone()) for t in init]  # noqa: E731
        init = [torch.randn(s, generator=gen).to(d) for s, d in zip([(3,), (2, 2), (1,)], dts)]
        ps, ref = make(), make()
        opt, ropt = self.make_opt(opt_name, ps), self.make_opt("adamw" if opt_name == "fused" else opt_name, ref)

        def scaler(**kw):
            a = dict(init_scale=case["init"], scale_factor=case["factor"], scale_window=case["window"], min_scale=case["low"])
            a.update(kw)
            return StandardFloat16LossScaler(gangs, **a)

        sc = scaler()
        auto = Automaton(case["init"], case["factor"], case["window"], case["low"])
        r = random.Random(case["s"])
        rows = []
        for i, what in enumerate(case["seq"]):
            data = [torch.randn(p.shape, generator=gen).to(p.dtype) for p in ps]
            hit_rank, hit_par = r.randrange(size), r.randrange(3)

            def loss_of(params):
                ls = []
                for j, (p, d) in enumerate(zip(params, data)):
                    v = (p * d).float().sum()
                    if what != "ok" and (j == hit_par) and (not sharded or rank == hit_rank or what != "one"):
                        v = v * {"inf": math.inf, "-inf": -math.inf, "nan": math.nan, "one": math.inf}[what]
                    ls.append(v)
                return sum(ls[1:], ls[0])

            before = self.snapshot(ps, opt)
            sc.backward(loss_of(ps))
            grads = [p.grad.detach().clone() for p in ps]
            local = any(not torch.isfinite(g).all() for g in grads)
            overflow = local
            if sharded:
                flag = torch.tensor([float(local)])
                torch.distributed.all_reduce(flag)
                overflow = bool(flag.item())
                if overflow and flag.item() < size:
                    obs.count("one_rank_overflows")
            scale0 = auto.scale
            if case.get("unscale", True):
                sc.unscale_grads_(opt)
                if not overflow and opt_name != "fused":
                    for p, g in zip(ps, grads):
                        want = g.float() / scale0
                        obs.check(torch.allclose(p.grad.float(), want, rtol=2e-3 if p.dtype == f16 else 1e-5, atol=6e-8 if p.dtype == f16 else 0.0), "unscaled-gradient", lambda: f"step {i}: {p.grad} instead of {want}")
            res = sc.run_optimizer_step(opt)
            opt.zero_grad()
            old, new, scaled, over, exploded = auto.step(overflow)
            got = (res.old_scale, res.new_scale, res.scaled, res.overflowed, res.exploded)
            obs.check(near(got[0], old) and near(got[1], new) and got[2:] == (scaled, over, exploded), "scale", lambda: f"step {i} of {case['seq']}: (old, new, scaled, overflowed, exploded) = {got}, expected {(old, new, scaled, over, exploded)}")
            obs.check(res.new_scale >= case["low"] * (1 - 1e-6), "below-minimum", lambda: f"step {i}: {res.new_scale}")
            auto.scale = res.new_scale if near(res.new_scale, auto.scale) else auto.scale
            after = self.snapshot(ps, opt)
            obs.count("assertions")
            if overflow:
                obs.count("overflows")
                if old < 1e-4:
                    obs.count("small_scale_overflows")
                if exploded:
                    obs.count("explosions")
                if sharded:
                    obs.count("sharded_overflows")
                ok = self.same(before, after) or (not before[3:] and all(torch.equal(a, b) for a, b in zip(before[:3], after[:3])) and not any(t.any() for t in after[3:]))
                obs.check(ok, "overflow-trace", lambda: f"step {i} ({what}) changed {[k for k, (a, b) in enumerate(zip(before, after)) if not torch.equal(a, b)]}: {before} -> {after}")
            else:
                obs.count("good_steps")
                if any(d == f16 for d in dts):
                    obs.count("fp16_steps")
                if scaled:
                    obs.count("growths")
                # The reference applies the observed gradients, unscaled by hand.
                for p, g in zip(ref, grads):
                    inv = torch.tensor(scale0, dtype=torch.float64).reciprocal().float()
                    p.grad = (g.float() * inv).to(p.dtype)
                clean = [torch.autograd.grad(loss_of(ref), ref)] if all(d == f32 for d in dts) else None
                if clean and math.frexp(scale0)[0] == 0.5 and all(g.abs().max() * scale0 < 2.0**120 for g in clean[0]):
                    # A power of two changes nothing at all.
                    obs.count("clean_step_comparisons")
                    if opt_name != "fused":
                        obs.check(all(torch.equal(a, p.grad) for a, p in zip(clean[0], ref)), "scaled-gradient", lambda: f"step {i}: {clean} vs {[p.grad for p in ref]}")
                ropt.step()
                tol = dict(rtol=2e-2, atol=2e-3) if any(d == f16 for d in dts) else dict(rtol=1e-5, atol=1e-6)
                ok = all(torch.allclose(a.detach().float(), b.detach().float(), **tol) for a, b in zip(ps, ref))
                if math.frexp(scale0)[0] == 0.5 and opt_name != "fused" and all(d == f32 for d in dts):
                    ok = ok and all(torch.equal(a, b) for a, b in zip(ps, ref))
                obs.check(ok, "good-step", lambda: f"step {i}: {ps} instead of {ref}")
                with torch.no_grad():
                    for a, b in zip(ps, ref):  # keep rounding from building up
                        b.copy_(a)
            rows.append((res.new_scale, over))
            if r.random() < case.get("save", 0):
                buf = io.BytesIO()
                torch.save(sc.state_dict(), buf)
                buf.seek(0)
                sc = scaler(init_scale=3.0)
                sc.load_state_dict(torch.load(buf))
                obs.count("restores")
        return rows

    def run_scaler(self, case, obs):
        import trainkit as tk

        self.drive(case, obs, tk.single_gangs())
        obs.state("scaler", case["opt"], case["factor"], case["window"], len(case["seq"]))

    def run_sharded(self, case, obs):
        import gloo
        from vlib import Obs

        def body(root, rank):
            from fairseq2.gang import create_fsdp_gangs, create_parallel_gangs

            g = create_parallel_gangs(root, tp_size=case["size"] if case["grid"] == "tp" else 1)
            if case["grid"] == "sdp":
                g = create_fsdp_gangs(g)
            o = Obs()
            rows = self.drive({**case, "save": 0}, o, g, True, rank, case["size"])
            return rows, dict(o.counts), o.violations

        res = gloo.run(case["size"], body, timeout=60)
        if any(r[0] == "init-failed" for r in res):
            obs.inconclusive(str(res)[:500])
        bad = [r for r in res if r[0] != "ok"]
        for r in res:
            if r[0] == "ok":
                for v in r[1][2]:
                    obs.violate(*v)
        obs.check(not bad, "ranks-failed", lambda: str(bad[:2])[:2500])
        if bad:
            return
        for _, (rows, counts, _v) in res:
            for k, v in counts.items():
                obs.count(k, v)
        obs.check(all(r[1][0] == res[0][1][0] for r in res), "ranks-disagree", lambda: str([r[1][0] for r in res]))
        obs.state("sharded", case["size"], case["grid"])

    # --- trainer ---

    def run_trainer(self, case, obs):
        import ckpt
        import torch
        import trainkit as tk
        from fairseq2.optim.fp16_loss_scaler import StandardFloat16LossScaler
        from fairseq2.recipe.error import MinimumLossScaleReachedError

        bad = {int(k): {"inf": tk.INF, "nan": tk.NAN}[v] for k, v in case["bad"].items()}
        acc, n = case["acc"], case["n"]
        steps = [[[b, b + 100] for b in range(i, min(n, i + acc))] for i in range(0, n, acc)]

        def optimizer(net):
            return torch.optim.SGD(net.parameters(), lr=0.05, momentum=0.9) if case["opt"] == "sgd" else torch.optim.AdamW(net.parameters(), lr=0.01)

        # Reference: one pass over the steps without a trainer.
        net = tk.make_net(case["s"] % 1000)
        opt = optimizer(net)
        lr = tk.make_lr_scheduler(case["lr"], opt)
        auto = Automaton(case["init"], case["factor"], case["window"], case["low"])
        want_died, want_nr, want_ids = None, 0, 0
        want_log = []
        for st in steps:
            scale = torch.tensor(auto.scale)
            total = 0
            for ids in st:
                b = tk.Batch(ids)
                loss = ((net(b.x) - b.y) ** 2).sum()
                if not case["normalize"]:
                    loss = loss / len(ids)
                if ids[0] in bad:
                    loss = loss * bad[ids[0]]
                if not case["normalize"]:
                    loss = loss / len(st)
                total += len(ids)
                (loss * scale).backward()
            if case["normalize"]:
                for p in net.parameters():
                    p.grad *= 1 / torch.tensor(total)
            over = any(not torch.isfinite(p.grad).all() for p in net.parameters())
            *_, exploded = auto.step(over)
            want_log.append((want_nr + 1, over))
            if exploded:
                want_died = want_nr + 1
                break
            if not over:
                for p in net.parameters():
                    p.grad *= 1 / scale
                if case["clip"]:
                    torch.nn.utils.clip_grad_norm_(net.parameters(), case["clip"])
                opt.step()
                lr.step()
                want_nr += 1
                want_ids += sum(map(len, st))
            opt.zero_grad()
        # The real thing, with restarts in between.
        cuts = list(case["cuts"]) + [None]
        with scratch() as d:
            for inc, cut in enumerate(cuts):
                log = tk.Log()
                tnet = tk.make_net(case["s"] % 1000)
                topt = optimizer(tnet)
                tlr = tk.make_lr_scheduler(case["lr"], topt)
                gangs = tk.single_gangs()
                sc = StandardFloat16LossScaler(gangs, init_scale=case["init"], scale_factor=case["factor"], scale_window=case["window"], min_scale=case["low"])
                pool = ckpt.Pool()
                mgr = ckpt.make_manager(d, gangs, pool=pool)
                start = mgr.maybe_get_last_step_number(exclude_model_only=True)
                if start is not None:
                    obs.count("restores")
                box = {"n": 0}

                def hook(u, b):
                    box["n"] += 1
                    if cut is not None and box["n"] == cut:
                        t.request_stop()

                unit = tk.make_unit(tnet, log, normalize=case["normalize"], bad=lambda s, c, b: bad.get(b.ids[0]), hook=hook)
                t = tk.make_trainer(
                    model=tnet, unit=unit, reader=tk.make_list_reader(lambda e: steps, tk.Batch), gangs=gangs, optimizer=topt, manager=mgr, recorder=tk.make_recorder(log), lr_scheduler=tlr,
                    scaler=sc, max_num_data_epochs=1, checkpoint_every_n_steps=1, keep_last_n_checkpoints=1, publish_metrics_every_n_steps=1, max_grad_norm=case["clip"],
                )
                died = None
                try:
                    how = tk.run_trainer(t)
                except MinimumLossScaleReachedError as ex:
                    how, died = "died", ex.step_nr
                for th in pool.threads:
                    th.join()
                for ev in log.of("publish"):
                    # Only good steps are counted.
                    obs.count("assertions")
                    k = ev[1]
                    good = [i for i, (s, o) in enumerate(want_log) if not o][:k]
                    total = sum(len(x) for i in good for x in steps[i])
                    obs.check(ev[2].get("total_num_ids") == total, "metrics-count-overflow", lambda: f"step {k}: {ev[2]} instead of {total}")
                if how != "stopped":
                    break
                if start is None and mgr.maybe_get_last_step_number() is None:
                    # Nothing saved yet: only overflows so far, start over.
                    continue
            obs.count("good_steps", want_nr)
            obs.count("overflows", sum(o for _, o in want_log))
            obs.count("trainer_overflows", sum(o for _, o in want_log))
            if case["cuts"] and want_died is None and any(o for _, o in want_log):
                # Overflowed attempts after the last save may be tried again
                # after a restart, from the scale that was saved.
                obs.check(how in ("done", "died"), "ending", how)
            if case["cuts"] and any(o for _, o in want_log):
                # A repeated attempt may see another scale; the values applied
                # do not depend on it as long as nothing explodes.
                if how == "died" or want_died:
                    obs.count("exploded_restarts")
                    return
            else:
                obs.check((how, died) == (("died", want_died) if want_died else ("done", None)), "minimum-scale", lambda: f"{how} at {died}, expected {want_died} in {want_log} {case}")
                if died:
                    obs.count("trainer_explosions")
                obs.check(near(sc._grad_scaler.get_scale(), auto.scale), "trainer-scale", lambda: f"{sc._grad_scaler.get_scale()} != {auto.scale}")
            if auto.scale < 2.0**90:
                ok = all(torch.equal(a, b) for a, b in zip(net.parameters(), tnet.parameters()))
                obs.check(ok, "trainer-parameters", lambda: f"{list(tnet.parameters())} instead of {list(net.parameters())}, steps {want_log}, {case}")
                a = [[float(x) for x in g] for g in ([gr["lr"] for gr in opt.param_groups], [gr["lr"] for gr in topt.param_groups])]
                obs.check(a[0] == a[1], "learning-rate", lambda: f"{a[1]} instead of {a[0]}")
        obs.state("trainer", case["opt"], len(case["cuts"]), want_nr)

    def nontrivial(self, case, obs):
        return obs.counts["overflows"] > 0 and obs.counts["good_steps"] > 0


if __name__ == "__main__":
    main(C06())
