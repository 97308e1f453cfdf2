"""C07: accumulation and data parallelism preserve the gradient."""
import os
import random
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main, scratch


class C07(Check):
    id = "C07"
    rule = (
        "the examples of each step dealt out over micro-batches and gloo ranks (DDP, FSDP2, hybrid) of real trainer runs with delays between ranks; parameters after each step "
        "compared with one batch holding all examples, and between ranks; non-trivial = at least one step compared"
    )
    required = ["steps_compared", "ddp_steps", "fsdp2_steps", "hybrid_steps", "accumulated_steps", "no_sync_steps", "zero_target_batches", "zero_target_ranks", "grad_norms_checked", "grad_checks", "inconsistent_norms_reported", "ranks_compared", "overflow_steps"]
    assumptions = ["gloo on CPU, float32", "FSDP1 is not run: torch supports it on accelerators only"]
    case_timeout = 120.0

    def setup_worker(self):
        import fairseq2.recipe  # noqa: F401 (import order)
        import trainkit

        trainkit.emulate_fp16_scaling()

    def gen(self, rng, tier):
        q = tier == "quick"

        def case(mode, size, sdp=1):
            steps = []
            for _ in range(rng.randrange(2, 6)):
                m = rng.randrange(1, 5)
                style = rng.choice(["even", "uneven", "uneven", "starved"])
                grid = []
                nid = rng.randrange(1000)
                for r in range(size):
                    row = []
                    for b in range(m):
                        n = 2 if style == "even" else rng.randrange(0, 4)
                        if style == "starved" and r != nid % size:
                            n = rng.choice([0, 0, 1])
                        w = [rng.choice([0, 1, 1, 2]) if style != "even" else 1 for _ in range(n)]
                        row.append([[nid + 100 * r + 10 * b + k for k in range(n)], w])
                    grid.append(row)
                if rng.random() < 0.15:
                    grid = [[[ids, [0] * len(ids)] for ids, w in row] for row in grid]
                steps.append(grid)
            norm = rng.random() < 0.75
            if not norm:
                for g in steps:
                    for r, row in enumerate(g):
                        for b, e in enumerate(row):
                            e[0], e[1] = [7 + r * 50 + b * 5, 8 + r * 50 + b * 5], [1, 1]
            fp16 = mode in ("single", "ddp") and rng.random() < 0.25
            bad = [[i, r] for i, g in enumerate(steps) for r, row in enumerate(g) if any(c[0] for c in row)]
            return {
                "k": "train", "s": rng.randrange(1 << 30), "mode": mode, "size": size, "sdp": sdp, "steps": steps, "normalize": norm, "no_sync": rng.random() < 0.5, "clip": rng.choice([None, 0.3]),
                "opt": rng.choice(["sgd", "mom", "adam"]), "grad_check": rng.random() < 0.6, "meta": rng.random() < 0.3, "delay": rng.random() < 0.4,
                "bad": [rng.choice(bad)] if fp16 and bad else [], "fp16": fp16,
            }

        for _ in range(150 if q else 1500):
            yield case("single", 1)
        for _ in range(40 if q else 400):
            yield case("ddp", rng.choice([2, 2, 3, 4]))
        for _ in range(16 if q else 160):
            yield case("fsdp2", rng.choice([2, 3]), 0)
        for _ in range(8 if q else 80):
            yield case("hybrid2", 4, 2)
        for _ in range(10 if q else 100):
            yield {"k": "norms", "s": rng.randrange(1 << 30), "size": rng.choice([2, 3, 4])}

    def run(self, case, obs):
        getattr(self, "run_" + case["k"])(case, obs)

    def optimizer(self, case, params):
        import torch

        if case["opt"] == "adam":
            return torch.optim.Adam(params, lr=0.01, eps=1e-2)
        return torch.optim.SGD(params, lr=0.05, momentum=0.9 if case["opt"] == "mom" else 0)

    def reference(self, case):
        """One batch per step, no trainer, no ranks."""
        import torch
        import trainkit as tk

        net = tk.make_net(case["s"] % 1000)
        opt = self.optimizer(case, net.parameters())
        out, norms, good = [], [], []
        for i, grid in enumerate(case["steps"]):
            if any(b[0] == i for b in case["bad"]):
                good.append(False)
                continue
            cells = [c for row in grid for c in row]
            if case["normalize"]:
                ids = [x for c in cells for x in c[0]]
                w = [x for c in cells for x in c[1]]
                b = tk.Batch(ids, w)
                loss = (((net(b.x) - b.y) ** 2) * torch.tensor(w, dtype=torch.float32)).sum() / max(1, sum(w))
            else:
                loss = sum(((net(tk.Batch(c[0]).x) - tk.Batch(c[0]).y) ** 2).mean() for c in cells) / len(cells)
            opt.zero_grad()
            loss.backward()
            norms.append(float(torch.nn.utils.clip_grad_norm_(net.parameters(), case["clip"] or float("inf"))))
            opt.step()
            out.append([p.detach().clone() for p in net.parameters()])
            good.append(True)
        return out, norms, good

    def train(self, case, root, rank, base):
        import ckpt
        import torch
        import trainkit as tk
        from fairseq2.gang import create_fsdp_gangs, create_parallel_gangs
        from fairseq2.nn.ddp import to_ddp
        from fairseq2.nn.data_parallel import get_data_parallel_facade
        from fairseq2.optim.fp16_loss_scaler import StandardFloat16LossScaler

        if root is None:
            gangs = tk.single_gangs()
        else:
            gangs = create_parallel_gangs(root)
            if case["mode"] in ("fsdp1", "fsdp2"):
                gangs = create_fsdp_gangs(gangs)
            elif case["mode"] == "hybrid2":
                gangs = create_fsdp_gangs(gangs, case["sdp"])
        # Ranks start from different weights; those of the first rank count.
        net = tk.make_net((case["s"] + (rank if case["mode"] != "fsdp1" else 0)) % 1000)
        with torch.no_grad():
            net.seen += rank
        model = net
        if case["mode"] == "ddp":
            model = to_ddp(net, gangs)
        elif case["mode"] != "single":
            from fairseq2.nn.fsdp import to_fsdp1, to_fsdp2

            if case["mode"] == "fsdp1":
                def applier(module, wrap):
                    module.a = wrap(module.a)
                    return module
            else:
                def applier(module, wrap):
                    module.a = wrap(module.a)
                    return module

            fn = to_fsdp1 if case["mode"] == "fsdp1" else to_fsdp2
            model = fn(net, gangs, applier, broadcast_state=case["mode"] != "fsdp1")
        log = tk.Log()
        lag = random.Random(case["s"] * 7 + rank)

        def hook(u, b):
            if case["delay"] and lag.random() < 0.5:
                time.sleep(lag.random() * 0.01)

        steps = case["steps"]

        class Reader:
            num_accumulate = max((len(row) for grid in steps for row in grid), default=1)

            def __init__(self):
                self.i = 0

            def __iter__(self):
                return self

            def __next__(self):
                if self.i == len(steps):
                    raise StopIteration()
                self.i += 1
                return [tk.Batch(ids, w) for ids, w in steps[self.i - 1][rank]]

            def reset(self):
                self.i = 0

            def state_dict(self):
                return {"i": self.i}

            def load_state_dict(self, sd):
                self.i = sd["i"]

        from fairseq2.datasets import DataReader

        reader = type("R", (Reader, DataReader), {})()
        bad = None
        if case["bad"]:
            hit = {b[0]: b[1] for b in case["bad"]}
            bad = lambda step, call, b: tk.NAN if hit.get(reader.i - 1) == rank else None  # noqa: E731
        unit = tk.make_unit(model, log, normalize=case["normalize"], hook=hook, bad=bad)
        opt = self.optimizer(case, model.parameters())
        facade = get_data_parallel_facade(model)
        params = []

        class Opt(type(opt)):
            pass

        # Observe the parameters right after each update.
        def full():
            with torch.no_grad():
                if case["mode"] in ("fsdp2", "hybrid2"):
                    return [p.full_tensor().clone() if hasattr(p, "full_tensor") else p.detach().clone() for p in model.parameters()]
                if case["mode"] == "fsdp1":
                    # summon_full_parameters() needs a GPU; put the local
                    # shards of the original parameters together.
                    local = [p.detach().flatten().clone() for p in model.parameters()]
                    every = [None] * gangs.root.size
                    torch.distributed.all_gather_object(every, local)
                    return [torch.cat(ps) for ps in zip(*every)]
                return [p.detach().clone() for p in model.parameters()]

        params = []
        rec = tk.make_recorder(log)
        inner = rec.record_metric_values

        norms = []
        scaler = StandardFloat16LossScaler(gangs, init_scale=16.0, scale_window=2) if case["fp16"] else None
        pool = ckpt.Pool()
        mgr = ckpt.make_manager(base, gangs, pool=pool)
        t = tk.make_trainer(
            model=model, unit=unit, reader=reader, gangs=gangs, optimizer=opt, manager=mgr, recorder=rec, scaler=scaler, no_sync_grad_accumulation=case["no_sync"], max_grad_norm=case["clip"],
            grad_check=case["grad_check"], max_num_data_epochs=1, publish_metrics_every_n_steps=1,
            validator=tk.make_validator(log, None, lambda s: params.append(full())), validate_every_n_steps=1,
        )
        how = tk.run_trainer(t)
        for e in log.of("publish"):
            norms.append(e[2].get("grad_norm"))
        net_buf = int(net.seen) if case["mode"] != "fsdp1" else 0
        return {"how": how, "params": [[p.tolist() for p in ps] for ps in params], "norms": norms, "seen": net_buf, "n": t._step_nr}

    def run_train(self, case, obs):
        import gloo
        import torch

        want, norms, good = self.reference(case)
        with scratch() as d:
            from pathlib import Path

            d = Path(d)
            if case["mode"] == "single":
                res = [("ok", self.train(case, None, 0, d))]
            else:
                res = gloo.run(case["size"], lambda root, rank: self.train(case, root, rank, d), timeout=80)
        if any(r[0] == "init-failed" for r in res):
            obs.inconclusive(str(res)[:500])
        bad = [r for r in res if r[0] != "ok"]
        obs.check(not bad, "ranks-failed", lambda: f"{case}: {str(bad[0][1])} {str(bad[0][2])[-1500:]}")
        if bad:
            return
        fam = {"hybrid2": "hybrid"}.get(case["mode"], case["mode"])
        shapes = [p.shape for p in want[0]] if want else []
        for rank, (_, v) in enumerate(res):
            obs.check(v["how"] == "done", "ending", v["how"])
            obs.check(len(v["params"]) == len(want), "steps", lambda: f"{len(v['params'])} steps instead of {len(want)}: {case}")
            for i, (a, b) in enumerate(zip(v["params"], want)):
                obs.count("steps_compared")
                obs.count(f"{fam}_steps")
                ok = all(torch.allclose(torch.tensor(x).view(y.shape), y, rtol=2e-4, atol=2e-5) for x, y in zip(a, b))
                obs.check(ok, "parameters", lambda: f"{case['mode']} rank {rank} update {i}: {a} instead of {b}; {case}")
            for i, (a, b) in enumerate(zip(v["norms"], norms)):
                obs.count("grad_norms_checked")
                obs.check(abs(a - b) <= 1e-4 * (1 + abs(b)), "gradient-norm", lambda: f"rank {rank} update {i}: {a} instead of {b}; {case}")
            if rank:
                obs.count("ranks_compared")
                obs.check(v["params"] == res[0][1]["params"], "ranks-differ", lambda: f"rank {rank}: {v['params']} vs {res[0][1]['params']}")
        obs.count("overflow_steps", good.count(False))
        for grid in case["steps"]:
            if len(grid[0]) > 1:
                obs.count("accumulated_steps")
                if case["no_sync"]:
                    obs.count("no_sync_steps")
            for row in grid:
                z = [sum(w) == 0 for _, w in row]
                obs.count("zero_target_batches", sum(z))
                obs.count("zero_target_ranks", int(all(z)))
        if case["grad_check"]:
            obs.count("grad_checks", len(want))
        obs.state(case["mode"], case["size"], case["normalize"], case["no_sync"], case["opt"])
        obs.sample = {"mode": case["mode"], "norms": norms}

    def run_norms(self, case, obs):
        import gloo

        r = random.Random(case["s"])
        size = case["size"]
        rounds = []
        for _ in range(12):
            kind = r.choice(["same", "same", "inf", "nan", "one", "some-inf", "all-bad", "tiny"])
            base = r.choice([0.0, 1e-3, 1.0, 123.5])
            v = [base] * size
            i = r.randrange(size)
            if kind == "inf":
                v = [float("inf")] * size
            elif kind == "nan":
                v = [float("nan")] * size
            elif kind == "one":
                v[i] = base * 1.5 + 1
            elif kind == "some-inf":
                v[i] = r.choice([float("inf"), float("nan")])
            elif kind == "all-bad":
                v = [r.choice([float("inf"), float("nan")]) for _ in range(size)]
            rounds.append((v, kind in ("one", "some-inf")))

        def body(root, rank):
            import torch
            from fairseq2.nn.utils.grad import InconsistentGradNormError, check_grad_norms

            out = []
            for n, (v, _) in enumerate(rounds):
                try:
                    check_grad_norms(torch.tensor(v[rank]), root, n)
                    out.append(False)
                except InconsistentGradNormError as ex:
                    out.append(ex.step_nr == n)
            return out

        res = gloo.run(size, body)
        if any(x[0] == "init-failed" for x in res):
            obs.inconclusive(str(res)[:500])
        for rank, x in enumerate(res):
            obs.check(x[0] == "ok", "ranks-failed", lambda: str(x)[:2000])
            if x[0] == "ok":
                for (v, want), got in zip(rounds, x[1]):
                    obs.count("steps_compared")
                    if want:
                        obs.count("inconsistent_norms_reported")
                    obs.check(want == got, "gradient-check", lambda: f"rank {rank}: norms {v} reported as inconsistent: {got}")


if __name__ == "__main__":
    main(C07())
