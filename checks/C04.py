"""C04: resuming training equals never stopping."""
import os
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, Violation, main, scratch


class C04(Check):
    id = "C04"
    native = True
    rule = (
        "real trainer runs over native data pipelines, stopped or killed at generated points any number of times and restarted from disk, "
        "compared bit by bit with an uninterrupted run; non-trivial = at least one restart from a checkpoint"
    )
    required = ["restarts_from_checkpoint", "restarts_from_scratch", "stops", "kills", "final_comparisons", "finished_restarts", "overflow_runs", "epoch_end_restarts", "dropout_runs"]
    assumptions = ["one process on CPU; fp16 loss scaling emulated by enabling torch's GradScaler for CPU"]

    def setup_worker(self):
        import fairseq2.recipe  # noqa: F401 (import order)
        import trainkit

        trainkit.emulate_fp16_scaling()

    def gen(self, rng, tier):
        for i in range(350 if tier == "quick" else 2500):
            r = rng.random
            pub = rng.choice([None, 1, 2])
            c = {
                "s": rng.randrange(1 << 30), "n": rng.randrange(3, 30), "bs": rng.randrange(1, 4), "drop": r() < 0.5,
                "shuffle": rng.choice([0, 0, 4, 100]), "prefetch": rng.choice([0, 0, 3]), "acc": rng.choice([1, 1, 2, 3]), "drop_acc": r() < 0.3,
                "dyn": r() < 0.2, "nsteps": rng.choice([None, rng.randrange(3, 16)]), "nepochs": rng.randrange(1, 5),
                "every": rng.choice([None, 1, 2, 3]), "eepoch": rng.choice([None, 1, 2]), "pub": pub, "opt": rng.choice(["sgd", "adamw", "groups"]),
                "lr": rng.choice(["none", "cosine", "myle", "noam", "poly", "tri"]), "dropout": rng.choice([0.0, 0.3]), "fp16": r() < 0.35,
                "validate": rng.choice([None, None, 2]), "normalize": r() < 0.6, "clip": rng.choice([None, 0.5]), "keep": rng.choice([None, None, 1, 2]),
                "all_but_last": r() < 0.15, "strict": True,
                "cuts": [[rng.choice(["stop", "stop", "kill", "kill", "kill-publish", "kill-validate", "kill-save"]), rng.randrange(1, 12)] for _ in range(rng.randrange(1, 5))],
            }
            if c["every"] is None and c["eepoch"] is None:
                c["every"] = 2
            if pub:
                for k in ("every", "validate"):
                    if c[k]:
                        c[k] *= pub
            c["bad"] = sorted({rng.randrange(0, c["n"]) for _ in range(2)}) if c["fp16"] and r() < 0.7 else []
            yield c

    def pipeline(self, c, Batch):
        from fairseq2.data.data_pipeline import read_sequence

        b = read_sequence(list(range(c["n"])))
        if c["shuffle"]:
            b = b.shuffle(c["shuffle"], seed=c["s"] % 1000)
        if c["dyn"]:
            b = b.dynamic_bucket(float(c["bs"]), lambda x: 0.5 + (int(x) % 2), drop_remainder=c["drop"])
        else:
            b = b.bucket(c["bs"], drop_remainder=c["drop"])
        b = b.map(lambda ids: Batch(ids))
        if c["prefetch"]:
            b = b.prefetch(c["prefetch"])
        return b.and_return()

    def incarnation(self, c, base, cut):
        """Runs one process life. Returns (how, trainer, net, opt, lr, scaler, log, restored step)."""
        import ckpt
        import torch
        import trainkit as tk
        from fairseq2.datasets import DataPipelineReader
        from fairseq2.optim.fp16_loss_scaler import StandardFloat16LossScaler

        log = tk.Log()
        gangs = tk.single_gangs()
        Batch = tk.make_batch_cls()
        net = tk.make_net(c["s"] % 1000, c["dropout"])
        if c["opt"] == "sgd":
            opt = torch.optim.SGD(net.parameters(), lr=0.05, momentum=0.9)
        elif c["opt"] == "adamw":
            opt = torch.optim.AdamW(net.parameters(), lr=0.01)
        else:
            opt = torch.optim.Adam([{"params": list(net.a.parameters())}, {"params": list(net.b.parameters()), "lr": 0.003}], lr=0.01, amsgrad=True)
        lr = tk.make_lr_scheduler(c["lr"], opt)
        scaler = StandardFloat16LossScaler(gangs, init_scale=64.0, scale_window=3) if c["fp16"] else None
        pool = ckpt.Pool()
        mgr = ckpt.make_manager(base, gangs, pool=pool)
        box = {"batch": 0, "publish": 0, "validate": 0}

        def at(kind):
            box[kind] += 1
            if not cut:
                return
            if kind == "batch" and box[kind] == cut[1]:
                if cut[0] == "stop":
                    box["t"].request_stop()
                elif cut[0] == "kill":
                    raise tk.Preempted()
            if cut[0] == f"kill-{kind}" and box[kind] == 1 + cut[1] // 4:
                raise tk.Preempted()

        if cut and cut[0] == "kill-save":
            orig = mgr.save_checkpoint
            nsave = [0]

            def save(*a, **kw):
                nsave[0] += 1
                if nsave[0] == 1 + cut[1] // 3:
                    raise tk.Preempted()
                return orig(*a, **kw)

            mgr.save_checkpoint = save

        bad = (lambda step, call, b: tk.NAN if set(b.ids) & set(c["bad"]) else None) if c["bad"] else None
        unit = tk.make_unit(net, log, normalize=c["normalize"], bad=bad, hook=lambda u, b: at("batch"))
        rec = tk.make_recorder(log)
        r0 = rec.record_metric_values

        def record(category, values, step_nr=None):
            r0(category, values, step_nr)
            at("publish")

        rec.record_metric_values = record
        reader = DataPipelineReader(self.pipeline(c, Batch), gangs, num_accumulate=c["acc"], drop_remainder=c["drop_acc"], strict_state=c["strict"])
        start = mgr.maybe_get_last_step_number(exclude_model_only=True)
        t = tk.make_trainer(
            model=net, unit=unit, reader=reader, gangs=gangs, optimizer=opt, manager=mgr, recorder=rec, lr_scheduler=lr, scaler=scaler,
            validator=tk.make_validator(log, None, lambda s: at("validate")) if c["validate"] else None,
            max_num_steps=c["nsteps"], max_num_data_epochs=c["nepochs"], max_grad_norm=c["clip"],
            checkpoint_every_n_steps=c["every"], checkpoint_every_n_data_epochs=c["eepoch"], publish_metrics_every_n_steps=c["pub"],
            validate_every_n_steps=c["validate"], keep_last_n_checkpoints=c["keep"], save_model_only="all_but_last" if c["all_but_last"] else False, seed=c["s"] % 77,
        )
        box["t"] = t
        # Whatever the restarted process did with the global generator before.
        torch.manual_seed(c["s"] + 17 * (cut[1] if cut else 0))
        how = tk.run_trainer(t)
        for th in pool.threads:
            th.join()
        return how, t, net, opt, lr, scaler, log, start

    def run(self, case, obs):
        import ckpt

        c = case
        d1, d2 = scratch("c04"), scratch("c04")
        try:
            ref = self.incarnation(c, d1, None)
            if not ref[6].of("batch"):
                obs.count("empty_data")
                return
            refb = ref[6].of("batch")
            if c["dropout"]:
                obs.count("dropout_runs")
            lives = []
            for cut in c["cuts"] + [None]:
                if cut and cut[0] == "kill-validate" and not c["validate"]:
                    cut = ["kill", cut[1]]
                if cut and cut[0] == "kill-publish" and not c["pub"]:
                    cut = ["kill", cut[1]]
                res = self.incarnation(c, d2, cut)
                how, t, net, opt, lr, scaler, log, start = res
                mine = log.of("batch")
                lives.append((cut, how, start, len(mine)))
                ctx = f"{lives}; {c}"
                obs.count("restarts_from_scratch" if start is None else "restarts_from_checkpoint")
                if how == "stopped":
                    obs.count("stops")
                elif how == "preempted":
                    obs.count("kills")
                # What this life read is exactly what the uninterrupted run read
                # after the restored step.
                i = 0
                if start is not None:
                    # Everything up to the restored step, and overflowed
                    # attempts of the following step, may be behind us.
                    lo = max([j for j, e in enumerate(refb) if e[1] <= start], default=-1) + 1
                    i = None
                    hi = lo
                    while hi < len(refb) and refb[hi][1] == start + 1:
                        hi += 1
                    for j in range(lo, max(lo, hi) + 1):
                        if refb[j : j + len(mine)] == mine:
                            i = j
                            break
                        if not c["bad"]:
                            break
                    if mine and lo < len(refb) and refb[lo][2] != refb[lo - 1][2]:
                        obs.count("epoch_end_restarts")
                    if i is None:
                        raise Violation("resumed-with-other-data", f"after step {start}: {mine[:6]} instead of {refb[lo:lo + 6]}; {ctx}")
                elif refb[: len(mine)] != mine:
                    raise Violation("restart-with-other-data", f"{mine[:6]} instead of {refb[:6]}; {ctx}")
                obs.check(True, "x")
                if how != "preempted" and how != "stopped":
                    break
            obs.check(how == ref[0] == "done", "did-not-end-alike", f"{how} vs {ref[0]}; {ctx}")
            if start is None or mine or True:
                self.compare(c, obs, ref, res, ckpt, ctx)
            obs.count("overflow_runs", int(bool(c["bad"])))
            # Once done, nothing more happens.
            again = self.incarnation(c, d2, None)
            obs.count("finished_restarts")
            # (Overflowed attempts after the last step are not remembered.)
            obs.check(not again[6].of("batch") or bool(c["bad"]), "trained-after-the-end", lambda: f"{again[6].of('batch')[:5]}; {ctx}")
            self.compare(c, obs, ref, again, ckpt, ctx + " (restarted after its end)", pub=False)
            obs.state(tuple(lives))
            obs.sample = {"lives": lives, "steps": ref[1].step_nr, "batches": len(refb)}
        finally:
            shutil.rmtree(d1)
            shutil.rmtree(d2)

    def compare(self, c, obs, ref, res, ckpt, ctx, pub=True):
        obs.count("final_comparisons")
        _, t0, n0, o0, l0, s0, g0, _ = ref
        _, t1, n1, o1, l1, s1, g1, _ = res
        obs.check(t0.step_nr == t1.step_nr, "final-step", f"{t1.step_nr} instead of {t0.step_nr}; {ctx}")
        for name, a, b in [("model", n0.state_dict(), n1.state_dict()), ("optimizer", o0.state_dict(), o1.state_dict())]:
            d = ckpt.deep_eq(a, b)
            obs.check(d is None, f"final-{name}", f"{d}; {ctx}")
        obs.check(l0.get_last_lr() == l1.get_last_lr() and l0.last_epoch == l1.last_epoch, "final-lr", f"{l1.get_last_lr()} instead of {l0.get_last_lr()}; {ctx}")
        if s0:
            d = ckpt.deep_eq(s0.state_dict(), s1.state_dict())
            obs.check(d is None, "final-scaler", f"{d}; {ctx}")
        if pub:
            a, b = g0.of("publish"), g1.of("publish")
            keys = ["total_num_ids", "total_id_sum", "data_epoch", "lr"]
            if a and b:
                for k in keys:
                    if k == "lr" and res[7] is not None and t1.step_nr == res[7]:
                        continue
                    obs.check(a[-1][2][k] == b[-1][2][k] and a[-1][1] == b[-1][1], "final-metrics", f"{k}: {b[-1][1:]} instead of {a[-1][1:]}; {ctx}")


if __name__ == "__main__":
    main(C04())
