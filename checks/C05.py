"""C05: trainer schedules are honoured."""
import os
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main, scratch

KINDS = ("ckpt", "publish", "validate")


class C05(Check):
    id = "C05"
    rule = (
        "real trainer runs over random settings (step/epoch intervals and delays, limits, stop requests, early stops, overflows, resumes); "
        "the log of steps, saves, publications and validations must equal the set computed from the settings; non-trivial = at least one due event"
    )
    required = ["runs", "steps", "ckpt_due", "publish_due", "validate_due", "ended_max_steps", "ended_max_epochs", "ended_stop", "ended_early", "epoch_events", "overflow_steps", "scores_checked", "resumed_runs"]
    assumptions = ["single process; process-local schedules do not depend on the number of ranks"]

    def setup_worker(self):
        import fairseq2.recipe  # noqa: F401 (import order)
        import trainkit

        trainkit.emulate_fp16_scaling()

    def gen(self, rng, tier):
        for i in range(1000 if tier == "quick" else 6000):
            r = rng.random
            c = {"s": rng.randrange(1 << 30)}
            fixed = r() < 0.6
            c["epochs"] = [rng.randrange(1, 6)] if fixed else [rng.randrange(1, 6) for _ in range(3)]
            c["nsteps"] = rng.choice([None, rng.randrange(1, 15)])
            c["nepochs"] = rng.choice([None, rng.randrange(1, 5)])
            c["stop"] = None
            if (c["nsteps"] is None and c["nepochs"] is None) or r() < 0.3:
                c["stop"] = [rng.choice(["batch", "validate", "read", "publish"]), rng.randrange(1, 12)]
                if c["nsteps"] is None and c["nepochs"] is None:
                    c["nepochs"] = 8

            def sched():
                return {"as": rng.choice([0, 0, rng.randrange(8)]), "es": rng.choice([None, None, 1, 2, 3, 4]), "ae": rng.choice([0, 0, 1, 2]), "ee": rng.choice([None, None, 1, 2, 3])}

            p, k, v = sched(), sched(), sched()
            # The constructor insists on multiples.
            for x in (k, v):
                for q in ("es", "ee"):
                    if x[q] and p[q]:
                        x[q] = x[q] * p[q]
            c["publish"], c["ckpt"], c["validate"] = p, k, v
            c["validator"] = r() < 0.7
            c["score"] = r() < 0.6
            c["at_start"] = r() < 0.3
            c["early"] = rng.randrange(1, 5) if c["validator"] and c["score"] and r() < 0.3 else None
            c["bad"] = sorted({rng.randrange(0, 12) for _ in range(rng.randrange(1, 4))}) if r() < 0.25 else []
            c["acc"] = rng.choice([1, 1, 2, 3])
            c["model_only"] = r() < 0.2
            c["resume"] = r() < 0.3
            yield c

    def run(self, case, obs):
        import random

        import ckpt
        import torch
        import trainkit as tk
        from fairseq2.early_stopper import EarlyStopper
        from fairseq2.optim.fp16_loss_scaler import StandardFloat16LossScaler

        base = scratch("c05")
        Batch = tk.make_batch_cls()
        r = random.Random(case["s"])
        lens = case["epochs"]
        acc = case["acc"]
        gangs = tk.single_gangs()

        def epochs(e):
            n = lens[e % len(lens)]
            return [[[e * 1000 + s * 10 + a] for a in range(acc if s % 2 == 0 else max(1, acc - 1))] for s in range(n)]

        def one(resume):
            log = tk.Log()
            net = tk.make_net(case["s"] % 1000)
            opt = torch.optim.SGD(net.parameters(), lr=0.01)
            cnt = {"validate": 0, "publish": 0, "read": 0, "batch": 0}
            box = {}

            def stop_on(kind):
                cnt[kind] += 1
                if case["stop"] and not resume and case["stop"][0] == kind and cnt[kind] == case["stop"][1]:
                    log("stop")
                    box["t"].request_stop()

            steps_seen = [0]

            def bad(step, call, batch):
                return tk.INF if call in case["bad"] else None

            unit = tk.make_unit(net, log, bad=bad if case["bad"] else None, hook=lambda u, b: stop_on("batch"))
            rec0 = tk.make_recorder(log)
            orig = rec0.record_metric_values

            def record(category, values, step_nr=None):
                orig(category, values, step_nr)
                stop_on("publish")

            rec0.record_metric_values = record
            val = tk.make_validator(log, (lambda s: float((s * 7) % 11)) if case["score"] else None, lambda s: stop_on("validate")) if case["validator"] else None
            mgr = ckpt.make_manager(base, gangs)
            reader = tk.make_list_reader(epochs, Batch, hook=lambda rd: stop_on("read"))
            stopper = None
            if case["early"]:
                class ES(EarlyStopper):
                    n = 0

                    def should_stop(self, step, score):
                        self.n += 1
                        log("asked", step, score)
                        return self.n == case["early"]

                stopper = ES()
            scaler = StandardFloat16LossScaler(gangs, init_scale=1024.0) if case["bad"] else None

            # A copy of every save as it is requested.
            for name in ("save_checkpoint", "save_model_only"):
                def wrap(f, name=name):
                    def g(step, *a, **kw):
                        log("ckpt", step, name)
                        return f(step, *a, **kw)
                    return g
                setattr(mgr, name, wrap(getattr(mgr, name)))
            k, v, p = case["ckpt"], case["validate"], case["publish"]
            t = tk.make_trainer(
                model=net, unit=unit, reader=reader, gangs=gangs, optimizer=opt, manager=mgr, recorder=rec0, scaler=scaler, validator=val, early_stopper=stopper,
                max_num_steps=case["nsteps"], max_num_data_epochs=case["nepochs"], validate_at_start=case["at_start"],
                validate_after_n_steps=v["as"], validate_every_n_steps=v["es"], validate_after_n_data_epochs=v["ae"], validate_every_n_data_epochs=v["ee"],
                checkpoint_after_n_steps=k["as"], checkpoint_every_n_steps=k["es"], checkpoint_after_n_data_epochs=k["ae"], checkpoint_every_n_data_epochs=k["ee"],
                publish_metrics_after_n_steps=p["as"], publish_metrics_every_n_steps=p["es"], publish_metrics_after_n_data_epochs=p["ae"], publish_metrics_every_n_data_epochs=p["ee"],
                save_model_only=case["model_only"],
            )
            box["t"] = t
            saved = []
            t.register_checkpoint_save_hook(lambda a: saved.append((a.step_nr, a.data_epoch_nr)))
            how = tk.run_trainer(t)
            self.judge(case, obs, log, how, saved, mgr, lens, acc, resume, t, epochs)
            obs.count("runs")
            return t.step_nr, how

        try:
            n, how = one(None)
            if case["resume"] and not case["model_only"] and not case["bad"]:
                # A stopped run continues; a finished one does nothing.
                last = ckpt.make_manager(base, gangs).maybe_get_last_step_number(exclude_model_only=True)
                if last is not None:
                    obs.count("resumed_runs")
                    one(last)
        finally:
            shutil.rmtree(base)

    def judge(self, case, obs, log, how, saved, mgr, lens, acc, resume, t, epochs):
        ev = log.events
        # 1. What was executed: the sequence of steps with their data.
        steps = []  # (step, epoch, ids)
        for e in ev:
            if e[0] == "batch":
                if steps and steps[-1][0] == e[1] and steps[-1][1] == e[2] and len(steps[-1][2]) < len(epochs(e[2] - 1)[steps[-1][3]]):
                    steps[-1][2].append(e[3])
                else:
                    pos = 0
                    if steps and steps[-1][1] == e[2]:
                        pos = steps[-1][3] + 1
                    elif resume and not steps:
                        pos = next(i for i, b in enumerate(epochs(e[2] - 1)) if tuple(b[0]) == e[3])
                    steps.append([e[1], e[2], [e[3]], pos])
        obs.count("steps", len(steps))
        ctx = lambda: f"{case}; resumed from {resume}; log: {[e if e[0] != 'publish' else e[:2] for e in ev][:80]}"  # noqa: E731
        # 2. Data: every batch of each epoch once, in order, all micro-batches.
        nbad = 0
        calls = 0
        want_step = (resume or 0)
        last_end = {}  # epoch -> last step number executed in it
        good_steps = []
        pos, epoch = 0, 1
        if resume and steps:
            epoch, pos = steps[0][1], steps[0][3]
            exp = 0
            e = 0
            while exp + lens[e % len(lens)] < resume:
                exp += lens[e % len(lens)]
                e += 1
            # Position right after the restored step.
            we, wp = e + 1, resume - exp
            if wp == lens[e % len(lens)]:
                we, wp = we + 1, 0
            obs.check((epoch, pos) == (we, wp), "resumed-at-wrong-data", lambda: f"epoch {epoch} batch {pos} instead of epoch {we} batch {wp}; {ctx()}")
        for s in steps:
            if pos >= len(epochs(epoch - 1)):
                epoch, pos = epoch + 1, 0
            want_ids = [tuple(x) for x in epochs(epoch - 1)[pos]]
            if s[1] != epoch or s[2] != want_ids:
                obs.violate("wrong-data", f"step {s}: expected epoch {epoch} ids {want_ids}; {ctx()}")
                return
            bad_step = any(calls + j in case["bad"] for j in range(len(want_ids)))
            calls += len(want_ids)
            if s[0] != want_step + 1:
                obs.violate("wrong-step-number", f"step {s}: expected number {want_step + 1}; {ctx()}")
                return
            if bad_step:
                nbad += 1
                s.append("bad")
            else:
                want_step += 1
                s.append("good")
                good_steps.append((want_step, epoch))
            last_end[epoch] = want_step
            pos += 1
        obs.count("overflow_steps", nbad)
        obs.check(t.step_nr == want_step, "step-count", lambda: f"{t.step_nr} instead of {want_step}; {ctx()}")
        final = want_step
        if not steps:
            # Only a resumed run that was complete already may do nothing.
            done = resume and ((case["nsteps"] and resume >= case["nsteps"]) or (case["nepochs"] and self.epochs_done(resume, lens) >= case["nepochs"]))
            obs.check(bool(done), "no-steps-run", ctx)
            # The last epoch may end again, which the checkpoint does not know.
            obs.check(not [e for e in ev if e[0] == "ckpt" or e[0] in KINDS and e[1] != resume], "events-of-a-finished-run", ctx)
            obs.count("finished_resumes")
            return
        # 3. When it ended.
        complete = pos >= len(epochs(epoch - 1))  # the epoch was read to its end
        by_steps = case["nsteps"] is not None and final >= case["nsteps"]
        by_epochs = case["nepochs"] is not None and epoch >= case["nepochs"] and complete
        stop_at = next((i for i, e in enumerate(ev) if e[0] == "stop"), None)
        asked = [e for e in ev if e[0] == "asked"]
        early = case["early"] is not None and len(asked) == case["early"]
        obs.check(case["early"] is None or len(asked) <= case["early"], "continued-after-early-stop", ctx)
        if case["nsteps"] is not None:
            obs.check(final <= case["nsteps"], "step-limit-exceeded", ctx)
        if case["nepochs"] is not None:
            obs.check(epoch <= case["nepochs"], "epoch-limit-exceeded", ctx)
        # A stop request is honoured no later than after the next step.
        if stop_at is not None:
            after = [e for e in ev[stop_at:] if e[0] == "batch"]
            later = {(e[1], e[2], e[3]) for e in after}
            first = ev[stop_at - 1] if stop_at and ev[stop_at - 1][0] == "batch" else None
            nsteps_after = len([s for s in steps if all((s[0], s[1], i) in later for i in s[2])])
            obs.check(nsteps_after <= 1 + (1 if nbad and steps[-1][-1] == "bad" else 0) + (0 if first is None else 0), "stop-request-ignored", lambda: f"{nsteps_after} more steps; {ctx()}")
        if how == "stopped":
            obs.check(stop_at is not None or early, "stopped-without-request", ctx)
            obs.count("ended_early" if early and stop_at is None else "ended_stop")
        else:
            obs.check(by_steps or by_epochs, "ended-too-soon", ctx)
            obs.check(not early or by_steps or by_epochs, "early-stop-ignored", ctx)
            obs.count("ended_max_steps" if by_steps else "ended_max_epochs")
        # 4. Which events were due.
        ends = {}
        for s_, e_ in last_end.items():
            if s_ < epoch or complete:
                ends[s_] = e_
        if resume:
            # The end of the epoch that was restored at its last step.
            e0 = self.epoch_of(resume, lens)
            if resume and e0[1] and steps and steps[0][1] == e0[0] + 1:
                ends.setdefault(e0[0], None)
        early_only = how == "stopped" and early
        for kind in KINDS:
            if kind == "validate" and not case["validator"]:
                obs.check(not log.of("validate"), "validated-without-validator", ctx)
                continue
            c = case[kind]
            due, maybe = set(), set()
            for s_, _ in good_steps:
                if c["es"] and s_ > c["as"] and s_ % c["es"] == 0:
                    due.add(s_)
            for e_, s_ in ends.items():
                if c["ee"] and e_ > c["ae"] and e_ % c["ee"] == 0:
                    # An early stop may come before the end of data is noticed.
                    if s_ and not (early_only and e_ == epoch):
                        due.add(s_)
                    maybe.add(s_)
                    obs.count("epoch_events")
            if kind == "validate":
                maybe.add(0)
            if early_only:
                # An early stop ends the run right after a validation: the
                # checkpoint is final, nothing else is.
                if kind == "ckpt":
                    due.add(final)
            else:
                due.add(final)
            if kind == "validate":
                due.discard(0)
            if resume:
                # Due at the restored step, before or after the interruption.
                maybe |= {resume}
                due.discard(resume)
            got = [e[1] for e in log.of(kind) if not (kind == "validate" and e[1] == 0)]
            missing = sorted(due - set(got))
            extra = sorted(set(got) - due - maybe)
            twice = sorted({g for g in got if got.count(g) > 1})
            obs.count(f"{kind}_due", len(due))
            obs.check(not missing, f"{kind}-missing", lambda: f"due at {missing}; {ctx()}")
            obs.check(not extra, f"{kind}-not-due", lambda: f"at {extra}; {ctx()}")
            obs.check(not twice, f"{kind}-repeated", lambda: f"at {twice}; {ctx()}")
            obs.check(got == sorted(got), f"{kind}-out-of-order", ctx)
        if case["validator"] and not resume:
            pre = [e for e in log.of("validate") if e[1] == 0]
            obs.check(len(pre) == int(case["at_start"]) or not good_steps or steps[0][-1] == "bad", "validation-at-start", ctx)
        # 5. Events of a step come before the next step.
        cur = resume or 0
        for e in ev:
            if e[0] == "batch":
                cur = e[1]
            elif e[0] in KINDS and e[1] not in (cur, cur - 1 if nbad else cur):
                obs.violate("event-late", f"{e[:2]} after step {cur} started; {ctx()}")
        # 6. Saves completed, and their scores are recorded.
        cks = [e[1] for e in log.of("ckpt")]
        obs.check(not mgr.is_saving, "save-left-pending", ctx)
        obs.check([s[0] for s in saved] == cks, "save-hook-calls", lambda: f"{saved} for {cks}; {ctx()}")
        for s_, e_ in saved:
            if s_ != final:
                want = {e for n, e in good_steps if n == s_} | {n for n, e in last_end.items() if e == s_}
                obs.check(resume == s_ or e_ in want, "save-hook-epoch", lambda: f"{saved}; {want}; {ctx()}")
        names = {e[2] for e in log.of("ckpt")}
        obs.check(names <= {"save_model_only" if case["model_only"] else "save_checkpoint"}, "save-kind", ctx)
        on_disk = mgr.get_step_numbers()
        obs.check(set(cks) <= set(on_disk), "final-state-not-saved", lambda: f"{on_disk} on disk; {ctx()}")
        if case["validator"] and case["score"]:
            have = {s for _, s in mgr.load_scores()}
            both = {e[1] for e in log.of("validate")} & set(cks)
            obs.count("scores_checked", len(both))
            obs.check(both <= have, "score-not-saved", lambda: f"{sorted(both - have)}; {ctx()}")
            for sc, s_ in mgr.load_scores():
                obs.check(sc == float((s_ * 7) % 11), "wrong-score", lambda: f"step {s_}: {sc}; {ctx()}")
        # 7. Metric windows neither overlap nor leave gaps.
        if not resume:
            tot = 0
            i = 0
            good_ids = {}
            for s in steps:
                if s[-1] == "good":
                    good_ids[s[0]] = sum(len(x) for x in s[2])
            for e in log.of("publish"):
                win = sum(n for s_, n in good_ids.items() if i < s_ <= e[1])
                tot += win
                i = e[1]
                obs.check(e[2]["num_ids"] == win, "metric-window", lambda: f"step {e[1]}: {e[2]['num_ids']} instead of {win}; {ctx()}")
                obs.check(e[2]["total_num_ids"] == tot, "metric-total", lambda: f"step {e[1]}: {e[2]['total_num_ids']} instead of {tot}; {ctx()}")
                obs.count("windows")
        obs.state(how, final, epoch, sorted(set(cks)), len(steps), nbad)
        obs.sample = {"how": how, "final": final, "epoch": epoch, "ckpts": cks, "events": len(ev)}

    @staticmethod
    def epochs_done(step, lens):
        e = 0
        while step >= lens[e % len(lens)]:
            step -= lens[e % len(lens)]
            e += 1
        return e

    @staticmethod
    def epoch_of(step, lens):
        """(epoch, whether it is its last step)"""
        e = 0
        while step > lens[e % len(lens)]:
            step -= lens[e % len(lens)]
            e += 1
        return e + 1, step == lens[e % len(lens)]


if __name__ == "__main__":
    main(C05())
