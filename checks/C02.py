"""C02: checkpoints give back exactly what was saved."""
import os
import shutil
import sys
import threading

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import fsfault
from vlib import Check, main, scratch


def mutate(sd, n):
    """What training does to its state while a save is running."""
    import torch

    seen = set()

    def go(x):
        if isinstance(x, torch.Tensor):
            if id(x) in seen or not x.numel():
                return
            seen.add(id(x))
            with torch.no_grad():
                if any(s == 0 and d > 1 for s, d in zip(x.stride(), x.shape)):
                    return
                if x.dtype == torch.bool:
                    x.logical_not_()
                else:
                    x.add_(1 + n % 3)
        elif isinstance(x, dict):
            for k in list(x):
                v = x[k]
                if isinstance(v, int) and not isinstance(v, bool):
                    x[k] = v + 1
                elif isinstance(v, str):
                    x[k] = v + "!"
                else:
                    go(v)
            if "state" in x:
                x["state"][len(x["state"])] = {"step": torch.tensor(1.0)}
        elif isinstance(x, (list, tuple)):
            for v in x:
                go(v)
            if isinstance(x, list) and x:
                x.append(dict(x[-1]) if isinstance(x[-1], dict) else 0)

    go(sd)


class C02(Check):
    id = "C02"
    rule = (
        "random histories of save/mutate/complete/load on rank topologies with delayed background threads and file "
        "system calls; every loaded state compared bitwise with a snapshot; non-trivial = at least one step loaded back"
    )
    required = ["steps_loaded", "async_saves", "mutations_while_saving", "polls_pending", "polls_done", "model_checkpoints", "model_only", "rejected_states"]

    def setup(self, tier):
        import fairseq2

        fairseq2.init_fairseq2()

    def gen(self, rng, tier):
        import ckpt

        for i in range(160 if tier == "quick" else 1500):
            topo = ckpt.TOPOLOGIES[i % len(ckpt.TOPOLOGIES)]
            acts, step = [], 0
            for _ in range(rng.randrange(3, 12)):
                a = rng.choice(["save", "save", "model", "mutate", "mutate", "poll", "complete", "bad", "noop"])
                if a in ("save", "model"):
                    step += rng.randrange(1, 5) if rng.random() < 0.9 or not step else 0
                    acts.append([a, step, rng.random() < 0.25])
                    if rng.random() < 0.7:
                        acts.append(["mutate"])
                else:
                    acts.append([a])
            yield {"topo": topo, "acts": acts, "s": rng.randrange(1 << 30), "fs": rng.choice(["global", "local"]), "big": rng.random() < 0.3, "delay": rng.random() < 0.7}

    def run(self, case, obs):
        from copy import deepcopy

        import ckpt
        import tgang
        import torch

        topo, fs = tuple(case["topo"]), case["fs"]
        dp, tp, sdp = topo
        base = scratch("c02")
        lock = threading.Lock()
        snaps = {}  # (step, rank) -> (version, {kind: snapshot})
        order = []
        try:
            if case["delay"]:
                fsfault.arm(base, fsfault.DELAY, case["s"] % 100000)

            def body(root, rank):
                gangs = ckpt.make_gangs(root, tp, sdp)
                m = ckpt.make_manager(base, gangs, fs, seed=case["s"] + rank if case["delay"] else None)
                st = ckpt.states_for(gangs, case["s"], case["big"])
                pending = None
                cbs = []

                def done_check(where):
                    # The last save is complete: visible, reported once.
                    nonlocal pending
                    if pending is None:
                        return
                    step, kind, nth = pending
                    got = [c for c in cbs if c[0] == "saved" and c[2] == nth]
                    with lock:
                        obs.check(len(got) == 1 and got[0][1] == step, "completion-not-reported-once", f"{where}: {cbs}")
                        twice = sum(x[0] in ("save", "model") and x[1] == step for x in case["acts"]) > 1
                        obs.check(twice or step in m.get_step_numbers(), "completed-save-not-visible", f"{where}: {step}")
                    pending = None

                for n, a in enumerate(case["acts"]):
                    if a[0] in ("save", "model"):
                        _, step, blocking = a
                        nth = n

                        def ready(s, b, nth=nth):
                            cbs.append(("ready", s, nth))
                            unfinished = [c for c in cbs if c[0] == "ready" and c[2] != nth and ("saved", c[1], c[2]) not in cbs]
                            with lock:
                                obs.check(not unfinished, "two-saves-at-once", f"{cbs}")
                                obs.check(b == blocking, "callback-arguments", f"{b}")

                        def saved(s, b, nth=nth):
                            cbs.append(("saved", s, nth))
                            # (rank 0 may already be replacing this step by a new save of it)
                            twice = sum(x[0] in ("save", "model") and x[1] == s for x in case["acts"]) > 1
                            vis = (twice and rank != 0) or s in m.get_step_numbers()
                            with lock:
                                obs.check(vis, "reported-before-visible", f"step {s}")

                        with lock:
                            # what the ranks pass to the save
                            snaps[(step, rank)] = (a[0], {k: deepcopy(v.sd) for k, v in st.items()})
                        if a[0] == "model":
                            m.save_model_only(step, st["model"], ready_callback=ready, saved_callback=saved, blocking=blocking)
                            obs.count("model_only")
                        else:
                            m.save_checkpoint(step, st["trainer"], st["model"], st["optimizer"], st["data_reader"], ready_callback=ready, saved_callback=saved, blocking=blocking)
                        if pending is not None:
                            done_check("next save")
                        pending = (step, a[0], nth)
                        with lock:
                            obs.check(m.is_saving == (not blocking), "is-saving-wrong", f"{m.is_saving} blocking={blocking}")
                        if blocking:
                            done_check("blocking save")
                        else:
                            obs.count("async_saves")
                    elif a[0] == "mutate":
                        if m.is_saving:
                            obs.count("mutations_while_saving")
                        for s in st.values():
                            mutate(s.sd, n)
                    elif a[0] in ("poll", "complete"):
                        was = m.is_saving
                        r = m.maybe_complete_save_operation(blocking=a[0] == "complete")
                        with lock:
                            order.append((n, rank, r))
                            obs.check((r is None) == (not was), "poll-result-wrong", f"{r} was saving {was}")
                            obs.check(m.is_saving == (r is False), "is-saving-wrong", f"after poll {r}: {m.is_saving}")
                        if r is False:
                            obs.count("polls_pending")
                            with lock:
                                obs.check(not [c for c in cbs if c[0] == "saved" and c[2] == pending[2]], "reported-before-complete", f"{cbs}")
                        elif r:
                            obs.count("polls_done")
                            done_check("poll")
                    elif a[0] == "bad" and dp * tp == 1:
                        # model state must be tensors; the error must name it, not hide it
                        m.maybe_complete_save_operation(blocking=True)
                        done_check("before bad")
                        before = m.get_step_numbers()
                        try:
                            m.save_checkpoint(999, st["trainer"], ckpt.State({"x": 1}), st["optimizer"], st["data_reader"], blocking=True)
                            obs.violate("invalid-state-accepted", "non-tensor in model")
                        except Exception as ex:  # noqa: BLE001
                            obs.check(type(ex).__name__ == "CheckpointStateNotValidError", "wrong-error", repr(ex))
                        obs.check(m.get_step_numbers() == before, "failed-save-listed", f"{before} {m.get_step_numbers()}")
                        obs.count("rejected_states")
                m.maybe_complete_save_operation(blocking=True)
                done_check("end")
                if m.maybe_complete_save_operation() is not None:
                    obs.violate("poll-result-wrong", "not None although nothing is saved")

            out = tgang.run_ranks(dp * tp, body, timeout=20, delay_seed=case["s"] if case["delay"] else None)
            fsfault.off()
            for r, (st, ex) in enumerate(out):
                if st == "error":
                    raise ex
                obs.check(st == "ok", "rank-hangs", f"rank {r}")
            if obs.violations:
                return
            for n in {o[0] for o in order}:
                obs.check(len({o[2] for o in order if o[0] == n}) == 1, "ranks-disagree", f"{order}")
            obs.state(*[x[2] for x in sorted(order, key=lambda o: o[:2])])

            steps = sorted({s for s, _ in snaps})
            m0 = ckpt.make_manager(base, ckpt.fake_gangs(0, dp * tp, tp, sdp), fs)
            obs.check(m0.get_step_numbers() == steps, "listing-wrong", f"{m0.get_step_numbers()} instead of {steps}")
            fulls = [s for s in steps if snaps[(s, 0)][0] == "save"]
            obs.check(m0.get_step_numbers(exclude_model_only=True) == fulls, "listing-wrong", f"{m0.get_step_numbers(exclude_model_only=True)} instead of {fulls}")
            for s in steps:
                for rank in range(dp * tp):
                    g = ckpt.fake_gangs(rank, dp * tp, tp, sdp)
                    m = ckpt.make_manager(base, g, fs)
                    kind, snap = snaps[(s, rank)]
                    for k in ckpt.KINDS:
                        got = ckpt.load(m, s, k)
                        if kind == "model" and k != "model":
                            obs.check(type(got).__name__ == "CheckpointNotFoundError", "model-only-has-other-state", f"{k}: {got!r}")
                            continue
                        if isinstance(got, Exception):
                            obs.violate("saved-step-unloadable", f"step {s} rank {rank} {k}: {got!r} {got.__cause__!r}")
                            return
                        d = ckpt.deep_eq(snap[k], got, k)
                        obs.check(d is None, "loaded-state-differs", lambda: f"step {s} rank {rank}: {d}")
                    obs.count("steps_loaded")
                if dp * tp == 1:
                    self.model_checkpoint(base, s, snaps[(s, 0)][1]["model"], obs)
        finally:
            fsfault.lib().vf_off()
            shutil.rmtree(base, ignore_errors=True)

    def model_checkpoint(self, base, step, snap, obs):
        import ckpt
        from fairseq2.model_checkpoint import ModelCheckpointLoadOptions, get_model_checkpoint_loader

        ld = get_model_checkpoint_loader()
        p = base / f"checkpoints/step_{step}/model"
        if not p.exists():
            p = base / f"step_{step}/model"
        got = dict(ld.lazy_load(p, {}, ModelCheckpointLoadOptions(gangs=ckpt.fake_gangs(0, 1, 1, 0))))
        for k, v in got.items():
            d = ckpt.deep_eq(snap[k], v, k) if k in snap else f"unknown {k}"
            obs.check(d is None, "model-checkpoint-differs", d)
        missing = [k for k in snap if k not in got and not (k == "alias" or (k == "m.0.w" and "alias" in got))]
        obs.check(not missing, "model-checkpoint-differs", f"missing {missing}")
        obs.count("model_checkpoints")


if __name__ == "__main__":
    fsfault.require()
    main(C02())
