"""C01: checkpoint saves are crash-atomic."""
import os
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import fsfault
from vlib import Check, main, scratch


def run_op(base, topo, fs, steps, ack_file, delay):
    """Executes the saves of `steps` on all ranks; appends to ack_file each
    step whose completion was reported. Raises what a rank raised."""
    import ckpt
    import tgang

    dp, tp, sdp = topo
    fd = os.open(ack_file, os.O_WRONLY | os.O_CREAT | os.O_APPEND)

    def body(root, rank):
        gangs = ckpt.make_gangs(root, tp, sdp)
        m = ckpt.make_manager(base, gangs, fs, seed=rank + delay if delay else None)
        for a in steps:
            st = ckpt.states_for(gangs, a["v"], a.get("big", False))

            def saved(n, b, rank=rank):
                if rank == 0:
                    os.write(fd, f"saved {n}\n".encode())

            if a["how"] == "score":
                m.save_score(a["step"], a["score"])
            elif a["how"] == "delete":
                m.delete_checkpoint(a["step"], keep_model=a["keep"])
            elif a["how"] == "model":
                m.save_model_only(a["step"], st["model"], saved_callback=saved, blocking=a["blocking"])
            else:
                m.save_checkpoint(a["step"], st["trainer"], st["model"], st["optimizer"], st["data_reader"], saved_callback=saved, blocking=a["blocking"])
            if not a["blocking"] and a["wait"]:
                m.maybe_complete_save_operation(blocking=True)
        m.maybe_complete_save_operation(blocking=True)

    out = tgang.run_ranks(dp * tp, body, timeout=20, delay_seed=delay or None)
    for st, ex in out:
        if st == "error" and type(ex).__name__ != "GangError" and "GangError" not in repr(ex.__cause__):
            raise ex
    for st, ex in out:
        if st != "ok":
            raise RuntimeError(f"{st}: {ex!r}")
    return b""


class C01(Check):
    id = "C01"
    level = "fault_enumeration"
    rule = (
        "save histories over rank topologies; the process is killed before, and (writes: half-way) at, each "
        "file system call of a save, or that call fails with EIO/ENOSPC; a fresh manager then lists and loads "
        "everything, and retries the save; non-trivial = at least one crash point judged"
    )
    required = ["crash_points", "torn_writes", "failed_calls", "crash_before_commit", "crash_after_commit", "steps_loaded", "retries", "resaved_steps", "acked_saves"]
    assumptions = ["a process crash loses nothing that the operating system has acknowledged"]

    def gen(self, rng, tier):
        import ckpt

        n = 22 if tier == "quick" else 150
        for i in range(n):
            topo = ckpt.TOPOLOGIES[i % len(ckpt.TOPOLOGIES)]
            prior, v = [], 0
            steps = sorted(rng.sample(range(1, 40), rng.choice([0, 1, 2])))
            for s in steps:
                v += 1
                prior.append({"how": rng.choice(["full", "full", "model"]), "step": s, "v": v, "blocking": True, "wait": True})
            hist = []
            for _ in range(rng.choice([1, 1, 2])):
                v += 1
                known = [p["step"] for p in prior + hist]
                s = rng.choice(known) if known and rng.random() < 0.3 else max(known, default=0) + rng.randrange(1, 9)
                hist.append({"how": rng.choice(["full", "full", "full", "model"]), "step": s, "v": v, "blocking": rng.random() < 0.4, "wait": rng.random() < 0.5, "big": rng.random() < 0.2})
            yield {"topo": topo, "prior": prior, "hist": hist, "fs": rng.choice(["global", "local"]), "delay": rng.choice([0, rng.randrange(1, 1 << 20)]),
                   "s": rng.randrange(1 << 30), "max_points": 45 if tier == "quick" else 400}

    def run(self, case, obs):
        import random

        import ckpt

        r = random.Random(case["s"])
        topo, fs = tuple(case["topo"]), case["fs"]
        root = scratch("c01")
        try:
            base0 = root / "base"
            base0.mkdir()
            if case["prior"]:
                code, out = fsfault.in_child(lambda: run_op(base0, topo, fs, case["prior"], str(root / "ack0"), 0))
                if not obs.check(code == 0, "save-failed", f"{code} {out.decode()}"):
                    return

            def attempt(mode, k, err=5):
                b = root / "run"
                shutil.rmtree(b, ignore_errors=True)
                shutil.copytree(base0, b)
                ack = root / "ack"
                ack.unlink(missing_ok=True)

                def child():
                    fsfault.arm(b, mode, k, err)
                    try:
                        run_op(b, topo, fs, case["hist"], str(ack), case["delay"])
                    finally:
                        ops = fsfault.off()
                    return ops.encode()

                code, out = fsfault.in_child(child)
                acks = ack.read_text().split("\n") if ack.exists() else []
                return b, code, out.decode(), acks

            b, code, out, acks = attempt(fsfault.COUNT, 0)
            if not obs.check(code == 0, "save-failed", f"{code} {out}"):
                return
            ops = out
            n = len(ops)
            obs.sample = {"ops": ops}
            self.judge(case, obs, b, topo, fs, acks, done=True, where="no fault")
            points = [(fsfault.DIE_BEFORE, k) for k in range(n)] + [(fsfault.DIE_AFTER, k) for k in range(n) if ops[k] == "w"] + [(fsfault.FAIL, k) for k in range(n)]
            # the calls around the commit are always among the sampled points
            must = [p for p in points if ops[p[1]] in "rd" and p[0] != fsfault.FAIL]
            rest = [p for p in points if p not in must]
            r.shuffle(rest)
            r.shuffle(must)
            points = (must[: case["max_points"] // 2] + rest)[: case["max_points"]]
            for mode, k in points:
                err = r.choice([5, 28])
                b, code, out, acks = attempt(mode, k, err)
                where = f"{ {2: 'crash before', 3: 'crash in', 4: 'failing'}[mode]} call {k} of {ops}"
                if code is None or code < 0:
                    obs.violate("hang" if code is None else "crash", f"{where}: {code}")
                    return
                obs.count("failed_calls" if mode == fsfault.FAIL else "torn_writes" if mode == fsfault.DIE_AFTER else "crash_points")
                obs.state(mode, ops[k], code, len(acks))
                self.judge(case, obs, b, topo, fs, acks, done=code == 0, where=where)
                if obs.violations:
                    return
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def judge(self, case, obs, base, topo, fs, acks, done, where):
        import ckpt

        m = ckpt.make_manager(base, ckpt.fake_gangs(0, topo[0] * topo[1], topo[1], topo[2]), fs)
        listed = m.get_step_numbers()
        full = m.get_step_numbers(exclude_model_only=True)
        vers, mo = {}, {a["v"] for a in case["prior"] + case["hist"] if a["how"] == "model"}
        for a in case["prior"]:
            vers[a["step"]] = [a["v"]]
        touched = {a["step"] for a in case["hist"]}
        for a in case["hist"]:
            if a["step"] in vers and a["step"] in {p["step"] for p in case["prior"]}:
                obs.count("resaved_steps")
            vers.setdefault(a["step"], []).append(a["v"])
        acked = [int(x.split()[1]) for x in acks if x.startswith("saved")]
        obs.count("acked_saves", len(acked))
        new = touched - {p["step"] for p in case["prior"]}
        obs.count("crash_after_commit" if new & set(listed) else "crash_before_commit")
        if done:
            obs.check(len(acked) == len(case["hist"]), "completion-not-reported-once", f"{where}: {acked}")
        obs.check(set(listed) <= set(vers) and set(full) <= set(listed), "unknown-step-listed", f"{where}: {listed} {full}")
        for s in vers:
            if s not in touched:
                obs.check(s in listed, "earlier-checkpoint-lost", f"{where}: step {s} is gone, listed {listed}")
        for a, nxt in zip(case["hist"], case["hist"][1:] + [None]):
            later = {x["step"] for x in case["hist"][case["hist"].index(a) + 1:]}
            if acked.count(a["step"]) and a["step"] not in later:
                obs.check(a["step"] in listed, "completed-save-lost", f"{where}: step {a['step']} was reported as saved")
        obs.check(m.has_checkpoint() == bool(listed) and m.maybe_get_last_step_number() == (listed[-1] if listed else None), "listing-inconsistent", where)
        for s in listed:
            if s not in vers:
                continue
            big = [a.get("big", False) for a in case["prior"] + case["hist"] if a["step"] == s]
            ok, errs = None, []
            for v in vers[s]:
                bg = next(a.get("big", False) for a in case["prior"] + case["hist"] if a["v"] == v)
                ok, e = ckpt.judge_step(base, topo, s, [v], mo, fs, bg)
                if ok is not None:
                    break
                errs.append(e)
            obs.count("steps_loaded")
            obs.check(ok is not None, "listed-step-incomplete", lambda: f"{where}: step {s} of {listed}: {errs}")
            if ok is not None:
                obs.check((s in full) == (ok not in mo), "model-only-misreported", f"{where}: {s} {full}")
                if done or acked.count(s) == sum(a["step"] == s for a in case["hist"]) > 0:
                    obs.check(ok == vers[s][-1], "old-version-loaded", f"{where}: v{ok} instead of v{vers[s][-1]}")
        if obs.violations or done:
            return
        # the restarted run saves the same step again
        a = dict(case["hist"][-1], v=99, blocking=True, how="full")
        code, out = fsfault.in_child(lambda: run_op(base, topo, fs, [a], str(base) + ".ack1", 0))
        obs.count("retries")
        if not obs.check(code == 0, "retry-failed", lambda: f"{where}: {code} {out.decode()}"):
            return
        obs.check(a["step"] in m.get_step_numbers(exclude_model_only=True), "retry-not-listed", where)
        ok, e = ckpt.judge_step(base, topo, a["step"], [99], (), fs, a.get("big", False))
        obs.check(ok is not None, "retry-incomplete", lambda: f"{where}: {e}")


if __name__ == "__main__":
    fsfault.require()
    main(C01())
