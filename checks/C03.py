"""C03: checkpoint retention keeps what the policy says."""
import math
import os
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import fsfault
from vlib import Check, main, scratch


def policy(steps, scores, last, best, every):
    """The steps that the policy keeps. `steps` is every listed step."""
    if last is None and best is None and every is None:
        return set(steps)
    steps = sorted(steps)
    keep = {steps[-1]} if steps else set()
    if last is not None:
        keep |= set(steps[-last:])
    if best is not None:
        sc = [(-math.inf if math.isnan(scores[s]) else scores[s], not math.isnan(scores[s]), s) for s in steps if s in scores]
        keep |= {s for *_, s in sorted(sc, reverse=True)[:best]}
    if every is not None:
        keep |= {s for s in steps if s % every == 0}
    return keep


class C03(Check):
    id = "C03"
    rule = (
        "random histories of saves, scores (ties, infinities, NaN), policy deletions, keep-model deletions and process "
        "crashes inside them, on real checkpoints; the listing, the stale set and the content of every listed step "
        "judged after each action by a reference model; non-trivial = at least one deletion decided"
    )
    required = ["stale_queries", "deletions", "keep_model_deletions", "crashes", "score_crashes", "steps_loaded", "tied_scores", "nan_scores", "kept_by_best", "kept_by_interval"]

    def gen(self, rng, tier):
        import ckpt

        for i in range(330 if tier == "quick" else 3000):
            topo = rng.choice(ckpt.TOPOLOGIES[:4]) if i % 3 == 0 else (1, 1, 0)
            acts, step, saved = [], 0, []
            vals = [rng.choice([-1.5, 0.0, 2.25, 1e-7, -3.0, 123456.789, 0.1 + 0.2]) for _ in range(3)] + [float("inf"), float("-inf")]
            nan = rng.random() < 0.2
            for _ in range(rng.randrange(4, 16)):
                a = rng.choice(["save", "save", "save", "score", "score", "clean", "keepmodel", "clean"])
                if a == "save":
                    step += rng.choice([1, 1, 2, 5])
                    if rng.random() < 0.1 and saved:
                        step = rng.choice(saved)
                    saved.append(step)
                    acts.append(["save", step, rng.random() < 0.2, rng.random() < 0.85])
                    if rng.random() < 0.6:
                        acts.append(["score", step, str(rng.choice(vals + [float("nan")] * 3 if nan else vals))])
                elif a == "score" and saved:
                    acts.append(["score", rng.choice(saved), str(rng.choice(vals))])
                elif a == "clean":
                    acts.append(["clean", rng.choice([None, None, 1, 2, 3]), rng.choice([None, None, 1, 2, 3]), rng.choice([None, None, 1, 2, 4])])
                elif a == "keepmodel":
                    acts.append(["keepmodel"])
            yield {"topo": topo, "acts": acts, "s": rng.randrange(1 << 30), "fs": rng.choice(["global", "local"]), "crash": rng.random() < 0.6}

    def run(self, case, obs):
        import random

        import ckpt
        import tgang

        r = random.Random(case["s"])
        topo, fs = tuple(case["topo"]), case["fs"]
        dp, tp, sdp = topo
        base = scratch("c03")
        steps, mo, scores, ver = {}, set(), {}, 0  # step -> version
        try:
            def mgr():
                return ckpt.make_manager(base, ckpt.fake_gangs(0, dp * tp, tp, sdp), fs)

            def on_ranks(fn):
                def body(root, rank):
                    g = ckpt.make_gangs(root, tp, sdp)
                    return fn(ckpt.make_manager(base, g, fs), g)

                out = tgang.run_ranks(dp * tp, body, timeout=20)
                for st, ex in out:
                    if st != "ok":
                        raise ex if st == "error" else RuntimeError("rank hangs")
                return [v for _, v in out]

            def crashy(fn, what):
                """Runs fn on all ranks, in a child killed at a random call;
                returns whether it died."""
                if not case["crash"] or r.random() < (0.75 if "score" in what else 0.1):
                    on_ranks(fn)
                    return False
                b2 = str(base) + "-count"
                shutil.copytree(base, b2)
                try:
                    # how many calls is it?
                    def count():
                        nonlocal base
                        from pathlib import Path

                        base = Path(b2)
                        fsfault.arm(b2, fsfault.COUNT)
                        on_ranks(fn)
                        return str(len(fsfault.off())).encode()

                    code, out = fsfault.in_child(count)
                    if code != 0:
                        obs.violate("unexpected-error", f"{what}: {code} {out.decode()}")
                        return True
                finally:
                    shutil.rmtree(b2, ignore_errors=True)
                n = int(out)
                if not n:
                    on_ranks(fn)
                    return False
                k, mode = r.randrange(n), r.choice([fsfault.DIE_BEFORE, fsfault.DIE_AFTER])

                def child():
                    fsfault.arm(base, mode, k)
                    on_ranks(fn)

                code, out = fsfault.in_child(child)
                if code not in (0, 77):
                    obs.violate("unexpected-error", f"{what}: {code} {out.decode()}")
                obs.count("crashes")
                obs.state(what.split()[0], mode, k, n)
                return code == 77

            def judge(where, maybe=()):
                """Compares the directory with the model; `maybe` may be gone.
                Updates the model to what is there."""
                m = mgr()
                got, full = m.get_step_numbers(), m.get_step_numbers(exclude_model_only=True)
                obs.check(got == sorted(got) and set(got) <= set(steps) and set(steps) - set(got) <= set(maybe), "listing-wrong",
                          f"{where}: listed {got}, expected {sorted(steps)} of which {sorted(maybe)} may be gone")
                for s in list(steps):
                    if s not in got:
                        del steps[s]
                        mo.discard(s)
                        scores.pop(s, None)
                for s in got:
                    if s not in steps:
                        continue
                    if s in maybe_mo and s not in full:
                        mo.add(s)
                    obs.check((s in full) == (s not in mo), "model-only-misreported", f"{where}: {s} full={full} model-only={sorted(mo)}")
                    self.content(base, topo, fs, s, steps[s], s in mo, obs, where)
                obs.check(m.has_checkpoint() == bool(steps) and m.maybe_get_last_step_number() == (max(steps) if steps else None), "listing-inconsistent", where)

            maybe_mo = set()
            for i, a in enumerate(case["acts"]):
                where = f"action {i} {a}"
                maybe_mo = set()
                if a[0] == "save":
                    ver += 1
                    _, step, model_only, blocking = a

                    def do(m, g, v=ver):
                        st = ckpt.states_for(g, v)
                        if model_only:
                            m.save_model_only(step, st["model"], blocking=blocking)
                        else:
                            m.save_checkpoint(step, st["trainer"], st["model"], st["optimizer"], st["data_reader"], blocking=blocking)
                        m.maybe_complete_save_operation(blocking=True)

                    on_ranks(do)
                    scores.pop(step, None)
                    steps[step] = ver
                    mo.discard(step)
                    if model_only:
                        mo.add(step)
                    judge(where)
                elif a[0] == "score":
                    _, step, val = a
                    if step not in steps:
                        continue
                    x = float(val)
                    died = crashy(lambda m, g: m.save_score(step, x), where)
                    m = mgr()
                    got = {s: v for v, s in m.load_scores()}
                    if died:
                        obs.count("score_crashes")
                        ok = [scores.get(step), x]
                        g = got.get(step)
                        obs.check(any(same(g, o) for o in ok), "torn-score", f"{where}: {g} is neither of {ok}")
                        if g is None:
                            scores.pop(step, None)
                        else:
                            scores[step] = g
                    else:
                        scores[step] = x
                    obs.check(set(got) == set(scores) and all(same(got[s], scores[s]) for s in got), "scores-wrong", f"{where}: {got} instead of {scores}")
                    order = [(v, s) for v, s in m.load_scores() if not math.isnan(v)]
                    obs.check(order == sorted(order, reverse=True), "scores-not-ordered", f"{where}: {order}")
                    if len(set(scores.values())) < len(scores):
                        obs.count("tied_scores")
                    if any(math.isnan(v) for v in scores.values()):
                        obs.count("nan_scores")
                elif a[0] == "clean":
                    _, last, best, every = a
                    want = sorted(set(steps) - policy(list(steps), scores, last, best, every))
                    got = on_ranks(lambda m, g: m.get_stale_step_numbers(last, best, every))
                    obs.count("stale_queries")
                    obs.check(all(g == want for g in got), "stale-steps-wrong", f"{where}: {got} instead of {want}; steps {sorted(steps)} scores {scores}")
                    if best and policy(list(steps), scores, last, best, every) != policy(list(steps), scores, last or 1, None, every):
                        obs.count("kept_by_best")
                    if every and policy(list(steps), scores, last, best, every) != policy(list(steps), scores, last or 1, best, None):
                        obs.count("kept_by_interval")
                    if obs.violations:
                        return

                    def do(m, g):
                        for s in want:
                            m.delete_checkpoint(s)

                    if want:
                        obs.count("deletions", len(want))
                        died = crashy(do, where)
                        if not died:
                            for s in want:
                                steps.pop(s, None)
                                mo.discard(s)
                                scores.pop(s, None)
                        judge(where, want if died else ())
                        if died:
                            # the restarted run deletes the rest
                            rest = sorted(set(steps) - policy(list(steps), scores, last, best, every))
                            got = on_ranks(lambda m, g: m.get_stale_step_numbers(last, best, every))
                            obs.check(all(g == rest for g in got), "stale-steps-wrong-after-crash", f"{where}: {got} instead of {rest}; steps {sorted(steps)} scores {scores}")
                            want = rest
                            on_ranks(do)
                            for s in rest:
                                steps.pop(s, None)
                                mo.discard(s)
                                scores.pop(s, None)
                            judge(where + " (retried)")
                elif a[0] == "keepmodel":
                    todo = sorted(set(steps) - mo)[:-1]
                    if not todo:
                        continue
                    obs.count("keep_model_deletions")

                    def do(m, g):
                        for s in todo:
                            m.delete_checkpoint(s, keep_model=True)

                    died = crashy(do, where)
                    if died:
                        maybe_mo = set(todo)
                    else:
                        mo |= set(todo)
                    judge(where)
                if obs.violations:
                    return
        finally:
            shutil.rmtree(base, ignore_errors=True)

    def content(self, base, topo, fs, step, v, model_only, obs, where):
        import ckpt

        dp, tp, sdp = topo
        for rank in range(dp * tp):
            g = ckpt.fake_gangs(rank, dp * tp, tp, sdp)
            m = ckpt.make_manager(base, g, fs)
            ks = ckpt.keys_of(g)
            for k in ["model"] if model_only else ckpt.KINDS:
                got = ckpt.load(m, step, k)
                if isinstance(got, Exception):
                    obs.violate("listed-step-unloadable", f"{where}: step {step} rank {rank} {k}: {got!r}")
                    return
                d = ckpt.deep_eq(ckpt.payload(v, ks[k], k), got, k)
                obs.check(d is None, "kept-step-differs", lambda: f"{where}: step {step} rank {rank} {d}")
        obs.count("steps_loaded")


def same(a, b):
    return a is b or (a is not None and b is not None and (a == b or (math.isnan(a) and math.isnan(b))))


if __name__ == "__main__":
    fsfault.require()
    main(C03())
