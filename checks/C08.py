"""C08: ranks read in lockstep and without loss."""
import os
import random
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main


class C08(Check):
    id = "C08"
    native = True
    rule = (
        "data readers over native pipelines on every rank of threaded and gloo gangs, with delays, saved, rewound, rebuilt and reset at generated points; the logs of all ranks judged "
        "together by a reference of the sync modes; non-trivial = more than one data parallel rank, or a restore"
    )
    required = ["steps", "gloo_steps", "uneven_ends", "until_last_empty", "trimmed_steps", "dropped_remainders", "restores", "rewinds", "resets", "unsynced_steps", "read_errors", "tp_ranks", "conserved_epochs", "after_end"]
    case_timeout = 90.0

    def gen(self, rng, tier):
        q = tier == "quick"

        def case(k):
            dp = rng.choice([1, 2, 2, 3, 4])
            src = rng.choice(["shard", "own", "own"])
            base = rng.randrange(0, 14)
            spread = rng.choice([0, 1, 1, 6])
            return {
                "k": k, "s": rng.randrange(1 << 30), "dp": dp, "tp": rng.choice([1, 1, 1, 2]), "src": src, "n": rng.randrange(0, 40) if src == "shard" else [max(0, base + rng.randrange(-spread, spread + 1)) for _ in range(dp)],
                "uneven": rng.random() < 0.7, "bs": rng.choice([1, 1, 2, 3]), "acc": rng.choice([1, 1, 2, 3, 5]), "drop": rng.random() < 0.35, "sync": rng.random() < 0.85, "last": rng.random() < 0.45,
                "shuffle": rng.choice([0, 0, 5]), "prefetch": rng.choice([0, 0, 2]), "strict": rng.random() < 0.7, "delay": rng.random() < 0.5, "epochs": rng.choice([1, 1, 2]),
                "acts": [rng.choice(["save", "rebuild", "rewind", "", "", "again"]) for _ in range(rng.randrange(1, 8))],
                "fail": rng.randrange(0, 20) if rng.random() < 0.12 else None,
            }

        for _ in range(1500 if q else 12000):
            c = case("thread")
            if c["fail"] is not None:
                c["dp"] = c["tp"] = 1
                c["src"], c["n"] = "shard", rng.randrange(10, 40)
            yield c
        for _ in range(40 if q else 400):
            c = case("gloo")
            c["fail"] = None
            c["dp"] = max(2, c["dp"])
            c["tp"] = 1
            if c["src"] == "own":
                c["n"] = [rng.randrange(0, 12) for _ in range(c["dp"])]
            yield c

    def pipeline(self, c, d):
        from fairseq2.data.data_pipeline import read_sequence

        if c["src"] == "shard":
            b = read_sequence(list(range(c["n"]))).shard(d, c["dp"], allow_uneven=c["uneven"])
        else:
            b = read_sequence([1000 * (d + 1) + i for i in range(c["n"][d])])
        if c["shuffle"]:
            b = b.shuffle(c["shuffle"], seed=c["s"] % 999)
        b = b.bucket(c["bs"])
        if c["fail"] is not None:
            from fairseq2.data.data_pipeline import DataPipeline

            # Fails where the shorter one ends.
            b = DataPipeline.zip([b.and_return(), read_sequence(list(range(c["fail"]))).and_return()]).map(lambda x: x[0])
        if c["prefetch"] and c["fail"] is None:
            b = b.prefetch(c["prefetch"])
        return b.and_return()

    def rank(self, root, c):
        from fairseq2.datasets import DataPipelineReader, DataReadError, SyncMode
        from fairseq2.gang import create_parallel_gangs

        g = create_parallel_gangs(root, tp_size=c["tp"])
        d = g.dp.rank
        log = []
        lag = random.Random(c["s"] * 3 + root.rank)

        def build():
            return DataPipelineReader(
                self.pipeline(c, d), g, num_accumulate=c["acc"], drop_remainder=c["drop"], sync=c["sync"], sync_mode=SyncMode.UNTIL_LAST if c["last"] else SyncMode.UNTIL_FIRST, strict_state=c["strict"],
            )

        r = build()
        acts = list(c["acts"]) if c["fail"] is None and (c["strict"] or not c["shuffle"] and not c["prefetch"]) else []
        saved = None
        for epoch in range(c["epochs"]):
            n = 0
            while True:
                if c["delay"] and lag.random() < 0.3:
                    time.sleep(lag.random() * 0.003)
                if acts and c["sync"]:
                    a = acts.pop(0)
                    if a == "save":
                        saved = (n, r.state_dict(), epoch)
                        log.append(("save", n))
                    elif a == "rebuild":
                        st = r.state_dict()
                        r = build()
                        r.load_state_dict(st)
                        log.append(("rebuild", n))
                    elif a == "rewind" and saved and saved[2] == epoch:
                        n = saved[0]
                        r.load_state_dict(saved[1])
                        log.append(("rewind", n))
                try:
                    x = next(r)
                except StopIteration:
                    log.append(("end", n))
                    break
                except DataReadError as ex:
                    log.append(("error", n, type(ex.__cause__).__name__))
                    return log
                log.append(("step", n, [[int(i) for i in b] for b in x]))
                n += 1
            for _ in range(2):  # It stays at the end.
                try:
                    next(r)
                    log.append(("step-after-end", n))
                except StopIteration:
                    pass
            log.append(("after", n))
            if epoch + 1 < c["epochs"]:
                r.reset()
                log.append(("reset", 0))
        return log

    def batches(self, c, epoch_logs):
        pass

    def run(self, case, obs):
        c = case
        size = c["dp"] * c["tp"]
        if c["k"] == "gloo":
            import gloo

            res = gloo.run(size, lambda root, rank: self.rank(root, c), timeout=60)
            if any(r[0] == "init-failed" for r in res):
                obs.inconclusive(str(res)[:500])
        else:
            import tgang

            res = tgang.run_ranks(size, lambda root, rank: self.rank(root, c), delay_seed=c["s"] if c["delay"] else None)
        bad = [r for r in res if r[0] != "ok"]
        obs.check(not bad, "ranks-failed", lambda: f"{c}: {str(bad[:2])[:2500]}")
        if bad:
            return
        logs = [r[1] for r in res]
        # Tensor parallel peers see the same.
        for rank in range(size):
            if rank % c["tp"]:
                obs.count("tp_ranks")
                obs.check(logs[rank] == logs[rank - 1], "tp-peers-differ", lambda: f"{c}: {logs[rank]} vs {logs[rank - 1]}")
        logs = logs[:: c["tp"]]
        dp = c["dp"]
        # What each rank's pipeline holds.
        data = []
        for d in range(dp):
            if c["src"] == "shard":
                n = c["n"]
                if c["uneven"]:
                    ids = list(range(d, n, dp))
                else:
                    ids = list(range(n // dp * dp))[d::dp]
            else:
                ids = [1000 * (d + 1) + i for i in range(c["n"][d])]
            data.append(ids)
        nb = [-(-len(x) // c["bs"]) for x in data]  # batches per rank
        want = self.expect(c, nb)
        if c["sync"] and len(set(nb)) > 1:
            obs.count("uneven_ends")
        for d, log in enumerate(logs):
            epoch_want = want[d]
            pos = 0
            got = {}
            first = None
            for ev in log:
                if ev[0] == "step":
                    obs.count("steps")
                    if c["k"] == "gloo":
                        obs.count("gloo_steps")
                    if not c["sync"]:
                        obs.count("unsynced_steps")
                    k = ev[1]
                    if not obs.check(k < len(epoch_want), "extra-step", lambda: f"rank {d} step {k} of {len(epoch_want)}: {c}"):
                        break
                    obs.check(len(ev[2]) == epoch_want[k], "batches-per-step", lambda: f"rank {d} step {k}: {len(ev[2])} batches instead of {epoch_want[k]}: {c}")
                    if not ev[2]:
                        obs.count("until_last_empty")
                    if 0 < len(ev[2]) < c["acc"] and sum(epoch_want[: k + 1]) < nb[d]:
                        obs.count("trimmed_steps")
                    if k in got:
                        obs.check(got[k] == ev[2], "replayed-step-differs", lambda: f"rank {d} step {k}: {ev[2]} instead of {got[k]}: {c}")
                    got[k] = ev[2]
                elif ev[0] == "end":
                    obs.check(ev[1] == len(epoch_want) or c["fail"] is not None, "ends-early", lambda: f"rank {d} ended after {ev[1]} steps instead of {len(epoch_want)}: {c} {log}")
                    # Conservation and order.
                    flat = [b for k in sorted(got) for b in got[k]]
                    ids = [i for b in flat for i in b]
                    obs.check(len(ids) == len(set(ids)) and set(ids) <= set(data[d]), "repeated-or-foreign", lambda: f"rank {d}: {ids} from {data[d]}: {c}")
                    if not c["shuffle"]:
                        obs.check(ids == data[d][: len(ids)], "order", lambda: f"rank {d}: {ids} from {data[d]}: {c}")
                    obs.check(len(ids) == min(len(data[d]), c["bs"] * sum(epoch_want)), "lost", lambda: f"rank {d}: {len(ids)} of {len(data[d])}: {c}")
                    obs.count("conserved_epochs")
                    if first is None:
                        first = flat
                    elif not c["shuffle"]:
                        obs.check(flat == first, "epochs-differ", lambda: f"{flat} vs {first}: {c}")
                elif ev[0] == "reset":
                    got = {}
                    obs.count("resets")
                elif ev[0] == "rebuild":
                    obs.count("restores")
                elif ev[0] == "rewind":
                    obs.count("rewinds")
                elif ev[0] == "after":
                    obs.count("after_end")
                elif ev[0] == "step-after-end":
                    obs.violate("step-after-end", f"rank {d}: {c}")
                elif ev[0] == "error":
                    obs.count("read_errors")
                    obs.check(ev[1] == min(nb[d], c["fail"]) // c["acc"] and ev[2] == "DataPipelineError", "read-error", lambda: f"{ev}: {c}")
            if c["drop"] and nb[d] % c["acc"]:
                obs.count("dropped_remainders")
        if c["sync"] and c["fail"] is None:
            shape = [[(e[0], e[1]) for e in log if e[0] in ("step", "end")] for log in logs]
            obs.check(all(s == shape[0] for s in shape), "lockstep", lambda: f"{shape}: {c}")
        obs.state(c["k"], dp, c["tp"], c["acc"], c["drop"], c["last"], tuple(nb))
        obs.sample = {"case": c, "log": [str(e) for e in logs[0][:6]]}

    def expect(self, c, nb):
        """Number of batches of every step, per rank."""
        dp, acc = c["dp"], c["acc"]
        nb = list(nb)
        left = list(nb)
        out = [[] for _ in range(dp)]
        done = [False] * dp
        while not all(done):
            take = []
            for d in range(dp):
                t = min(acc, left[d])
                left[d] -= t
                if c["drop"] and t != acc:
                    t = 0
                take.append(t)
            if not c["sync"] or dp == 1:
                for d in range(dp):
                    if not done[d]:
                        if take[d] == 0:
                            done[d] = True
                        else:
                            out[d].append(take[d])
                continue
            if c["last"]:
                stop = sum(take) == 0
            else:
                m = min(take)
                stop = m == 0
                take = [m] * dp
            if stop:
                break
            for d in range(dp):
                out[d].append(take[d])
        return out

    def nontrivial(self, case, obs):
        return (case["dp"] > 1 or obs.counts["restores"] > 0) and obs.counts["steps"] > 0


if __name__ == "__main__":
    main(C08())
