"""C19: step processors ban exactly what their definitions say."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main


class C19(Check):
    id = "C19"
    rule = (
        "the real step processors run on every sequence up to length 7 over three tokens (all n-gram sizes, and sets of "
        "banned sequences), and on random long, periodic and near-repeating batches, with probabilities and "
        "log-probabilities; the changed entries are compared with a set-based definition, all other entries bitwise"
    )
    required = ["exhaustive_rows", "random_rows", "ngram_bans", "sequence_bans", "lprob", "no_bans", "called_again", "short_sequences"]

    def setup(self, tier):
        import genkit  # noqa: F401

    def gen(self, rng, tier):
        for length in range(1, 8 if tier == "quick" else 10):
            for n in range(1, length + 3):
                yield {"mode": "all", "len": length, "ngram": n, "banned": [], "s": 0}
        short = [list(s) for k in (1, 2, 3) for s in itertools.product(range(3), repeat=k)]
        for length in range(1, 7 if tier == "quick" else 9):
            for b in short:
                yield {"mode": "all", "len": length, "ngram": 0, "banned": [b], "s": 0}
            for _ in range(12):
                yield {"mode": "all", "len": length, "ngram": 0, "banned": rng.sample(short, rng.randrange(2, 6)), "s": 0}
        for _ in range(1200 if tier == "quick" else 20000):
            v = rng.choice([2, 3, 5, 30, 1000])
            ln = rng.choice([1, 2, 3, 5, 9, 20, 60])
            banned = []
            if rng.random() < 0.5:
                banned = [[rng.randrange(v) for _ in range(rng.choice([1, 1, 2, 3, 4, 8]))] for _ in range(rng.choice([1, 2, 5, 20]))]
            yield {"mode": "random", "len": ln, "ngram": 0 if banned else rng.choice([1, 2, 3, 4, 5, 8, ln, ln + 1]), "banned": banned, "s": rng.randrange(1 << 30), "v": v, "rows": rng.choice([1, 2, 7, 30]), "period": rng.choice([0, 0, 2, 3, 5])}

    def run(self, case, obs):
        import genkit
        import torch

        c = case
        procs = genkit.Procs(c["ngram"], c["banned"])
        v = c.get("v", 3)
        r = random.Random(c["s"])
        if c["mode"] == "all":
            seqs = [list(s) for s in itertools.product(range(3), repeat=c["len"])]
            obs.count("exhaustive_rows", len(seqs))
        else:
            seqs = []
            for _ in range(c["rows"]):
                if c["period"]:
                    base = [r.randrange(v) for _ in range(c["period"])]
                    s = [base[i % c["period"]] for i in range(c["len"])]
                    if r.random() < 0.5:
                        s[r.randrange(c["len"])] = r.randrange(v)
                else:
                    s = [r.randrange(v) for _ in range(c["len"])]
                # Bring a banned sequence near.
                if c["banned"] and r.random() < 0.7:
                    b = r.choice(c["banned"])[:-1]
                    if b and len(b) <= len(s):
                        s[len(s) - len(b) :] = b
                        if r.random() < 0.3:
                            s[len(s) - r.randrange(1, len(b) + 1)] = r.randrange(v)
                    elif b:
                        s = b[len(b) - len(s) :]
                seqs.append(s)
            obs.count("random_rows", len(seqs))
        proc = procs.real()[0]
        # As the generators do, pass a view of a larger buffer.
        buf = torch.full((len(seqs), c["len"] + 3), -7)
        buf[:, : c["len"]] = torch.tensor(seqs)
        view = buf[:, : c["len"]]
        keep = buf.clone()
        for lprob in (False, True):
            probs = torch.rand(len(seqs), v, generator=torch.Generator().manual_seed(c["s"])) + 0.01
            if lprob:
                probs = -probs
                obs.count("lprob")
            for again in range(2):
                before = probs.clone()
                ret = proc(view, probs, lprob=True) if lprob else proc(view, probs)
                obs.check(ret is None, "returned", "")
                obs.check(torch.equal(buf, keep), "sequences-modified", "the processor changed the sequences")
                want = before.clone()
                bans = 0
                for i, s in enumerate(seqs):
                    for t in procs.bans(tuple(s), v):
                        want[i, t] = -torch.inf if lprob else 0.0
                        bans += 1
                if not torch.equal(probs, want):
                    i = int((probs != want).any(-1).nonzero()[0])
                    obs.violate("bans", f"sequence {seqs[i]} with {c['ngram'] or c['banned']}: banned {[t for t in range(v) if probs[i, t] != before[i, t]]} instead of {sorted(procs.bans(tuple(seqs[i]), v))}")
                    return
                obs.count("ngram_bans" if c["ngram"] else "sequence_bans", bans)
                if not bans:
                    obs.count("no_bans")
                obs.count("called_again", again)
        if c["banned"] and c["len"] < max(map(len, c["banned"])) - 1 or c["ngram"] > c["len"]:
            obs.count("short_sequences")
        obs.state(c["mode"], c["len"], c["ngram"], str(c["banned"])[:40], v)
        obs.sample = {"sequence": seqs[-1][:20], "bans": sorted(procs.bans(tuple(seqs[-1]), v))[:20]}


if __name__ == "__main__":
    main(C19())
