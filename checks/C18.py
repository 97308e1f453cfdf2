"""C18: sampling from models whose every probability is known."""
import math
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main

EPS = 3e-4


class C18(Check):
    id = "C18"
    rule = (
        "random models whose next-token probabilities are a pure function of the source and of the whole prefix, run "
        "through the real sampling generators (causal and sequence-to-sequence, padded prompts, fan-out, prefill in "
        "chunks, step processors, penalties, limits) with a recording sampler; at every step the sampler must be given "
        "the model's distribution of each row's own prefix under the constraints, and must draw from the top-k or the "
        "nucleus; every hypothesis is scored again from the model's table; the samplers are also run on their own with "
        "many draws and a chi-square test of the renormalized distribution"
    )
    required = ["draws", "hypotheses", "padded_prompts", "fan_out", "seq2seq", "with_processors", "cut_at_limit", "unk_clamped", "top_p", "top_k", "chi_square", "same_seed", "short_prompt_fan_out"]
    assumptions = ["the chi-square threshold is set for one false alarm in 1e10 tests"]

    def setup(self, tier):
        import genkit  # noqa: F401

    def gen(self, rng, tier):
        n = 900 if tier == "quick" else 9000
        for i in range(n):
            if i % 8 == 0:
                yield {"mode": "dist", "s": rng.randrange(1 << 30), "v": rng.choice([2, 3, 6, 15, 40]), "rows": rng.choice([1, 2, 5]), "sharp": rng.choice([0.0, 0.7, 2.0, 5.0]),
                       "sampler": rng.choice([["k", rng.choice([1, 2, 3, 10, 100])], ["p", rng.choice([0.0, 0.3, 0.5, 0.9, 0.99, 1.0])]]), "zeros": rng.choice([0, 0, 1, 2]), "scale": rng.choice([1.0, 0.3])}
                continue
            v = rng.choice([5, 6, 8, 12, 20])
            num = rng.choice([1, 1, 2, 3, 5])
            same = rng.random() < 0.4
            ln = rng.choice([1, 1, 2, 3, 6])
            special = rng.choice(["eos1", "eosmid", "nopad", "nounk"])
            eos = 1 if special != "eosmid" else v // 2
            pad = 0 if special != "nopad" else None
            unk = 2 if special != "nounk" and eos != 2 else None
            toks = [t for t in range(v) if t not in (pad, eos)]
            prompts = []
            for _ in range(num):
                m = ln if same else rng.randrange(1, 7)
                p = [rng.choice(toks) for _ in range(m)]
                if rng.random() < 0.15:
                    p[rng.randrange(m)] = eos
                prompts.append(p)
            gen = rng.choice([1, 2, 4, 7, 12])
            yield {
                "mode": "run", "s": rng.randrange(1 << 30), "v": v, "eos": eos, "pad": pad, "unk": unk, "prompts": prompts, "gens": rng.choice([1, 1, 2, 3, 6]),
                "max": gen, "min": rng.randrange(1, gen + 1), "max_seq": rng.choice([None, None, 9]), "echo": rng.random() < 0.5, "norm": rng.random() < 0.6, "compute": rng.random() < 0.8,
                "temp": rng.choice([1.0, 1.0, 0.5, 2.0]), "unkp": rng.choice([0.0, 0.0, 0.05, 0.4, -0.3]), "lenp": rng.choice([1.0, 1.0, 0.5, 2.0, 0.0]),
                "chunk": rng.choice([None, 1, 2, 512]), "cap": rng.choice([None, 1, 3, 16]), "sharp": rng.choice([0.5, 1.0, 2.0]),
                "sampler": rng.choice([["k", rng.choice([1, 2, 3, 100])], ["p", rng.choice([0.0, 0.4, 0.8, 0.95, 1.0])]]),
                "ngram": rng.choice([0, 0, 0, 2, 3]), "banned": [[rng.choice(toks) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([0, 0, 0, 1, 3]))],
                "s2s": rng.random() < 0.4, "src": [[rng.randrange(3, 9) for _ in range(rng.randrange(1, 4))] for _ in range(num)],
            }

    def make_sampler(self, spec):
        from fairseq2.generation.sampling import TopKSampler, TopPSampler

        return TopKSampler(spec[1]) if spec[0] == "k" else TopPSampler(spec[1])

    @staticmethod
    def support(spec, probs):
        """(tokens that may be drawn, tokens that must be possible)."""
        z = sum(probs)
        q = sorted(((p / z, t) for t, p in enumerate(probs)), reverse=True)
        may, must = set(), set()
        acc = 0.0
        for r, (p, t) in enumerate(q):
            if p <= 0:
                break
            if spec[0] == "k":
                k = min(spec[1], len(q))
                kth = q[k - 1][0]
                if r < k or p >= kth * (1 - 1e-6):
                    may.add(t)
                if r < k and (k == len(q) or p > q[k][0] * (1 + 1e-6)):
                    must.add(t)
            else:
                if r == 0 or acc <= spec[1] + 1e-5:
                    may.add(t)
                if r == 0 and (len(q) == 1 or p > q[1][0] * (1 + 1e-6)) or acc < spec[1] - 1e-5:
                    must.add(t)
                # Ties may come in any order.
                acc += p
        if spec[0] == "p":
            low = min(probs[t] for t in may)
            may |= {t for t, p in enumerate(probs) if p > 0 and p >= low * (1 - 1e-6)}
        return may, must

    def run(self, case, obs):
        if case["mode"] == "dist":
            return self.run_dist(case, obs)
        self.run_gen(case, obs)

    def run_dist(self, c, obs):
        import torch

        r = random.Random(c["s"])
        torch.manual_seed(c["s"])
        rows = []
        for _ in range(c["rows"]):
            w = [math.exp(r.gauss(0, c["sharp"])) for _ in range(c["v"])]
            for t in r.sample(range(c["v"]), min(c["zeros"], c["v"] - 1)):
                w[t] = 0.0
            z = sum(w)
            rows.append([x / z * c["scale"] for x in w])
        sampler = self.make_sampler(c["sampler"])
        n = 3000
        probs = torch.tensor(rows).repeat(n, 1)
        keep = probs.clone()
        got = sampler.sample(probs)
        obs.check(got.shape == (n * c["rows"],) and got.dtype == torch.int64, "draw-shape", f"{got.shape} {got.dtype}")
        obs.check(torch.equal(probs, keep), "probs-modified", "the sampler changed the probabilities that it was given")
        got = got.view(n, c["rows"])
        f32 = torch.tensor(rows).tolist()
        for j in range(c["rows"]):
            may, must = self.support(c["sampler"], f32[j])
            hist = torch.bincount(got[:, j], minlength=c["v"]).tolist()
            obs.count("draws", n)
            bad = [t for t, h in enumerate(hist) if h and t not in may]
            obs.check(not bad, "not-allowed", lambda: f"{bad} drawn from {f32[j]} by {c['sampler']}")
            if may != must:
                obs.count("ties")
                continue
            z = sum(f32[j][t] for t in may)
            # Merge the cells of low expectation.
            cells, rest_e, rest_h = [], 0.0, 0
            for t in may:
                e = n * f32[j][t] / z
                if e < 5:
                    rest_e, rest_h = rest_e + e, rest_h + hist[t]
                else:
                    cells.append((e, hist[t]))
            if rest_e >= 1:
                cells.append((rest_e, rest_h))
            chi = sum((h - e) ** 2 / e for e, h in cells)
            d = len(cells) - 1
            if d < 1:
                continue
            # Laurent-Massart: P(chi > d + 2 sqrt(dx) + 2x) <= exp(-x); doubled for small cells.
            x = 25
            lim = 2 * (d + 2 * math.sqrt(d * x) + 2 * x)
            obs.count("chi_square")
            obs.check(chi < lim, "distribution", lambda: f"chi-square {chi:.1f} over {d} degrees of freedom: drawn {hist} of {[round(n * p / z, 1) if t in may else 0 for t, p in enumerate(f32[j])]} by {c['sampler']}")
        # Rows are drawn independently.
        if c["rows"] >= 2 and n:
            a, b = got[:, 0].double(), got[:, 1].double()
            if a.std() > 0 and b.std() > 0:
                rho = float(torch.corrcoef(torch.stack([a, b]))[0, 1])
                obs.check(abs(rho) < 7 / math.sqrt(n), "rows-correlated", lambda: f"correlation {rho} between rows")
        obs.state("dist", c["sampler"][0], c["sampler"][1], c["v"], c["rows"])

    def allowed(self, c, table, procs, src, prefix, lim):
        """{token: probability that the sampler sees}."""
        p = [math.exp(x) for x in table.lprobs(src, prefix, c["temp"])]
        for t in procs.bans(prefix, c["v"]):
            p[t] = 0.0
        if c["unk"] is not None:
            p[c["unk"]] = max(0.0, p[c["unk"]] - c["unkp"])
        if c["pad"] is not None:
            p[c["pad"]] = 0.0
        if len(prefix) < lim["min"] - 1:
            p[c["eos"]] = 0.0
        return p

    def run_gen(self, case, obs):
        import genkit
        import torch
        from fairseq2.data.tokenizers import VocabularyInfo
        from fairseq2.generation.sampling import Sampler, SamplingSeq2SeqGenerator, SamplingSequenceGenerator

        c = case
        table = genkit.Table(c["s"], c["v"], c["sharp"])
        procs = genkit.Procs(c["ngram"], c["banned"])
        vi = VocabularyInfo(c["v"], c["unk"], None, c["eos"], c["pad"])
        mx_model = 40
        real = self.make_sampler(c["sampler"])
        draws = []

        class Dead(Exception):
            pass

        class Recorder(Sampler):
            def sample(self, probs):
                if (probs.sum(-1) <= 0).any():
                    raise Dead
                keep = probs.clone()
                out = real.sample(probs)
                draws.append((keep, out.clone()))
                return out

        def generate(hook=None):
            model = (genkit.S2S if c["s2s"] else genkit.LM)(table, mx_model)
            model.train()
            kw = dict(
                num_gens=c["gens"], min_gen_len=c["min"], max_seq_len=c["max_seq"], echo_prompt=c["echo"], compute_scores=c["compute"], normalize_scores=c["norm"], temperature=c["temp"],
                unk_penalty=c["unkp"], len_penalty=c["lenp"], prefill_chunk_size=c["chunk"], decode_capacity_increment=c["cap"], step_processors=procs.real(),
            )
            if c["s2s"]:
                g = SamplingSeq2SeqGenerator(model, vi, Recorder(), max_gen_len=(0.0, c["max"]), **kw)
            else:
                g = SamplingSequenceGenerator(model, vi, Recorder(), max_gen_len=c["max"], **kw)
            if hook:
                g.register_step_hook(hook)
            p, pl = genkit.pad(prompts, c["pad"] if c["pad"] is not None else 0)
            keep = p.clone()
            torch.manual_seed(c["s"])
            if c["s2s"]:
                s, sl = genkit.pad(srcs, 0)
                out = g(s, sl, p, pl)
            else:
                out = g(p, pl)
            obs.check(torch.equal(p, keep), "prompt-modified", "the caller's prompts were changed")
            obs.check(model.mode is False, "mode", "the model is run in training mode")
            return out

        prompts, srcs = c["prompts"], c["src"]
        lens = [len(p) for p in prompts]
        lim_seq = mx_model if c["max_seq"] is None else min(mx_model, c["max_seq"])
        if max(lens) >= lim_seq:
            try:
                generate()
                obs.violate("long-prompt", "a prompt without room for generation was accepted")
            except ValueError:
                obs.count("rejected_prompts")
            return
        lim = {"min": min(lim_seq, max(lens) + c["min"]), "max": min(lim_seq, max(lens) + c["max"])}
        src_of = [tuple(s) if c["s2s"] else None for s in srcs]
        seen_rows = []

        def hook(prompt_indices, seqs, step_scores, prefill):
            idx, rows = prompt_indices.tolist(), seqs.tolist()
            obs.check((step_scores is not None) == c["compute"], "hook-scores", "")
            for i, row in zip(idx, rows):
                m = min(lens[i], len(row))
                obs.check(row[:m] == prompts[i][:m], "hook-sequence", lambda: f"prompt {prompts[i]}, sequence {row}")
            if prefill:
                obs.check(idx == list(range(len(prompts))), "hook-prefill", lambda: f"{idx}")
                return
            obs.count("hook_calls")
            if step_scores is not None:
                for i, row, sc in zip(idx, rows, step_scores.tolist()):
                    want = self.step_p(c, table, procs, src_of[i], prompts[i], tuple(row), len(row) - 1, lim)
                    obs.check(abs(sc[-1] - want) < EPS, "hook-score", lambda: f"{sc[-1]} instead of {want}: {row}")
            forced = len(rows[0]) == lim["max"]
            if not forced:
                if not obs.check(bool(draws), "no-draw", "a step without a draw"):
                    return
                probs, out = draws.pop()
                obs.check(not draws, "extra-draw", "several draws in a step")
                obs.check(len(probs) == len(rows), "draw-rows", lambda: f"{len(probs)} rows drawn for {len(rows)} sequences")
                for i, row, pr, o in zip(idx, rows, probs.tolist(), out.tolist()):
                    obs.count("draws")
                    want = self.allowed(c, table, procs, src_of[i], tuple(row[:-1]), lim)
                    d = max(abs(a - b) for a, b in zip(pr, want))
                    if not obs.check(d < EPS, "wrong-distribution", lambda: f"prompt {prompts[i]}, prefix {row[:-1]}: {pr} instead of {want}; {c}"):
                        return
                    if c["unk"] is not None and c["unkp"] > 0 and want[c["unk"]] == 0.0:
                        obs.count("unk_clamped")
                    may, _ = self.support(c["sampler"], pr)
                    obs.check(o in may, "not-allowed", lambda: f"{o} drawn from {pr} by {c['sampler']}")
                    if len(row) > lens[i]:
                        obs.check(row[-1] == o, "not-drawn", lambda: f"{row} does not end with the drawn {o}")
            for i, row in zip(idx, rows):
                if len(row) > lens[i] and row[-1] == c["eos"]:
                    seen_rows.append((i, tuple(row)))

        try:
            out = generate(hook)
        except Dead:
            # The processors or sharp penalties left nothing to draw.
            obs.count("dead_ends")
            obs.check(bool(procs.ngram or procs.banned or c["v"] <= 6 or c["unkp"]), "dead-end", lambda: f"no token left to draw; {c}")
            return
        obs.check(not draws, "extra-draw", "a draw without a step")
        hyps = out.hypotheses
        obs.check(len(hyps) == len(prompts), "prompt-count", f"{len(hyps)} results for {len(prompts)} prompts")
        got_rows = []
        for i, (p, hs) in enumerate(zip(prompts, hyps)):
            obs.check(len(hs) == c["gens"], "hypothesis-count", lambda: f"{len(hs)} hypotheses of prompt {p}; {c}")
            last = math.inf
            for h in hs:
                obs.count("hypotheses")
                seq = h.seq.tolist()
                full = tuple(seq) if c["echo"] else tuple(p) + tuple(seq)
                got_rows.append((i, full))
                obs.check(full[: len(p)] == tuple(p), "prompt-lost", lambda: f"{full} does not start with {p}")
                gen = full[len(p) :]
                obs.check(len(gen) > 0 and gen[-1] == c["eos"], "no-eos", lambda: f"{full}")
                obs.check(c["eos"] not in gen[:-1], "eos-inside", lambda: f"{full}")
                obs.check(c["pad"] is None or c["pad"] not in gen, "pad-generated", lambda: f"prompt {p}: {full}; {c}")
                obs.check(lim["min"] <= len(full) <= lim["max"], "length", lambda: f"{full}: length {len(full)} not in {lim}")
                if len(full) == lim["max"]:
                    obs.count("cut_at_limit")
                if not c["compute"]:
                    obs.check(h.score is None and h.step_scores is None, "uncalled-scores", "scores without being asked for")
                    continue
                ps = [self.step_p(c, table, procs, src_of[i], p, full, k, lim) for k in range(1, len(full))]
                if min(ps) > 1e-6:
                    s = sum(math.log(x) for x in ps)
                    if c["norm"]:
                        s /= (len(full) - 1) ** c["lenp"]
                    score = float(h.score)
                    obs.check(abs(s - score) < 1e-3 * (1 + abs(s)), "score", lambda: f"{score} instead of {s}: {full} of prompt {p}; {c}")
                obs.check(float(h.score) <= last, "order", lambda: f"{float(h.score)} after {last}")
                last = float(h.score)
                steps = [0.0] + ps
                if not c["echo"]:
                    steps = steps[len(p) :]
                got = h.step_scores.tolist()
                obs.check(len(got) == len(seq) and all(abs(a - b) < EPS for a, b in zip(got, steps)), "step-scores", lambda: f"{got} instead of {steps}: {full} of prompt {p}; {c}")
        obs.check(sorted(got_rows) == sorted(seen_rows), "not-the-generated", lambda: f"{got_rows} returned, {seen_rows} generated")
        again = generate().hypotheses
        draws.clear()
        obs.count("same_seed")
        same = [[h.seq.tolist() for h in hs] for hs in again] == [[h.seq.tolist() for h in hs] for hs in hyps]
        obs.check(same, "not-deterministic", lambda: f"the same seed gave other sequences; {c}")
        obs.count("top_p" if c["sampler"][0] == "p" else "top_k")
        if len(set(lens)) > 1:
            obs.count("padded_prompts")
        if c["gens"] > 1:
            obs.count("fan_out")
            if min(lens) == 1 and c["s2s"]:
                obs.count("short_prompt_fan_out")
        if c["s2s"]:
            obs.count("seq2seq")
        if procs.ngram or procs.banned:
            obs.count("with_processors")
        obs.state(len(prompts), c["gens"], c["v"], c["s2s"], str(c["sampler"]), c["max"])
        obs.sample = {"prompts": prompts, "hypotheses": [[h.seq.tolist() for h in hs[:2]] for hs in hyps]}

    def step_p(self, c, table, procs, src, p, full, k, lim):
        """The probability that scores element k."""
        if k < len(p) or k == lim["max"] - 1:
            return math.exp(table.lprobs(src, tuple(full[:k]), c["temp"])[full[k]])
        return self.allowed(c, table, procs, src, tuple(full[:k]), lim)[full[k]]


if __name__ == "__main__":
    main(C18())
