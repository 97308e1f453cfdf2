"""C17: beam search against models whose every probability is known."""
import math
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main

EPS = 2e-4
INF = float("inf")


class Ambiguous(Exception):
    """Two candidates are too close to call in float32."""


class C17(Check):
    id = "C17"
    rule = (
        "random models whose next-token probabilities are a pure function of the source and of the whole prefix, run "
        "through the real beam search generators (causal and sequence-to-sequence, padded prompts, prefill in chunks, "
        "step processors, penalties, limits); every hypothesis is scored again from the model's table, the hypotheses "
        "of every prompt are compared with an independent beam search of that prompt alone, and with the best of all "
        "sequences where the beam is wide enough; step hooks are checked at every step"
    )
    required = ["hypotheses", "prompts_compared", "exhaustive", "padded_prompts", "prefill_chunks", "seq2seq", "with_processors", "cut_at_limit", "hook_calls", "batch_vs_alone", "rejected_prompts", "prompts_with_eos", "narrow_vocab"]

    def setup(self, tier):
        import genkit  # noqa: F401

    def gen(self, rng, tier):
        n = 1500 if tier == "quick" else 15000
        for i in range(n):
            kind = rng.choices(["random", "wide"], [6, 1])[0]
            v = rng.choice([5, 6, 8, 12, 20]) if kind == "random" else rng.choice([4, 5])
            num = rng.choice([1, 1, 2, 3, 5]) if kind == "random" else rng.choice([1, 2])
            same = rng.random() < 0.4
            ln = rng.choice([1, 2, 3, 6])
            special = rng.choice(["eos1", "eosmid", "nopad", "nounk"])
            eos = 1 if special != "eosmid" else v // 2
            pad = 0 if special != "nopad" else None
            unk = 2 if special != "nounk" and eos != 2 else None
            toks = [t for t in range(v) if t not in (pad, eos)]
            prompts = []
            for _ in range(num):
                m = ln if same else rng.randrange(1, 7)
                if kind == "wide":
                    m = rng.choice([1, 2])
                p = [rng.choice(toks) for _ in range(m)]
                if rng.random() < 0.15:
                    p[rng.randrange(m)] = eos
                prompts.append(p)
            gen = rng.choice([1, 2, 4, 7]) if kind == "random" else rng.choice([1, 2, 3])
            yield {
                "s": rng.randrange(1 << 30), "kind": kind, "v": v, "eos": eos, "pad": pad, "unk": unk, "prompts": prompts,
                "beam": rng.choice([1, 1, 2, 3, 5, 8]) if kind == "random" else v**3 + 5, "max": gen, "min": rng.randrange(1, gen + 1),
                "max_seq": rng.choice([None, None, 6, 9]) if kind == "random" else None, "echo": rng.random() < 0.5, "norm": rng.random() < 0.6,
                "temp": rng.choice([1.0, 1.0, 0.5, 2.0]), "unkp": rng.choice([0.0, 0.0, 1.5, -1.0]), "lenp": rng.choice([1.0, 1.0, 0.5, 2.0, 0.0]),
                "chunk": rng.choice([None, 1, 2, 512]), "cap": rng.choice([None, 1, 3, 16]), "sharp": rng.choice([0.5, 1.5, 3.0]),
                "ngram": rng.choice([0, 0, 0, 1, 2, 3]), "banned": [[rng.choice(toks) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([0, 0, 0, 1, 3]))],
                "s2s": rng.random() < 0.4, "src": [[rng.randrange(3, 9) for _ in range(rng.randrange(1, 4))] for _ in range(num)],
            }

    # What one step may emit: {token: log-probability}.
    def allowed(self, c, table, procs, src, prefix, lim):
        lp = table.lprobs(src, prefix, c["temp"])
        n = len(prefix)
        if n == lim["max"] - 1:
            return {c["eos"]: lp[c["eos"]]}
        bans = procs.bans(prefix, c["v"])
        out = {}
        for t in range(c["v"]):
            if t in bans or t == c["pad"] or t == c["eos"] and n < lim["min"] - 1:
                continue
            out[t] = lp[t] - (c["unkp"] if t == c["unk"] else 0)
        return out

    def prompt_score(self, c, table, src, p):
        s = 0.0
        for i in range(1, len(p)):
            s += table.lprobs(src, tuple(p[:i]), c["temp"])[p[i]]
        return s

    def final(self, c, score, n):
        return score / (n - 1) ** c["lenp"] if c["norm"] else score

    def beam_search(self, c, table, procs, src, prompt, lim):
        """Independent beam search of one prompt: [(sequence, score)]."""
        B = c["beam"]
        beams = [(tuple(prompt), self.prompt_score(c, table, src, prompt))]
        done = []
        while len(beams[0][0]) < lim["max"]:
            cand = []
            for seq, sc in beams:
                for t, lp in self.allowed(c, table, procs, src, seq, lim).items():
                    cand.append((sc + lp, seq + (t,)))
            if not cand:
                raise Ambiguous("dead end")
            cand.sort(key=lambda x: -x[0])
            nxt = []
            for i, (sc, seq) in enumerate(cand):
                # Where ranks decide, they must be clear.
                if i + 1 < len(cand) and i + 1 <= 2 * B and sc - cand[i + 1][0] < EPS:
                    raise Ambiguous()
                if i >= 2 * B:
                    break
                if seq[-1] == c["eos"]:
                    if i < B:
                        done.append((seq, sc))
                        if len(done) == B:
                            return done
                elif len(nxt) < B:
                    nxt.append((seq, sc))
            if not nxt:
                return done
            beams = nxt
        return done

    def run(self, case, obs):
        import genkit
        import torch
        from fairseq2.data.tokenizers import VocabularyInfo
        from fairseq2.generation.beam_search import BeamSearchSeq2SeqGenerator, BeamSearchSequenceGenerator

        c = case
        table = genkit.Table(c["s"], c["v"], c["sharp"])
        procs = genkit.Procs(c["ngram"], c["banned"])
        vi = VocabularyInfo(c["v"], c["unk"], None, c["eos"], c["pad"])
        mx_model = 40

        def generate(prompts, srcs, mn, mx, mseq, hook=None):
            model = (genkit.S2S if c["s2s"] else genkit.LM)(table, mx_model)
            model.train()
            kw = dict(
                beam_size=c["beam"], min_gen_len=mn, max_seq_len=mseq, echo_prompt=c["echo"], normalize_scores=c["norm"], temperature=c["temp"], unk_penalty=c["unkp"],
                len_penalty=c["lenp"], prefill_chunk_size=c["chunk"], decode_capacity_increment=c["cap"], step_processors=procs.real(),
            )
            if c["s2s"]:
                g = BeamSearchSeq2SeqGenerator(model, vi, max_gen_len=(0.0, mx), **kw)
            else:
                g = BeamSearchSequenceGenerator(model, vi, max_gen_len=mx, **kw)
            handle = g.register_step_hook(hook) if hook else None
            fill = c["pad"] if c["pad"] is not None else 0
            p, pl = genkit.pad(prompts, fill)
            keep = p.clone()
            if c["s2s"]:
                s, sl = genkit.pad(srcs, 0)
                out = g(s, sl, p, pl)
            else:
                out = g(p, pl)
            obs.check(torch.equal(p, keep), "prompt-modified", "the caller's prompts were changed")
            obs.check(model.mode is False, "mode", "the model is run in training mode")
            if handle is not None:
                handle.remove()
            return out

        prompts, srcs = c["prompts"], c["src"]
        lens = [len(p) for p in prompts]
        lim_seq = mx_model if c["max_seq"] is None else min(mx_model, c["max_seq"])
        if max(lens) >= lim_seq:
            try:
                generate(prompts, srcs, c["min"], c["max"], c["max_seq"])
                obs.violate("long-prompt", "a prompt without room for generation was accepted")
            except ValueError:
                obs.count("rejected_prompts")
            return
        lim = {"min": min(lim_seq, max(lens) + c["min"]), "max": min(lim_seq, max(lens) + c["max"])}
        src_of = [tuple(s) if c["s2s"] else None for s in srcs]
        hooked = []

        def hook(prompt_indices, seqs, step_scores, prefill):
            hooked.append((prompt_indices.tolist(), seqs.tolist(), step_scores.tolist(), prefill))

        out = generate(prompts, srcs, c["min"], c["max"], c["max_seq"], hook)
        hyps = out.hypotheses
        obs.check(len(hyps) == len(prompts), "prompt-count", f"{len(hyps)} results for {len(prompts)} prompts")

        # Step hooks see sequences that continue their prompts, with their scores.
        for idx, seqs, scores, prefill in hooked:
            obs.count("hook_calls")
            for i, seq, sc in zip(idx, seqs, scores):
                p = tuple(prompts[i])
                m = min(len(p), len(seq))
                if not obs.check(tuple(seq[:m]) == p[:m], "hook-sequence", lambda: f"prompt {p}, sequence {seq}"):
                    return
                want = self.score(c, table, procs, src_of[i], p, seq, lim)
                if want is not None:
                    obs.check(abs(want - sc[-1]) < EPS * (1 + abs(want)), "hook-score", lambda: f"{sc[-1]} instead of {want}: {seq}, {c}")

        for i, (p, hs) in enumerate(zip(prompts, hyps)):
            obs.check(len(hs) <= c["beam"], "hypothesis-count", lambda: f"{len(hs)} hypotheses of prompt {p}; {c}")
            if not (procs.ngram or procs.banned):
                obs.check(len(hs) > 0, "no-hypothesis", lambda: f"prompt {p}; {c}")
            seen = set()
            last = INF
            for h in hs:
                obs.count("hypotheses")
                seq = h.seq.tolist()
                full = tuple(seq) if c["echo"] else tuple(p) + tuple(seq)
                score = float(h.score)
                obs.check(full[: len(p)] == tuple(p), "prompt-lost", lambda: f"{full} does not start with {p}")
                want = self.score(c, table, procs, src_of[i], tuple(p), list(full), lim)
                if want is None and (procs.ngram or procs.banned):
                    # The processors left no continuation; nothing is promised.
                    obs.check(score == -INF, "impossible-hypothesis", lambda: f"prompt {p}: {full} has no probability, but score {score}; {c}")
                    obs.count("dead_ends")
                    continue
                gen = full[len(p) :]
                obs.check(len(gen) > 0 and gen[-1] == c["eos"], "no-eos", lambda: f"{full}")
                obs.check(c["eos"] not in gen[:-1], "eos-inside", lambda: f"{full}")
                obs.check(c["pad"] is None or c["pad"] not in gen, "pad-generated", lambda: f"prompt {p}: {full}, score {score}; {c}")
                obs.check(lim["min"] <= len(full) <= lim["max"], "length", lambda: f"{full}: length {len(full)} not in {lim}")
                obs.check(full not in seen, "duplicate", lambda: f"{full}")
                seen.add(full)
                obs.check(score <= last, "order", lambda: f"{score} after {last}")
                last = score
                if len(full) == lim["max"]:
                    obs.count("cut_at_limit")
                if want is None:
                    obs.violate("impossible-hypothesis", f"prompt {p}: {full} has no probability, score {score}; {c}")
                    continue
                fw = self.final(c, want, len(full))
                obs.check(abs(fw - score) < EPS * (1 + abs(fw)), "score", lambda: f"{score} instead of {fw}: {full} of prompt {p}; {c}")
                steps = [0.0] + [self.step_lp(c, table, procs, src_of[i], tuple(p), full, k, lim) for k in range(1, len(full))]
                if not c["echo"]:
                    steps = steps[len(p) :]
                got = h.step_scores.tolist()
                obs.check(len(got) == len(seq) and all(abs(a - b) < EPS * (1 + abs(b)) for a, b in zip(got, steps)), "step-scores", lambda: f"{got} instead of {steps}: {full} of prompt {p}; {c}")
            # The same prompt alone, by the definition of the search.
            try:
                ref = self.beam_search(c, table, procs, src_of[i], p, lim)
                exp = sorted(((self.final(c, s, len(q)), q) for q, s in ref), reverse=True)
                got = [(float(h.score), tuple(h.seq.tolist()) if c["echo"] else tuple(p) + tuple(h.seq.tolist())) for h in hs if float(h.score) > -INF]
                obs.check(sorted(q for _, q in got) == sorted(q for _, q in exp), "not-the-beam", lambda: f"prompt {p}: {got} instead of {exp}; {c}")
                obs.count("prompts_compared")
                if 2 * c["beam"] >= c["v"]:
                    obs.count("narrow_vocab")
            except Ambiguous:
                obs.count("ambiguous")
            if c["kind"] == "wide" and not (procs.ngram or procs.banned):
                best = self.exhaust(c, table, procs, src_of[i], tuple(p), lim)
                obs.count("exhaustive")
                obs.check(abs(float(hs[0].score) - best) < EPS * (1 + abs(best)), "not-the-best", lambda: f"prompt {p}: {float(hs[0].score)} instead of {best}; {c}")
            if c["eos"] in p:
                obs.count("prompts_with_eos")
        # Alone, with the limits that the batch implies.
        if len(prompts) > 1:
            k = random.Random(c["s"]).randrange(len(prompts))
            d = max(lens) - lens[k]
            alone = generate([prompts[k]], [srcs[k]], min(c["min"], lim_seq - max(lens)) + d, max(lim["max"] - lens[k], 1), c["max_seq"]).hypotheses[0] if lim["max"] - lens[k] >= min(c["min"], lim_seq - max(lens)) + d else None
            if alone is not None:
                obs.count("batch_vs_alone")
                a = [(h.seq.tolist(), float(h.score)) for h in alone]
                b = [(h.seq.tolist(), float(h.score)) for h in hyps[k]]
                if all(x[1] > -INF for x in a + b):
                    close = len(a) == len(b) and all(abs(x[1] - y[1]) < EPS * (1 + abs(y[1])) for x, y in zip(a, b))
                    obs.check(close, "depends-on-batch", lambda: f"prompt {prompts[k]}: {b} in a batch, {a} alone; {c}")
        if len(set(lens)) > 1:
            obs.count("padded_prompts")
        if c["chunk"] and min(lens) - 1 > c["chunk"]:
            obs.count("prefill_chunks")
        if c["s2s"]:
            obs.count("seq2seq")
        if procs.ngram or procs.banned:
            obs.count("with_processors")
        obs.state(len(prompts), c["beam"], c["v"], c["kind"], c["s2s"], sum(len(h) for h in hyps))
        obs.sample = {"prompts": prompts, "hypotheses": [[h.seq.tolist() for h in hs[:2]] for hs in hyps]}

    def step_lp(self, c, table, procs, src, p, full, k, lim):
        """Log-probability of element k, or None if it is not allowed."""
        if k < len(p):
            return table.lprobs(src, tuple(full[:k]), c["temp"])[full[k]]
        return self.allowed(c, table, procs, src, tuple(full[:k]), lim).get(full[k])

    def score(self, c, table, procs, src, p, full, lim):
        s = 0.0
        for k in range(1, len(full)):
            x = self.step_lp(c, table, procs, src, p, full, k, lim)
            if x is None:
                return None
            s += x
        return s

    def exhaust(self, c, table, procs, src, p, lim):
        best = -INF
        stack = [(p, self.prompt_score(c, table, src, p))]
        while stack:
            seq, sc = stack.pop()
            for t, lp in self.allowed(c, table, procs, src, seq, lim).items():
                if t == c["eos"]:
                    best = max(best, self.final(c, sc + lp, len(seq) + 1))
                else:
                    stack.append((seq + (t,), sc + lp))
        return best


if __name__ == "__main__":
    main(C17())
