"""C40: language model recipes learn from, and answer, exactly their examples."""
import collections
import json
import math
import os
import random
import signal
import sys
from pathlib import Path

from vlib import REPO, Check, main, scratch

WORDS = "abcdefgh"


class C40(Check):
    id = "C40"
    rule = "every example is read once in an epoch, whole, its target tokens alone counted; losses are those of the examples one by one; every prompt is answered once, with what the model says about it alone; a resumed run reads on where it stopped"
    required = ["sft", "train", "generate", "multi", "examples", "losses", "packed", "epochs", "valid_epochs", "answers", "answer_tokens", "kills", "stops", "resumed", "static", "length", "accumulated", "metrics", "greedy", "beam", "sampled", "sources", "filtered"]
    assumptions = ["processes of one machine, CPU, float32", "a character tokenizer and one layer models"]
    native = True
    case_timeout = 240.0

    def gen(self, rng, tier):
        for i in range(40 if tier == "quick" else 600):
            yield dict(seed=rng.randrange(1 << 30), kind=["sft", "sft", "train"][i % 3])

    def setup_worker(self):
        sys.path.insert(0, str(REPO))
        import fairseq2

        fairseq2.init_fairseq2()
        import lmkit

        lmkit.unpinned()
        import recipekit  # noqa: F401
        import recipes.lm.generate.recipe  # noqa: F401
        import recipes.lm.sft.recipe  # noqa: F401
        import recipes.lm.train.recipe  # noqa: F401

    def run(self, c, obs):
        with scratch() as d:
            d = Path(d)
            os.environ["VERIF_RECIPE_STDERR"] = str(d / "stderr")
            getattr(self, c["kind"])(random.Random(c["seed"]), obs, d)

    # -- common --------------------------------------------------------------------
    def text(self, rng, lo, hi):
        return "".join(rng.choice(WORDS + " ") for _ in range(rng.randint(lo, hi)))

    def jsonl(self, rng, d, name, rows, chunks=1, suffix=""):
        """Rows over one or more files, perhaps in a tree; returns the path."""
        if chunks == 1 and rng.random() < 0.5:
            p = d / f"{name}.jsonl"
            p.write_text("".join(json.dumps(r) + "\n" for r in rows))
            return p
        root = d / name
        for i in range(chunks):
            sub = root / f"s{i % 2}"
            sub.mkdir(parents=True, exist_ok=True)
            (sub / f"part{suffix}{i}.jsonl").write_text("".join(json.dumps(r) + "\n" for r in rows[len(rows) * i // chunks: len(rows) * (i + 1) // chunks]))
        return root

    def model(self, rng):
        import lmkit

        tied = rng.random() < 0.5
        return {"model_dim": 16, "max_seq_len": 48, "vocab_size": lmkit.SIZE, "pad_idx": lmkit.PAD, "num_layers": 1, "num_attn_heads": 2, "num_key_value_heads": rng.choice([1, 2]), "ffn_inner_dim": 16, "ffn_inner_dim_multiple_of": 1, "ffn_inner_dim_scale": 1.0, "tied_embeddings": tied, "shard_embed_dim": not tied, "init_std": 0.3}

    def base(self, rng, d):
        import lmkit

        (d / "alphabet").write_text(lmkit.ALPHABET)
        steps = rng.randint(3, 7)
        acc = rng.choice([1, 1, 2, 3])
        return {
            "model": {"name": None, "family": "llama", "arch": None, "config_overrides": self.model(rng), "compile": False},
            "tokenizer": {"name": None, "family": "toytok", "path": str(d / "alphabet")},
            "trainer": {"data_parallelism": "ddp", "mixed_precision": {"mode": "off"}, "grad_accumulation": {"num_batches": acc}},
            "optimizer": {"config": {"lr": 0.05, "impl": "naive"}},
            "lr_scheduler": None,
            "regime": {"num_steps": steps, "validate_every_n_steps": None, "checkpoint_every_n_steps": rng.randint(1, 3), "keep_last_n_checkpoints": 50, "keep_checkpoint_every_n_steps": None, "publish_metrics_every_n_steps": 1, "export_hugging_face": False, "save_model_only": False},
            "common": {"no_sweep_dir": True, "seed": rng.randrange(1000), "torch": {"default_sdpa": "torch_math"}, "metric_recorders": {"tensorboard": {"enabled": False}}},
        }, steps, acc

    def launch(self, obs, d, recipe_of, cfg, out, size, result, *, may_die=False, tag=""):
        import recipekit as K

        file = K.dump_yaml(d / "config.yaml", cfg)

        def go(rank):
            r = recipe_of(rank)
            K.run_cli(r, ["--config-file", file, out])
            return result(rank)

        obs.count("multi", size > 1)
        res = K.launch(size, go)
        if any(r[0] == "hang" for r in res):
            obs.inconclusive("a run hung")
        if may_die and any(r[0] == "died" and os.waitstatus_to_exitcode(r[1]) == 9 for r in res):
            obs.count("kills")
            return None
        bad = [r for r in res if r[0] != "ok"]
        if bad:
            log = d / "stderr"
            obs.violate("failed", f"{tag}: {str(bad)[-1500:]} {log.read_text().strip()[-500:] if log.exists() else ''} {cfg}")
            return None
        return [r[1] for r in res]

    def training(self, obs, d, kls, cfg, out, size, describe, *, stop=None, tag=""):
        """Returns, for each rank, its events: (kind, step, what was read,
        loss and number of targets of its own, those of the recipe)."""
        import lmkit

        events = []

        def recipe_of(rank):
            def wrap(kind, unit, ctx):
                model = ctx.get_model()

                def before(batch):
                    return describe(batch, model)

                def after(seen, got):
                    got = None if got is None else (float(got[0].detach()), got[1])
                    events.append((kind, p.step, seen, got))
                    n = sum(e[0] == "train" and e[1] == p.step for e in events)
                    if kind == "train" and stop is not None and (p.step, n) == stop[1:]:
                        if stop[0] == "kill":
                            os._exit(9)
                        os.kill(os.getpid(), signal.SIGUSR1)

                p = Steps(unit, before, after)
                return p

            class Steps(lmkit.Proxy):
                def __init__(self, *args):
                    super().__init__(*args)
                    self.__dict__["step"] = 0

                def set_step_nr(self, n):
                    self.__dict__["step"] = n
                    self.unit.set_step_nr(n)

                def set_train_step_nr(self, n):
                    self.__dict__["step"] = n
                    self.unit.set_train_step_nr(n)

            return lmkit.observed(kls, wrap)

        return self.launch(obs, d, recipe_of, cfg, out, size, lambda rank: events, may_die=stop is not None, tag=tag)

    def steps_of(self, out):
        return sorted(int(p.name[5:]) for p in (Path(out) / "checkpoints").glob("step_*") if p.name[5:].isdigit())

    def weights(self, out, step):
        import torch

        res = {}
        for p in sorted((Path(out) / "checkpoints" / f"step_{step}" / "model").rglob("*.pt")):
            sd = torch.load(p, weights_only=True)
            res.update({(p.name, k): v for k, v in (sd.get("model", sd)).items()})
        return res

    def interrupted(self, rng, obs, d, kls, cfg, size, describe, events, steps, acc):
        """Stops or kills a second run now and then; it reads the same."""
        import torch

        out, out2 = d / "a", d / "b"
        for _ in range(rng.randint(1, 2)):
            how = rng.choice(["kill", "kill", "stop"])
            if self.training(obs, d, kls, cfg, out2, size, describe, stop=(how, rng.randint(1, steps), rng.randint(1, acc)), tag=how) is None:
                if obs.violations:
                    return
            elif how == "stop":
                obs.count("stops")
        had = max(self.steps_of(out2), default=0)
        res = self.training(obs, d, kls, cfg, out2, size, describe, tag="resumed")
        if res is None:
            return
        obs.count("resumed", had > 0)
        for r, (a, b) in enumerate(zip(events, res)):
            want = [(e[1], e[2]["key"]) for e in a if e[0] == "train" and e[1] > had]
            got = [(e[1], e[2]["key"]) for e in b if e[0] == "train"]
            if not obs.check(got == want, "resumed-data", lambda: f"rank {r} of {size}, resumed after step {had}: {got[:4]}, not {want[:4]}: {cfg}"):
                return
        a, b = self.weights(out, steps), self.weights(out2, steps)
        obs.check(len(a) > 0 and a.keys() == b.keys() and all(torch.allclose(a[k], b[k], rtol=1e-6, atol=1e-6) for k in a), "resumed-model", lambda: f"models after step {steps} differ, resumed after step {had} (size {size}): {cfg}")

    def lines(self, path):
        return {x["Step"]: x for x in map(json.loads, path.read_text().splitlines()) if "Step" in x} if path.exists() else {}

    def number(self, line, key):
        v = line.get(key)
        return v if v is None or isinstance(v, (int, float)) else float(str(v).replace(",", ""))

    # -- instruction finetuning -----------------------------------------------------
    def sft(self, rng, obs, d):
        import lmkit
        from recipes.lm.sft.recipe import LMSFTRecipe

        obs.count("sft")
        size = rng.choice([1, 1, 2])
        cfg, steps, acc = self.base(rng, d)
        obs.count("accumulated", acc > 1)
        lo, hi = rng.choice([1, 4, 7]), rng.choice([14, 18, 40])
        rows, ids = {}, iter(range(10**6))

        def examples(n):
            out = []
            for _ in range(n):
                i = next(ids)
                out.append({"id": i, "src": self.text(rng, 1, 9), "tgt": self.text(rng, 0 if rng.random() < 0.1 else 1, 9)})
                rows[i] = out[-1]
            return out

        def tokens(r):
            a, b = lmkit.encode(r["src"], "prompt"), lmkit.encode(r["tgt"], "prompt_response")
            return a + b, len(a)

        fits = lambda r: lo <= len(tokens(r)[0]) <= hi  # noqa: E731
        sources = []
        for s in range(rng.choice([1, 1, 2])):
            p = self.jsonl(rng, d, f"data{s}", examples(rng.randint(8, 24)), rng.choice([1, 1, 3]))
            src = {"path": str(p), "weight": rng.choice([1.0, 0.5])}
            if rng.random() < 0.4:
                src.update(path=str(p.parent), split=p.name)
            sources.append(src)
        obs.count("sources", len(sources) > 1)
        train = list(rows)
        first = [i for i in train if fits(rows[i])]
        obs.count("filtered", len(first) < len(train))
        conf = {"train": sources}
        window = rng.choice([1, 0, 4])
        ds = {"family": "lm_sft", "config_overrides": {"sources": conf}, "min_seq_len": lo, "max_seq_len": hi, "example_shuffle_window": window, "batch_shuffle_window": rng.choice([1, 0, 2]), "prefetch": rng.choice([0, 1, 4])}
        ds["max_num_tokens"] = hi * rng.randint(1, 4)
        if rng.random() < 0.5:
            ds["batch_size"] = rng.randint(1, 5)
            obs.count("static")
        else:
            obs.count("length")
        valid = []
        if rng.random() < 0.4:
            rs = examples(rng.randint(3, 10))
            conf["valid"] = [{"path": str(self.jsonl(rng, d, "valid", rs))}]
            valid = [r["id"] for r in rs if fits(r)]
            ds["valid_split"] = "valid"
            if rng.random() < 0.5:
                ds["max_num_valid_tokens"] = hi * rng.randint(1, 4)
            cfg["regime"]["validate_every_n_steps"] = cfg["regime"]["checkpoint_every_n_steps"]
        cfg["dataset"] = ds
        if size == 1 and len(sources) == 1 and rng.random() < 0.5:
            cfg["regime"]["num_data_epochs"] = 2
            cfg["regime"]["num_steps"] = 400
            cfg["regime"]["checkpoint_every_n_steps"] = 7
            if valid:
                cfg["regime"]["validate_every_n_steps"] = 7

        def describe(batch, model):
            ids = [int(i) for i in batch.example["id"]]
            seqs, lens = batch.seqs.tolist(), list(batch.seq_lens)
            bad = []
            loss = n = 0
            for i, row, ln, mask in zip(ids, seqs, lens, batch.target_mask.tolist()):
                t, k = tokens(rows[i])
                want = [x >= k for x in range(len(t))] + [False] * (len(row) - ln)
                if row[:ln] != t or any(x != lmkit.PAD for x in row[ln:]) or mask != want:
                    bad.append((i, row, mask))
                loss += sum(lmkit.nll(model, t)[k - 1:])
                n += len(t) - k
            if len(seqs) != len(ids):
                bad.append("size")
            return {"key": ids, "bad": bad, "loss": loss, "n": n, "shape": tuple(batch.seqs.shape)}

        res = self.training(obs, d, LMSFTRecipe, cfg, d / "a", size, describe, tag="sft")
        if res is None:
            return
        last = max(e[1] for e in res[0])
        steps = min(steps, last)
        for events in res:
            self.losses(obs, events, cfg)
            for e in events:
                n, s = e[2]["shape"]
                cap = ds["max_num_tokens"] if e[0] == "train" else ds.get("max_num_valid_tokens") or ds["max_num_tokens"]
                if e[0] == "train" and "batch_size" in ds:
                    obs.check(n <= ds["batch_size"], "batch-size", f"{n} examples in a batch of {ds['batch_size']}")
                else:
                    obs.check(n * s <= cap, "batch-size", f"{n}x{s} tokens, at most {cap} allowed")
        self.metrics(obs, d / "a", res, cfg, "targets")
        # Each example once in an epoch.
        counts = [collections.Counter(i for e in ev if e[0] == "train" for i in e[2]["key"]) for ev in res]
        obs.check(all(set(c) <= set(first) for c in counts), "filter", lambda: f"{[set(c) - set(first) for c in counts]} are too short or too long ({lo}..{hi})")
        if len(sources) == 1 and size == 1:
            flat = [i for e in res[0] if e[0] == "train" for i in e[2]["key"]]
            n = len(first)
            if n:
                for k in range(0, len(flat), n):
                    part = flat[k: k + n]
                    if not obs.check(len(set(part)) == len(part), "epoch", lambda: f"epoch {k // n} repeats an example: {part}, {n} examples {cfg}"):
                        break
                obs.count("epochs", len(flat) // n)
                if "num_data_epochs" in cfg["regime"] and last < 400:
                    obs.check(len(flat) == 2 * n, "epoch", f"{len(flat)} examples read in 2 epochs of {n}: {cfg}")
        elif len(sources) == 1 and window == 1 and "num_data_epochs" not in cfg["regime"]:
            both = set(counts[0]) & set(counts[1])
            obs.check(not both, "shards", f"ranks share the examples {both}")
        # Each validation sees each example once.
        runs = collections.defaultdict(collections.Counter)
        for ev in res:
            for e in ev:
                if e[0] == "valid":
                    runs[e[1]].update(e[2]["key"])
        for s, cnt in runs.items():
            obs.count("valid_epochs")
            ok = cnt == collections.Counter(valid) if size == 1 else all(v == 1 for v in cnt.values()) and set(cnt) <= set(valid)
            obs.check(ok, "validation", lambda: f"validation at step {s} read {cnt}, not {valid} once: {cfg}")
        obs.state("sft", size, len(sources), window, "batch_size" in ds, acc, bool(valid))
        if "num_data_epochs" not in cfg["regime"]:
            self.interrupted(rng, obs, d, LMSFTRecipe, cfg, size, describe, res, steps, acc)
        if obs.violations:
            return
        self.generate(rng, obs, d, self.steps_of(d / "a")[-1])

    def losses(self, obs, events, cfg):
        for kind, step, seen, got in events:
            obs.count("examples", len(seen["key"]))
            if not obs.check(not seen["bad"], "batch", lambda: f"{kind} batch of step {step}: {seen['bad'][:2]}"):
                return
            if got is not None:
                obs.count("losses")
                loss, n = got
                if not obs.check(math.isclose(loss, seen["loss"], rel_tol=1e-3, abs_tol=1e-3) and n == seen["n"], "loss", lambda: f"loss {loss} of {n} targets at step {step}, not {seen['loss']} of {seen['n']}: {seen['key']}"):
                    return

    def metrics(self, obs, out, res, cfg, what):
        for kind in ("train", "valid"):
            lines = self.lines(out / "metrics" / f"{kind}.jsonl")
            per = collections.defaultdict(lambda: [0.0, 0, 0])
            for ev in res:
                for e in ev:
                    if e[0] == kind:
                        p = per[e[1]]
                        p[0] += e[2]["loss"]
                        p[1] += e[2]["n"] if what == "targets" else 1
                        p[2] += e[2].get("examples", len(e[2]["key"]))
            for s, (loss, n, ex) in per.items():
                line = lines.get(s)
                if n == 0 or not obs.check(line is not None, "metrics", f"no {kind} metrics of step {s}: {list(lines)}"):
                    continue
                obs.count("metrics")
                got = self.number(line, "NLL Loss")
                obs.check(got is not None and math.isclose(got, loss / n, rel_tol=2e-3, abs_tol=2e-3), "metrics", lambda: f"{kind} loss of step {s} is {got}, not {loss / n}: {line}")
                got = self.number(line, "Number of Examples")
                obs.check(got == ex, "metrics", lambda: f"{got} {kind} examples at step {s}, not {ex}: {line}")

    # -- pretraining ------------------------------------------------------------------
    def train(self, rng, obs, d):
        import lmkit
        from recipes.lm.train.recipe import LMTrainRecipe

        obs.count("train")
        size = rng.choice([1, 1, 2])
        cfg, steps, acc = self.base(rng, d)
        obs.count("accumulated", acc > 1)
        longest, width = rng.choice([8, 20]), rng.choice([16, 24])
        texts = [self.text(rng, 1, 14) for _ in range(rng.randint(30, 60))]
        n = rng.randint(size, 4) if size > 1 else rng.choice([1, 3])
        p = self.jsonl(rng, d, "data", [{"text": t} for t in texts], n, ".chunk.")
        files = sorted(p.glob("**/*.jsonl")) if p.is_dir() else [p]
        cfg["dataset"] = {"family": "lm_train", "config_overrides": {"sources": [{"path": str(p), "weight": 1.0}]}, "max_seq_len": longest, "max_num_tokens": width, "prefetch": rng.choice([0, 1, 4]), "sync_ranks": rng.random() < 0.5 or size > 1}

        def describe(batch, model):
            seqs, lens = batch.seqs.tolist(), list(batch.seq_lens)
            bad = []
            if not batch.packed or sum(lens) > len(seqs):
                bad.append((seqs, lens))
            # A document sees itself alone; the last token is only predicted.
            losses, at = [], 0
            import torch

            for i, ln in enumerate(lens):
                doc = seqs[at: at + ln]
                nxt = seqs[at + 1: at + ln + 1]
                if len(nxt) < len(doc):
                    doc = doc[:-1]
                if doc:
                    lp = torch.log_softmax(lmkit.logits(model, doc), -1)
                    losses += [-lp[j, t].item() for j, t in enumerate(nxt)]
                at += ln
            return {"key": seqs, "lens": lens, "bad": bad, "loss": sum(losses) / max(1, len(losses)), "n": None, "examples": len(lens)}

        res = self.training(obs, d, LMTrainRecipe, cfg, d / "a", size, describe, tag="train")
        if res is None:
            return
        for rank, events in enumerate(res):
            self.losses(obs, events, cfg)
            # The documents of the rank, in order, whole unless they are too long or on an edge.
            docs = [lmkit.encode(json.loads(ln)["text"], "default") for f in files[rank::size] for ln in f.read_text().splitlines()]
            self.packing(obs, [(e[2]["key"], e[2]["lens"]) for e in events], docs, longest, width + 1, size == 1)
        self.metrics(obs, d / "a", res, cfg, "batches")
        obs.state("train", size, longest, width, acc)
        self.interrupted(rng, obs, d, LMTrainRecipe, cfg, size, describe, res, steps, acc)

    def packing(self, obs, batches, docs, longest, width, alone):
        """The documents in order, cut where a batch or the longest sequence
        ends; a cut by a batch repeats the token, which is only predicted in
        the first."""
        obs.count("packed", len(batches))
        want, cur, room = [], [], width
        for doc in docs:
            while doc:
                n = min(room, longest, len(doc))
                cur.append(doc[:n])
                room -= n
                doc = doc[n - 1 if n < len(doc) and room == 0 else n:]
                if room == 0:
                    want.append(cur)
                    cur, room = [], width
        pos = 0
        for seqs, lens in batches:
            at, got = 0, []
            for ln in lens:
                got.append(seqs[at: at + ln])
                at += ln
            if pos == len(want) or not alone and pos > 0 and got != want[pos]:
                pos = 0
                obs.count("epochs")
            if not obs.check(got == want[pos] and at == len(seqs), "packing", lambda: f"batch {pos} of an epoch is {got}, not {want[pos]}: at most {longest} of {width}"):
                return
            pos += 1

    # -- generation -------------------------------------------------------------------
    def generate(self, rng, obs, d, step):
        import lmkit
        import torch
        from recipes.lm.generate.recipe import LMGenerateRecipe

        obs.count("generate")
        size = rng.choice([1, 2])
        name = rng.choice([lambda i: f"p{i}", lambda i: i, lambda i: f"p{i // 2}", lambda i: None])
        rows = [{"id": name(i), "src": self.text(rng, 1, 10)} for i in range(rng.randint(2, 9))]
        if rng.random() < 0.3:
            rows.append(dict(rows[0], id=name(len(rows))))
        cut = rng.randint(0, len(rows))
        parts = [rows] if rng.random() < 0.5 or cut in (0, len(rows)) else [rows[:cut], rows[cut:]]
        paths = []
        for i, part in enumerate(parts):
            paths.append(d / f"prompts{i}.jsonl")
            paths[-1].write_text("".join(json.dumps(r) + "\n" for r in part))
        how = rng.choice(["greedy", "sampled", "beam"])
        obs.count(how)
        g = {"max_gen_len": rng.randint(1, 8), "min_gen_len": 1, "echo_prompt": rng.random() < 0.3, "temperature": rng.choice([1.0, 0.7])}
        if how != "beam":
            g.update(compute_scores=True, sampler={"name": "top_k", "config": {"k": 1 if how == "greedy" else 3}})
        else:
            g["beam_size"] = rng.randint(1, 3)
        bs = rng.randint(1, 4)
        cfg = {
            "model": {"name": f"checkpoint_step_{step}", "dtype": "float32"},
            "tokenizer": {"name": None, "family": "toytok", "path": str(d / "alphabet")},
            "dataset": {"family": "lm_generate", "config_overrides": {"paths": [str(p) for p in paths]}, "batch_size": bs, "prefetch": rng.choice([0, 1, 4])},
            "seq_generator": {"_set_": {"name": "beam_search" if how == "beam" else "sampling", "config": g}},
            "common": {"no_sweep_dir": True, "seed": 3, "torch": {"default_sdpa": "torch_math"}, "assets": {"prev_checkpoint_dir": str(d / "a" / "checkpoints")}, "metric_recorders": {"tensorboard": {"enabled": False}}},
        }
        out = d / "gen"
        groups, keep = [], {}

        def recipe_of(rank):
            def wrap(kind, unit, ctx):
                return lmkit.Proxy(unit, lambda batch: groups.append(list(zip(batch.example["id"], batch.example["prompt"]))), lambda a, b: None)

            return lmkit.observed(LMGenerateRecipe, wrap, lambda ctx: keep.update(model=ctx.get_model()))

        def result(rank):
            """Probabilities of what was generated, token by token."""
            answers = [json.loads(ln) for ln in (out / "output" / f"rank_{rank}.jsonl").read_text().splitlines()]
            res = []
            for a in answers:
                pre = lmkit.encode(a["prompt"], "prompt")
                seq = a["token_indices"] if g["echo_prompt"] else pre + a["token_indices"]
                with torch.inference_mode():
                    p = torch.softmax(lmkit.logits(keep["model"], seq) / g["temperature"], -1)
                res.append((a, p.tolist()))
            return groups, res, (out / "output" / f"rank_{rank}.txt").read_text()

        got = self.launch(obs, d, recipe_of, cfg, out, size, result, tag="generate")
        if got is None:
            return
        want = [(r["id"], r["src"]) for r in rows]
        for rank, (groups_, answers, text) in enumerate(got):
            ids = [(a["id"], a["prompt"]) for a, _ in answers]
            obs.check(ids == want[rank::size] and [i for x in groups_ for i in x] == ids, "answers", f"rank {rank} of {size} answered {ids} of {want}")
            obs.check(all(len(x) == bs for x in groups_[:-1]) and all(len(x) <= bs for x in groups_), "batch-size", f"{groups_}, {bs} expected")
            if obs.violations:
                return
            at = 0
            for (a, p), group in zip(answers, [x for x in groups_ for _ in x]):
                obs.count("answers")
                head = f"<<<<< ID >>>>>\n{a['id']}\n\n" if a["id"] is not None else ""
                at = text.find(head + f"<<<<< PROMPT >>>>>\n{a['prompt']}\n\n", at)
                if not obs.check(at >= 0, "text-output", f"no {a} in this order: {text}"):
                    return
                obs.check(a["response"] == lmkit.decode(a["token_indices"]), "response", f"{a}")
                part = text[at:].split("============================")[0]
                obs.check(f"<<<<< PROMPT >>>>>\n{a['prompt']}\n\n<<<<< RESPONSE >>>>>\n{a['response']}\n" in part and "\n" + ", ".join(map(str, a["token_indices"])) + "\n" in part, "text-output", f"{a}: {part}")
                at += len(head) + 1
                pre = lmkit.encode(a["prompt"], "prompt")
                if g["echo_prompt"] and not obs.check(a["token_indices"][: len(pre)] == pre, "echo", f"{a}"):
                    continue
                gen = a["token_indices"][len(pre):] if g["echo_prompt"] else a["token_indices"]
                longest = max(len(lmkit.encode(s, "prompt")) for _, s in group)
                end = min(48, longest + g["max_gen_len"])
                ok = gen and gen[-1] == lmkit.EOS and lmkit.EOS not in gen[:-1] and lmkit.PAD not in gen and len(pre) + len(gen) <= end
                if not obs.check(ok, "answer", f"{a}, at most {end} tokens"):
                    continue
                scores = a["step_scores"]
                scores = scores[len(pre):] if scores is not None and g["echo_prompt"] else scores
                for j, t in enumerate(gen):
                    pos = len(pre) + j
                    q = list(p[pos - 1])
                    full = q[t]
                    q[lmkit.PAD] = 0.0
                    if pos < longest:
                        q[lmkit.EOS] = 0.0
                    forced = pos == end - 1
                    obs.count("answer_tokens")
                    if how != "beam":
                        obs.check(math.isclose(scores[j], full, rel_tol=1e-3, abs_tol=1e-4), "score", lambda: f"token {j} of {a} has the probability {full}")
                        if not forced:
                            k = 1 if how == "greedy" else 3
                            bound = sorted(q)[-k]
                            if not obs.check(q[t] >= bound - 1e-4, "token", lambda: f"token {j} of {a} has the probability {q[t]}, the {k} most likely at least {bound}"):
                                break
                    else:
                        obs.check(math.isclose(math.exp(scores[j]) if min(scores) < 0 else scores[j], full, rel_tol=1e-3, abs_tol=1e-4), "score", lambda: f"token {j} of {a} has the probability {full}")
        lines = [json.loads(x) for x in (out / "metrics" / "generation.jsonl").read_text().splitlines()]
        got = self.number(lines[-1], "Number of Examples")
        obs.check(got == len(rows), "generation-metrics", f"{got} examples, not {len(rows)}: {lines[-1]}")


if __name__ == "__main__":
    main(C40())
