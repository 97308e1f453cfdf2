"""C39: recipes train the same model however they are run, stopped and resumed."""
import json
import math
import os
import random
import shutil
import signal
import sys
from pathlib import Path

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main, scratch

METRICS = ("nll_loss", "grad_norm", "num_examples", "total_num_examples", "data_epoch", "lr", "loss_scale")


def last_lines(path):
    """The last record of each step."""
    out = {}
    if path.exists():
        for line in path.read_text().splitlines():
            d = json.loads(line)
            out[d.get("Step")] = d
    return out


class C39(Check):
    id = "C39"
    rule = (
        "complete recipes run from their command line on one to four processes with random models, layouts and settings, get killed, stopped and restarted; "
        "the models of all checkpoints and the published metrics are compared with an uninterrupted run and with a plain PyTorch training loop"
    )
    required = ["runs", "multi", "ddp", "fsdp1", "fsdp2", "hybrid", "tp", "kills", "stops", "extended", "resumed", "loops", "compared", "loaded_name", "loaded_path", "overridden", "teachers", "model_only", "groups", "evals", "metrics", "validated", "ac", "adafactor", "sweeps", "separate"]
    assumptions = ["models are compared with a plain training loop up to float rounding"]
    workers = 6
    case_timeout = 200

    def setup_worker(self):
        import recipekit  # noqa: F401

    def gen(self, rng, tier):
        n = 48 if tier == "quick" else 700
        for _ in range(n):
            yield {"s": rng.randrange(1 << 40)}

    def run(self, case, obs):
        rng = random.Random(case["s"])
        d = scratch()
        os.environ["VERIF_RECIPE_STDERR"] = str(d / "stderr")
        try:
            self.chain(rng, obs, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # -- configurations -------------------------------------------------------
    def layout(self, rng, kind):
        r = rng.random()
        if kind == "llama" and r < 0.5:
            return {"size": 2, "tp": 2, "dp": "ddp"}
        if r < 0.3:
            return {"size": 1, "dp": rng.choice(["ddp", "fsdp"])}
        if r < 0.5:
            return {"size": rng.choice([2, 2, 4]), "dp": "ddp"}
        lay = {"size": 2, "dp": "fsdp", "version": rng.choice(["v1", "v2"]), "granularity": rng.choice(["model", "stack", "layer"]), "reshard": rng.random() < 0.5}
        if r < 0.65:
            lay.update(size=4, hybrid=True, local=2)
        return lay

    def config(self, rng, obs, kind, lay):
        self.hidden = 64
        cfg = {
            "model": {},
            "gang": {"tensor_parallel_size": lay.get("tp", 1)},
            "trainer": {
                "data_parallelism": lay["dp"],
                "mixed_precision": {"mode": "off"},
                "grad_accumulation": {"no_sync": rng.random() < 0.5},
                "max_grad_norm": rng.choice([None, 0.3, 1.0]),
                "grad_check": rng.random() < 0.3,
                "anomaly_detection": rng.random() < 0.2,
            },
            "optimizer": {"config": {"lr": 0.02, "eps": 1e-3, "weight_decay": rng.choice([0.0, 0.1]), "betas": [0.8, 0.9]}},
            "lr_scheduler": None,
            "regime": {"num_steps": rng.randint(3, 8), "publish_metrics_every_n_steps": 1},
            "common": {"no_sweep_dir": True, "cluster": "none", "seed": rng.randint(1, 1000)},
            "kind": "toy" if kind != "llama" else "llama",
            "per_step": 4,
            "size": rng.randint(1, 3),
            "epoch_steps": rng.randint(2, 5),
        }
        if "version" in lay:
            cfg["trainer"]["fsdp"] = {"version": lay["version"], "granularity": lay["granularity"], "reshard_after_forward": lay["reshard"], "hybrid": lay.get("hybrid", False)}
        if rng.random() < 0.3:
            cfg["trainer"]["activation_checkpointing"] = {"mode": "layerwise", "every_nth_layer": rng.randint(1, 2)}
        if kind != "llama" and rng.random() < 0.4:
            cfg["optimizer"]["config"]["groups"] = [
                {"params": rng.choice([r"layers\.0\..*", [r"inp\..*", r"out\.bias"]]), "lr": 0.05},
                {"params": r".*\.bias$", "weight_decay": 0.3},
            ]
        if rng.random() < 0.15 and (lay["size"] == 1 or lay["dp"] == "ddp") and lay.get("tp", 1) == 1:
            cfg["optimizer"] = {"name": "adafactor", "config": {"lr": 0.02, **{k: v for k, v in cfg["optimizer"]["config"].items() if k in ("weight_decay", "groups")}}}
            obs.count("adafactor")
        r = rng.random()
        steps = cfg["regime"]["num_steps"]
        if r < 0.2:
            cfg["lr_scheduler"] = {"name": "cosine_annealing", "config": {"cycle_len": rng.randint(2, steps), "num_warmup_steps": rng.randint(0, 3), "final_lr_scale": 0.5, "start_lr": 0.001}}
        elif r < 0.35:
            cfg["lr_scheduler"] = {"name": "myle", "config": {"num_warmup_steps": rng.randint(1, 3), "start_lr": 0.001}}
        elif r < 0.45:
            cfg["lr_scheduler"] = {"name": "polynomial_decay", "config": {"num_warmup_steps": rng.randint(0, 2), "power": 1.5, "start_lr": 0.001, "final_lr": 0.002}}
        elif r < 0.55:
            cfg["lr_scheduler"] = {"name": "tri_stage", "config": {"stage_ratio": [0.25, 0.25, 0.5], "start_lr_scale": 0.1, "final_lr_scale": 0.2}}
        if rng.random() < 0.2:
            cfg["trainer"]["mixed_precision"] = {"mode": rng.choice(["static", "auto"]), "dtype": "bfloat16"}
        cfg["trainer"]["gc_every_n_steps"] = rng.choice([None, 1, 2, 1000])
        cfg["common"]["metric_recorders"] = {"tensorboard": {"enabled": rng.random() < 0.2}}
        cfg["common"]["no_sweep_dir"] = rng.random() < 0.5
        k = rng.choice([1, 1, 2, 3])
        cfg["regime"]["checkpoint_every_n_steps"] = k
        if rng.random() < 0.3:
            cfg["do_validate"] = True
            cfg["regime"]["validate_every_n_steps"] = rng.choice([j for j in (1, 2, 3) if k % j == 0])
            cfg["regime"]["validate_at_start"] = rng.random() < 0.3
        return cfg

    def overrides(self, rng, kind, dropout):
        if kind == "llama":
            return {"model_dim": 16, "max_seq_len": 8, "vocab_size": 12, "num_layers": 2, "num_attn_heads": 4, "num_key_value_heads": rng.choice([2, 4]), "ffn_inner_dim": 24, "ffn_inner_dim_multiple_of": 1, "dropout_p": dropout, "tied_embeddings": False, "ffn_inner_dim_scale": 1.0}
        return {"dim": rng.choice([2, 4]), "hidden": 64, "layers": rng.randint(1, 3), "dropout": dropout, "scale": rng.choice([0.5, 2.0])}

    # -- running ----------------------------------------------------------------
    def train(self, obs, d, out, cfg, lay, *, stop=None, extra=(), ck=False, tag=""):
        """One invocation; stop = (how, step, call). Returns events of the ranks."""
        import recipekit as K

        written = cfg
        if cfg["optimizer"].get("name") == "adafactor":  # replaces the default, instead of being merged with it
            written = {**cfg, "optimizer": {"_set_": cfg["optimizer"]}}
        file = K.dump_yaml(d / "config.yaml", written)
        obs.count("runs")
        obs.count("multi", lay["size"] > 1)
        teacher_names = cfg.get("use_teacher")

        if ck:
            extra = [*extra, "--checkpoint-dir", f"{out}-ck"]

        def go(rank):
            import torch

            ev = {"first": None, "new": None, "steps": []}

            def hook(kind, **kw):
                if kind == "model":
                    ev["new"] = kw["new"]
                    ev["training"] = kw["model"].training and all(p.requires_grad for p in kw["model"].parameters())
                    if kw["gangs"].dp.rank == 0:
                        ev["initial"] = K.snapshot(kw["model"])
                elif kind == "teacher":
                    m = kw["model"]
                    ev["teacher"] = K.snapshot(m)
                    ev["teacher_flags"] = (m.training, any(p.requires_grad for p in m.parameters()))
                elif kind == "ready":
                    ev["groups"] = None
                elif kind == "batch":
                    ev["steps"].append((kw["step"], kw["call"], tuple(kw["batch"].ids)))
                    if stop is not None and (kw["step"], kw["call"]) == tuple(stop[1:]):
                        if stop[0] == "kill":
                            os._exit(9)
                        os.kill(os.getpid(), signal.SIGUSR1)

            torch.manual_seed(rank * 7 + 1)  # must not matter
            K.run_cli(K.TinyRecipe(hook), ["--config-file", file, *extra, out])
            return ev

        res = K.launch(lay["size"], go, local_size=lay.get("local"))
        if ck:
            for p in [Path(out)] if cfg["common"]["no_sweep_dir"] else [p for p in Path(out).iterdir() if p.is_dir()]:
                c = p / "checkpoints"
                obs.check(c.is_symlink() or not c.exists(), "checkpoint-directory", f"{c} with --checkpoint-dir")
                if p.is_dir() and not c.exists():
                    c.symlink_to(Path(f"{out}-ck") / p.relative_to(out))
        obs.state(lay["dp"], lay.get("version"), lay["size"], lay.get("tp"), stop and stop[0], cfg["model"].get("family"))
        if any(r[0] == "hang" for r in res):
            obs.inconclusive("a run hung")
        if stop is not None and stop[0] == "kill" and any(r[0] == "died" and os.waitstatus_to_exitcode(r[1]) == 9 for r in res):
            obs.count("kills")
            return None
        bad = [r for r in res if r[0] != "ok"]
        if bad:
            obs.violate("failed", f"{tag}: {lay} {bad[0]} {self.errors(d)} {cfg}")
            return None
        if stop is not None and stop[0] == "stop":
            obs.count("stops")
        return [r[1] for r in res]

    def load(self, obs, d, out, cfg, lay, names):
        """Models of checkpoints, as an evaluation recipe sees them."""
        import recipekit as K

        ecfg = {
            "model": {"name": names[-1]},
            "gang": {"tensor_parallel_size": lay.get("tp", 1)},
            "common": {**cfg["common"], "no_sweep_dir": True, "assets": {"prev_checkpoint_dir": str(Path(out) / "checkpoints")}},
            "kind": cfg["kind"], "per_step": cfg["per_step"], "size": cfg["size"],
        }
        file = K.dump_yaml(d / "eval.yaml", ecfg)
        eout = d / f"eval{len(list(d.glob('eval*')))}"
        obs.count("evals")

        def go(rank):
            ev = {}

            def hook(kind, **kw):
                c = kw["context"]
                ev["mode"] = (kw["model"].training, any(p.requires_grad for p in kw["model"].parameters()))
                ev["models"] = {names[-1]: K.snapshot(kw["model"])}
                ev["gather"] = {}
                for n in names[:-1]:
                    ev["models"][n] = K.snapshot(K.load_by_card(c, n))

            K.run_cli(K.TinyEvalRecipe(hook), ["--config-file", file, eout])
            return ev

        size = lay.get("tp", 1)
        res = K.launch(size, go)
        if any(r[0] == "hang" for r in res):
            obs.inconclusive("a run hung")
        bad = [r for r in res if r[0] != "ok"]
        if bad:
            obs.violate("evaluation-failed", f"{bad[0]} {self.errors(d)} {ecfg}")
            return None
        for r in res:
            obs.check(r[1]["mode"] == (False, False), "evaluation-mode", f"{r[1]['mode']}")
        recs = last_lines(eout / "metrics" / "eval.jsonl")
        return [r[1]["models"] for r in res], recs

    def real(self, obs, out, cfg):
        """The output directory of a run."""
        if cfg["common"]["no_sweep_dir"]:
            return out
        obs.count("sweeps")
        sub = [p for p in out.iterdir() if p.is_dir()]
        obs.check(len(sub) == 1, "sweep-directory", f"{sub} for one configuration")
        return sub[0]

    def errors(self, d):
        log = d / "stderr"
        text = log.read_text() if log.exists() else ""
        return [ln for ln in text.splitlines() if "rror" in ln][-8:] or text[-1500:]

    def steps_of(self, out):
        return sorted(int(p.name[5:]) for p in (Path(out) / "checkpoints").glob("step_*") if p.name[5:].isdigit())

    # -- comparisons --------------------------------------------------------------
    def same(self, obs, a, b, mech, what, *, tol=None, skip=()):
        import torch

        for k in a:
            if k in skip:
                continue
            x, y = a[k], b.get(k)
            ok = y is not None and (torch.equal(x, y) if tol is None else torch.allclose(x, y, rtol=tol, atol=tol))
            obs.count("compared")
            if not obs.check(ok, mech, lambda: f"{what}: {k} differs by {(x - y).abs().max().item() if y is not None else None}"):
                return False
        return True

    def loop(self, cfg, over, initial, steps):
        """The training as a plain PyTorch program."""
        import re

        import recipekit as K
        import torch

        model = K.ToyModel(K.ToyConfig(**over))
        model.load_state_dict({k: v for k, v in initial.items() if k != "factor"})
        oc = cfg["optimizer"]["config"]
        groups = oc.get("groups", [])
        sets = [{"params": [], **{k: v for k, v in g.items() if k != "params"}} for g in groups] + [{"params": []}]
        for name, p in model.named_parameters():
            for g, s in zip(groups, sets):
                pats = [g["params"]] if isinstance(g["params"], str) else g["params"]
                if any(re.match(x, name) for x in pats):
                    s["params"].append(p)
                    break
            else:
                sets[-1]["params"].append(p)
        sets = [s for s in sets if s["params"]]
        if cfg["optimizer"].get("name") == "adafactor":
            opt = torch.optim.Adafactor(sets, lr=oc["lr"], weight_decay=oc["weight_decay"])
        else:
            opt = torch.optim.AdamW(sets, lr=oc["lr"], eps=oc["eps"], weight_decay=oc["weight_decay"], betas=tuple(oc["betas"]))
        sched = None
        if cfg["lr_scheduler"] is not None:
            from fairseq2.optim.lr_schedulers import CosineAnnealingLR, MyleLR, PolynomialDecayLR, TriStageLR

            sc = cfg["lr_scheduler"]["config"]
            if cfg["lr_scheduler"]["name"] == "myle":
                sched = MyleLR(opt, num_warmup_steps=sc["num_warmup_steps"], start_lr=sc["start_lr"])
            elif cfg["lr_scheduler"]["name"] == "polynomial_decay":
                sched = PolynomialDecayLR(opt, steps, sc["num_warmup_steps"], power=sc["power"], start_lr=sc["start_lr"], final_lr=sc["final_lr"])
            elif cfg["lr_scheduler"]["name"] == "tri_stage":
                sched = TriStageLR(opt, steps, tuple(sc["stage_ratio"]), start_lr_scale=sc["start_lr_scale"], final_lr_scale=sc["final_lr_scale"])
            else:
                sched = CosineAnnealingLR(opt, sc["cycle_len"], sc["num_warmup_steps"], start_lr=sc["start_lr"], final_lr=[0.5 * g["lr"] for g in opt.param_groups])
        models, losses, norms = {0: K.snapshot(model)}, {}, {}
        bs, m = cfg["size"], cfg["per_step"]
        for step in range(1, steps + 1):
            opt.zero_grad()
            ids = range((step - 1) * m * bs, step * m * bs)
            b = K.Batch(list(ids), "toy")
            loss = K.loss_of(model, b) / len(b.y)
            loss.backward()
            mx = cfg["trainer"]["max_grad_norm"]
            n = torch.nn.utils.clip_grad_norm_(model.parameters(), mx if mx is not None else math.inf)
            opt.step()
            if sched is not None:
                sched.step()
            models[step], losses[step], norms[step] = K.snapshot(model), loss.item(), n.item()
        return models, losses, norms

    def metrics(self, obs, a, b, mech, what, *, tol=None):
        for step, ra in a.items():
            rb = b.get(step)
            if not obs.check(rb is not None, mech, f"{what}: no metrics of step {step}"):
                return
            for k in ra:
                if "Time" in k or "time" in k or k == "Wall Time":
                    continue
                obs.count("metrics")
                x, y = ra[k], rb.get(k)
                ok = x == y or (tol is not None and isinstance(x, float) and y is not None and math.isclose(x, y, rel_tol=tol, abs_tol=tol))
                if not obs.check(ok, mech, f"{what}: {k} of step {step} is {y}, not {x}"):
                    return

    # -- one chain of runs ----------------------------------------------------------
    def chain(self, rng, obs, d):
        kind = rng.choices(["toy", "realtoy", "llama"], [5, 3, 3])[0]
        dropout = rng.choice([0.0, 0.0, 0.2])
        over = self.overrides(rng, kind, dropout)
        lay = self.layout(rng, kind)
        lay2 = self.layout(rng, kind) if lay.get("tp", 1) == 1 else lay
        if kind != "llama":  # FSDP checkpoints with persistent buffers: see C25
            over["count"] = all(x["size"] == 1 or x["dp"] == "ddp" for x in (lay, lay2))
        obs.count("tp", lay.get("tp", 1) > 1)
        obs.count("hybrid", bool(lay.get("hybrid")))
        if lay["size"] > 1:
            obs.count("ddp" if lay["dp"] == "ddp" else {"v1": "fsdp1", "v2": "fsdp2"}[lay["version"]])
        cfg = self.config(rng, obs, kind, lay)
        cfg["model"] = {"family": kind, "config_overrides": over}
        obs.count("ac", "activation_checkpointing" in cfg["trainer"])
        obs.count("groups", "groups" in cfg["optimizer"]["config"])
        obs.count("validated", cfg.get("do_validate", False))

        # First stage: a new model.
        out = d / "a"
        got = self.stage(rng, obs, d, out, cfg, lay, over, dropout, kind, None, "first")
        if got is None:
            return
        names, models, out = got
        if rng.random() < 0.5:
            return

        # Second stage: from a checkpoint of the first.
        if lay2.get("tp", 1) > 1 and rng.random() < 0.5:
            lay2 = {"size": 1, "dp": "ddp"}
        cfg2 = self.config(rng, obs, kind, lay2)
        first = over
        name = rng.choice(names)
        step = int(name.rsplit("_", 1)[1])
        if rng.random() < 0.5:
            obs.count("loaded_name")
            changed = {"scale": rng.choice([0.25, 1.5])} if kind != "llama" and rng.random() < 0.6 else {}
            obs.count("overridden", bool(changed))
            over = {**over, **changed}
            cfg2["model"] = {"name": name, "config_overrides": changed}
            cfg2["common"]["assets"] = {"prev_checkpoint_dir": str(out / "checkpoints")}
        else:
            obs.count("loaded_path")
            cfg2["model"] = {"family": kind, "path": str(out / "checkpoints" / f"step_{step}" / "model"), "config_overrides": over}
        cfg2["model"]["mmap"] = rng.random() < 0.3
        if rng.random() < 0.5:
            t = rng.choice(names)
            cfg2["use_teacher"] = True
            cfg2["common"]["assets"] = {"prev_checkpoint_dir": str(out / "checkpoints")}
            if rng.random() < 0.5:
                cfg2["teacher"] = {"name": t}
            else:
                cfg2["teacher"] = {"family": kind, "path": str(out / "checkpoints" / f"step_{t.rsplit('_', 1)[1]}" / "model"), "config_overrides": first}
            self.teacher = (models[t], lay.get("tp", 1) == lay2.get("tp", 1))
            obs.count("teachers")
        else:
            self.teacher = None
        obs.count("tp", lay2.get("tp", 1) > 1)
        base = models[name] if lay.get("tp", 1) == 1 and lay2.get("tp", 1) == 1 else None
        self.stage(rng, obs, d, d / "b", cfg2, lay2, over, dropout, kind, base, "second")

    def stage(self, rng, obs, d, out, cfg, lay, over, dropout, kind, base, tag):
        """Runs a configuration in one go and with interruptions."""
        new = base is None and "name" not in cfg["model"] and "path" not in cfg["model"]
        if rng.random() < 0.2:
            cfg["regime"]["save_model_only"] = True
            obs.count("model_only")
        resumable = not cfg["regime"].get("save_model_only", False)
        total = cfg["regime"]["num_steps"]
        ck = rng.random() < 0.2
        obs.count("separate", ck)
        ev = self.train(obs, d, out, cfg, lay, ck=ck, tag=tag)
        if ev is None:
            return None
        root, out = out, self.real(obs, out, cfg)
        # Every rank does all steps, on its own data.
        calls = cfg["per_step"] // (lay["size"] // lay.get("tp", 1))
        for e in ev:
            obs.check(e["new"] == new, "newly-initialized", f"{e['new']}, expected {new}")
            obs.check(e["training"], "not-trainable", f"{tag} {lay}")
            if not obs.check([x[:2] for x in e["steps"]] == [(s, c) for s in range(1, total + 1) for c in range(calls)], "steps", lambda: f"{e['steps']}"):
                return None
            if cfg.get("use_teacher"):
                tm, exact = self.teacher
                obs.check(e["teacher_flags"] == (False, False), "teacher-mode", f"{e['teacher_flags']}")
                if exact and lay.get("tp", 1) == 1:
                    self.same(obs, tm, e["teacher"], "teacher", f"{tag} {lay}")

        steps = self.steps_of(out)
        k = cfg["regime"]["checkpoint_every_n_steps"]
        want = [s for s in range(1, total + 1) if s % k == 0 or s == total]
        if not obs.check(steps == want, "checkpoints", f"{steps}, expected {want} ({cfg['regime']})"):
            return None
        names = [f"checkpoint_step_{s}" for s in steps]
        alias = "last_checkpoint"
        loaded = self.load(obs, d, out, cfg, lay, names + [alias])
        if loaded is None:
            return None
        models, recs = loaded
        for m in models:
            self.same(obs, m[names[-1]], m[alias], "last-checkpoint", tag)
        train_lines = last_lines(out / "metrics" / "train.jsonl")

        # A plain training loop. Buffers of the ranks differ by design.
        skip = {"seen", "factor"} if lay["size"] > 1 else {"factor"}
        init = ev[0].get("initial")
        if kind != "llama" and dropout == 0.0 and cfg["trainer"]["mixed_precision"]["mode"] == "off":
            obs.count("loops")
            start = base if base is not None else init
            if base is not None:
                self.same(obs, base, init, "loaded-model", f"{tag} {cfg['model']}", skip={"factor"} if cfg["model"]["config_overrides"] and "name" in cfg["model"] else ())
            ref, losses, norms = self.loop(cfg, over, start, total)
            for s, n in zip(steps, names):
                if not self.same(obs, ref[s], models[0][n], "training", f"{tag} step {s} {lay} {cfg}", tol=2e-4, skip={"seen", "factor"}):
                    break
            for s, x in losses.items():
                line = train_lines.get(s, {})
                for key, y in (("NLL Loss", x), ("Gradient Norm", norms[s])):
                    got = self.metric(line, key)
                    if not obs.check(got is not None and math.isclose(got, y, rel_tol=1e-3, abs_tol=1e-4), "loss", f"{tag} {key} of step {s} is {got}, not {y} ({lay} {line})"):
                        break
        self.check_eval(obs, cfg, kind, over, models[0].get(alias), recs, lay)

        # The same, interrupted, and perhaps observed less.
        if cfg.get("do_validate") and root == out and rng.random() < 0.5:
            obs.count("unvalidated")
            cfg = json.loads(json.dumps(cfg))
            cfg["do_validate"] = False
            cfg["regime"].pop("validate_every_n_steps")
            cfg["regime"].pop("validate_at_start")
            cfg["trainer"].update(anomaly_detection=not cfg["trainer"]["anomaly_detection"], gc_every_n_steps=1)
        root2 = Path(str(root) + "-i")
        out2 = root2 / out.relative_to(root)
        last = 0
        for i in range(rng.randint(1, 2)):
            how = rng.choice(["kill", "kill", "stop", "extend"])
            if how == "extend" and (root != out or cfg["lr_scheduler"] is not None):
                how = "stop"
            if how == "extend":
                n = rng.randint(1, total)
                c = json.loads(json.dumps(cfg))
                c["regime"]["num_steps"] = n
                if self.train(obs, d, root2, c, lay, ck=ck, tag=f"{tag} shortened") is None:
                    return None
                obs.count("extended")
            else:
                s = rng.randint(1, total)
                e = self.train(obs, d, root2, cfg, lay, ck=ck, stop=(how, s, rng.randrange(calls)), tag=f"{tag} {how}")
                if e is None and obs.violations:
                    return None
                if how == "stop" and e is not None and resumable:
                    obs.check(s in self.steps_of(out2) or not any(x[0] == s for x in e[0]["steps"]), "stop-checkpoint", f"stopped at step {s}, checkpoints {self.steps_of(out2)}")
        had = self.steps_of(out2) if resumable else []
        e2 = self.train(obs, d, root2, cfg, lay, ck=ck, tag=f"{tag} resumed")
        if e2 is None:
            return None
        obs.count("resumed", bool(had))
        for e in e2:
            obs.check(e["new"] == (new and not had), "newly-initialized", f"resumed: {e['new']}, checkpoints {had}")
            first = e["steps"][0][0] if e["steps"] else total + 1
            obs.check(first == max(had, default=0) + 1, "resumed-step", f"resumed at step {first}, checkpoints {had}")
        steps2 = self.steps_of(out2)
        obs.check(set(steps) <= set(steps2), "checkpoints", f"after interruptions: {steps2}, expected {steps}")
        both = [n for s, n in zip(steps, names) if s in steps2]
        loaded2 = self.load(obs, d, out2, cfg, lay, both + [alias])
        if loaded2 is None:
            return None
        for r, (a, b) in enumerate(zip(models, loaded2[0])):
            for n in both + [alias]:
                if not self.same(obs, a[n], b[n], "resumed-model", f"{tag} rank {r} {n} {lay} checkpoints {had} {cfg}", tol=1e-6 if lay["size"] > 1 else None, skip=skip):
                    return None
        after = {s: v for s, v in train_lines.items() if s is not None and s > max(had, default=0)}
        self.metrics(obs, after, last_lines(out2 / "metrics" / "train.jsonl"), "resumed-metrics", f"{tag} {lay} {cfg['regime']}", tol=1e-5)
        return names, models[0], out

    def metric(self, line, key):
        for k, v in line.items():
            if k == key:
                return v if isinstance(v, (int, float)) else float(str(v).replace(",", ""))
        return None

    def check_eval(self, obs, cfg, kind, over, model, recs, lay):
        import recipekit as K

        if kind == "llama" or model is None:
            return
        m = K.ToyModel(K.ToyConfig(**over))
        m.load_state_dict({k: v for k, v in model.items() if k != "factor"})
        m.eval()
        b = K.Batch(list(range(cfg["per_step"] * cfg["size"] * 2)), "toy")
        want = (K.loss_of(m, b) / len(b.y)).item()
        rec = list(recs.values())
        got = self.metric(rec[-1], "NLL Loss") if rec else None
        obs.check(got is not None and math.isclose(got, want, rel_tol=1e-4, abs_tol=1e-5), "evaluation", f"loss {got}, expected {want}: {rec}")


if __name__ == "__main__":
    main(C39())
