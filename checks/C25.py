"""C25: model checkpoints load the tensors that were saved, or fail."""
import math
import random
import shutil

import torch

from vlib import Check, main, scratch

DTYPES = ["float32", "float32", "float16", "bfloat16", "float64", "int64", "bool"]
DAMAGES = ["truncate", "truncate", "garbage", "empty", "directory", "no_tensor", "no_dict", "missing_key", "missing_key_dp", "gap", "tp_count", "dp_count", "tp_shape", "dp_shape", "dup_key", "no_path", "no_files", "code", "unreadable_name"]


class C25(Check):
    id = "C25"
    rule = "the tensors yielded by the loaders for each rank equal the corresponding slices of the generated tensors, each once; damaged checkpoints raise the documented error"
    required = ["kind_tensors", "kind_damage", "kind_model", "kind_mismatch", "kind_fsdp", "tensors", "resharded", "shared", "converted", "damaged_error", "format_native", "format_basic", "format_safetensors", "format_llama", "models_loaded", "mismatch_error", "fsdp_loaded"]
    assumptions = ["flipped bits inside tensor data are not detectable in these formats"]

    def gen(self, rng, tier):
        from modelkit import LM_FAMILIES, lm_desc

        n = 900 if tier == "quick" else 12000
        for _ in range(n):
            kind = rng.choices(["tensors", "damage", "model", "mismatch"], [10, 10, 3, 2])[0]
            yield self.case(rng, kind, lm_desc, LM_FAMILIES)
        for _ in range(4 if tier == "quick" else 60):
            yield dict(kind="fsdp", seed=rng.randrange(1 << 30), world=rng.randint(2, 4), bn=False, dim=rng.choice([3, 5, 8]), layers=rng.randint(1, 3))
        yield dict(kind="fsdp", seed=1, world=2, bn=True, dim=4, layers=1)

    def case(self, rng, kind, lm_desc, families):
        c = dict(kind=kind, seed=rng.randrange(1 << 30), mmap=rng.random() < 0.3, restrict=rng.random() < 0.8)
        c["format"] = rng.choice(["native", "native", "basic", "safetensors", "llama"])
        c["ext"] = rng.choice(["pt", "pth", "bin"])
        c["pp"], c["tp"], c["dp"] = rng.choice([1, 1, 2]), rng.choice([1, 1, 2, 3, 4]), rng.choice([1, 1, 2, 3, 4])
        if c["format"] == "llama":
            c["pp"] = c["dp"] = 1
        elif c["format"] != "native":
            c["pp"] = c["tp"] = c["dp"] = 1
        c["files"] = rng.choice([0, 1, 2, 3])  # safetensors: 0 is a single file
        c["ttp"] = rng.choice([1, 1, 2, 3, 4, c["tp"]])
        c["tpp"] = rng.choice([1, c["pp"]])
        c["uneven"] = rng.random() < 0.5
        c["convert"] = rng.random() < 0.3
        c["shared"] = c["format"] != "safetensors" and rng.random() < 0.3
        m = math.lcm(c["tp"], c["ttp"])
        c["tensors"] = []
        for i in range(rng.randint(1, 7)):
            nd = rng.choice([0, 1, 1, 2, 2, 2, 3]) if c["dp"] == 1 else rng.choice([1, 2, 2, 3])
            shape = [rng.choice([1, 2, 3, 5, 8]) for _ in range(nd)]
            d = rng.choice([None, *range(nd)])
            if d is not None:
                shape[d] = m * rng.choice([1, 1, 2, 3])
            c["tensors"].append([f"{rng.choice(['a', 'dec.layers', 'x.y.z'])}.{i}.{rng.choice(['weight', 'bias'])}", shape, d, rng.choice(DTYPES)])
        if kind == "damage":
            c["damage"] = rng.choice(DAMAGES)
            c["frac"] = rng.random()
        if kind in ("model", "mismatch"):
            f = rng.choice(families)
            d = lm_desc(rng, f)
            tp_ok = f in ("llama", "qwen", "olmo", "mistral")
            c["format"] = rng.choice(["native", "native", "basic", "safetensors"])
            c["tp"] = rng.choice([1, 1, 2, 3]) if tp_ok and c["format"] == "native" else 1
            c["dp"] = rng.choice([1, 2, 3]) if c["format"] == "native" else 1
            c["pp"] = c["tpp"] = 1
            c["ttp"] = rng.choice([1, 1, 2, 3]) if tp_ok else 1
            m = math.lcm(c["tp"], c["ttp"])
            if m > 1:
                d["kv"] = m
                d["nh"] = m * rng.choice([1, 2])
                d["tied"] = False
                d["vocab"], d["ffn_mult"] = 24, 4 * m
            if f == "qwen" and m > 1:
                d["head_dim"] = None
            c["model"] = d
            c["damage"] = rng.choice(["missing", "extra", "shape", "shape", "lost_shard", "lost_shard"]) if kind == "mismatch" else None
        return c

    def setup_worker(self):
        import fairseq2
        import fairseq2.recipe  # noqa: F401

        fairseq2.init_fairseq2()

    def run(self, c, obs):
        obs.count(f"kind_{c['kind']}")
        tmp = scratch()
        try:
            getattr(self, "run_" + c["kind"])(c, obs, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    # --

    def gangs(self, tp, tp_rank, pp=1, pp_rank=0, dp=1):
        from fairseq2.gang import FakeGang, Gangs

        cpu = torch.device("cpu")
        one = FakeGang(cpu)
        return Gangs(root=FakeGang(cpu, rank=tp_rank + pp_rank * tp, size=tp * pp), dp=one, rdp=one, sdp=one, tp=FakeGang(cpu, rank=tp_rank, size=tp), pp=FakeGang(cpu, rank=pp_rank, size=pp))

    def make(self, c):
        g = torch.Generator().manual_seed(c["seed"])
        full = {}
        for name, shape, _, dt in c["tensors"]:
            t = torch.randint(-100, 100, shape, generator=g)
            full[name] = (t > 0) if dt == "bool" else t.to(getattr(torch, dt))
        return full

    def save(self, c, full, dims, tmp, pp_of):
        """Write the checkpoint; returns (path, files)."""
        old = (lambda k: "old." + k) if c["convert"] else (lambda k: k)
        alias = c["shared"] and next(iter(full), None)
        fmt, files = c["format"], []
        if fmt == "safetensors":
            import safetensors.torch as st

            items = [(old(k), v.contiguous()) for k, v in full.items()]
            if c["files"] == 0:
                p = tmp / "model.safetensors"
                st.save_file(dict(items), p)
                return p, [p]
            d = tmp / "ck"
            d.mkdir()
            for i in range(c["files"]):
                p = d / f"model-{i + 1:05d}-of-{c['files']:05d}.safetensors"
                st.save_file(dict(items[i :: c["files"]]), p)
                files.append(p)
            return d, files
        root = tmp / "ck"
        for pp in range(c["pp"]):
            for tp in range(c["tp"]):
                for dp in range(c["dp"]):
                    shard = {}
                    for k, v in full.items():
                        if pp_of[k] != pp:
                            continue
                        if dims[k] is not None and c["tp"] > 1:
                            v = v.tensor_split(c["tp"], min(dims[k], v.ndim - 1))[tp]
                        if c["dp"] > 1:
                            parts = v.chunk(c["dp"])
                            if dp < len(parts):
                                v = parts[dp]
                            elif c["uneven"]:
                                continue
                            else:
                                v = v[:0]
                        shard[old(k)] = v.clone()
                        if k == alias:
                            shard[old(k + ".alias")] = shard[old(k)]
                    if fmt == "native":
                        p = root / f"pp_{pp:02d}" / f"tp_{tp:02d}" / f"sdp_{dp:02d}.pt"
                    elif fmt == "llama":
                        p = root / f"consolidated.{tp:02d}.pth"
                    else:
                        p = tmp / f"model.{c['ext']}"
                        root = p
                    p.parent.mkdir(parents=True, exist_ok=True)
                    torch.save(shard, p)
                    files.append(p)
        return root, files

    def options(self, c, gangs):
        from fairseq2.model_checkpoint import ModelCheckpointLoadOptions

        conv = None
        if c["convert"]:
            conv = lambda sd: {k.removeprefix("old."): v for k, v in sd.items()}
        return ModelCheckpointLoadOptions(gangs=gangs, mmap=c["mmap"], restrict=c["restrict"], state_dict_converter=conv)

    def prepare(self, c, tmp):
        full = self.make(c)
        dims = {n: d for n, _, d, _ in c["tensors"]}
        pp_of = {n: i * c["pp"] // len(full) for i, n in enumerate(full)}
        path, files = self.save(c, full, dims, tmp, pp_of)
        return full, dims, pp_of, path, files

    def verify(self, c, obs, loader, path, full, dims, pp_of, tp_rank, pp_rank):
        sd = {k: d for k, d in dims.items() if d is not None}
        alias = c["shared"] and next(iter(full))
        if alias and sd.get(alias) is not None:
            sd[alias + ".alias"] = sd[alias]
        want = {}
        for k, v in full.items():
            if c["pp"] > 1 and c["tpp"] == c["pp"] and pp_of[k] != pp_rank and c["tp"] == c["ttp"]:
                continue
            if dims[k] is not None and c["ttp"] > 1:
                v = v.chunk(c["ttp"], dims[k])[tp_rank]
                obs.count("resharded")
            want[k] = v
        got = {}
        for k, v in loader.lazy_load(path, sd, self.options(c, self.gangs(c["ttp"], tp_rank, c["tpp"], pp_rank))):
            obs.check(k not in got, "yielded-twice", k)
            got[k] = v.clone()
        if alias and alias in want:
            a, b = alias in got, alias + ".alias" in got
            obs.count("shared")
            obs.check(a != b, "shared-not-once", lambda: f"{a} {b}")
            if b:
                got[alias] = got.pop(alias + ".alias")
        if c["convert"]:
            obs.count("converted")
        obs.check(set(got) == set(want), "names", lambda: f"{sorted(got)} != {sorted(want)}")
        for k, v in want.items():
            if k in got:
                obs.count("tensors")
                obs.check(v.dtype == got[k].dtype and torch.equal(v, got[k]), "value", lambda: f"{k} of rank {tp_rank}: {tuple(got[k].shape)} {got[k].dtype}, expected {tuple(v.shape)} {v.dtype}")

    def run_tensors(self, c, obs, tmp):
        from fairseq2.model_checkpoint import get_model_checkpoint_loader

        full, dims, pp_of, path, files = self.prepare(c, tmp)
        loader = get_model_checkpoint_loader()
        obs.count("format_" + c["format"])
        obs.check(loader.supports_path(path), "not-supported", str(path))
        obs.state((c["format"], c["pp"], c["tp"], c["dp"], c["ttp"], c["tpp"], c["uneven"]))
        for pp_rank in range(c["tpp"]):
            for tp_rank in range(c["ttp"]):
                self.verify(c, obs, loader, path, full, dims, pp_of, tp_rank, pp_rank)

    def run_damage(self, c, obs, tmp):
        from fairseq2.model_checkpoint import CorruptModelCheckpointError, get_model_checkpoint_loader

        rng = random.Random(c["seed"])
        full, dims, pp_of, path, files = self.prepare(c, tmp)
        loader = get_model_checkpoint_loader()
        d, f = c["damage"], rng.choice(files)
        st = c["format"] == "safetensors"
        marker = tmp / "executed"
        need_all = False  # the damage may lie outside of what this rank reads
        harmless = False
        if d == "truncate":
            data = f.read_bytes()
            f.write_bytes(data[: int(len(data) * c["frac"])])
        elif d == "garbage":
            f.write_bytes(rng.randbytes(rng.choice([1, 7, 100, 5000])))
        elif d == "empty":
            f.write_bytes(b"")
        elif d == "directory":
            f.unlink()
            f.mkdir()
        elif d == "unreadable_name":
            if path.is_dir():
                return
            path = path.rename(path.with_suffix(".zip"))
        elif d == "no_path":
            path = path.with_name("nothing." + c["ext"])
        elif d == "no_files":
            path = tmp / "emptydir"
            path.mkdir()
            if c["format"] == "native":
                (path / "pp_00").mkdir()
                if rng.random() < 0.5:
                    (path / "pp_00" / "tp_00").mkdir()
        elif d == "code":
            if st:
                return
            c = dict(c, restrict=True)
            torch.save({"x": _Evil(str(marker))}, f)
        elif d == "dup_key":
            if not st or len(files) < 2:
                return
            import safetensors.torch as s

            k = ("old." if c["convert"] else "") + next(iter(full))
            for p in files[:2]:
                s.save_file({**s.load_file(p), k: torch.ones(2)}, p)
        elif st:
            return
        elif d in ("no_tensor", "no_dict", "missing_key", "missing_key_dp", "tp_shape", "dp_shape"):
            shard = torch.load(f)
            if not shard:
                return
            k = rng.choice(sorted(shard))
            alias_pair = c["shared"] and k.removeprefix("old.").removesuffix(".alias") == next(iter(full))
            if alias_pair:
                return
            if d == "no_tensor":
                shard[k] = rng.choice(["text", 3, None, [1, 2]])
                if shard[k] is None or c["tp"] * c["dp"] > 1:
                    pass
            elif d == "no_dict":
                shard = rng.choice([[1, 2], torch.zeros(3), "text", 7])
            elif d == "missing_key":
                # one tensor parallel shard lacks a key which the first one has
                if c["tp"] == 1 or c["ttp"] == c["tp"]:
                    return
                name = k.removeprefix("old.")
                if dims[name] is None:
                    return
                tp = rng.randrange(1, c["tp"])
                f = files[[i for i, p in enumerate(files) if self.where(c, p) == (pp_of[name], tp, 0)][0]]
                shard = torch.load(f)
                del shard[k]
            elif d == "missing_key_dp":
                return
            elif d == "tp_shape":
                name = k.removeprefix("old.")
                if c["tp"] == 1 or c["ttp"] == c["tp"] or dims[name] is None:
                    return
                t = shard[k]
                if t.size(dims[name]) < 1:
                    return
                shard[k] = torch.cat([t, t.narrow(dims[name], 0, 1)], dims[name])
                if c["dp"] > 1:
                    return
            else:
                name = k.removeprefix("old.")
                t = shard[k]
                if c["dp"] == 1 or t.ndim < 2 or t.size(1) == 0 or t.size(0) == 0 or (dims[name] is None and c["tp"] > 1):
                    return
                if sum(1 for p in files if self.where(c, p)[:2] == self.where(c, f)[:2] and k in torch.load(p) and torch.load(p)[k].size(0)) < 2:
                    return
                shard[k] = torch.cat([t, t[:, :1]], 1)
            torch.save(shard, f)
        elif d == "gap":
            # a file (or directory) in the middle is missing
            if len(files) < 3 or c["format"] != "native" or c["dp"] < 3:
                return
            g = [p for p in files if self.where(c, p)[2] == 1]
            for p in g:
                p.unlink()
        elif d == "tp_count":
            if c["pp"] < 2 or c["tp"] < 2:
                return
            for p in files:
                if self.where(c, p)[:2] == (1, c["tp"] - 1):
                    p.unlink()
            (path / "pp_01" / f"tp_{c['tp'] - 1:02d}").rmdir()
        elif d == "dp_count":
            if c["format"] != "native" or c["dp"] < 2 or c["pp"] * c["tp"] < 2:
                return
            rng.choice([p for p in files if self.where(c, p)[2] == c["dp"] - 1]).unlink()
        obs.count("format_" + c["format"])
        errors, reads = [], 0
        for pp_rank in range(c["tpp"]):
            for tp_rank in range(c["ttp"]):
                # Ranks which read only their own files need not notice.
                own = c["format"] in ("native", "llama") and c["tp"] == c["ttp"] and c["pp"] == c["tpp"]
                local = d in ("truncate", "garbage", "empty", "no_tensor", "no_dict", "dp_shape", "code")
                if d == "directory" and c["format"] in ("native", "llama"):
                    return  # looks like a missing file
                relevant = not (own and local and self.where(c, f)[:2] != (pp_rank, tp_rank))
                try:
                    self.verify_quiet(c, loader, path, full, dims, pp_of, tp_rank, pp_rank)
                except (CorruptModelCheckpointError, OSError) as ex:
                    errors.append(ex)
                    obs.count("damaged_error")
                    obs.check(True, "rejected")
                except Exception as ex:
                    obs.violate(f"undocumented-error-{d}", f"{type(ex).__name__}: {ex} (format {c['format']})")
                    return
                else:
                    obs.check(not relevant or self.intact(c, d), f"silent-{d}", lambda: f"rank {tp_rank} loaded a damaged {c['format']} checkpoint")
        obs.check(not marker.exists(), "code-executed", "a restricted load ran code of the file")
        obs.state(("damage", c["format"], d, c["tp"], c["dp"]))

    def intact(self, c, d):
        # Whether files are missing at the end can only be told by a model.
        return d == "gap" or d == "truncate" and c["frac"] > 0.999

    def where(self, c, p):
        if c["format"] == "native":
            return int(p.parent.parent.name[3:]), int(p.parent.name[3:]), int(p.stem[4:])
        if c["format"] == "llama":
            return 0, int(p.stem.split(".")[1]), 0
        return 0, 0, 0

    def verify_quiet(self, c, loader, path, full, dims, pp_of, tp_rank, pp_rank):
        sd = {k: d for k, d in dims.items() if d is not None}
        for _ in loader.lazy_load(path, sd, self.options(c, self.gangs(c["ttp"], tp_rank, c["tpp"], pp_rank))):
            pass

    # -- whole models

    def family(self, c):
        from fairseq2.models import ModelFamily
        from fairseq2.runtime.dependency import get_dependency_resolver

        return get_dependency_resolver().resolve(ModelFamily, key=c["model"]["family"])

    def model_state(self, c):
        from modelkit import lm_config, make_lm

        m = make_lm(c["model"])
        return lm_config(c["model"]), {k: v.detach().clone() for k, v in m.state_dict().items()}

    def tp_model(self, fam, config, tp, rank):
        return fam.create_new_model(config, self.gangs(tp, rank), torch.float32, False, True)

    def run_model(self, c, obs, tmp):
        from fairseq2.model_checkpoint import CorruptModelCheckpointError

        fam = self.family(c)
        config, full = self.model_state(c)
        # How the model splits its parameters is seen from their shapes.
        dims = {}
        m = c["tp"] if c["tp"] > 1 else c["ttp"]
        part = self.tp_model(fam, config, m, 0).state_dict() if m > 1 else full
        obs.check(set(part) == set(full), "tp-names", lambda: f"{set(part) ^ set(full)}")
        for k, v in full.items():
            diff = [i for i in range(v.ndim) if part[k].size(i) != v.size(i)]
            obs.check(len(diff) <= 1, "tp-shape", lambda: f"{k}: {tuple(v.shape)} becomes {tuple(part[k].shape)}")
            dims[k] = diff[0] if diff else None
        if m > 1:
            obs.check(any(d is not None for d in dims.values()), "not-sharded", c["model"]["family"])
        c = dict(c, convert=False, shared=False)
        damage = c["damage"]
        saved = dict(full)
        if damage == "missing":
            keys = [k for k in saved if not (c["model"]["tied"] and ("embed" in k or "final_proj" in k))]
            del saved[random.Random(c["seed"]).choice(keys)]
        elif damage == "extra":
            saved["decoder.layers.99.extra"] = torch.zeros(4, 4)
            dims["decoder.layers.99.extra"] = None
        elif damage == "shape":
            k = random.Random(c["seed"]).choice(sorted(saved))
            v = saved[k]
            how = random.Random(c["seed"]).randrange(3)
            m = math.lcm(c["tp"], c["ttp"])
            saved[k] = torch.cat([v] * (m + 1), 0) if how == 0 else v.flatten() if how == 1 and v.ndim > 1 else v[None].repeat([m + 1] + [1] * v.ndim)
        path, files = self.save(c, saved, dims, tmp, {k: 0 for k in saved})
        if damage == "lost_shard":
            if len(files) == 1 or (c["dp"] == 1 and c["tp"] == c["ttp"]):
                return
            dp = random.Random(c["seed"]).randrange(c["dp"]) if c["dp"] > 1 else 0
            tp = random.Random(c["seed"]).randrange(c["tp"])
            for f in files:
                w = self.where(c, f)
                if (c["dp"] > 1 and w[2] == dp) or (c["dp"] == 1 and w[1] == tp):
                    f.unlink()
                    if c["dp"] == 1 and c["format"] == "native":
                        f.parent.rmdir()
                    elif c["format"] == "safetensors":
                        break
        obs.state((c["model"]["family"], c["format"], c["tp"], c["dp"], c["ttp"], damage))
        for rank in range(c["ttp"]):
            gangs = self.gangs(c["ttp"], rank)
            try:
                model = fam.load_custom_model(path, config, gangs, torch.float32, True, c["mmap"], True if c["restrict"] else None)
            except CorruptModelCheckpointError as ex:
                if damage is None:
                    obs.violate("load-error", f"{ex} {ex.__cause__}")
                    return
                obs.count("mismatch_error")
                obs.check(True, "rejected")
                continue
            if damage is not None:
                obs.violate(f"silent-{damage}", f"{c['model']['family']} loaded from a mismatched checkpoint")
                return
            obs.count("models_loaded")
            got = model.state_dict()
            for k, v in full.items():
                if dims[k] is not None and c["ttp"] > 1:
                    v = v.chunk(c["ttp"], dims[k])[rank]
                obs.count("tensors")
                obs.check(torch.equal(v, got[k]), "model-value", lambda: f"{c['model']['family']} {k} rank {rank}")
            if rank == 0:
                seen = {}
                for k, v in fam.iter_checkpoint(path, config, gangs, c["mmap"], None):
                    obs.check(k not in seen, "yielded-twice", k)
                    seen[k] = v
                for k, v in seen.items():
                    w = full[k]
                    if dims[k] is not None and c["ttp"] > 1:
                        w = w.chunk(c["ttp"], dims[k])[rank]
                    obs.check(torch.equal(v, w), "iter-value", k)
            if c["ttp"] == 1 and c["model"]["family"] != "gemma3n":
                from fairseq2.nn import BatchLayout
                from modelkit import make_lm

                x = torch.randint(1, c["model"]["vocab"], (2, 5), generator=torch.Generator().manual_seed(c["seed"]))
                with torch.no_grad():
                    a = make_lm(c["model"])(x, BatchLayout.of(x))
                    b = model.eval()(x, BatchLayout.of(x))
                obs.check(torch.equal(a, b), "model-output", lambda: f"{c['model']['family']}: differs by {float((a - b).abs().max())}")

    run_mismatch = run_model

    def run_fsdp(self, c, obs, tmp):
        import gloo
        from fairseq2.gang import create_fsdp_gangs, create_parallel_gangs

        path = tmp / "ck"

        def model():
            torch.manual_seed(c["seed"])
            mods = []
            for _ in range(c["layers"]):
                mods.append(torch.nn.Linear(c["dim"], c["dim"]))
                if c["bn"]:
                    mods.append(torch.nn.BatchNorm1d(c["dim"]))
            return torch.nn.Sequential(*mods)

        def rank(root, r):
            from fairseq2.nn.data_parallel import get_data_parallel_facade
            from fairseq2.nn.fsdp import to_fsdp2

            gangs = create_fsdp_gangs(create_parallel_gangs(root, tp_size=1))

            def wrap(m, fn):
                for name, child in m.named_children():
                    if isinstance(child, torch.nn.Linear):
                        m.register_module(name, fn(child, True))
                return fn(m, False)

            m = to_fsdp2(model(), gangs, wrap, fp32_reduce=True)
            sd = get_data_parallel_facade(m).state_dict()
            f = path / "pp_00" / "tp_00" / f"sdp_{r:02d}.pt"
            f.parent.mkdir(parents=True, exist_ok=True)
            torch.save(sd, f)
            return True

        res = gloo.run(c["world"], rank, timeout=60)
        if any(x[0] != "ok" for x in res):
            obs.violate("fsdp-save", str(res)[:1500])
            return
        from fairseq2.model_checkpoint import get_model_checkpoint_loader

        want = model().state_dict()
        try:
            got = dict(get_model_checkpoint_loader().lazy_load(path, {}, self.options(dict(mmap=False, restrict=True, convert=False), self.gangs(1, 0))))
        except Exception as ex:
            obs.violate("fsdp-buffers" if c["bn"] else "fsdp-load", f"{type(ex).__name__}: {ex}")
            return
        obs.count("fsdp_loaded")
        for k, v in want.items():
            obs.check(k in got and torch.equal(got[k], v), "fsdp-buffers" if c["bn"] else "fsdp-value", k)


class _Evil:
    def __init__(self, path):
        self.path = path

    def __reduce__(self):
        return (open, (self.path, "w"))


if __name__ == "__main__":
    main(C25())
