"""C41: models, tokenizers and datasets come out as their asset cards say."""
import copy
import json
import os
import random
from dataclasses import dataclass, field
from pathlib import Path

from vlib import Check, main, scratch

STATE = {}


@dataclass
class Sub:
    a: int = 1
    b: str = "b"


@dataclass
class Cfg:
    dim: int = 3
    layers: int = 1
    scale: float = 1.0
    names: list[str] = field(default_factory=lambda: ["x"])
    table: dict[str, int] = field(default_factory=lambda: {"k": 1})
    sub: Sub = field(default_factory=Sub)

    def validate(self):
        from fairseq2.utils.validation import ValidationResult

        r = ValidationResult()
        if self.dim < 1:
            r.add_error("`dim` must be positive")
        return r


@dataclass
class RealCfg(Cfg):
    pass


@dataclass
class TokCfg(Cfg):
    pass


@dataclass
class SetCfg(Cfg):
    pass


ARCHS = {"wide": {"dim": 5}, "deep": {"layers": 3, "sub": Sub(7, "deep")}}


class Evil:
    def __init__(self, path):
        self.path = path

    def __reduce__(self):
        return (os.mkdir, (self.path,))


def plain(c):
    from dataclasses import asdict

    return asdict(c)


def register(container):
    import torch
    from torch import nn

    from fairseq2.assets import AssetDownloadManager
    from fairseq2.composition import register_dataset_family, register_model_family, register_tokenizer_family
    from fairseq2.data.tokenizers import TokenizerModelError
    from fairseq2.runtime.config_registry import ConfigRegistrar

    class Layer(nn.Module):
        def __init__(self, dim, scale):
            super().__init__()
            self.w = nn.Linear(dim, dim)
            self.register_buffer("table", torch.empty(dim, dtype=torch.float32), persistent=False)
            self.scale = scale
            self.reset_non_persistent_buffers()

        def reset_non_persistent_buffers(self):
            self.table.copy_(torch.arange(self.table.numel()) * self.scale)

    class Toy(nn.Module):
        def __init__(self, c):
            super().__init__()
            self.config = copy.deepcopy(c)
            self.inp = nn.Embedding(4, c.dim)
            self.layers = nn.ModuleList([Layer(c.dim, c.scale) for _ in range(c.layers)])
            self.out = nn.Linear(c.dim, 4, bias=False)
            self.out.weight = self.inp.weight
            self.register_buffer("stat", torch.zeros(2))

    STATE["Toy"] = Toy

    def convert(state_dict, config):
        state_dict = state_dict.get("model", state_dict)
        return {k.removeprefix("old."): v for k, v in state_dict.items() if k != "junk"}

    for name, kls, meta in (("toy", Cfg, True), ("real", RealCfg, False)):
        register_model_family(container, name, Toy, kls, factory=Toy, supports_meta=meta, restrict=meta, state_dict_converter=convert)
        arch = ConfigRegistrar(container, kls)
        for a, kw in ARCHS.items():
            arch(a)(lambda kls=kls, kw=kw: kls(**copy.deepcopy(kw)))

    @dataclass
    class Tok:
        path: Path
        text: str
        config: object

    def load_tok(path, config):
        text = path.read_text()
        if text.startswith("bad"):
            raise TokenizerModelError(path, "bad")
        return Tok(path, text, copy.deepcopy(config))

    register_tokenizer_family(container, "tok", Tok, TokCfg, loader=load_tok)
    register_tokenizer_family(container, "tok2", Tok, TokCfg, loader=load_tok)

    @dataclass
    class Set:
        config: object

    def open_set(config):
        if config.scale < 0:
            from fairseq2.datasets import DatasetError

            raise DatasetError("negative")
        return Set(copy.deepcopy(config))

    register_dataset_family(container, "set", Set, SetCfg, opener=open_set)
    register_dataset_family(container, "set2", Set, SetCfg, opener=open_set)

    class Manager(AssetDownloadManager):
        """Fetches toy:// assets, that is, looks up where they are."""

        def get(self, kind, uri, local_only):
            from fairseq2.assets import AssetDownloadError

            d = STATE["dir"]
            done = d / f"fetched-{kind}"
            with open(d / "downloads", "a") as f:
                f.write(json.dumps([STATE["rank"], kind, str(uri), local_only]) + "\n")
            if not local_only:
                done.touch()
            elif not done.exists():
                raise AssetDownloadError(uri, "not fetched yet")
            return STATE["where"]

        def download_model(self, uri, model_name="", *, force=False, local_only=False, progress=True):
            return self.get("model", uri, local_only)

        def download_tokenizer(self, uri, tokenizer_name="", *, force=False, local_only=False, progress=True):
            return self.get("tokenizer", uri, local_only)

        def download_dataset(self, uri, dataset_name="", *, force=False, local_only=False, progress=True):
            return self.get("dataset", uri, local_only)

        supported_schemes = property(lambda self: {"toy"})

    container.collection.register_instance(AssetDownloadManager, Manager())


class C41(Check):
    id = "C41"
    rule = "a card gives the model, tokenizer or dataset it describes, or an error that names it"
    required = ["loaded", "refused", "multi", "tokenizers", "datasets", "configs", "downloads", "sub_paths", "links", "escapes", "damaged", "restricted", "unrestricted", "gated", "families", "rank0_only", "meta", "real", "custom", "created", "inherited", "references", "overridden", "iterated"]
    assumptions = ["toy families with a stand-in for downloads, CPU"]
    case_timeout = 120.0

    def gen(self, rng, tier):
        for i in range(1500 if tier == "quick" else 16000):
            kind = ["model", "model", "model", "tokenizer", "dataset"][i % 5]
            yield dict(seed=rng.randrange(1 << 30), kind=kind, size=rng.choice([1, 1, 1, 1, 1, 1, 2, 3]))

    def setup_worker(self):
        import fairseq2
        import fairseq2.recipe  # noqa: F401

        STATE["resolver"] = fairseq2.init_fairseq2(extras=register, no_progress=True)

    def run(self, c, obs):
        with scratch() as d:
            d = Path(d)
            STATE.update(dir=d, rank=0, where=None)
            if c["size"] == 1:
                self.case(c, obs, d, None)
                return
            import gloo
            from vlib import Obs

            def go(root, rank):
                from fairseq2.gang import create_parallel_gangs

                STATE["rank"] = rank
                mine = Obs()
                out = self.case(c, mine, d, create_parallel_gangs(root))
                return out, dict(mine.counts), mine.violations

            obs.count("multi")
            self.write(c, d)
            res = gloo.run(c["size"], go)
            if any(r[0] in ("hang", "init-failed") for r in res):
                obs.inconclusive(f"{res}"[-1500:])
            if not obs.check(all(r[0] == "ok" for r in res), "failed", lambda: f"{res}"[-1500:]):
                return
            for _, (out, counts, bad) in res:
                for k, v in counts.items():
                    obs.count(k, v)
                for m, t in bad:
                    obs.violate(m, t)
                obs.check(out == res[0][1][0], "ranks-differ", lambda: f"{c}")

    # -- what a case is about --------------------------------------------------------
    def plan(self, c):
        """All choices of a case, the same on all ranks."""
        rng = random.Random(c["seed"])
        kind, one = c["kind"], c["size"] == 1
        P = dict(kind=kind)
        fams = {"model": ["toy", "real"], "tokenizer": ["tok"], "dataset": ["set"]}[kind]
        P["family"] = rng.choice(fams)
        n = rng.randint(1, 3)
        P["cards"] = [{"name": f"c{i}", **({"base": f"c{i + 1}"} if i + 1 < n else {})} for i in range(n)]
        bad = ["none"] * 6
        if kind == "model":
            bad += ["gated", "scheme", "arch", "config", "invalid", "wrong-family", "no-family", "unknown", "type"]
            bad += ["escape", "missing", "extra", "shape", "corrupt", "nofile", "evil", "evil"] if one else []
        elif kind == "tokenizer":
            bad += ["gated", "scheme", "config", "invalid", "wrong-family", "unknown", "type"] + (["escape", "corrupt", "nofile"] if one else [])
        else:
            bad += ["config", "invalid", "wrong-family", "unknown", "type", "corrupt"]
        P["bad"] = rng.choice(bad)

        def put(key, value, decoys=()):
            """On the card or on one it is derived from; further ones say otherwise."""
            k = rng.randrange(n)
            P["cards"][k][key] = value
            for i in range(k + 1, n):
                if decoys and rng.random() < 0.5:
                    P["cards"][i][key] = rng.choice(decoys)

        P["put"], P["rng"] = put, rng
        fam = P["family"]
        if P["bad"] == "wrong-family":
            fam = {"model": rng.choice(["nofamily", "real" if fam == "toy" else "toy"]), "tokenizer": "tok2", "dataset": "set2"}[kind]
        if P["bad"] != "no-family":
            put(f"{kind}_family", fam, ["decoy"])
        want = {"dim": 3, "layers": 1, "scale": 1.0, "names": ["x"], "table": {"k": 1}, "sub": {"a": 1, "b": "b"}}
        if kind == "model" and rng.random() < 0.6:
            arch = rng.choice(list(ARCHS))
            put("model_arch", rng.choice(["nope", 3]) if P["bad"] == "arch" else arch, list(ARCHS))
            for k, v in ARCHS[arch].items():
                want[k] = plain(v) if isinstance(v, Sub) else v
        elif P["bad"] == "arch":
            put("model_arch", "nope")
        P["key"] = f"{kind}_config" + rng.choice(["", "_override", "_overrides"])

        def overrides():
            o = {"dim": rng.randint(1, 6), "layers": rng.randint(1, 3), "scale": rng.choice([0.5, 2.0]), "names": [rng.choice("pq")], "table": {rng.choice("kz"): rng.randint(1, 9)}, "sub": {rng.choice("a"): rng.randint(2, 9)}}
            return {k: v for k, v in o.items() if rng.random() < 0.4}

        from C30 import ref_merge

        for card in reversed(P["cards"]):
            if rng.random() < 0.6:
                o = overrides()
                if o:
                    card[P["key"]] = o
                    want = ref_merge(want, o)
        if P["bad"] in ("config", "invalid"):
            card = P["cards"][0]
            card[P["key"]] = dict(card.get(P["key"], {}), dim=0 if P["bad"] == "invalid" else [])
        if kind == "dataset" and P["bad"] == "corrupt":
            card = P["cards"][0]
            card[P["key"]] = dict(card.get(P["key"], {}), scale=-1.0)
        P["want"] = want
        # Where it is.
        if kind != "dataset":
            f = "a/model.pt" if kind == "model" else "a/tok.txt"
            P["file"] = f
            P["where"] = rng.choice(["abs", "rel", "uri", "toy", "toy"])
            P["links"] = [x for x in ("dir", "file") if rng.random() < 0.3]
            P["sub"] = rng.choice([None, f, "./" + f, "a/../" + f])
            if P["bad"] == "escape":
                P["sub"] = rng.choice(["../outside/" + f, "a/../../outside/" + f, "../store-2/" + f, "/OUT/" + f, "../" + f, "../.."])
            if P["bad"] in ("nofile",) and P["where"] == "toy":
                P["where"] = "abs"
            P["restrict"] = rng.choice([None, True, False])
            P["wrap"] = rng.random() < 0.5
            P["old"] = rng.random() < 0.5
            P["mmap"] = rng.random() < 0.3
            P["rank0"] = rng.random() < 0.3
            P["dtype"] = rng.choice([None, "float16", "bfloat16", "float64"])
        P["param"] = rng.random() < 0.3
        P["by"] = rng.choice(["name", "card"])
        P["via"] = rng.choice(["hub", "global"])
        P["ref"] = kind == "tokenizer" and rng.random() < 0.4
        return P

    def write(self, c, d):
        """Files and cards of a case."""
        import torch

        P = self.plan(c)
        cards, put, rng = P["cards"], P["put"], P["rng"]
        kind, bad = P["kind"], P["bad"]
        if kind != "dataset" and bad != "gated":
            real = d / ("real" if "dir" in P["links"] else "store")
            out = d / "outside" / P["file"]
            file = real / P["file"]
            near = d / "store-2" / P["file"]
            for p in (file, out, near):
                p.parent.mkdir(parents=True)
            top = d / "store"
            if real != top:
                top.symlink_to(real)
            if bad == "nofile":
                pass
            elif kind == "tokenizer":
                out.write_text("out")
                near.write_text("out")
                file.write_text("bad" if bad == "corrupt" else f"text {c['seed']}")
            else:
                sd = self.state(c, P)
                for p in (out, near):
                    torch.save({k: v + 1 for k, v in sd.items()}, p)
                if bad == "missing":
                    del sd[rng.choice(sorted(set(sd) - {"inp.weight", "out.weight"}))]
                elif bad == "extra":
                    sd["more"] = torch.zeros(1)
                elif bad == "shape":
                    k = rng.choice(sorted(sd))
                    sd[k] = torch.cat([sd[k], sd[k][:1]])
                if P["old"]:
                    sd = {"old." + k: v for k, v in sd.items()}
                if bad == "evil":
                    sd["junk"] = Evil(str(d / "evil"))
                torch.save({"model": sd} if P["wrap"] else sd, file)
                if bad == "corrupt":
                    data = file.read_bytes()
                    file.write_bytes(rng.choice([data[: len(data) // 2], b"", b"hello"]))
            if "file" in P["links"] and bad != "nofile":
                blob = d / "blob"
                file.rename(blob)
                file.symlink_to(blob)
            at = top if P["sub"] is not None else top / P["file"]
            where = {"abs": str(at), "rel": os.path.relpath(at, d / "cards"), "uri": f"file://{at}", "toy": "toy://thing"}[P["where"]]
            if P["where"] == "rel":
                # Relative to the file of the card that has it.
                (d / "cards").mkdir()
            put("checkpoint" if kind == "model" else "tokenizer", "nope://thing" if bad == "scheme" else where, ["/decoy/x.pt"])
            if P["sub"] is not None:
                put("checkpoint_path" if kind == "model" else "tokenizer_path", P["sub"].replace("/OUT", str(d / "outside")), ["decoy/x.pt"])
            if P["restrict"] is not None and kind == "model":
                put("restrict", P["restrict"])
        if bad == "gated" and rng.random() < 0.5:
            put("url", "https://x.y/z")
        if P["ref"]:
            cards = [*cards, {"name": "r0", "tokenizer_ref": "r1"}, {"name": "r1", "tokenizer_ref": "c0"}]
        (d / "cards").mkdir(exist_ok=True)
        (d / "cards" / "all.yaml").write_text("---\n".join(json.dumps(x) + "\n" for x in cards))

    def state(self, c, P):
        import torch

        w, g = P["want"], torch.Generator().manual_seed(c["seed"])

        def r(*shape):
            return torch.randint(-8, 9, shape, generator=g) / 4

        dim = w["dim"]
        inp = r(4, dim)
        sd = {"inp.weight": inp, "out.weight": inp.clone(), "stat": r(2)}
        for i in range(w["layers"]):
            sd[f"layers.{i}.w.weight"], sd[f"layers.{i}.w.bias"] = r(dim, dim), r(dim)
        return sd

    # -- the case ------------------------------------------------------------------
    def case(self, c, obs, d, gangs):
        import torch

        from fairseq2.assets import AssetCardError
        from fairseq2.assets.metadata_provider import FileAssetMetadataSource
        from fairseq2.assets.store import StandardAssetStore
        from fairseq2.runtime.dependency import DependencyLookup, wire_object

        if gangs is None:
            self.write(c, d)
        P = self.plan(c)
        kind, bad, R = P["kind"], P["bad"], STATE["resolver"]
        if kind != "dataset":
            STATE["where"] = d / "store" if P["sub"] is not None else d / "store" / P["file"]
        source = wire_object(R, FileAssetMetadataSource, path=d / "cards", not_exist_ok=False)
        store = StandardAssetStore(source.load())
        if kind == "model":
            from fairseq2.models.family import ModelFamily as Family, ModelGatedError as Gated
            from fairseq2.models.hub import GlobalModelLoader as Global, ModelHub as Hub, ModelNotKnownError as Unknown
        elif kind == "tokenizer":
            from fairseq2.data.tokenizers.family import TokenizerFamily as Family, TokenizerGatedError as Gated
            from fairseq2.data.tokenizers.hub import GlobalTokenizerLoader as Global, TokenizerHub as Hub, TokenizerNotKnownError as Unknown
        else:
            from fairseq2.datasets.family import DatasetFamily as Family
            from fairseq2.datasets.hub import DatasetHub as Hub, DatasetNotKnownError as Unknown

            Global = Gated = None
        family = R.resolve(Family, key=P["family"])
        hub = Hub(family, store)
        obs.count("inherited", len(P["cards"]) > 1)
        obs.state(kind, P["family"], bad, P.get("where"), P.get("links"), P.get("sub"), P["via"], P.get("dtype"), c["size"])
        want = dict(P["want"])
        kls = family.config_kls

        def build(w):
            return kls(**dict(copy.deepcopy(w), sub=Sub(**w["sub"])))

        config = build(want)
        names = {x["name"] for x in P["cards"]} | {"r0", "r1"}
        target = "r0" if P["ref"] else "c0"
        if bad == "unknown":
            target = "c9"
        what = target
        if P["by"] == "card" and bad != "unknown":
            what = store.retrieve_card(target)
        # Its configuration.
        if bad in ("none", "missing", "escape", "evil", "gated", "nofile"):
            get = getattr(hub, f"get_{kind}_config")
            for _ in range(2):
                got = get(what)
                obs.count("configs")
                obs.check(got == config and type(got) is kls, "config", lambda: f"{got}, not {config}: {P['cards']}")
                got.dim += 1
                got.names.append("leak")
                got.table["leak"] = 1
                got.sub.a += 1
            if kind == "model":
                for a, kw in ARCHS.items():
                    got = hub.get_arch_config(a)
                    obs.check(got == kls(**kw), "arch", lambda: f"{a} is {got}, not {kls(**kw)}")
                obs.check(hub.get_archs() == set(ARCHS) and hub.maybe_get_arch_config("nope") is None, "archs", lambda: f"{hub.get_archs()}")
            obs.count("iterated")
            eff = {x.name for x in hub.iter_cards()}
            obs.check("c0" in eff and eff <= names, "iter-cards", lambda: f"{eff}: {P['cards']}")
        param = None
        if P["param"]:
            obs.count("overridden")
            param = build(dict(want, names=["param"], table={"param": 1}))
            config = copy.deepcopy(param)
        if bad == "type":
            param = Sub()

        dtype = getattr(torch, P["dtype"]) if P.get("dtype") else None
        kw = {}
        if kind == "model":
            kw = dict(config=param, load_rank0_only=P["rank0"], mmap=P["mmap"], dtype=dtype)
        elif kind == "tokenizer":
            kw = dict(config=param)
        else:
            kw = dict(config=param)
        use_hub = P["via"] == "hub" or Global is None or bad in ("wrong-family",) and P["family"] == "toy" and "real" in str(P["cards"])

        def load():
            if use_hub:
                if kind == "dataset":
                    return hub.open_dataset(what, **kw)
                return getattr(hub, f"load_{kind}")(what, gangs=gangs, **kw)
            g = Global(store, DependencyLookup(R, Family))
            if kind == "model":
                return g.load(what, gangs, None, dtype, param, P["rank0"], P["mmap"])
            return g.load(what, gangs, param)

        wants = {
            "unknown": Unknown, "type": TypeError, "gated": Gated,
        }.get(bad, AssetCardError)
        loads = bad == "none"
        if bad == "evil":
            loads = not (P["family"] == "toy" if P["restrict"] is None else P["restrict"])
        if bad == "wrong-family" and not use_hub:
            fam = next(x[f"{kind}_family"] for x in P["cards"] if f"{kind}_family" in x)
            if fam != "nofamily":
                return None  # The global loader knows this one, too.
        if P["param"] and bad in ("config", "invalid", "arch"):
            return None  # Not needed.
        if kind == "dataset" and bad == "corrupt" and P["param"]:
            return None
        try:
            got = load()
        except Exception as ex:  # noqa: BLE001
            if loads:
                raise
            obs.count("refused")
            obs.count({"escape": "escapes", "gated": "gated", "evil": "restricted", "wrong-family": "families", "no-family": "families"}.get(bad, "damaged" if bad in ("missing", "extra", "shape", "corrupt", "nofile") else "refused"))
            ok = type(ex) is wants or isinstance(ex, wants)
            obs.check(ok, "error", lambda: f"{bad}: {type(ex).__name__}: {ex}, not {wants.__name__}: {P['cards']}")
            if ok and wants is not TypeError:
                obs.check(ex.name in names | {target}, "error-name", lambda: f"{bad}: {ex.name}: {ex}")
            if ok and bad == "gated":
                url = next((x["url"] for x in store_cards(d) if "url" in x), None)
                obs.check(ex.info_url == url, "gated-url", lambda: f"{ex.info_url}, not {url}")
            obs.check(not (d / "evil").exists(), "restricted", "a restricted load ran code of the checkpoint")
            return bad
        if not obs.check(loads, "accepted", lambda: f"{bad} was not refused: {P['cards']} {P.get('sub')}"):
            return None
        obs.count("loaded")
        obs.count("unrestricted", bad == "evil")
        if kind != "dataset":
            obs.count("sub_paths", P["sub"] is not None)
            obs.count("links", len(P["links"]))
            if P["where"] == "toy":
                self.downloads(obs, d, gangs)
        if kind == "dataset":
            obs.count("datasets")
            obs.check(got.config == config, "dataset", lambda: f"{got}, not {config}")
            obs.check(hub.open_custom_dataset(config).config == config, "custom", lambda: f"{config}")
            return None
        file = d / "store" / P["file"]
        if kind == "tokenizer":
            obs.count("tokenizers")
            obs.count("references", P["ref"])
            obs.check(got.config == config and got.text == file.read_text() and os.path.samefile(got.path, file) and got.path.suffix == file.suffix, "tokenizer", lambda: f"{got}, not {config} of {file}")
            obs.check(hub.load_custom_tokenizer(file, config, gangs=gangs).config == config, "custom", lambda: f"{config}")
            return got.text
        rank = STATE["rank"]
        out = self.model(obs, P, c, got, config, dtype, P["rank0"], rank, "load")
        # The same without a card, and new ones.
        obs.count("custom")
        if bad == "evil":
            (d / "evil").rmdir()
        got = hub.load_custom_model(file, config, gangs=gangs, dtype=dtype, mmap=P["mmap"], restrict=None if bad != "evil" else False)
        self.model(obs, P, c, got, config, dtype, False, rank, "custom")
        if bad == "none":
            pairs = list(hub.iter_checkpoint(file, config, gangs=gangs))
            sd = self.state(c, P)
            obs.check(sorted(k for k, _ in pairs) == sorted(sd) and all(torch.equal(v, sd[k]) for k, v in pairs), "iter-checkpoint", lambda: f"{[k for k, _ in pairs]}, not {sorted(sd)}")
        obs.count("created")
        torch.manual_seed(rank)
        new = hub.create_new_model(config, gangs=gangs, dtype=dtype, init_rank0_only=P["rank0"])
        self.model(obs, P, c, new, config, dtype, P["rank0"], rank, "new", values=False)
        if P["rank0"] and rank:
            return "rank0" if out is None else out
        values = {k: v.double().tolist() for k, v in new.state_dict().items()}
        if P["family"] == "toy" or gangs is None:
            meta = hub.create_new_model(config, gangs=gangs, dtype=dtype, meta=True) if P["family"] == "toy" else None
            obs.check(meta is None or all(p.device.type == "meta" for p in meta.parameters()), "meta", "not on the meta device")
        return "rank0" if P["rank0"] else [values if P["family"] == "toy" else None, out]

    def model(self, obs, P, c, m, config, dtype, rank0, rank, how, values=True):
        import torch

        dtype = dtype or torch.float32
        obs.check(isinstance(m, STATE["Toy"]) and m.config == config, "model-config", lambda: f"{how}: {m.config}, not {config}")
        obs.check(m.out.weight is m.inp.weight, "tied", f"{how}: weights are no longer tied")
        if rank0 and rank > 0:
            obs.count("rank0_only")
            if P["family"] == "toy":
                obs.check(all(p.device.type == "meta" for p in m.parameters()), "rank0-only", f"{how}: not on the meta device")
            return None
        obs.count("meta" if P["family"] == "toy" else "real")
        got, want = m.state_dict(), self.state(c, P)
        obs.check(all(v.dtype == dtype and v.device.type == "cpu" for v in got.values()), "dtype", lambda: f"{how}: {[(k, v.dtype) for k, v in got.items()]}, not {dtype}")
        if values:
            obs.check(got.keys() == want.keys() and all(torch.equal(v, want[k].to(dtype)) for k, v in got.items()), "weights", lambda: f"{how}: {got}, not {want}")
        for layer in m.layers:
            t = torch.arange(config.dim) * config.scale
            obs.check(layer.table.dtype == torch.float32 and torch.equal(layer.table, t), "buffers", lambda: f"{how}: {layer.table}, not {t}")
        return {k: v.double().tolist() for k, v in got.items()} if values else None

    def downloads(self, obs, d, gangs):
        """Only the first rank fetches, the others after it."""
        obs.count("downloads")
        calls = [json.loads(x) for x in (d / "downloads").read_text().splitlines()]
        mine = [x for x in calls if x[0] == STATE["rank"]]
        fetches = [x for x in calls if not x[3]]
        obs.check(all(x[0] == 0 for x in fetches) and len(fetches) == 1 and len(mine) > 0, "downloads", lambda: f"{calls}")


def store_cards(d):
    return [json.loads(x) for x in (d / "cards" / "all.yaml").read_text().split("---\n")]


if __name__ == "__main__":
    main(C41())
