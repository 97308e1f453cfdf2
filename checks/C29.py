"""C29: asset names resolve deterministically."""
import copy
import os
import random
import shutil
from pathlib import Path

from vlib import Check, main, scratch

NAMES = ["a", "b", "c", "d", "long-name_1.0", "a b"]
ENVS = ["user", "cluster", "env 2"]
FIELDS = ["f1", "f2", "f3", "uri", "rel", "n"]


class Missing(Exception):
    pass


class Cyclic(Exception):
    pass


class Ref:
    """The documented resolution, on the records as written."""

    def __init__(self, records, default_env):
        self.records = records  # canonical name -> (fields, directory or None, source)
        self.envs = ["user"] + ([default_env.strip()] if default_env and default_env.strip() else [])

    def chain(self, query):
        """The merged records from the asset to its last base (None: not found)."""
        name, at, env = query.partition("@")
        name = name.strip()
        if at:
            envs = [env.strip()] if env.strip() else []
        else:
            envs = self.envs
        if not name or f"{name}@" not in self.records:
            return None
        out, seen = [], []
        while name is not None:
            if name in seen:
                raise Cyclic(name)
            seen.append(name)
            if f"{name}@" not in self.records:
                raise Missing(name)
            fields, folder, source = self.records[f"{name}@"]
            merged = {k: (v, folder) for k, v in fields.items()}
            for e in envs:
                over = self.records.get(f"{name}@{e}")
                if over is not None:
                    merged.update({k: (v, over[1]) for k, v in over[0].items()})
                    source = over[2]
                    break
            out.append((name, merged, source))
            base = merged.get("base", (None, None))[0]
            name = base.strip() if base is not None else None
        return out

    def get(self, chain, field):
        for _, merged, _ in chain:
            if field in merged:
                return merged[field]
        return None


class C29(Check):
    id = "C29"
    rule = "every query on real stores gives the fields (and paths, and configurations) of a reference resolver over the records as written, in any order of queries and whatever callers do to earlier results; faulty sources are reported"
    required = ["retrieved", "not_found", "env_override", "inherited", "paths", "inherited_paths", "cyclic", "missing_base", "found_cards", "scribbles", "bad_sources", "duplicates", "configs", "typed"]
    assumptions = ["sources are read once, when the store is built, as documented"]

    def gen(self, rng, tier):
        for _ in range(700 if tier == "quick" else 25000):
            yield dict(seed=rng.randrange(1 << 40), bad=rng.random() < 0.25)

    def setup_worker(self):
        import fairseq2.recipe  # noqa: F401
        self.dir = scratch()

    # -- generation

    def record(self, rng, name):
        rec = {}
        for f in FIELDS:
            if rng.random() < 0.45:
                rec[f] = {
                    "uri": lambda: rng.choice(["https://h.org/x?y=1#z", "file:///abs/p%20q", "hg://o/n", "/abs/dir name/x.pt", "/abs/#1?.pt"]),
                    "rel": lambda: rng.choice(["x.pt", "sub/y.pt", "./z.pt", "../up.pt", "with space/\u00fc.pt", "a%b#c"]),
                    "n": lambda: rng.choice([1, 2.5, True, "s", None, [1], {"k": 2}]),
                }.get(f, lambda: rng.choice([f"v{rng.randrange(9)}", rng.randrange(9), None, [1, {"q": [2]}], {"x": {"y": rng.randrange(9)}}]))()
        if rng.random() < 0.5:
            cfg = {}
            if rng.random() < 0.6:
                cfg["i"] = rng.randrange(100)
            if rng.random() < 0.5:
                cfg["l"] = [rng.randrange(9)]
            if rng.random() < 0.5:
                cfg["d"] = {rng.choice("xyz"): rng.randrange(9)}
            if rng.random() < 0.3:
                cfg["_set_"] = {"d": {"w": rng.randrange(9)}}
            if rng.random() < 0.3:
                cfg["s"] = rng.choice(["t", "${env:V29}", "u"])
            if rng.random() < 0.2:
                cfg["_del_"] = [rng.choice(["i", "l", "d"])]
            rec["cfg"] = cfg
        if rng.random() < 0.5:
            rec["base"] = rng.choice([n for n in NAMES if n != name or rng.random() < 0.1] + ["gone"] * (rng.random() < 0.2))
        return rec

    def build(self, c, rng, obs):
        """Writes sources and returns (providers, reference records)."""
        from ruamel.yaml import YAML

        from fairseq2.assets.metadata_provider import (
            FileAssetMetadataSource, InMemoryAssetMetadataSource, StandardFileAssetMetadataLoader, YamlAssetMetadataFileLoader)
        from fairseq2.file_system import LocalFileSystem
        from fairseq2.utils.yaml import RuamelYamlLoader

        top = self.dir / "s"
        shutil.rmtree(top, ignore_errors=True)
        top.mkdir()
        fs = LocalFileSystem()
        loader = StandardFileAssetMetadataLoader(fs, YamlAssetMetadataFileLoader(RuamelYamlLoader(fs)))
        ids = [f"{n}@" for n in rng.sample(NAMES, rng.randint(2, len(NAMES)))]
        ids += [f"{n}@{e}" for n in NAMES for e in ENVS if rng.random() < 0.25]
        rng.shuffle(ids)
        k = rng.randint(1, 4)
        parts = [[] for _ in range(k)]
        for i in ids:
            rng.choice(parts).append(i)
        records, sources, memory = {}, [], []
        yaml = YAML(typ="safe", pure=True)
        for j, part in enumerate(parts):
            spell = lambda i: rng.choice([i, i.rstrip("@") if i.endswith("@") else i, " " + i.replace("@", " @ ") + " "])
            spell_base = lambda r: {**r, **({"base": rng.choice([r["base"], f" {r['base']} "])} if "base" in r else {})}
            if rng.random() < 0.3:
                entries = []
                for i in part:
                    r = self.record(rng, i.split("@")[0])
                    records[i] = (r, None, f"mem{j}")
                    entries.append({"name": spell(i), **spell_base(copy.deepcopy(r))})
                before = copy.deepcopy(entries)
                sources.append(InMemoryAssetMetadataSource(f"mem{j}", entries))
                memory.append((entries, before))
                continue
            folder = top / f"p{j}"
            folder.mkdir()
            (folder / "notes.txt").write_text("name: [not yaml")
            files = [folder / f for f in rng.sample(["x.yaml", "y.yml", "sub/z.yaml", "sub/deep er/w.yaml"], rng.randint(1, 4))]
            docs = {f: [] for f in files}
            for i in part:
                f = rng.choice(files)
                r = self.record(rng, i.split("@")[0])
                records[i] = (r, f.parent, f"path:{folder}")
                docs[f].append({"name": spell(i), **spell_base(r)})
            single = len([f for f in files if docs[f]]) == 1 and rng.random() < 0.3
            for f in files:
                f.parent.mkdir(parents=True, exist_ok=True)
                with open(f, "w", encoding="utf-8") as fp:
                    yaml.dump_all(docs[f], fp)
            path = folder
            if single:
                path = next(f for f in files if docs[f])
                for i in part:
                    r = records[i]
                    records[i] = (r[0], r[1], f"path:{path}")
            sources.append(FileAssetMetadataSource(path, loader, not_exist_ok=False))
        return sources, records, memory, loader, top

    # -- faulty sources

    def bad(self, rng, obs):
        from fairseq2.assets.metadata_provider import AssetMetadataError, AssetSourceNotFoundError, FileAssetMetadataSource, InMemoryAssetMetadataSource
        from fairseq2.assets.store import StandardAssetStore
        c = {}
        sources, records, _, loader, top = self.build(c, rng, obs)
        name = rng.choice(sorted(records))
        folder = top / "bad"
        folder.mkdir()
        kind = rng.choice(["dup", "dup", "dup_inside", "yaml", "noname", "emptyname", "badname", "intname", "badbase", "intbase", "list", "gone"])
        text = {
            "dup": f'name: "{name}"\n', "dup_inside": 'name: u1\n---\nname: "u1@"\n', "yaml": "name: u1\nf: [1\n", "noname": "f: 1\n", "emptyname": "name: ''\n", "badname": f"name: '{rng.choice(['a@b@c', '@b', ' @ '])}'\n",
            "intname": "name: 3\n", "badbase": f"name: u1\nbase: '{rng.choice(['a@user', ' '])}'\n", "intbase": "name: u1\nbase: 3\n", "list": "- 1\n", "gone": "",
        }[kind]
        want = AssetMetadataError
        if kind in ("yaml", "list", "gone") or rng.random() < 0.6:
            if kind == "gone":
                src, want = FileAssetMetadataSource(folder / "nope.yaml", loader, not_exist_ok=False), AssetSourceNotFoundError
                list(FileAssetMetadataSource(folder / "nope.yaml", loader, not_exist_ok=True).load())
            else:
                (folder / "f.yaml").write_text(text)
                src = FileAssetMetadataSource(folder, loader, not_exist_ok=False)
        else:
            from ruamel.yaml import YAML
            src = InMemoryAssetMetadataSource("bad", list(YAML(typ="safe", pure=True).load_all(text)))
        obs.count("duplicates" if "dup" in kind else "bad_sources")
        obs.state("bad", kind)
        sources.insert(rng.randint(0, len(sources)), src)
        try:
            store = StandardAssetStore(p for s in sources for p in s.load())
            obs.violate("bad-source-accepted", f"{kind}: {text!r}: {sorted(store.asset_names)}")
        except want as e:
            obs.check(want is AssetSourceNotFoundError or e.source in (f"path:{folder}", "bad") or kind == "dup", "bad-source-not-named", lambda: f"{kind}: {e.source}")

    # -- queries

    def run(self, c, obs):
        rng = random.Random(c["seed"])
        if c["bad"]:
            return self.bad(rng, obs)
        from fairseq2.assets.card import AssetCardError
        from fairseq2.assets.store import AssetNotFoundError, StandardAssetStore

        sources, records, memory, _, _ = self.build(c, rng, obs)
        default_env = rng.choice([None, None, "cluster", " env 2 ", "user", "other", ""])
        store = StandardAssetStore((p for s in sources for p in s.load()), default_env=default_env)
        for entries, before in memory:
            obs.check(entries == before, "source-modified", lambda: f"{before} became {entries}")
        ref = Ref(records, default_env)
        obs.check(set(store.asset_names) == set(records), "asset-names-differ", lambda: f"{store.asset_names} {set(records)}")
        queries = [n for n in NAMES] + [f"{n}@" for n in NAMES] + [f"{n}@{e}" for n in NAMES for e in ENVS]
        queries += ["", "@", " ", "nope", "nope@user", "a@nowhere", " a ", " b @ user ", "a@user@x", "a@cluster "]
        order = [rng.choice(queries) for _ in range(25)] + rng.sample(queries, 15)
        for q in order:
            try:
                chain = ref.chain(q)
                err = None
            except (Cyclic, Missing) as e:
                chain, err = None, e
            try:
                card = store.maybe_retrieve_card(q) if rng.random() < 0.5 else store.retrieve_card(q)
            except AssetNotFoundError as e:
                card = None
                obs.check(err is None and chain is None, "existing-not-found", lambda: f"{q!r}: {e}")
            except AssetCardError as e:
                obs.count("cyclic" if isinstance(err, Cyclic) else "missing_base")
                obs.check(err is not None, "card-error", lambda: f"{q!r}: {e}")
                obs.check(str(err) in str(e), "base-not-named", lambda: f"{err}: {e}")
                continue
            except RecursionError as e:
                obs.violate("infinite-recursion", f"{q!r} in {records}: {type(err).__name__}")
                continue
            if err is not None:
                obs.violate("broken-base-accepted", f"{q!r}: {err!r} but got {card}")
                continue
            if chain is None:
                obs.count("not_found")
                obs.check(card is None, "unknown-found", lambda: f"{q!r}: {card}")
                continue
            if not obs.check(card is not None, "existing-not-found", lambda: f"{q!r}"):
                continue
            obs.count("retrieved")
            obs.state(len(chain), len(chain[0][1]), "@" in q)
            obs.check(card.name == chain[0][0], "name-differs", lambda: f"{q!r}: {card.name}")
            obs.check(card.metadata.get("__source__") == chain[0][2], "source-differs", lambda: f"{q!r}: {card.metadata.get('__source__')} instead of {chain[0][2]}")
            self.fields(card, chain, ref, rng, obs, q)
            self.config(card, chain, rng, obs, q)
            if rng.random() < 0.5:
                obs.count("scribbles")
                x = card
                while x is not None:
                    for v in x.metadata.values():
                        if isinstance(v, list):
                            v.append("scribble")
                        elif isinstance(v, dict):
                            v["scribble"] = 1
                    if isinstance(x.metadata, dict):
                        x.metadata["f1"] = "scribble"
                        x.metadata["base"] = "scribble"
                    x = x.base
        # find_cards
        for _ in range(4):
            f = rng.choice(FIELDS[:3])
            try:
                chains = {n[:-1]: ref.chain(n[:-1]) for n in records if n.endswith("@")}
            except (Cyclic, Missing):
                break
            vals = [ref.get(ch, f)[0] for ch in chains.values() if ref.get(ch, f)]
            v = rng.choice(vals) if vals and rng.random() < 0.8 else "nothing"
            want = sorted(n for n, ch in chains.items() if ref.get(ch, f) and ref.get(ch, f)[0] == v)
            got = sorted(card.name for card in store.find_cards(f, v))
            obs.count("found_cards", len(want))
            obs.check(got == want, "found-cards-differ", lambda: f"{f}={v}: {got} instead of {want}")

    def fields(self, card, chain, ref, rng, obs, q):
        from fairseq2.assets.card import AssetCardError
        for f in FIELDS + ["nofield"]:
            want = ref.get(chain, f)
            got = card.maybe_get_field(f)
            obs.check((got is None) == (want is None) and card.has_field(f) == (want is not None), "field-presence", lambda: f"{q!r}.{f}: {got}, should be {want}")
            if want is None or got is None:
                try:
                    card.field(f)
                    obs.violate("missing-field-returned", f"{q!r}.{f}")
                except AssetCardError as e:
                    obs.check(f in str(e), "field-not-named", lambda: str(e))
                continue
            own = chain[0][1]
            if f not in own:
                obs.count("inherited")
            elif f"{chain[0][0]}@" in ref.records and ref.records[f"{chain[0][0]}@"][0].get(f, "?") != want[0]:
                obs.count("env_override")
            obs.check(got.value == want[0] and type(got.value) is type(want[0]), "field-differs", lambda: f"{q!r}.{f}: {got.value!r} instead of {want[0]!r}")
            t = rng.choice([bool, int, float, str])
            try:
                x = got.as_(t)
                obs.count("typed")
                obs.check(isinstance(want[0], t) and x == want[0], "type-accepted", lambda: f"{want[0]!r} as {t}")
            except AssetCardError:
                obs.check(not isinstance(want[0], t), "type-rejected", lambda: f"{want[0]!r} as {t}")
            if f in ("uri", "rel"):
                obs.count("paths")
                if f not in own:
                    obs.count("inherited_paths")
                v, folder = want
                try:
                    uri = got.as_uri()
                except AssetCardError as e:
                    obs.check(f == "rel" and folder is None, "uri-rejected", lambda: f"{q!r}.{f}={v!r}: {e}")
                    continue
                if f == "rel":
                    if obs.check(folder is not None, "relative-path-of-no-file", lambda: f"{q!r}.{f}={v!r}: {uri}"):
                        obs.check(os.path.normpath(uri.to_path()) == os.path.normpath(folder / v), "relative-path-differs", lambda: f"{q!r}.{f}={v!r}: {uri.to_path()} instead of {folder / v}")
                elif "://" in v:
                    obs.check(str(uri) == v, "uri-differs", lambda: f"{uri} instead of {v}")
                else:
                    obs.check(uri.scheme == "file" and uri.to_path() == Path(v), "absolute-path-differs", lambda: f"{uri.to_path()} instead of {v}")

    def config(self, card, chain, rng, obs, q):
        from C30 import Env, ref_merge

        from fairseq2.assets.card import AssetCardError, StandardAssetConfigLoader
        from fairseq2.utils.config import ReplaceEnvDirective, StandardConfigMerger, StandardConfigProcessor
        from fairseq2.utils.structured import StandardValueConverter

        loader = StandardAssetConfigLoader(StandardValueConverter(), StandardConfigMerger(), StandardConfigProcessor([ReplaceEnvDirective(Env({"V29": "vv"}))]))
        base = Cfg()
        out = {"i": 0, "l": [0], "d": {"x": 0}, "s": "s"}
        for _, merged, _ in reversed(chain):
            if "cfg" in merged:
                out = ref_merge(out, merged["cfg"][0])
                if out.get("s") == "${env:V29}":
                    out["s"] = "vv"
        try:
            got = loader.load(card, base, "cfg")
        except AssetCardError as e:
            obs.violate("config-rejected", f"{q!r}: {e.__cause__}")
            return
        obs.count("configs")
        want = Cfg(**out)
        obs.check(got == want and base == Cfg(), "config-differs", lambda: f"{q!r}: {got} instead of {want}")


def _cfg():
    import dataclasses
    return dataclasses.make_dataclass("Cfg", [
        ("i", int, dataclasses.field(default=0)), ("l", list[int], dataclasses.field(default_factory=lambda: [0])),
        ("d", dict[str, int], dataclasses.field(default_factory=lambda: {"x": 0})), ("s", str, dataclasses.field(default="s"))])


Cfg = _cfg()

if __name__ == "__main__":
    main(C29())
