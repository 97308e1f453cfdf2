"""C16: parquet loading delivers every row once, whatever the configuration."""
import collections
import gc
import math
import os
import pickle
import random
import shutil
import sys
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main, scratch

TRACES = {"__batch_index", "__fragment_index", "__filename", "__row_groups_ids", "__index_in_fragement"}
INTS = ["int8", "uint8", "int16", "int32", "int64"]


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    return type(a) is type(b) and a == b


class C16(Check):
    id = "C16"
    native = True
    rule = (
        "random parquet datasets (files, row groups, partitions) are streamed, loaded and batched by the real pipeline on every rank with random configurations; "
        "rows carry unique ids, and each delivered row is compared with the row that was written"
    )
    required = [
        "streams", "rows_streamed", "resumed", "limited", "filtered_partitions", "even", "circular", "loads", "rows_loaded", "filtered_rows", "null_rows", "renamed", "traced", "cached",
        "buckets", "rows_batched", "long_rows", "size_limits", "length_limits", "ends", "resumed_batches", "tensors", "sliced_tensors", "transforms", "smoothed",
    ]
    assumptions = ["filters are compared with Python predicates"]
    workers = 6
    case_timeout = 90

    def setup_worker(self):
        import fairseq2.data.parquet  # noqa: F401

        warnings.filterwarnings("ignore")

    def gen(self, rng, tier):
        n = 2500 if tier == "quick" else 25000
        for _ in range(n):
            yield {"kind": rng.choices(["stream", "load", "bucket", "end", "torch", "transform", "smooth"], [8, 7, 6, 4, 4, 4, 1])[0], "s": rng.randrange(1 << 40)}

    def run(self, case, obs):
        rng = random.Random(case["s"])
        obs.count("kind_" + case["kind"])
        d = scratch()
        try:
            getattr(self, "run_" + case["kind"])(rng, obs, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # -- data -----------------------------------------------------------------
    def rows(self, rng, n, base, nulls, big):
        out = []
        for i in range(n):
            maybe = lambda v: None if rng.random() < nulls else v  # noqa: E731
            out.append({
                "id": base + i,
                "len": maybe(rng.choice([0, 1, 2, 3, 5, 8, 13]) if not big else rng.choice([40, 90, 120, 127])),
                "text": maybe("".join(rng.choice("abcé ☃") for _ in range(rng.randint(0, 6)))),
                "seq": maybe([rng.randrange(100) for _ in range(rng.randint(0, 5))]),
                "val": maybe(rng.choice([0.25, 0.5, 0.75, -1.5])),
                "feat": [float(base + i), 0.5],
            })
        return out

    def schema(self, lt, large=False):
        import pyarrow as pa

        ls = pa.large_list if large else pa.list_
        return pa.schema([("id", pa.int64()), ("len", getattr(pa, lt)()), ("text", pa.large_string() if large else pa.string()), ("seq", ls(pa.int32())), ("val", pa.float64()), ("feat", pa.list_(pa.float32(), 2))])

    def dataset(self, rng, d, nulls=None):
        """Returns (path, rows by id, [(file, partition, [row ids of each row group])], description)."""
        import pyarrow as pa
        import pyarrow.parquet as pq

        layout = rng.choice(["single", "flat", "hive", "hive", "listed"])
        nulls = rng.choice([0, 0, 0.2]) if nulls is None else nulls
        lt = rng.choice(INTS)
        schema = self.schema(lt)
        rows, files = {}, []
        base = 1
        root = d / "data"
        root.mkdir()
        nfiles = 1 if layout == "single" else rng.randint(1, 6)
        for i in range(nfiles):
            part = {}
            sub = root
            if layout == "hive":
                part = {"lang": rng.choice(["en", "fr", "de"]), "num": rng.choice([1, 2])}
                if rng.random() < 0.1:
                    part["lang"] = "x y"
                sub = root / f"lang={part['lang'].replace(' ', '%20')}" / f"num={part['num']}"
                sub.mkdir(parents=True, exist_ok=True)
            n = rng.choice([0, 1, 2, 5, 9, 12, 20]) if rng.random() < 0.9 else 40
            rs = self.rows(rng, n, base, nulls, False)
            base += n
            f = sub / f"f{i:02d}.parquet"
            k = rng.choice([1, 2, 3, 5, 50])
            pq.write_table(pa.Table.from_pylist(rs, schema=schema), f, row_group_size=k)
            ids = [r["id"] for r in rs]
            for r in rs:
                rows[r["id"]] = {**r, **part}
            files.append((str(f), part, [ids[j : j + k] for j in range(0, n, k)]))
        if layout == "single":
            path = files[0][0]
        elif layout == "listed":
            rng.shuffle(files)
            path = [f[0] for f in files]
        else:
            files.sort()
            path = str(root)
        return path, rows, files, (layout, nulls, lt, nfiles, len(rows))

    def ids_of(self, frag, groups):
        """Which rows a fragment holds, from what was written."""
        by = groups[frag.path]
        return [i for rr in frag.row_groups for i in by[rr.id]] if by else []

    # -- streaming ------------------------------------------------------------
    def stream_config(self, rng, path, files, rows):
        from fairseq2.data.parquet.fragment_streaming import FragmentStreamingConfig, ParquetDatasetLimitOptions

        window = rng.choice([-1, 0, 0, 1, 2, 3, 7, 40])
        split = rng.random() < 0.7
        epochs = rng.choice([1, 1, 2, 3])
        lim = None
        if rng.random() < 0.4:
            lim = ParquetDatasetLimitOptions()
            for k in rng.sample(["fraction_of_files", "nb_files", "nb_fragments", "nb_rows"], rng.choice([1, 1, 2])):
                setattr(lim, k, {"fraction_of_files": rng.choice([0.01, 0.3, 0.5, 0.9, 1.0]), "nb_files": rng.randint(1, 7), "nb_fragments": rng.randint(1, 12), "nb_rows": rng.randint(1, 30)}[k])
            if not all(g for _, _, g in files):  # whether an empty file is a fragment is not specified
                lim.nb_fragments = None
        filt, pred = None, lambda p: True
        if files[0][1] and rng.random() < 0.6:
            opts = [
                ('pc.field("lang") == "en"', lambda p: p["lang"] == "en"),
                ('pc.field("num") > 1', lambda p: p["num"] > 1),
                ('pc.is_in(pc.field("lang"), pa.array(["fr", "de"]))', lambda p: p["lang"] in ("fr", "de")),
                ('[("lang", "!=", "en"), ("num", "=", 1)]', lambda p: p["lang"] != "en" and p["num"] == 1),
            ]
            filt, pred = rng.choice(opts)
            if rng.random() < 0.3:
                f2, p2 = rng.choice(opts)
                p1 = pred
                filt, pred = [filt, f2], lambda p: p1(p) and p2(p)
        cfg = FragmentStreamingConfig(
            parquet_path=path, partition_filters=filt, limit=lim, split_to_row_groups=split, seed=rng.randrange(1000), fragment_shuffle_window=window,
            files_circular_shift=rng.random() < 0.25, nb_epochs=epochs,
        )
        # What the configuration selects: pieces in the order of the dataset.
        sel = [f for f in files if pred(f[1])]
        if lim is not None and lim.fraction_of_files is not None and sel:
            sel = sel[: max(1, int(round(lim.fraction_of_files * len(sel))))]
        if lim is not None and lim.nb_files is not None:
            sel = sel[: lim.nb_files]
        pieces = []
        for f, _, groups in sel:
            if split:
                pieces += [list(g) for g in groups]
            else:
                pieces.append([i for g in groups for i in g])
        if lim is not None and lim.nb_fragments is not None:
            pieces = pieces[: lim.nb_fragments]
        if lim is not None and lim.nb_rows is not None:
            n, out = 0, []
            for p in pieces:
                out.append(p)
                n += len(p)
                if n >= lim.nb_rows:
                    break
            pieces = out
        return cfg, pieces, filt, lim

    def run_stream(self, rng, obs, d):
        from fairseq2.data.parquet.fragment_streaming import ParquetFragmentStreamer

        path, rows, files, desc = self.dataset(rng, d)
        cfg, pieces, filt, lim = self.stream_config(rng, path, files, rows)
        world = rng.choice([1, 1, 2, 3, 4])
        even = rng.random() < 0.2 and not (cfg.files_circular_shift and cfg.fragment_shuffle_window != -1)
        groups = {f: g for f, _, g in files}
        what = lambda: f"{desc}, {cfg}, {world} ranks, even={even}"  # noqa: E731

        def build(rank):
            return ParquetFragmentStreamer(cfg).build_pipeline(rank, world, even).and_return()

        out = []
        for r in range(world):
            got = [(f.path, tuple(rr.id for rr in f.row_groups), self.ids_of(f, groups)) for f in build(r)]
            out.append(got)
        obs.count("streams")
        obs.state("stream", desc, cfg.fragment_shuffle_window, cfg.split_to_row_groups, cfg.nb_epochs, world, even, cfg.files_circular_shift, str(filt), str(lim))
        if lim is not None:
            obs.count("limited")
        if filt is not None:
            obs.count("filtered_partitions")
        counts = collections.Counter(i for got in out for _, _, ids in got for i in ids)
        want = {i: cfg.nb_epochs for p in pieces for i in p}
        nonempty = [p for p in pieces if p]
        obs.count("rows_streamed", sum(counts.values()))
        if even:
            obs.count("even")
            obs.check(len({len(g) for g in out}) == 1, "even-sharding", lambda: f"{what()}: fragments per rank {[len(g) for g in out]}")
            extra = {i: n for i, n in counts.items() if n > want.get(i, 0)}
            obs.check(not extra, "row-twice", lambda: f"{what()}: {extra}")
            # Empty files may or may not be fragments.
            total = sum(len(g) for g in out)
            lo = len(nonempty) * cfg.nb_epochs
            obs.check(total > lo - world, "row-missing", lambda: f"{what()}: {total} of {lo} fragments delivered")
        else:
            obs.check(counts == want, "rows", lambda: f"{what()}: missing {sorted(set(want) - set(counts))[:9]}, unexpected {sorted(set(counts) - set(want))[:9]}, wrong number of times { {i: (counts[i], n) for i, n in want.items() if counts[i] and counts[i] != n} }"[:1500])
        if cfg.files_circular_shift and cfg.fragment_shuffle_window != -1:
            obs.count("circular")
        if world == 1 and cfg.fragment_shuffle_window == 0 and not even:
            seq = [ids for _, _, ids in out[0] if ids]
            obs.check(seq == nonempty * cfg.nb_epochs, "order", lambda: f"{what()}: {seq[:9]} instead of {nonempty[:9]}")
        if cfg.fragment_shuffle_window == -1 and world == 1 and not even and nonempty:
            # Shuffled within each epoch.
            seq = [tuple(ids) for _, _, ids in out[0] if ids]
            m = len(nonempty)
            for e in range(cfg.nb_epochs):
                obs.check(sorted(seq[e * m : (e + 1) * m]) == sorted(map(tuple, nonempty)), "epoch", lambda: f"{what()}: epoch {e}: {seq}"[:1200])
        # The same configuration delivers the same, also after a reset, and
        # continues where it was saved.
        r = rng.randrange(world)
        p = build(r)
        again = [(f.path, tuple(rr.id for rr in f.row_groups), self.ids_of(f, groups)) for f in p]
        obs.check(again == out[r], "not-deterministic", lambda: f"{what()}: rank {r}")
        p.reset()
        again = [(f.path, tuple(rr.id for rr in f.row_groups), self.ids_of(f, groups)) for f in p]
        obs.check(again == out[r], "reset", lambda: f"{what()}: rank {r}: {[a[2] for a in again][:9]} instead of {[a[2] for a in out[r]][:9]}")
        n = len(out[r])
        for k in {0, n, rng.randint(0, n)}:
            p = build(r)
            it = iter(p)
            for _ in range(k):
                next(it)
            sd = pickle.loads(pickle.dumps(p.state_dict()))
            q = build(r)
            q.load_state_dict(sd)
            rest = [(f.path, tuple(rr.id for rr in f.row_groups), self.ids_of(f, groups)) for f in q]
            obs.check(rest == out[r][k:], "resume", lambda: f"{what()}: rank {r} saved after {k}: {[a[2] for a in rest][:9]} instead of {[a[2] for a in out[r][k:]][:9]}")
            obs.count("resumed")

    # -- loading --------------------------------------------------------------
    def load_config(self, rng, d, rows, part):
        from dataclasses import field, make_dataclass
        from typing import List, Optional

        from fairseq2.data.parquet.fragment_loading import FragmentLoadingConfig, NamedColumns

        names = ["id", "len", "text", "seq", "val", "feat"] + (["lang", "num"] if part else [])
        cols, mapper, sel = None, {}, list(names)
        if rng.random() < 0.7:
            sel = ["id"] + rng.sample(names[1:], rng.randint(0, len(names) - 1))
            rng.shuffle(sel)
            named = {}
            extra = []
            for c in sel:
                if rng.random() < 0.6 or c == "id":
                    named[rng.choice([c, "my_" + c])] = c
                else:
                    extra.append(c)
            fields = [(k, Optional[str], field(default=v)) for k, v in named.items()]
            if rng.random() < 0.3:
                fields.append(("nothing", Optional[str], field(default=None)))
            if rng.random() < 0.2:
                fields.append(("missing", Optional[str], field(default="no_such_column")))
            fields.append(("extra_columns", Optional[List[str]], field(default_factory=lambda: list(extra))))
            cols = make_dataclass("Cols", fields, bases=(NamedColumns,))()
            mapper = {v: k for k, v in named.items()}
        ids = sorted(rows)
        some = rng.sample(ids, min(len(ids), rng.randint(0, 15))) if ids else []
        opts = [
            ('pc.field("len") > 2', lambda r: r["len"] is not None and r["len"] > 2),
            (f'pc.is_in(pc.field("id"), pa.array({some}, pa.int64()))', lambda r: r["id"] in some),
            ('(pc.field("val") < 0.6) & (pc.field("len") <= 5)', lambda r: r["val"] is not None and r["len"] is not None and r["val"] < 0.6 and r["len"] <= 5),
            ('pc.list_value_length(pc.field("seq")) >= 2', lambda r: r["seq"] is not None and len(r["seq"]) >= 2),
            ('pa.compute.greater(pa.compute.utf8_length(pa.dataset.field("text")), 3)', lambda r: r["text"] is not None and len(r["text"]) > 3),
            ('pc.field("val").is_null()', lambda r: r["val"] is None),
            ('[("len", ">=", 1)]', lambda r: r["len"] is not None and r["len"] >= 1),
        ]
        if part:
            opts += [('pc.field("num") == 1', lambda r: r["num"] == 1), ('(pc.field("lang") == "en") | (pc.field("len") < 2)', lambda r: r["lang"] == "en" or (r["len"] is not None and r["len"] < 2))]
        filt, pred = None, lambda r: True
        if rng.random() < 0.6:
            filt, pred = rng.choice(opts)
            if rng.random() < 0.3:
                f2, p2 = rng.choice(opts)
                p1 = pred
                filt, pred = [filt, f2], lambda r: p1(r) and p2(r)
        cfg = FragmentLoadingConfig(
            columns=cols, rename_columns=rng.random() < 0.7, add_fragment_traces=rng.random() < 0.5, drop_null=rng.random() < 0.5, min_batch_size=rng.choice([0, 1, 1, 2, 3]), filters=filt,
            non_deterministic_read=rng.random() < 0.2, use_threads=rng.random() < 0.2, nb_prefetch=rng.choice([0, 0, 2]), num_parallel_fragments=rng.choice([1, 1, 3]),
            cache=rng.random() < 0.2, cache_dir=str(d / "cache"),
        )
        if not cfg.rename_columns:
            mapper = {}

        def expect(ids):
            """The rows of a fragment that the configuration keeps."""
            out = [rows[i] for i in ids if pred(rows[i])]
            if cfg.drop_null:
                out = [r for r in out if all(r[c] is not None for c in sel)]
            if len(out) < cfg.min_batch_size:
                return []
            return [{mapper.get(c, c): r[c] for c in sel} for r in out]

        return cfg, expect, {mapper.get(c, c) for c in sel}, sel

    def py_rows(self, table):
        out = [r for r in table.to_pylist()]
        return out

    def run_load(self, rng, obs, d):
        import pyarrow.parquet as pq
        from fairseq2.data.data_pipeline import read_sequence
        from fairseq2.data.parquet.fragment_loading import ParquetFragmentLoader
        from fairseq2.data.parquet.fragment_streaming.primitives import init_parquet_dataset
        from fairseq2.data.parquet.utils import split_fragment_in_row_groups

        path, rows, files, desc = self.dataset(rng, d)
        cfg, expect, names, sel = self.load_config(rng, d, rows, files[0][1])
        groups = {f: g for f, _, g in files}
        frags = init_parquet_dataset(path).get_fragments()
        if rng.random() < 0.6:
            frags = [x for f in frags for x in split_fragment_in_row_groups(f)]
        what = lambda: f"{desc}, {cfg}, {cfg.columns}"  # noqa: E731
        want = [expect(self.ids_of(f, groups)) for f in frags]
        obs.count("loads")
        obs.state("load", desc[:3], str(cfg.filters)[:60], cfg.drop_null, cfg.min_batch_size, cfg.add_fragment_traces, cfg.rename_columns, tuple(sel), cfg.cache)
        tables = list(ParquetFragmentLoader(cfg).apply(read_sequence(frags)).and_return())
        if cfg.cache:
            obs.count("cached")
            n = len(os.listdir(d / "cache")) if tables else 0
            obs.check(n == len(tables), "cache", lambda: f"{what()}: {n} files for {len(tables)} tables")
        for t in tables:
            extra = set(t.column_names) - names
            # A fragment's missing columns cannot be returned.
            obs.check(extra == (TRACES if cfg.add_fragment_traces else set()), "columns", lambda: f"{what()}: {t.column_names}, expected {sorted(names)}")
            obs.check(names <= set(t.column_names) and len(t.column_names) == len(set(t.column_names)), "columns", lambda: f"{what()}: {t.column_names}, expected {sorted(names)}")
        got = [[{k: v for k, v in r.items() if k not in TRACES} for r in t.to_pylist()] for t in tables]
        flat = [r for g in got for r in g]
        exp = [r for g in want for r in g]
        obs.check(same(flat, exp), "rows", lambda: f"{what()}: {len(flat)} rows instead of {len(exp)}: {next(((a, b) for a, b in zip(flat + [None], exp + [None]) if not same(a, b)), None)}"[:1800])
        full = [g for g in want if g]
        obs.check([len(g) for g in got if g] == [len(g) for g in full], "tables", lambda: f"{what()}: tables of {[len(g) for g in got]} rows instead of {[len(g) for g in full]}")
        obs.count("rows_loaded", len(flat))
        if cfg.filters is not None:
            obs.count("filtered_rows", len(rows) - len(flat))
        if cfg.drop_null:
            obs.count("null_rows")
        if cfg.rename_columns and cfg.columns is not None:
            obs.count("renamed")
        if cfg.add_fragment_traces:
            idc = next(iter({"id", "my_id"} & names))
            for t in tables:
                for r in t.to_pylist():
                    f = r["__filename"]
                    f = f if f in groups else next((g for g in groups if g.endswith(f)), None)
                    obs.check(f is not None and groups[f][r["__row_groups_ids"]][r["__index_in_fragement"]] == r[idc], "trace", lambda: f"{what()}: {r}")
                    obs.count("traced")
        if cfg.cache:
            tables, t = None, None
            gc.collect()
            left = os.listdir(d / "cache") if (d / "cache").exists() else []
            obs.check(not left, "cache", lambda: f"{what()}: {left} left after the tables are gone")
        del pq

    # -- batching -------------------------------------------------------------
    def bucket_config(self, rng, d):
        from fairseq2.data.parquet.table_bucketing import TableBucketingConfig

        cols = rng.choice([["len"], ["seq"], ["text"], ["len", "seq"], ["seq", "text"], ["seq", None]])
        target = rng.choice([None, "size", "length", "memory"])
        mode = rng.choice([None, "batch", "batch", "tokens", "tokens"])
        if target is None and mode is None:
            mode = "batch"
        cfg = TableBucketingConfig(
            min_fragment_number=rng.choice([1, 1, 2, 3]), max_fragment_number=rng.choice([None, None, 3, 5]), combine_chunks=rng.random() < 0.5, shuffle=rng.random() < 0.4, seed=rng.randrange(1000),
            length_reducer=rng.choice(["max", "sum"]), drop_long_seq=rng.random() < 0.6, num_parallel_calls=rng.choice([1, 1, 3]), nb_prefetch=rng.choice([0, 2]), cache=rng.random() < 0.15, cache_dir=str(d / "tables"),
        )
        if target == "size":
            cfg.target_table_size = rng.choice([1, 4, 10, 30])
        elif target == "length":
            cfg.target_total_length = rng.choice([5, 20, 60])
            cfg.length_columns = cols
        elif target == "memory":
            cfg.target_table_memory = 1
        if mode == "batch":
            cfg.batch_size = rng.choice([1, 2, 3, 7])
            cfg.order_by_length = rng.random() < 0.5
            if cfg.order_by_length:
                cfg.length_columns = cols
        elif mode == "tokens":
            cfg.total_batch_length = rng.choice([4, 9, 20, 50, 400])
            cfg.order_by_length = rng.random() < 0.7
            cfg.length_columns = cols
        return cfg, target, mode

    def row_length(self, r, cfg):
        def one(c):
            v = r[c]
            return 0 if v is None else v if isinstance(v, int) else len(v)

        ls = [one(c) for c in cfg.length_columns if c is not None]
        return max(ls) if cfg.length_reducer == "max" else sum(ls)

    def check_batches(self, obs, cfg, batches, source, what):
        """`source`: the rows that came in, by id."""
        ids = [r["id"] for b in batches for r in b]
        expected = set(source)
        if cfg.total_batch_length is not None and cfg.batch_size is None and cfg.drop_long_seq:
            long = {i for i, r in source.items() if self.row_length(r, cfg) > cfg.total_batch_length}
            obs.count("long_rows", len(long))
            expected -= long
        c = collections.Counter(ids)
        obs.check(set(c) == expected and all(n == 1 for n in c.values()), "rows", lambda: f"{what()}: missing {sorted(expected - set(c))[:9]}, unexpected {sorted(set(c) - expected)[:9]}, repeated {[i for i, n in c.items() if n > 1][:9]}")
        for b in batches:
            for r in b:
                if r["id"] in source:
                    obs.check(same(r, source[r["id"]]), "row-changed", lambda: f"{what()}: {r} instead of {source[r['id']]}")
            if cfg.batch_size is not None:
                obs.count("size_limits")
                obs.check(len(b) <= cfg.batch_size, "batch-size", lambda: f"{what()}: a batch of {len(b)}")
            elif cfg.total_batch_length is not None and b:
                obs.count("length_limits")
                ls = [self.row_length(r, cfg) for r in b]
                ok = max(ls) * len(ls) <= cfg.total_batch_length or (len(ls) == 1 and not cfg.drop_long_seq)
                obs.check(ok, "batch-length", lambda: f"{what()}: a batch of lengths {ls}")
        obs.count("rows_batched", len(ids))

    def check_resume(self, rng, obs, build, batches, cfg, what):
        """A saved pipeline delivers what is left, and nothing else."""
        n = len(batches)
        k = rng.randint(0, n)
        p = build()
        it = iter(p)
        head = [next(it).to_pylist() for _ in range(k)]
        q = build()
        q.load_state_dict(pickle.loads(pickle.dumps(p.state_dict())))
        tail = [t.to_pylist() for t in q]
        got = [r["id"] for b in head + tail for r in b]
        want = [r["id"] for b in batches for r in b]
        if not cfg.shuffle and cfg.target_total_length is None:
            obs.check(got == want, "resume", lambda: f"{what()}: after {k} of {n}: {[[r['id'] for r in b] for b in tail][:6]}")
        obs.check(sorted(got) == sorted(want), "resume", lambda: f"{what()}: after {k} of {n}: missing {sorted(set(want) - set(got))[:9]}, repeated {[i for i, c in collections.Counter(got).items() if c > 1][:9]}")
        obs.count("resumed_batches")

    def run_bucket(self, rng, obs, d):
        import pyarrow as pa
        from fairseq2.data.data_pipeline import read_sequence
        from fairseq2.data.parquet.table_bucketing import TableBucketer

        cfg, target, mode = self.bucket_config(rng, d)
        big = rng.random() < 0.3
        lt = rng.choice(INTS)
        large = rng.random() < 0.2
        schema = self.schema(lt, large)
        nulls = rng.choice([0, 0, 0.3])
        source, tables = {}, []
        base = 1
        for _ in range(rng.randint(0, 8)):
            n = rng.choice([1, 2, 5, 9, 20])
            rs = self.rows(rng, n, base, nulls, big)
            base += n
            t = pa.Table.from_pylist(rs, schema=schema)
            if rng.random() < 0.3:  # a view into a bigger table, or one of several chunks
                k = rng.randint(0, n)
                t = pa.concat_tables([t.slice(0, k), t.slice(k)]) if rng.random() < 0.5 else t.slice(k)
                rs = t.to_pylist()
            if len(t) == 0:
                continue
            tables.append(t)
            for r in rs:
                source[r["id"]] = r
        what = lambda: f"{cfg}, lengths as {lt}, large={large}, tables of {[len(t) for t in tables]}"  # noqa: E731
        pipe = TableBucketer(cfg).apply(read_sequence(tables)).and_return()
        out = list(pipe)
        batches = [t.to_pylist() for t in out]
        obs.count("buckets")
        obs.state("bucket", target, mode, cfg.order_by_length, cfg.shuffle, lt, str(cfg.length_columns), cfg.length_reducer, cfg.drop_long_seq, big, nulls, large, cfg.combine_chunks, cfg.cache)
        self.check_batches(obs, cfg, batches, source, what)
        sizes = [len(b) for b in batches]
        if mode is None and target == "size":
            hi = cfg.max_fragment_number
            for i, b in enumerate(batches):
                n = sum(1 for t in tables if {r["id"] for r in t.to_pylist()} <= {r["id"] for r in b})
                full = len(b) >= cfg.target_table_size and n >= cfg.min_fragment_number
                if hi is None or hi >= cfg.min_fragment_number:
                    obs.check(full or (hi is not None and n >= hi) or i == len(batches) - 1, "table-size", lambda: f"{what()}: tables of {sizes}")
        if mode == "batch" and target is None and not cfg.shuffle and not cfg.order_by_length:
            obs.check([r["id"] for b in batches for r in b] == list(source), "order", lambda: f"{what()}: {[r['id'] for b in batches for r in b][:20]}")
        if cfg.order_by_length and mode is not None:
            # Rows of similar length are batched together.
            k = 0
            if target == "size" and not cfg.shuffle and len(tables) and cfg.target_table_size >= 30 and sum(map(len, tables)) < 30 and cfg.max_fragment_number is None:
                ls = [self.row_length(r, cfg) for b in batches for r in b]
                if mode == "batch" or cfg.drop_long_seq:
                    obs.check(ls == sorted(ls), "not-sorted", lambda: f"{what()}: {ls}")
                k += 1
        n = len(batches)
        self.check_resume(rng, obs, lambda: TableBucketer(cfg).apply(read_sequence(tables)).and_return(), batches, cfg, what)
        pipe.reset()
        again = [t.to_pylist() for t in pipe]
        obs.check(sorted(r["id"] for b in again for r in b) == sorted(r["id"] for b in batches for r in b), "next-epoch", lambda: f"{what()}: {n} then {len(again)} batches")
        # The same configuration makes the same batches.
        twin = [t.to_pylist() for t in TableBucketer(cfg).apply(read_sequence(tables)).and_return()]
        obs.check([[r["id"] for r in b] for b in twin] == [[r["id"] for r in b] for b in batches], "not-deterministic", what)

    # -- everything together --------------------------------------------------
    def run_end(self, rng, obs, d):
        from fairseq2.data.parquet import BasicDataLoadingConfig, build_basic_parquet_data_pipeline
        from fairseq2.data.parquet.fragment_loading import FragmentLoadingConfig

        path, rows, files, desc = self.dataset(rng, d)
        scfg, pieces, filt, lim = self.stream_config(rng, path, files, rows)
        scfg.nb_epochs = 1
        bcfg, target, mode = self.bucket_config(rng, d)
        lcfg = FragmentLoadingConfig(add_fragment_traces=rng.random() < 0.5, drop_null=rng.random() < 0.3, nb_prefetch=rng.choice([0, 2]), num_parallel_fragments=rng.choice([1, 3]), filters=rng.choice([None, 'pc.field("len") > 0']))
        world = rng.choice([1, 2, 3])
        what = lambda: f"{desc}, {scfg}, {lcfg}, {bcfg}, {world} ranks"  # noqa: E731
        source = {}
        for p in pieces:
            for i in p:
                r = rows[i]
                if lcfg.filters is not None and not (r["len"] is not None and r["len"] > 0):
                    continue
                if lcfg.drop_null and any(v is None for v in r.values()):
                    continue
                source[i] = r
        batches = []
        cfg = BasicDataLoadingConfig(scfg, lcfg, bcfg)
        one = rng.randrange(world)
        for rank in range(world):
            mine = []
            for t in build_basic_parquet_data_pipeline(cfg, rank, world).and_return():
                mine.append([{k: v for k, v in r.items() if k not in TRACES} for r in t.to_pylist()])
            batches += mine
            if rank == one:
                self.check_resume(rng, obs, lambda: build_basic_parquet_data_pipeline(cfg, one, world).and_return(), mine, bcfg, what)
        obs.count("ends")
        obs.state("end", desc, target, mode, world, scfg.fragment_shuffle_window, str(filt), str(lim))
        self.check_batches(obs, bcfg, batches, source, what)

    # -- tensors --------------------------------------------------------------
    def column(self, rng, n, depth=0):
        import datetime

        import pyarrow as pa

        kind = rng.choice(["int", "float", "bool", "str", "list", "fsl", "dict", "dictint", "time", "date", "largestr", "largelist", "listfsl"] + (["struct"] if depth == 0 else []))
        if kind == "int":
            t = getattr(pa, rng.choice(INTS))()
            return kind, pa.array([rng.randrange(100) for _ in range(n)], t)
        if kind == "float":
            return kind, pa.array([rng.random() for _ in range(n)], rng.choice([pa.float32(), pa.float64()]))
        if kind == "bool":
            return kind, pa.array([rng.random() < 0.5 for _ in range(n)])
        if kind in ("str", "largestr"):
            return kind, pa.array(["".join(rng.choice("abcé") for _ in range(rng.randint(0, 4))) for _ in range(n)], pa.string() if kind == "str" else pa.large_string())
        if kind in ("list", "largelist"):
            t = rng.choice([pa.int32(), pa.int64(), pa.float32()])
            return kind, pa.array([[rng.randrange(9) for _ in range(rng.randint(0, 4))] for _ in range(n)], pa.list_(t) if kind == "list" else pa.large_list(t))
        if kind == "fsl":
            k = rng.randint(1, 3)
            return kind, pa.array([[rng.randrange(99) for _ in range(k)] for _ in range(n)], pa.list_(rng.choice([pa.int32(), pa.float32()]), k))
        if kind == "listfsl":
            return kind, pa.array([[[rng.random(), 1.0] for _ in range(rng.randint(1, 3))] for _ in range(n)], pa.list_(pa.list_(pa.float32(), 2)))
        if kind == "dict":
            return kind, pa.array([rng.choice(["x", "y", "z"]) for _ in range(n)], pa.string()).dictionary_encode()
        if kind == "dictint":
            return kind, pa.array([rng.choice([7, 8]) for _ in range(n)], pa.int64()).dictionary_encode()
        if kind == "time":
            return kind, pa.array([datetime.datetime(2020, 1, 1) + datetime.timedelta(hours=rng.randrange(99)) for _ in range(n)], pa.timestamp("us"))
        if kind == "date":
            return kind, pa.array([datetime.date(2020, 1, 1) + datetime.timedelta(days=rng.randrange(99)) for _ in range(n)])
        a, b = self.column(rng, n, 1)[1], self.column(rng, n, 1)[1]
        return kind, pa.StructArray.from_arrays([a, b], ["a", "b"])

    def to_py(self, v):
        import pyarrow as pa
        import torch

        if isinstance(v, torch.Tensor):
            return v.tolist()
        if isinstance(v, (pa.Array, pa.ChunkedArray)):
            return v.to_pylist()
        if isinstance(v, dict):
            parts = {k: self.to_py(x) for k, x in v.items()}
            return [dict(zip(parts, t)) for t in zip(*parts.values())]
        return [self.to_py(x) if not isinstance(x, str) else x for x in v]

    def run_torch(self, rng, obs, d):
        import pyarrow as pa
        import torch
        from fairseq2.data.parquet import pyarrow_table_to_torch_dict

        n = rng.randint(1, 12)
        cols = [self.column(rng, n) for _ in range(rng.randint(1, 4))]
        t = pa.table({f"c{i}": c for i, (_, c) in enumerate(cols)})
        how = rng.choice(["whole", "slice", "slice", "chunks", "batches", "taken"])
        if how == "slice":
            a = rng.randint(0, n - 1)
            t = t.slice(a, rng.randint(1, n - a))
        elif how == "chunks":
            a = rng.randint(0, n)
            t = pa.concat_tables([t.slice(0, a), t.slice(a)])
        elif how == "batches":
            bs = t.to_batches(max_chunksize=rng.randint(1, n))
            t = pa.Table.from_batches([rng.choice(bs)], schema=t.schema)
        elif how == "taken":
            t = t.take(pa.array([rng.randrange(n) for _ in range(rng.randint(1, n))]))
        nul = None
        if rng.random() < 0.2:
            nul = [None if i == 0 else i for i in range(len(t))]
            t = t.append_column("nul", pa.array(nul, pa.int64()))
        what = lambda: f"{[k for k, _ in cols]} {[str(c.type) for _, c in cols]}, {how}, {t.num_rows} of {n} rows"  # noqa: E731
        out = pyarrow_table_to_torch_dict(t)
        obs.count("tensors")
        if how in ("slice", "batches"):
            obs.count("sliced_tensors")
        obs.state("torch", tuple(str(c.type) for _, c in cols), how)
        obs.check(set(out) == set(t.column_names), "columns", what)
        for i, (k, _) in enumerate(cols):
            v = out[f"c{i}"]
            want = t[f"c{i}"].to_pylist()
            got = self.to_py(v)
            ok = same(got, want) or (k == "bool" and [bool(x) for x in got] == want)
            obs.check(ok, "values", lambda: f"{what()}: {k} is {got}, expected {want}"[:1200])
            if k in ("int", "float", "fsl", "dictint"):
                obs.check(isinstance(v, torch.Tensor), "not-converted", lambda: f"{what()}: {k} is {type(v)}")
            elif k == "list":
                obs.check(isinstance(v, list) and all(isinstance(x, torch.Tensor) for x in v), "not-converted", lambda: f"{what()}: {k} is {type(v)}")
            elif k in ("str", "dict"):
                obs.check(isinstance(v, list) and all(isinstance(x, str) for x in v), "not-converted", lambda: f"{what()}: {k} is {type(v)}")
        if nul is not None:
            obs.check(self.to_py(out["nul"]) == nul, "values", lambda: f"{what()}: column with nulls is {out['nul']}")

    # -- transforms -----------------------------------------------------------
    def run_transform(self, rng, obs, d):
        import numpy as np
        import pyarrow as pa
        from fairseq2.data.parquet import arrow_transform as T
        from fairseq2.data.parquet.table_bucketing.primitives import compute_rows_length

        n = rng.randint(1, 10)
        nulls = rng.random() < 0.3
        words = [[("".join(rng.choice("abé☃") for _ in range(rng.randint(0, 5)))) for _ in range(rng.randint(0, 3))] for _ in range(n)]
        nums = [[rng.randrange(-5, 6) for _ in range(rng.randint(0, 4))] for _ in range(n)]
        if nulls:
            words = [w if rng.random() < 0.8 else None for w in words]
            nums = [w if rng.random() < 0.8 else None for w in nums]
        t = pa.table({"id": pa.array(range(n)), "words": pa.array(words, pa.list_(pa.string())), "nums": pa.array(nums, pa.list_(pa.int32())), "x": pa.array([rng.choice([1, 2, None]) for _ in range(n)], pa.int64())})
        if rng.random() < 0.4:
            a = rng.randint(0, n - 1)
            t = t.slice(a, rng.randint(1, n - a))
        elif rng.random() < 0.4:
            a = rng.randint(0, n)
            t = pa.concat_tables([t.slice(0, a), t.slice(a)])
        rows = t.to_pylist()
        before = t.to_pylist()
        obs.count("transforms")
        what = lambda: f"{rows}"[:1200]  # noqa: E731

        def kept(res, pred, name, free=lambda r: False):
            got = res.to_pylist()
            want = [r for r in rows if pred(r) and not free(r)]
            got2 = [r for r in got if not free(r)]
            obs.check(same(got2, want), name, lambda: f"{what()}: ids {[r['id'] for r in got]}, expected {[r['id'] for r in want]}")
            # Whether a null row is kept must not depend on the others.
            fr = [r["id"] for r in rows if free(r)]
            obs.check([r["id"] for r in got if free(r)] == [], name, lambda: f"{what()}: rows {fr} without a value kept: {[r['id'] for r in got]}")

        # Lengths of strings
        lo, hi = rng.choice([(None, 3), (1, None), (1, 4), (0, 2)])
        f = lambda r: all((lo or 0) <= len(w) <= (hi if hi is not None else 1 << 32) for w in r["words"] or [])  # noqa: E731
        kept(T.filter_strings_by_length(t, "words", lo, hi), f, "filter-strings", lambda r: r["words"] is None)
        lo2, hi2 = rng.choice([(None, 3), (-2, None), (-2, 3), (0, 0)])
        g = lambda r: all((lo2 if lo2 is not None else -math.inf) <= w <= (hi2 if hi2 is not None else math.inf) for w in r["nums"] or [])  # noqa: E731
        kept(T.filter_list_by_range(t, "nums", lo2, hi2), g, "filter-range", lambda r: r["nums"] is None)
        lo3 = rng.randint(0, 2)
        hi3 = lo3 + rng.randint(0, 3)
        h = lambda r: lo3 <= len(r["nums"] or []) <= hi3 and lo3 <= len(r["words"] or []) <= hi3  # noqa: E731
        kept(T.filter_list_with_min_max_length(t, ["nums", "words"], lo3, hi3), h, "filter-length", lambda r: r["nums"] is None or r["words"] is None)
        # Lengths of rows
        for c in ("words", "nums", "x"):
            ls = compute_rows_length(t[c]).tolist()
            want = [0 if r[c] is None else r[c] if isinstance(r[c], int) else len(r[c]) for r in rows]
            obs.check([int(x) for x in ls] == want, "row-lengths", lambda: f"{what()}: {c} has {ls}, expected {want}")
        strs = pa.chunked_array([pa.array([None if nulls and i % 3 == 0 else "é" * (i % 4) for i in range(n)], rng.choice([pa.string(), pa.large_string()]))])
        ls = compute_rows_length(strs).tolist()
        obs.check([int(x) for x in ls] == [0 if s is None else len(s) for s in strs.to_pylist()], "row-lengths", lambda: f"{strs.to_pylist()} {strs.type} has {ls}")
        # Others
        k = rng.randint(0, 4)
        rep = T.repeat_list_column(t["x"] if rng.random() < 0.5 else pa.array([1, 2, 3]), k) if False else T.repeat_list_column(pa.array([1, 2, 3][: rng.randint(0, 3)], pa.int64()), k) if k else None
        if rep is not None:
            obs.check(len(rep) == k and len({tuple(x) for x in rep.to_pylist()}) == 1, "repeat", lambda: f"{rep}")
        for c in ("nums", "x", "words"):
            nest = T.simple_array_to_nested(t[c]).to_pylist()
            obs.check(nest == [[r[c]] for r in rows], "nested", lambda: f"{what()}: {c} is {nest}")
            arr = T.pyarrow_column_to_array(t[c])
            obs.check(arr.to_pylist() == [r[c] for r in rows], "column", lambda: f"{what()}: {c} is {arr.to_pylist()}")
        seed = rng.randrange(1000)
        sh = T.shuffle_table(t, np.random.RandomState(seed)).to_pylist()
        obs.check(sorted(r["id"] for r in sh) == sorted(r["id"] for r in rows) and all(r in rows for r in sh), "shuffle", what)
        obs.check(T.shuffle_table(t, np.random.RandomState(seed)).to_pylist() == sh, "shuffle", what)
        new = T.replace_table_column(t, "x", pa.array([i * 2 for i in range(len(t))])).to_pylist()
        obs.check(new == [{**r, "x": i * 2} for i, r in enumerate(rows)], "replace", what)
        cat = T.concat_table([t, t.slice(0, 0), t.select(["id", "words"])], combine=rng.random() < 0.5).to_pylist()
        obs.check(cat == rows + [{**r, "nums": None, "x": None} for r in rows], "concat", lambda: f"{what()}: {cat}"[:1500])
        dn = T.apply_filter(t, drop_null=True).to_pylist()
        obs.check(dn == [r for r in rows if all(v is not None for v in r.values())], "drop-null", what)
        obs.check(t.to_pylist() == before, "caller-changed", what)
        obs.state("transform", n, nulls, len(t))

    # -- smoothing ------------------------------------------------------------
    def run_smooth(self, rng, obs, d):
        """The smoother only drops fragments, and keeps rare partitions rather than frequent ones."""
        import pyarrow as pa
        import pyarrow.parquet as pq
        from fairseq2.data.parquet.fragment_streaming import FragmentStreamingConfig, ParquetFragmentStreamer, RejectionDistributionSmoother

        root = d / "data"
        for lang, n in (("en", 40), ("fr", 4)):
            (root / f"lang={lang}").mkdir(parents=True)
            pq.write_table(pa.table({"id": list(range(n))}), root / f"lang={lang}" / "a.parquet", row_group_size=1)
        alpha = rng.choice([0.0, 0.5, 1.0])
        seed = rng.randrange(1000)

        def run():
            cfg = FragmentStreamingConfig(parquet_path=str(root), nb_epochs=8, fragment_shuffle_window=-1, seed=seed)
            sm = RejectionDistributionSmoother(["lang"], alpha=alpha, min_count=1, seed=seed)
            out = ParquetFragmentStreamer(cfg).build_pipeline().map(sm).filter(lambda x: x is not None).and_return()
            return [("fr" if "lang=fr" in f.path else "en", f.row_groups[0].id) for f in out]

        a = run()
        obs.check(a == run(), "not-deterministic", f"alpha {alpha}")
        c = collections.Counter(x[0] for x in a)
        obs.count("smoothed")
        obs.state("smooth", alpha, seed)
        if alpha == 0.0:
            obs.check(c == {"en": 320, "fr": 32}, "smoothing", lambda: f"{c} without smoothing")
        else:
            obs.check(c["en"] < 320 and c["fr"] <= 32 and c["fr"] / 32 > c["en"] / 320, "smoothing", lambda: f"alpha {alpha}: {c}")


if __name__ == "__main__":
    main(C16())
