"""C35: tokenizers round-trip text."""
import base64
import os
import random
import shutil
import sys
import tempfile
import threading
from pathlib import Path

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main, scratch

CHARS = ["a", "b", "e", "t", "Z", "0", "7", " ", "  ", "\n", "\r\n", "\t", ".", ",", "'s", "!", "-", "é", "ß", "ñ", "漢", "字", "😀", "👩‍👩‍👧", "e\u0301", "\x00", "\x7f", "\u200b", "\u2028", "\ufeff", "\u202e", "\U0010ffff", "<|", "|>", "<", ">", "_", "▁", "Ġ", "İ", "ǅ", "ﬀ", "_0|>"]
WORDS = ["the ", "hello", " world", "été", "naïve", "漢字かな", "🙂🙃", "return x;\n", "   indent", "3.14159", "http://a.b/c?d=e"]
SPLITS = [
    r"'s|\p{L}+|\p{N}{1,3}|[^\s\p{L}\p{N}]+|\s+",
    r"(?i:'s|'t|'re|'ve|'m|'ll|'d)|[^\r\n\p{L}\p{N}]?\p{L}+|\p{N}{1,3}| ?[^\s\p{L}\p{N}]+[\r\n]*|\s*[\r\n]+|\s+(?!\S)|\s+",
    r"[\s\S]",
    r"[\s\S]{1,4}",
    r"[\s\S]+",
]

# The token numbers that Llama 3 and 4 models were trained with, relative to the
# number of BPE tokens (128000 and 200000).
LLAMA3 = {"<|begin_of_text|>": 0, "<|end_of_text|>": 1, "<|finetune_right_pad_id|>": 4, "<|start_header_id|>": 6, "<|end_header_id|>": 7, "<|eom_id|>": 8, "<|eot_id|>": 9, "<|python_tag|>": 10, "<|reserved_special_token_2|>": 11, "<|reserved_special_token_246|>": 255}
LLAMA4 = {"<|begin_of_text|>": 0, "<|end_of_text|>": 1, "<|fim_prefix|>": 2, "<|fim_suffix|>": 4, "<|header_start|>": 5, "<|header_end|>": 6, "<|eom|>": 7, "<|eot|>": 8, "<|finetune_right_pad|>": 18, "<|image_start|>": 80, "<|image_end|>": 81, "<|patch|>": 92, "<|image|>": 90, "<|reasoning_thinking_start|>": 1142, "<|reasoning_thinking_end|>": 1143}


def byte_map() -> dict:
    """The printable stand-ins of bytes in byte-level BPE vocabularies."""
    keep = list(range(33, 127)) + list(range(161, 173)) + list(range(174, 256))
    out, n = {}, 0
    for b in range(256):
        if b in keep:
            out[chr(b)] = b
        else:
            out[chr(256 + n)] = b
            n += 1
    return out


BYTES = byte_map()


def text_of(rng, specials=(), n=None) -> str:
    out = []
    for _ in range(rng.choice([0, 1, 2, 5, 12, 40]) if n is None else n):
        t = rng.random()
        if specials and t < 0.15:
            out.append(rng.choice(specials))
        elif t < 0.4:
            out.append(rng.choice(WORDS))
        elif t < 0.45:
            out.append(chr(rng.choice([rng.randrange(0x20, 0x3000), rng.randrange(0xE000, 0x10000), rng.randrange(0x10000, 0x110000)])))
        elif t < 0.5:
            out.append(rng.choice(CHARS) * rng.randrange(2, 60))
        else:
            out.append(rng.choice(CHARS))
    return "".join(out)


def make_ranks(rng) -> list:
    """Tokens in order of their index."""
    toks = [bytes([b]) for b in range(256)]
    rng.shuffle(toks)
    seen = set(toks)
    sample = "".join(rng.choice(WORDS + CHARS) for _ in range(60)).encode()
    for _ in range(rng.choice([0, 20, 150])):
        i = rng.randrange(len(sample) - 1)
        t = sample[i : i + rng.randrange(2, 6)]
        # As in real vocabularies, each token joins two earlier ones.
        if t not in seen and any(t[:k] in seen and t[k:] in seen for k in range(1, len(t))):
            seen.add(t)
            toks.append(t)
    return toks


def write_tt(path: Path, toks) -> None:
    with path.open("wb") as f:
        for i, t in enumerate(toks):
            f.write(base64.b64encode(t) + b" " + str(i).encode() + b"\n")


def write_hg(path: Path, rng, specials, plain=(), unk=None) -> None:
    from tokenizers import AddedToken, Tokenizer, decoders, models, pre_tokenizers, trainers
    from transformers import PreTrainedTokenizerFast

    tk = Tokenizer(models.BPE(unk_token=unk))
    tk.pre_tokenizer = pre_tokenizers.ByteLevel(add_prefix_space=False, use_regex=rng.random() < 0.7)
    tk.decoder = decoders.ByteLevel()
    first = rng.random() < 0.5
    tr = trainers.BpeTrainer(
        vocab_size=256 + rng.choice([0, 30, 200]) + len(specials),
        special_tokens=list(specials) if first else ([unk] if unk else []),
        initial_alphabet=pre_tokenizers.ByteLevel.alphabet(), show_progress=False,
    )
    tk.train_from_iterator(["".join(rng.choice(WORDS + CHARS) for _ in range(80)) for _ in range(5)], tr)
    if not first:
        # Added after training: numbered after the base vocabulary.
        tk.add_special_tokens([AddedToken(s, normalized=False) for s in specials])
    tk.add_tokens([AddedToken(s, normalized=False) for s in plain])
    kw = {"unk_token": unk} if unk else {}
    PreTrainedTokenizerFast(tokenizer_object=tk, clean_up_tokenization_spaces=False, **kw).save_pretrained(str(path))


def split_on(text: str, specials) -> list:
    """[(piece, is a control token)]"""
    import re

    if not specials:
        return [(text, False)] if text else []
    pat = "|".join(re.escape(s) for s in sorted(specials, key=len, reverse=True))
    out, at = [], 0
    for m in re.finditer(pat, text):
        if m.start() > at:
            out.append((text[at : m.start()], False))
        out.append((m.group(), True))
        at = m.end()
    if at < len(text):
        out.append((text[at:], False))
    return out


class Vocab:
    """What the vocabulary file says, read without the code under test."""

    def __init__(self, ids: dict, raw: dict, skipped: set):
        self.ids = ids  # control token -> index
        self.raw = raw  # index -> bytes of an ordinary token
        self.skipped = skipped  # control tokens left out with `skip_special_tokens`
        self.inv = {i: t for t, i in ids.items()}

    @staticmethod
    def tt(toks, specials):
        return Vocab({s: len(toks) + i for i, s in enumerate(specials)}, dict(enumerate(toks)), set(specials))

    @staticmethod
    def hg(path: Path):
        import json

        d = json.loads((path / "tokenizer.json").read_text())
        ids = {a["content"]: a["id"] for a in d["added_tokens"]}
        skip = {a["content"] for a in d["added_tokens"] if a["special"]}
        raw = {i: bytes(BYTES[c] for c in t) for t, i in d["model"]["vocab"].items() if t not in ids}
        return Vocab(ids, raw, skip)

    def pieces(self, ids) -> list:
        out = []
        for i in ids:
            if i in self.inv:
                out.append((self.inv[i], True))
            else:
                b = self.raw[i]
                if out and not out[-1][1]:
                    out[-1] = (out[-1][0] + b, False)
                else:
                    out.append((b, False))
        return [(p, c) if c else (p.decode("utf-8"), c) for p, c in out]

    def text(self, ids, skip: bool) -> str:
        b = b""
        for i in ids:
            if i in self.inv:
                if not (skip and self.inv[i] in self.skipped):
                    b += self.inv[i].encode()
            else:
                b += self.raw[i]
        return b.decode("utf-8", "replace")

    def index(self, token: str) -> int:
        if token in self.ids:
            return self.ids[token]
        for i, b in self.raw.items():
            if b == token.encode():
                return i
        raise KeyError(token)


class C35(Check):
    id = "C35"
    rule = "tokenizers built from generated vocabularies (byte-level BPE, read back independently) run on random texts; ids, tokens, texts and control tokens compared"
    required = ("texts", "control_tokens_in_text", "prefixes", "suffixes", "skipped_control_tokens", "split_characters", "threaded_encodings", "families", "vocabularies_replaced", "bad_models", "unknown_tokens", "chats", "sentencepiece_encoders", "devices")
    assumptions = (
        "the tiktoken and tokenizers libraries are trusted to split words; SentencePiece is not installed, so which control tokens its tokenizers ask for is watched with a recording stand-in",
        "text that spells out a control token is encoded as that token by design",
    )
    workers = 6
    case_timeout = 60

    def setup_worker(self):
        import transformers
        from vlib import setup_fairseq2

        setup_fairseq2()
        import fairseq2.recipe  # noqa: F401
        import fairseq2

        fairseq2.init_fairseq2()
        transformers.logging.set_verbosity(50)
        os.environ.pop("TIKTOKEN_CACHE_DIR", None)
        os.environ.pop("DATA_GYM_CACHE_DIR", None)

    def gen(self, rng, tier):
        n = 1200 if tier == "quick" else 12000
        kinds = ["tt"] * 5 + ["hg"] * 5 + ["family"] * 6 + ["stale", "bad", "sp", "sp", "hgt", "hgt"]
        for i in range(n):
            yield {"kind": kinds[i % len(kinds)], "seed": rng.randrange(1 << 40)}

    def run(self, case, obs):
        rng = random.Random(case["seed"])
        d = Path(scratch())
        old = tempfile.tempdir
        # Whatever libraries cache by path must not outlive this case.
        tempfile.tempdir = str(d / "tmp")
        (d / "tmp").mkdir()
        try:
            getattr(self, "k_" + case["kind"])(rng, d, obs)
        finally:
            tempfile.tempdir = old
            shutil.rmtree(d, ignore_errors=True)

    # -- shared checks ----------------------------------------------------
    def texts(self, rng, voc, n=10):
        return [text_of(rng, list(voc.ids)[:8] + list(voc.ids)[-2:] if rng.random() < 0.4 else ()) for _ in range(n)]

    def check_encoder(self, obs, what, voc, enc, raw_enc, dec, dec_skip, prefix, suffix, texts, size=None):
        import torch

        pre = [voc.index(t) for t in prefix]
        suf = [voc.index(t) for t in suffix]
        for name, got, want in (("prefix", enc.prefix_indices, pre), ("suffix", enc.suffix_indices, suf)):
            got = None if got is None else got.tolist()
            obs.check((got or []) == want, f"{name}-indices", lambda: f"{what}: {name}_indices is {got}, the configured tokens are {want}")
            if want:
                obs.count("prefixes" if name == "prefix" else "suffixes")
        first = {}
        for text in texts:
            obs.count("texts")
            t = enc(text)
            obs.check(t.dtype == torch.int64 and t.ndim == 1, "encoded-type", lambda: f"{what}: {t.dtype} {tuple(t.shape)}")
            ids = t.tolist()
            body = raw_enc(text).tolist()
            obs.check(ids == pre + body + suf, "control-tokens", lambda: f"{what}: {text!r}: {ids} is not {pre} + {body} + {suf}")
            bad = [i for i in ids if i not in voc.inv and i not in voc.raw]
            obs.check(not bad and (size is None or all(0 <= i < size for i in ids)), "ids-in-vocabulary", lambda: f"{what}: {text!r}: ids {bad or ids} outside of the vocabulary (size {size})")
            want = split_on(text, voc.ids)
            got = voc.pieces(body)
            obs.check(got == want, "encoded-text", lambda: f"{what}: {text!r} was encoded as {got}")
            if any(c for _, c in want):
                obs.count("control_tokens_in_text")
            back = dec(torch.tensor(body, dtype=torch.int64))
            obs.check(back == text, "round-trip", lambda: f"{what}: {text!r} was decoded as {back!r}")
            back = dec(t)
            obs.check(back == voc.text(ids, False), "decode", lambda: f"{what}: {ids} was decoded as {back!r}, not {voc.text(ids, False)!r}")
            back = dec_skip(t)
            wanted = voc.text(ids, True)
            obs.check(back == wanted, "skip-special-tokens", lambda: f"{what}: {ids} without special tokens was decoded as {back!r}, not {wanted!r}")
            if wanted != voc.text(ids, False):
                obs.count("skipped_control_tokens")
            toks = enc.encode_as_tokens(text)
            obs.check(len(toks) == len(ids), "tokens-of-ids", lambda: f"{what}: {text!r}: {len(toks)} tokens for {len(ids)} ids")
            if any(i in voc.raw and not self.whole(voc.raw[i]) for i in ids):
                obs.count("split_characters")
            for dd, skip in ((dec, False), (dec_skip, True)):
                back = dd.decode_from_tokens(toks)
                obs.check(back == voc.text(ids, skip), "decode-from-tokens", lambda: f"{what}: tokens {toks} of {text!r} were decoded as {back!r}")
            first[text] = ids
            # Tensors handed out are the caller's own.
            t.fill_(0)
        order = list(first)
        random.Random(1).shuffle(order)
        for text in order:
            ids = enc(text).tolist()
            obs.check(ids == first[text], "encoding-not-stable", lambda: f"{what}: {text!r} was first encoded as {first[text]}, then as {ids}")
        obs.check(dec(torch.zeros((0,), dtype=torch.int64)) == "", "round-trip", f"{what}: no tokens decode to some text")
        try:
            dec(torch.zeros((2, 2), dtype=torch.int64))
            obs.violate("bad-argument", f"{what}: a matrix of indices was decoded")
        except ValueError:
            pass

    def whole(self, b) -> bool:
        try:
            b.decode("utf-8")
            return True
        except UnicodeDecodeError:
            return False

    def check_threads(self, obs, what, enc, dec, texts):
        import torch

        want = [enc(t).tolist() for t in texts]
        errors, got = [], {}
        gate = threading.Barrier(4)

        def work(k):
            try:
                gate.wait()
                r = random.Random(k)
                for _ in range(3):
                    order = list(range(len(texts)))
                    r.shuffle(order)
                    for i in order:
                        ids = enc(texts[i]).tolist()
                        got.setdefault(i, set()).add((tuple(ids), dec(torch.tensor(ids, dtype=torch.int64))))
            except BaseException as ex:  # noqa: B902
                errors.append(f"{type(ex).__name__}: {ex}")

        ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        obs.count("threaded_encodings", 12 * len(texts))
        obs.check(not errors, "threads", lambda: f"{what}: {errors[0]} when encoding from several threads")
        for i, w in enumerate(want):
            seen = got.get(i, set())
            obs.check(not errors and seen == {(tuple(w), dec(torch.tensor(w, dtype=torch.int64)))}, "threads", lambda: f"{what}: {texts[i]!r} is encoded as {w}, from several threads as {seen}")

    def check_device(self, obs, what, make):
        import torch

        for device in (torch.device("meta"), torch.device("cpu"), torch.device("meta")):
            obs.count("devices")
            t = make(device)("some text")
            obs.check(t.device == device, "device", lambda: f"{what}: encoded on {t.device} instead of {device}")

    def pick_control(self, rng, voc, extra=()):
        pool = list(voc.ids)[:6] + list(extra)
        return [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))] if pool else []

    # -- kinds ------------------------------------------------------------
    def k_tt(self, rng, d, obs):
        from fairseq2.data.tokenizers.tiktoken import TiktokenDecoder, TiktokenEncoder, load_tiktoken_model

        toks = make_ranks(rng)
        specials = [f"<|s{i}|>" for i in range(rng.choice([0, 1, 4, 12]))]
        write_tt(d / "m.tiktoken", toks)
        voc = Vocab.tt(toks, specials)
        conf = {k: rng.choice(specials + [None]) for k in ("unk", "bos", "eos", "pad", "boh", "eoh")}
        model = load_tiktoken_model(d / "m.tiktoken", rng.choice(SPLITS), special_tokens=specials or rng.choice([None, []]), **{k + "_token": v for k, v in conf.items()})
        self.check_info(obs, "tiktoken", model.vocab_info, voc, conf, len(toks) + len(specials))
        plain = [t.decode() for t in toks if self.whole(t)]
        prefix = self.pick_control(rng, voc, rng.sample(plain, 2))
        suffix = self.pick_control(rng, voc, rng.sample(plain, 2))
        texts = self.texts(rng, voc)
        obs.state(("tt", len(toks) > 260, len(specials), len(prefix), len(suffix)))
        enc = TiktokenEncoder(model, prefix_tokens=prefix or rng.choice([None, []]), suffix_tokens=suffix or rng.choice([None, []]))
        dec, dec_skip = TiktokenDecoder(model), TiktokenDecoder(model, skip_special_tokens=True)
        self.check_encoder(obs, "tiktoken", voc, enc, TiktokenEncoder(model), dec, dec_skip, prefix, suffix, texts, len(toks) + len(specials))
        self.check_threads(obs, "tiktoken", enc, dec, texts)
        self.check_device(obs, "tiktoken", lambda dev: TiktokenEncoder(model, prefix_tokens=prefix, device=dev))
        self.unknown(obs, "tiktoken", lambda **kw: TiktokenEncoder(model, **kw))

    def k_hg(self, rng, d, obs):
        from fairseq2.data.tokenizers.hg import HuggingFaceTokenDecoder, HuggingFaceTokenEncoder, load_hg_token_model

        specials = [f"<|s{i}|>" for i in range(rng.choice([0, 1, 4, 12]))]
        plain = [f"<think{i}>" for i in range(rng.choice([0, 0, 2]))]
        unk = rng.choice([None, None, "<unk>"])
        write_hg(d / "m", rng, specials + ([unk] if unk else []), plain, unk)
        voc = Vocab.hg(d / "m")
        conf = {k: rng.choice(specials + [None]) for k in ("unk", "bos", "eos", "pad", "boh", "eoh")}
        if rng.random() < 0.3:
            conf[rng.choice(["bos", "eos", "pad"])] = "<|nowhere|>"
            obs.count("unknown_tokens")
        model = load_hg_token_model(d / "m", **{k + "_token": v for k, v in conf.items()})
        expect = dict(conf)
        if expect["unk"] is None:
            expect["unk"] = unk
        self.check_info(obs, "Hugging Face", model.vocab_info, voc, expect, None)
        prefix = self.pick_control(rng, voc, ["a", "Z"])
        suffix = self.pick_control(rng, voc, ["0", "!"])
        texts = self.texts(rng, voc)
        obs.state(("hg", len(specials), len(plain), unk, len(prefix), len(suffix)))
        enc = HuggingFaceTokenEncoder(model, prefix_tokens=prefix or rng.choice([None, []]), suffix_tokens=suffix or rng.choice([None, []]))
        dec, dec_skip = HuggingFaceTokenDecoder(model), HuggingFaceTokenDecoder(model, skip_special_tokens=True)
        self.check_encoder(obs, "Hugging Face", voc, enc, HuggingFaceTokenEncoder(model), dec, dec_skip, prefix, suffix, texts)
        self.check_threads(obs, "Hugging Face", enc, dec, texts)
        self.check_device(obs, "Hugging Face", lambda dev: HuggingFaceTokenEncoder(model, prefix_tokens=prefix, device=dev))
        self.unknown(obs, "Hugging Face", lambda **kw: HuggingFaceTokenEncoder(model, **kw))

    def unknown(self, obs, what, make):
        for kw in ("prefix_tokens", "suffix_tokens"):
            obs.count("unknown_tokens")
            try:
                enc = make(**{kw: ["<|nowhere|>"]})
            except Exception:
                obs.count("assertions")
                continue
            ids = enc("abc").tolist()
            obs.violate("unknown-token", f"{what}: `{kw}` with a token outside of the vocabulary: encoded as {ids}")

    def check_info(self, obs, what, info, voc, conf, size):
        if size is not None:
            obs.check(info.size == size, "vocabulary-size", lambda: f"{what}: size {info.size}, the vocabulary has {size}")
        else:
            n = len(voc.raw) + len([t for t, i in voc.ids.items() if i < len(voc.raw) + len(voc.ids)])
            obs.check(len(voc.raw) <= info.size <= n, "vocabulary-size", lambda: f"{what}: size {info.size}, the vocabulary has {len(voc.raw)} to {n}")
        for k, tok in conf.items():
            want = voc.ids.get(tok) if tok else None
            if k == "pad" and tok is not None and want == (voc.ids.get(conf["eos"]) if conf["eos"] else None):
                want = None
            got = getattr(info, k + "_idx")
            obs.check(got == want, "vocabulary-info", lambda: f"{what}: {k}_idx is {got}; {tok!r} has the index {want}")

    def k_hgt(self, rng, d, obs):
        """The tokenizer of arbitrary Hugging Face models."""
        import torch
        from fairseq2.models.hg.tokenizer import HgTokenizerConfig, load_hg_tokenizer

        specials = [f"<|s{i}|>" for i in range(4)]
        write_hg(d / "m", rng, specials)
        voc = Vocab.hg(d / "m")
        tk = load_hg_tokenizer(d / "m", HgTokenizerConfig(eos_token="<|s1|>", pad_token="<|s2|>"))
        self.check_info(obs, "hg", tk.vocab_info, voc, {"eos": "<|s1|>", "pad": "<|s2|>", "unk": None}, None)
        texts = self.texts(rng, voc)
        # In any order, each one is what was asked for.
        made = []
        for _ in range(6):
            skip = rng.random() < 0.5
            device = rng.choice([None, torch.device("cpu"), torch.device("meta")])
            made.append((skip, tk.create_decoder(skip_special_tokens=skip), device, tk.create_raw_encoder(device=device)))
        for skip, dec, device, enc in made:
            text = rng.choice(texts) + "<|s3|>"
            ids = voc_ids = tk.encode(text).tolist()
            obs.count("texts")
            obs.check(voc.pieces(ids) == split_on(text, voc.ids), "encoded-text", lambda: f"hg: {text!r} was encoded as {voc.pieces(ids)}")
            back = dec(torch.tensor(ids))
            obs.check(back == voc.text(voc_ids, skip), "skip-special-tokens", lambda: f"hg: decoder with skip_special_tokens={skip} decoded {text!r} as {back!r}")
            got = enc(text).device
            obs.check(got == (device or torch.device("cpu")), "device", lambda: f"hg: encoder for the device {device} made a tensor on {got}")
            obs.count("devices")
            back = tk.decode(torch.tensor(ids), skip_special_tokens=skip)
            obs.check(back == voc.text(voc_ids, skip), "skip-special-tokens", lambda: f"hg: decode(skip_special_tokens={skip}) of {text!r} is {back!r}")
        self.check_encoder(obs, "hg", voc, tk.create_encoder(), tk.create_raw_encoder(), tk.create_decoder(), tk.create_decoder(skip_special_tokens=True), [], [], texts)
        obs.count("families")

    def k_family(self, rng, d, obs):
        import torch
        from fairseq2.models.gemma3n.tokenizer import load_gemma3n_tokenizer
        from fairseq2.models.llama.tokenizer import LLaMATokenizerConfig, load_llama_tokenizer
        from fairseq2.models.llama4.tokenizer import Llama4TokenizerConfig, load_llama4_tokenizer
        from fairseq2.models.olmo.tokenizer import OLMOTokenizerConfig, load_olmo_tokenizer
        from fairseq2.models.qwen.tokenizer import QwenTokenizerConfig, load_qwen_tokenizer

        fam = rng.choice(["llama", "llama", "llama-hg", "llama4", "llama4", "qwen", "olmo", "gemma3n"])
        alt = rng.random() < 0.5
        path = d / "m"
        modes = [None, "default", "prompt", "prompt_response", "as_is"]
        if fam in ("llama", "llama4"):
            toks = make_ranks(rng)
            write_tt(path, toks)
            table, total = (LLAMA3, 256) if fam == "llama" else (LLAMA4, 2048)
            regex = rng.choice([None, None, SPLITS[3]])
            if fam == "llama":
                tk = load_llama_tokenizer(path, LLaMATokenizerConfig(impl="tiktoken", use_eot=alt, split_regex=regex))
                eos = "<|eot_id|>" if alt else "<|end_of_text|>"
                conf = {"bos": "<|begin_of_text|>", "eos": eos, "pad": "<|finetune_right_pad_id|>", "boh": "<|start_header_id|>", "eoh": "<|end_header_id|>", "unk": None}
            else:
                tk = load_llama4_tokenizer(path, Llama4TokenizerConfig(use_eot=alt, split_regex=regex))
                eos = "<|eot|>" if alt else "<|end_of_text|>"
                conf = {"bos": "<|begin_of_text|>", "eos": eos, "pad": "<|finetune_right_pad|>", "boh": "<|header_start|>", "eoh": "<|header_end|>", "unk": None}
            names = ["<|step_id|>", "<|fim_middle|>", "<|eom|>", "<|step|>", "<|tile_x_separator|>", "<|tile_y_separator|>"]
            for kind, n in (("", 1200), ("text_post_train_", 80), ("vision_", 1100), ("reasoning_", 10)):
                names += [f"<|{kind}reserved_special_token_{i}|>" for i in range(n if fam == "llama4" else 256 * (not kind))]
            voc = Vocab({t: len(toks) + i for t, i in table.items()}, dict(enumerate(toks)), set(table))
            # All others, by the numbers that the encoder gives them.
            enc = tk.create_raw_encoder()
            used = set(voc.ids.values())
            for t in names:
                ids = enc(t).tolist()
                if len(ids) > 1 or ids[0] < len(toks):
                    continue
                obs.check(ids[0] < len(toks) + total, "ids-in-vocabulary", lambda: f"{fam}: {t} is encoded as {ids}")
                if t not in voc.ids:
                    obs.check(ids[0] not in used, "control-token-numbers", lambda: f"{fam}: {t} has the index of another token")
                    used.add(ids[0])
                    voc.ids[t] = ids[0]
                    voc.skipped.add(t)
            voc.inv = {i: t for t, i in voc.ids.items()}
            obs.check(len(voc.ids) == total, "vocabulary-size", lambda: f"{fam}: {len(voc.ids)} control tokens, not {total}")
            self.check_info(obs, fam, tk.vocab_info, voc, conf, len(toks) + total)
            size = len(toks) + total
            spec = {None: ([conf["bos"]], [eos]), "default": ([conf["bos"]], [eos]), "prompt": ([conf["bos"]], []), "prompt_response": ([], [eos]), "as_is": ([], [])}
        else:
            size = None
            if fam == "llama-hg":
                write_hg(path, rng, [t for t in LLAMA3])
                tk = load_llama_tokenizer(path, LLaMATokenizerConfig(impl="hg", use_eot=alt))
                eos = "<|eot_id|>" if alt else "<|end_of_text|>"
                conf = {"bos": "<|begin_of_text|>", "eos": eos, "pad": "<|finetune_right_pad_id|>", "boh": "<|start_header_id|>", "eoh": "<|end_header_id|>", "unk": None}
                bos = ["<|begin_of_text|>"]
                spec = {None: (bos, [eos]), "default": (bos, [eos]), "prompt": (bos, []), "prompt_response": ([], [eos]), "as_is": ([], [])}
            elif fam == "qwen":
                write_hg(path, rng, ["<|endoftext|>", "<|im_start|>", "<|im_end|>"], ["<think>", "</think>"])
                tk = load_qwen_tokenizer(path, QwenTokenizerConfig(use_im_end=alt))
                eos = "<|im_end|>" if alt else "<|endoftext|>"
                conf = {"eos": eos, "pad": "<|endoftext|>", "bos": None, "unk": None}
                spec = {None: ([], [eos]), "default": ([], [eos]), "prompt": ([], []), "prompt_response": ([], [eos]), "as_is": ([], [])}
            elif fam == "olmo":
                write_hg(path, rng, ["<|endoftext|>", "<|im_start|>", "<|im_end|>", "<|pad|>"])
                tk = load_olmo_tokenizer(path, OLMOTokenizerConfig(use_im_end=alt))
                eos = "<|im_end|>" if alt else "<|endoftext|>"
                conf = {"eos": eos, "pad": "<|pad|>", "bos": "<|endoftext|>", "unk": "<|endoftext|>"}
                spec = {None: ([], [eos]), "default": ([], [eos]), "prompt": ([], []), "prompt_response": ([], [eos]), "as_is": ([], [])}
            else:
                write_hg(path, rng, ["<pad>", "<eos>", "<bos>", "<unk>", "<start_of_turn>", "<end_of_turn>"], unk="<unk>")
                tk = load_gemma3n_tokenizer(path, None)
                conf = {"eos": "<eos>", "pad": "<pad>", "bos": "<bos>", "unk": "<unk>"}
                modes = [None, "default", "prompt", "as_is"]
                spec = {None: (["<bos>"], []), "default": (["<bos>"], []), "prompt": (["<bos>"], []), "as_is": ([], [])}
            voc = Vocab.hg(path)
            self.check_info(obs, fam, tk.vocab_info, voc, conf, None)
        obs.count("families")
        texts = self.texts(rng, voc, 4)
        obs.state((fam, alt))
        for mode in modes:
            pre, suf = spec[mode]
            kw = {} if mode is None else {"mode": mode}
            enc = tk.create_encoder(**kw)
            self.check_encoder(obs, f"{fam} in mode {mode}", voc, enc, tk.create_raw_encoder(), tk.create_decoder(), tk.create_decoder(skip_special_tokens=True), pre, suf, texts, size)
            obs.state((fam, alt, mode))
        for kw in ({"mode": "no-such-mode"}, {"task": "translation"}, {"lang": "en"}):
            try:
                tk.create_encoder(**kw)
                obs.violate("bad-argument", f"{fam}: create_encoder({kw}) is accepted")
            except Exception:
                obs.count("assertions")
        self.check_device(obs, fam, lambda dev: tk.create_encoder(device=dev))
        self.check_threads(obs, fam, tk.create_encoder(), tk.create_decoder(), texts)
        if fam in ("llama-hg", "qwen", "gemma3n"):
            self.check_chat(obs, rng, fam, tk, voc, conf)

    def check_chat(self, obs, rng, fam, tk, voc, conf):
        def words():
            return " ".join(rng.choice(["hi", "été", "漢字", "x=1", "ok?", "🙂"]) for _ in range(rng.randrange(1, 5)))

        chat, want, answers = [], "", []
        render = tk.create_raw_encoder().apply_chat_template
        if rng.random() < 0.5:
            chat.append({"role": "system", "content": words()})
        for _ in range(rng.randrange(1, 4)):
            chat.append({"role": "user", "content": words()})
            chat.append({"role": "assistant", "content": words()})
        last_user = max(i for i, m in enumerate(chat) if m["role"] == "user")
        for i, m in enumerate(chat):
            r, c = m["role"], m["content"]
            if fam == "llama-hg":
                # All of the turn, including its header.
                s = f"<|start_header_id|>{r}<|end_header_id|>\n\n{c}<|eot_id|>"
                a = s
            elif fam == "qwen":
                body = f"<think>\n\n</think>\n\n{c}" if r == "assistant" and i > last_user else c
                s = f"<|im_start|>{r}\n{body}<|im_end|>" + ("\n" if r != "assistant" else "")
                a = f"{body}<|im_end|>"
            else:
                continue
            want += s
            if r == "assistant":
                answers.append(a)
        out = render(chat, return_dict=True, return_assistant_tokens_mask=True)
        ids, mask = list(out["input_ids"]), list(out["assistant_masks"])
        text = voc.text(ids, False)
        obs.count("chats")
        if fam == "gemma3n":
            at = 0
            for m in chat:
                j = text.find(m["content"], at)
                obs.check(j >= 0, "chat-text", lambda: f"{fam}: {m} is missing from, or misplaced in {text!r}")
                at = j + len(m["content"])
            answers = [m["content"] for m in chat if m["role"] == "assistant"]
        else:
            obs.check(text == want, "chat-text", lambda: f"{fam}: {chat} was rendered as {text!r}, not {want!r}")
        # What the model is asked to complete is what it was trained to.
        for i, m in enumerate(chat):
            if m["role"] == "assistant":
                head = render(chat[:i], tokenize=False, add_generation_prompt=True)
                whole = render(chat[: i + 1], tokenize=False)
                obs.check(whole.startswith(head), "chat-prompt", lambda: f"{fam}: the prompt {head!r} is not how {whole!r} begins")
        runs, cur = [], []
        for i, k in zip(ids + [None], mask + [0]):
            if k:
                cur.append(i)
            elif cur:
                runs.append(voc.text(cur, False))
                cur = []
        obs.check(len(runs) == len(answers), "chat-mask", lambda: f"{fam}: {len(runs)} masked runs for {len(answers)} answers: {runs}")
        for r, a in zip(runs, answers):
            ok = a.strip() in r if fam == "gemma3n" else r == a
            obs.check(ok, "chat-mask", lambda: f"{fam}: the mask selects {r!r}, the answer is {a!r}")
        other = voc.text([i for i, k in zip(ids, mask) if not k], False)
        for m in chat:
            if m["role"] == "user":
                obs.check(m["content"] in other, "chat-mask", lambda: f"{fam}: the text of the user is marked as that of the assistant")

    def k_stale(self, rng, d, obs):
        from fairseq2.data.tokenizers.tiktoken import TiktokenDecoder, TiktokenEncoder, load_tiktoken_model

        for kind in ("tt", "hg"):
            for i in range(3):
                obs.count("vocabularies_replaced")
                if kind == "tt":
                    toks = make_ranks(rng)
                    write_tt(d / "m.tiktoken", toks)
                    voc = Vocab.tt(toks, ["<|x|>"])
                    model = load_tiktoken_model(d / "m.tiktoken", SPLITS[1], special_tokens=["<|x|>"])
                    size = len(toks) + 1
                    enc, dec, skip = TiktokenEncoder(model), TiktokenDecoder(model), TiktokenDecoder(model, skip_special_tokens=True)
                    obs.check(model.vocab_info.size == size, "stale-vocabulary", lambda: f"version {i} of a tiktoken file: size {model.vocab_info.size} instead of {size}")
                else:
                    from fairseq2.data.tokenizers.hg import HuggingFaceTokenDecoder, HuggingFaceTokenEncoder, load_hg_token_model

                    shutil.rmtree(d / "h", ignore_errors=True)
                    write_hg(d / "h", rng, ["<|x|>"])
                    voc = Vocab.hg(d / "h")
                    model = load_hg_token_model(d / "h")
                    enc, dec, skip = HuggingFaceTokenEncoder(model), HuggingFaceTokenDecoder(model), HuggingFaceTokenDecoder(model, skip_special_tokens=True)
                    size = None
                for text in self.texts(rng, voc, 4):
                    ids = enc(text).tolist()
                    try:
                        got = voc.pieces(ids)
                    except (KeyError, UnicodeDecodeError) as ex:
                        got = f"{ids}: {ex!r}"
                    obs.check(got == split_on(text, voc.ids), "stale-vocabulary", lambda: f"{kind}: version {i} of the file: {text!r} was encoded as {got}")

    def k_bad(self, rng, d, obs):
        from fairseq2.data.tokenizers import TokenizerModelError
        from fairseq2.data.tokenizers.hg import load_hg_token_model
        from fairseq2.data.tokenizers.tiktoken import load_tiktoken_model

        good = b"\n".join(base64.b64encode(bytes([b])) + b" " + str(b).encode() for b in range(256)) + b"\n"
        bads = {
            "text": b"this is not a vocabulary\n",
            "binary": bytes(rng.randrange(256) for _ in range(500)),
            "no rank": good + b"YWI=\n",
            "bad rank": good + b"YWI= x\n",
            "bad base64": good + b"YWI 256\n",
            "html": b"<html><body>404 Not Found</body></html>",
            "git-lfs": b"version https://git-lfs.github.com/spec/v1\noid sha256:4d7a\nsize 2183982\n",
        }
        for name, data in bads.items():
            p = d / f"{name}.tiktoken"
            p.write_bytes(data)
            obs.count("bad_models")
            try:
                load_tiktoken_model(p, SPLITS[1])
                obs.violate("bad-model", f"tiktoken: an invalid file ({name}) was loaded")
            except TokenizerModelError as ex:
                obs.check(ex.path == p, "bad-model", lambda: f"the error names {ex.path}")
            except Exception as ex:
                obs.violate("bad-model", f"tiktoken: an invalid file ({name}) is not reported as such: {type(ex).__name__}: {ex}")
        write_hg(d / "h", rng, ["<|x|>"])
        text = (d / "h/tokenizer.json").read_bytes()
        for name, data in {"truncated": text[: len(text) // 2], "text": b"not json", "git-lfs": bads["git-lfs"], "empty": b"", "other json": b'{"a": 1}'}.items():
            (d / "h/tokenizer.json").write_bytes(data)
            obs.count("bad_models")
            try:
                load_hg_token_model(d / "h")
                obs.violate("bad-model", f"Hugging Face: an invalid file ({name}) was loaded")
            except TokenizerModelError as ex:
                obs.check(ex.path == d / "h", "bad-model", lambda: f"the error names {ex.path}")
            except Exception as ex:
                obs.violate("bad-model", f"Hugging Face: an invalid file ({name}) is not reported as such: {type(ex).__name__}: {str(ex)[:300]}")

    def k_sp(self, rng, d, obs):
        """Which control tokens the SentencePiece based tokenizers ask for."""
        import fairseq2.data.tokenizers.sentencepiece as sp
        import fairseq2.models.nllb.tokenizer as nllb
        import fairseq2.models.s2t_transformer.tokenizer as s2t

        made, models = [], []

        class Model:
            vocabulary_size, unk_idx, bos_idx, eos_idx, pad_idx = 100, 3, 1, 2, 0

            def __init__(self, path, control_symbols=None):
                self.control_symbols = control_symbols
                models.append(self)

        class Encoder:
            def __init__(self, model, prefix_tokens=None, suffix_tokens=None, reverse=False, enable_sampling=False, nbest_size=-1, alpha=0.1, device=None, pin_memory=False):
                self.got = (model, list(prefix_tokens or []), list(suffix_tokens or []), reverse, enable_sampling, device, pin_memory)
                made.append(self)

        saved = [(m, n, getattr(m, n)) for m in (sp, nllb, s2t) for n in ("SentencePieceEncoder", "SentencePieceModel") if hasattr(m, n)]
        for m, n, _ in saved:
            setattr(m, n, Encoder if n.endswith("Encoder") else Model)
        try:
            langs = rng.sample(["eng_Latn", "deu_Latn", "tur_Latn", "en", "de"], rng.randrange(1, 5))
            lang = rng.choice(langs)
            default = rng.choice(langs)
            device, pin = rng.choice([None, "meta"]), rng.random() < 0.5
            tk = nllb.load_nllb_tokenizer(Path("/m"), nllb.NllbTokenizerConfig(langs=langs, default_lang=default))
            L, D = f"__{lang}__", f"__{default}__"
            want = set(f"__{x}__" for x in langs) | {"<MINED_DATA>", "<MMT_BT_DATA>", "<SMT_BT_DATA>", "<pad>@0"}
            obs.check(set(models[0].control_symbols) == want, "control-symbols", lambda: f"nllb: {models[0].control_symbols}")
            cases = [
                (tk, {"lang": lang}, [L], ["</s>"]),
                (tk, {}, [D], ["</s>"]),
                (tk, {"task": "translation", "lang": lang, "mode": "source"}, [L], ["</s>"]),
                (tk, {"lang": lang, "mode": "source_mining"}, [L, "<MINED_DATA>"], ["</s>"]),
                (tk, {"lang": lang, "mode": "source_mmt_bt"}, [L, "<MMT_BT_DATA>"], ["</s>"]),
                (tk, {"lang": lang, "mode": "source_smt_bt"}, [L, "<SMT_BT_DATA>"], ["</s>"]),
                (tk, {"lang": lang, "mode": "target"}, ["</s>", L], ["</s>"]),
                (tk, {"mode": "target"}, ["</s>", D], ["</s>"]),
                (tk, {"lang": "xx"}, None, None), (tk, {"mode": "prompt"}, None, None), (tk, {"task": "asr"}, None, None),
            ]
            b = sp.BasicSentencePieceTokenizer(Model(None))
            cases += [(b, {}, ["<s>"], ["</s>"]), (b, {"mode": "default"}, ["<s>"], ["</s>"]), (b, {"mode": "prompt"}, ["<s>"], []), (b, {"mode": "prompt_response"}, [], ["</s>"]), (b, {"mode": "x"}, None, None), (b, {"lang": "en"}, None, None), (b, {"task": "x"}, None, None)]
            r = sp.RawSentencePieceTokenizer(Model(None))
            cases += [(r, {}, [], []), (r, {"mode": "prompt"}, None, None), (r, {"lang": "en"}, None, None)]
            task = rng.choice(["translation", "transcription"])
            tk = s2t.load_s2t_transformer_tokenizer(Path("/m"), s2t.S2TTransformerTokenizerConfig(task=task, target_langs=set(langs), default_target_lang=default))
            multi = task == "translation" and len(langs) > 1
            cases += [
                (tk, {}, ["</s>"] + ([f"<lang:{default}>"] if multi else []), []),
                (tk, {"task": task, "lang": lang, "mode": "target"}, ["</s>"] + ([f"<lang:{lang}>"] if multi else []), []),
                (tk, {"lang": "xx"}, None, None), (tk, {"mode": "source"}, None, None),
                (tk, {"task": "translation" if task == "transcription" else "transcription"}, None, None),
            ]
            rng.shuffle(cases)
            for t, kw, pre, suf in cases:
                obs.count("sentencepiece_encoders")
                name = type(t).__name__
                n = len(made)
                try:
                    t.create_encoder(**kw, device=device, pin_memory=pin)
                except Exception as ex:
                    obs.check(pre is None, "control-tokens", lambda: f"{name}.create_encoder({kw}): {type(ex).__name__}: {ex}")
                    continue
                obs.check(pre is not None, "bad-argument", lambda: f"{name}.create_encoder({kw}) is accepted")
                if pre is None:
                    continue
                obs.check(len(made) == n + 1, "control-tokens", lambda: f"{name}.create_encoder({kw}) made {len(made) - n} encoders")
                got = made[-1].got
                obs.check(got[0] in models and got[1:] == (pre, suf, False, False, device, pin), "control-tokens", lambda: f"{name}.create_encoder({kw}): {got[1:]}, expected {(pre, suf)}")
                t.create_raw_encoder(device=device, pin_memory=pin)
                got = made[-1].got
                obs.check(got[1:] == ([], [], False, False, device, pin), "control-tokens", lambda: f"{name}.create_raw_encoder(): {got[1:]}")
                i = t.vocab_info
                obs.check((i.size, i.unk_idx, i.bos_idx, i.eos_idx, i.pad_idx) == (100, 3, 1, 2, 0), "vocabulary-info", lambda: f"{name}: {i}")
                obs.state((name, tuple(sorted(kw))))
        finally:
            for m, n, v in saved:
                setattr(m, n, v)


if __name__ == "__main__":
    main(C35())
