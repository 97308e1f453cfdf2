"""Runs the language model recipes of the repository with a toy tokenizer and
tiny models, and observes what they read, compute and write."""
from __future__ import annotations

import torch

import fairseq2.recipe  # noqa: F401 (import order)
from fairseq2.composition import register_tokenizer_family
from fairseq2.data.tokenizers import TokenDecoder, TokenEncoder, Tokenizer, VocabularyInfo
from fairseq2.recipe.base import RecipeContext

ALPHABET = "abcdefgh "
BOS, EOS, PAD = 9, 10, 11
SIZE = 12
AFFIXES = {"default": ([BOS], [EOS]), "prompt": ([BOS], []), "prompt_response": ([], [EOS]), "as_is": ([], [])}


def encode(text, mode):
    pre, post = AFFIXES[mode]
    return pre + [ALPHABET.index(c) for c in text] + post


def decode(tokens):
    return "".join(ALPHABET[t] if t < 9 else f"<{t}>" for t in tokens)


class Encoder(TokenEncoder):
    def __init__(self, mode):
        self.mode = mode

    def __call__(self, text):
        return torch.tensor(encode(text, self.mode), dtype=torch.int64)

    def encode_as_tokens(self, text):
        return [decode([t]) for t in encode(text, self.mode)]

    prefix_indices = suffix_indices = None


class Decoder(TokenDecoder):
    def __call__(self, token_indices):
        return decode(token_indices.tolist())

    def decode_from_tokens(self, tokens):
        return "".join(tokens)


class ToyTokenizer(Tokenizer):
    vocab_info = VocabularyInfo(size=SIZE, unk_idx=None, bos_idx=BOS, eos_idx=EOS, pad_idx=PAD)

    def create_encoder(self, *, task=None, lang=None, mode=None, device=None, pin_memory=False):
        return Encoder(mode or "default")

    def create_raw_encoder(self, *, device=None, pin_memory=False):
        return Encoder("as_is")

    def create_decoder(self, *, skip_special_tokens=False):
        return Decoder()


def load_toy_tokenizer(path, config):
    if path.read_text() != ALPHABET:
        raise ValueError("another tokenizer")
    return ToyTokenizer()


class Proxy:
    """A unit whose calls are observed."""

    def __init__(self, unit, before, after):
        self.__dict__.update(unit=unit, before=before, after=after)

    def __getattr__(self, name):
        return getattr(self.unit, name)

    def __setattr__(self, name, value):
        setattr(self.unit, name, value)

    def process_batch(self, batch, bag):
        seen = self.before(batch)
        out = self.unit.process_batch(batch, bag)
        self.after(seen, out)
        return out


def observed(recipe_kls, wrap, ready=None):
    """A recipe whose units are replaced by wrap(kind, unit, context)."""

    class Observed(recipe_kls):
        def register(self, container):
            super().register(container)
            register_tokenizer_family(container, "toytok", ToyTokenizer, type(None), loader=load_toy_tokenizer)

        def create_task(self, context):
            t, g = RecipeContext.create_trainer, RecipeContext.create_generator

            def create_trainer(ctx, unit, reader, valid_units=None, valid_readers=None):
                return t(ctx, wrap("train", unit, ctx), reader, [wrap("valid", u, ctx) for u in valid_units or ()], valid_readers)

            def create_generator(ctx, unit, reader):
                return g(ctx, wrap("generate", unit, ctx), reader)

            RecipeContext.create_trainer, RecipeContext.create_generator = create_trainer, create_generator
            try:
                task = super().create_task(context)
            finally:
                RecipeContext.create_trainer, RecipeContext.create_generator = t, g
            if ready is not None:
                ready(context)
            return task

    return Observed()


def logits(model, tokens):
    """Of every position of one sequence, alone."""
    from fairseq2.nn import BatchLayout

    seqs = torch.tensor([tokens])
    with torch.no_grad():
        return model(seqs, BatchLayout.of(seqs))[0].float()


def nll(model, tokens):
    """Of tokens[1:], one by one."""
    p = torch.log_softmax(logits(model, tokens[:-1]), -1)
    return [-p[i, t].item() for i, t in enumerate(tokens[1:])]


def unpinned():
    """Pinned memory needs a GPU."""
    from fairseq2.data.data_pipeline import DataPipelineBuilder

    pack = DataPipelineBuilder.pack
    if getattr(pack, "_verif", False):
        return

    def unpinned_pack(self, *args, pinned_memory=False, **kwargs):
        return pack(self, *args, **kwargs)

    unpinned_pack._verif = True
    DataPipelineBuilder.pack = unpinned_pack
