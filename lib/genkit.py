"""Stateful random language models whose every probability is known."""
from __future__ import annotations

import math
import random

import torch
import fairseq2.recipe  # noqa: F401
from fairseq2.models.clm import CausalLM
from fairseq2.models.seq2seq import Seq2SeqModel
from fairseq2.nn.incremental_state import IncrementalState


class Table:
    """Next-token logits as a pure function of (source, prefix)."""

    def __init__(self, seed, vocab, sharp=1.5, dead=()):
        self.seed, self.vocab, self.sharp, self.dead = seed, vocab, sharp, dead
        self.memo = {}

    def logits(self, source, prefix):
        k = (source, prefix)
        v = self.memo.get(k)
        if v is None:
            r = random.Random(f"{self.seed}|{source}|{prefix}")
            v = self.memo[k] = [r.gauss(0, self.sharp) for _ in range(self.vocab)]
        return v

    def lprobs(self, source, prefix, temperature=1.0):
        x = [v / temperature for v in self.logits(source, prefix)]
        m = max(x)
        z = m + math.log(sum(math.exp(v - m) for v in x))
        return [v - z for v in x]


class History(IncrementalState):
    """The tokens that each row has been fed so far."""

    def __init__(self, rows):
        self.rows = rows

    def reorder(self, new_order):
        self.rows = [self.rows[i] for i in new_order.tolist()]

    def size_bytes(self):
        return sum(8 * len(r[1]) for r in self.rows)

    def capacity_bytes(self):
        return self.size_bytes()


class Feeder:
    def feed(self, seqs, layout, bag, sources, obs_calls):
        assert not layout.packed
        st = bag.maybe_get_state(self, History)
        if st is None:
            st = History([(s, ()) for s in (sources or [None] * len(seqs))])
            bag.set_state(self, st)
        if len(st.rows) != len(seqs):
            raise AssertionError(f"the model holds the state of {len(st.rows)} rows, but is fed {len(seqs)}")
        out = torch.empty(*seqs.shape, self.table.vocab)
        rows = []
        for i, row in enumerate(seqs.tolist()):
            src, h = st.rows[i]
            for j, t in enumerate(row):
                h = h + (t,)
                out[i, j] = torch.tensor(self.table.logits(src, h))
            rows.append((src, h))
        st.rows = rows
        self.calls += 1
        n = {len(h) for _, h in rows}
        assert len(n) == 1 and bag.step_nr + seqs.size(1) == n.pop(), "the step number of the state bag does not match the fed tokens"
        return out


class LM(CausalLM, Feeder):
    def __init__(self, table, max_seq_len):
        super().__init__(max_seq_len)
        self.table = table
        self.calls = 0
        self.mode = None

    def forward(self, seqs, seqs_layout, targets=None, *, state_bag=None, **kw):
        self.mode = self.training
        return self.feed(seqs, seqs_layout, state_bag, None, None)


class S2S(Seq2SeqModel, Feeder):
    def __init__(self, table, max_seq_len):
        super().__init__(1000, max_seq_len)
        self.table = table
        self.calls = 0
        self.mode = None

    def forward(self, source_seqs, source_seqs_layout, target_seqs, target_seqs_layout, targets=None, *, state_bag=None, **kw):
        self.mode = self.training
        src = [tuple(r[:n]) for r, n in zip(source_seqs.tolist(), source_seqs_layout.seq_lens)]
        return self.feed(target_seqs, target_seqs_layout, state_bag, src, None)


def pad(seqs, value):
    from fairseq2.nn import BatchLayout

    n = max(len(s) for s in seqs)
    t = torch.tensor([list(s) + [value] * (n - len(s)) for s in seqs])
    return t, BatchLayout.of(t, [len(s) for s in seqs])


class Procs:
    """Step processors, and what they must ban according to their definition."""

    def __init__(self, ngram, banned):
        self.ngram, self.banned = ngram, [tuple(b) for b in banned]

    def real(self):
        from fairseq2.generation.step_processor import BannedSequenceProcessor, NGramRepeatBlockProcessor

        out = []
        if self.ngram:
            out.append(NGramRepeatBlockProcessor(self.ngram))
        if self.banned:
            out.append(BannedSequenceProcessor([torch.tensor(b) for b in self.banned]))
        return out

    def bans(self, prefix, vocab):
        out = set()
        n = self.ngram
        if n:
            seen = {prefix[i : i + n] for i in range(len(prefix) - n + 1)}
            tail = prefix[len(prefix) - n + 1 :] if n > 1 else ()
            if len(prefix) >= n - 1:
                out |= {t for t in range(vocab) if tail + (t,) in seen}
        for b in self.banned:
            k = len(b) - 1
            if len(prefix) >= k and prefix[len(prefix) - k :] == b[:-1]:
                out.add(b[-1])
        return out
