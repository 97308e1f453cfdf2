"""Random batch layouts, and references for attention."""
from __future__ import annotations

import math

import torch
import fairseq2.recipe  # noqa: F401
from fairseq2.nn import BatchLayout


def pack_rows(rows, layout_kind, *, extra=0, poison=None):
    """Lay out a list of (S_i, *) tensors: returns (batch, layout, where), where
    ``where[i]`` are the batch indices of sequence i."""
    lens = [len(r) for r in rows]
    shape = rows[0].shape[1:]
    if layout_kind == "packed":
        n = sum(lens) + extra
        x = torch.empty((n, *shape), dtype=rows[0].dtype)
        fill(x, poison)
        where, o = [], 0
        for r in rows:
            x[o : o + len(r)] = r
            where.append((slice(o, o + len(r)),))
            o += len(r)
        return x, BatchLayout((n,), lens, packed=True), where
    n = max(lens) + extra
    x = torch.empty((len(rows), n, *shape), dtype=rows[0].dtype)
    fill(x, poison)
    where = []
    for i, r in enumerate(rows):
        x[i, : len(r)] = r
        where.append((i, slice(0, len(r))))
    return x, BatchLayout((len(rows), n), lens), where


def fill(x, poison):
    if x.is_floating_point():
        x.copy_(torch.full_like(x, 0.0 if poison is None else poison))
    else:
        x.fill_(0 if poison is None else int(poison))


def allowed(bias, i, j, q_len, k_len):
    """May query i see key j, both counted from the start of their sequence?"""
    kind, arg = bias
    p = i + k_len - q_len
    if kind == "identity":
        return True
    if j > p:
        return False
    if kind == "causal":
        return arg is None or j > p - arg
    if kind == "chunked":
        return j // arg == p // arg
    return True


def bias_of(bias, heads):
    from fairseq2.models.transformer import ALiBiAttentionBias, CausalAttentionBias, ChunkedAttentionBias, IdentityBias

    kind, arg = bias
    if kind == "identity":
        return IdentityBias()
    if kind == "causal":
        return CausalAttentionBias(attn_window_len=arg)
    if kind == "chunked":
        return ChunkedAttentionBias(arg)
    return ALiBiAttentionBias(heads)


def ref_attention(q, k, v, bias, *, scale=None, soft_cap=None, extra=None, extra_v=None):
    """q (S, H, K), k (T, H, K), v (T, H, V) of one sequence, by the definition.

    ``extra(h, i, j)`` adds to the scaled score, ``extra_v(h, i, j)`` to the value."""
    S, H, K = q.shape
    T = k.shape[0]
    out = torch.zeros(S, H, v.shape[-1], dtype=torch.float64)
    weights = torch.zeros(H, S, T, dtype=torch.float64)
    q, k, v = q.double(), k.double(), v.double()
    sc = K**-0.5 if scale is None else scale
    slopes = [(2 ** (-8 / H)) ** (h + 1) for h in range(H)]
    for h in range(H):
        for i in range(S):
            js = [j for j in range(T) if allowed(bias, i, j, S, T)]
            s = []
            for j in js:
                x = float(q[i, h] @ k[j, h]) * sc
                if soft_cap is not None:
                    x = soft_cap * math.tanh(x / soft_cap)
                if extra is not None:
                    x += extra(h, i, j)
                if bias[0] == "alibi":
                    x += slopes[h] * j
                s.append(x)
            w = torch.softmax(torch.tensor(s, dtype=torch.float64), 0)
            for n, j in enumerate(js):
                weights[h, i, j] = w[n]
                out[i, h] += w[n] * (v[j, h] if extra_v is None else v[j, h] + extra_v(h, i, j))
    return out, weights
