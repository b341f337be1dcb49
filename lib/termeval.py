"""Evaluate extracted value terms over finite grids of their free symbols (numpy)."""
import numpy as np
from interp import Sym, Term


class Unevaluable(Exception):
    pass


def ev(v, env):
    if isinstance(v, (int, np.ndarray)):
        return v
    if isinstance(v, Sym):
        if v in env:
            return env[v]
        raise Unevaluable(repr(v))
    if isinstance(v, Term):
        if v in env:
            return env[v]
        if v.op == "tab":
            return np.array(v.args[0].f, dtype=np.int64)[ev(v.args[1], env)]
        a = [ev(x, env) for x in v.args]
        op = v.op
        if op == "Add": return a[0] + a[1]
        if op == "Sub": return a[0] - a[1]
        if op == "Mul": return a[0] * a[1]
        if op == "Div": return a[0] // a[1]
        if op == "Rem": return a[0] % a[1]
        if op == "BitAnd": return a[0] & a[1]
        if op in ("BitOr", "BitOrBool"): return a[0] | a[1]
        if op == "BitXor": return a[0] ^ a[1]
        if op == "Shl": return a[0] << a[1]
        if op == "Shr": return a[0] >> a[1]
        if op == "Eq": return (a[0] == a[1]) * 1
        if op == "Ne": return (a[0] != a[1]) * 1
        if op == "Lt": return (a[0] < a[1]) * 1
        if op == "Le": return (a[0] <= a[1]) * 1
        if op == "Gt": return (a[0] > a[1]) * 1
        if op == "Ge": return (a[0] >= a[1]) * 1
        if op == "not": return 1 - a[0]
        if op == "castu8": return a[0] & 0xff
        if op == "castu16": return a[0] & 0xffff
        if op == "castu32": return a[0] & 0xffffffff
        raise Unevaluable(op)
    raise Unevaluable(repr(v)[:60])


def syms(v, out=None):
    if out is None:
        out = set()
    if isinstance(v, Sym):
        out.add(v)
    elif isinstance(v, Term):
        for x in v.args:
            syms(x, out)
    return out


def grid(ranges, cap=6000000):
    """ranges: list of (sym, interval set) -> env of flattened arrays over the full product"""
    ax = []
    n = 1
    for s, r in ranges:
        vals = np.concatenate([np.arange(lo, hi + 1) for lo, hi in r]) if r else np.array([], dtype=np.int64)
        ax.append(vals.astype(np.int64))
        n *= len(vals)
    if n > cap:
        raise Unevaluable("grid %d" % n)
    if not ax:
        return {}, 1
    m = np.meshgrid(*ax, indexing="ij")
    return {s: g.ravel() for (s, _), g in zip(ranges, m)}, n


def mask_of(cons, env, n, known, strict=False):
    """boolean mask of grid points satisfying all constraints whose symbols are all in `known`"""
    mask = np.ones(n, dtype=bool)
    for t, r in cons.items():
        if isinstance(t, Sym):
            continue
        ss = syms(t)
        if not ss or not ss <= known:
            continue
        try:
            val = ev(t, env)
        except Unevaluable:
            if strict:
                raise
            continue
        ok = np.zeros(n, dtype=bool)
        for lo, hi in r:
            lo = max(lo, -(1 << 62)); hi = min(hi, 1 << 62)
            ok |= (val >= lo) & (val <= hi)
        mask &= ok
    return mask
