"""Observation of library objects through their public interface, and invariant monitors."""
from __future__ import annotations

import datetime as dt
from functools import lru_cache

import numpy as np
import pandas as pd

import cal
import gen

import portfolyo as pf

KIND = {pf.Kind.VOLUME: "vol", pf.Kind.PRICE: "pri", pf.Kind.REVENUE: "rev", pf.Kind.COMPLETE: "all"}
UNITS = {c: pf.Unit(u) for c, u in {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur"}.items()}


@lru_cache(maxsize=None)
def same_unit(u, col) -> bool:
    """Unit is the default one (however it is written)."""
    try:
        return abs(pf.Q_(1.0, u).to(UNITS[col]).magnitude - 1) < 1e-12
    except pf.tools.unit.pint.DimensionalityError:
        return False


def kind(pfl) -> str:
    return KIND[pfl.kind]


def nested(pfl) -> bool:
    return pfl.structure is pf.Structure.NESTED


def children(pfl) -> dict:
    return dict(pfl.items()) if nested(pfl) else {}


def arr(ctx, s, col, key="unit") -> np.ndarray:
    """Magnitudes of an observed series; it must carry exactly the default unit."""
    if not isinstance(s, pd.Series):
        ctx.fail(f"{key}:not-a-series", f"{col} is {type(s).__name__}")
    u = getattr(getattr(s, "pint", None), "units", None)
    if u is None:
        ctx.fail(f"{key}:no-unit", f"series for {col} has dtype {s.dtype}")
    if not same_unit(u, col):
        ctx.fail(f"{key}:wrong-unit", f"series for {col} has unit {u}, expected {UNITS[col]}")
    return np.asarray(s.pint.magnitude, dtype=float)


def sod_of(i: pd.DatetimeIndex) -> dt.time:
    return i[0].time()


def freq_of(i: pd.DatetimeIndex) -> str:
    f = i.freq
    return f.freqstr if f is not None else None


def fr_key(freqstr: str) -> str:
    return {"15T": "15min", "H": "h"}.get(freqstr, freqstr)


def tzname(i) -> str | None:
    return None if i.tz is None else str(i.tz)


def judge_index(ctx, i, key, expect: gen.Idx = None):
    """Gapless, ordered, left-bound, on period starts, with frequency set."""
    ctx.saw("indices judged")
    if not isinstance(i, pd.DatetimeIndex):
        ctx.fail(f"{key}:index-type", type(i).__name__)
    f = freq_of(i)
    if f is None:
        ctx.fail(f"{key}:index-freq", "index without frequency")
    f = fr_key(f)
    if cal.base(f) not in cal.FREQS:
        ctx.fail(f"{key}:index-freq", f"unexpected frequency {f}")
    if not len(i):
        ctx.fail(f"{key}:index-empty", "empty index")
    s = gen.secs(i)
    sod, tz = sod_of(i), tzname(i)
    first = cal.to_wall(s[0], tz)
    if (first.minute, first.second, first.microsecond) != (0, 0, 0):
        ctx.fail(f"{key}:index-boundary", f"starts at {first}")
    d0 = first.date()
    if cal.rank(f) > 2 and cal.start_date(d0, f) != d0:
        ctx.fail(f"{key}:index-boundary", f"first period {first} is no start of {f}")
    exp, d = [], d0
    if cal.base(f) in cal.STEP:
        exp = [s[0] + k * cal.STEP[cal.base(f)] for k in range(len(s))]
        end = cal.to_wall(exp[-1] + cal.STEP[cal.base(f)], tz)
        if end.time() != sod:
            ctx.fail(f"{key}:index-fulldays", f"from {first} until {end}: not a number of full days")
    else:
        for _ in range(len(s)):
            exp.append(cal.at(d, sod, tz))
            d = cal.next_date(d, f)
    if s != exp:
        k = next(k for k in range(len(s)) if s[k] != exp[k])
        ctx.fail(f"{key}:index-gap", f"timestamp {k} of {len(s)} is {i[k]}, expected {cal.to_wall(exp[k], tz)} ({f}, {tz})")
    if expect is not None:
        if s != list(expect.left) or tz != expect.tz or cal.base(f) != cal.base(expect.freq):
            ctx.fail(
                f"{key}:index-other",
                f"got {f} {i[0]}..{i[-1]} n={len(i)} tz={tz}, expected {expect!r}",
            )
    return f, s, sod, tz


def hours_of(i) -> np.ndarray:
    """Elapsed hours of the periods of an observed index (by the reference calendar)."""
    f, s, sod, tz = fr_key(freq_of(i)), gen.secs(i), sod_of(i), tzname(i)
    if cal.base(f) in cal.STEP:
        return np.full(len(s), cal.STEP[cal.base(f)] / 3600)
    d = cal.to_wall(s[0], tz).date()
    b = []
    for _ in range(len(s) + 1):
        b.append(cal.at(d, sod, tz))
        d = cal.next_date(d, f)
    return np.array(cal.hours(b))


AVAIL = {"vol": "wq", "pri": "p", "rev": "r", "all": "wqpr"}


def top(a) -> float:
    a = np.asarray(a, float)
    a = a[np.isfinite(a)]
    return float(np.abs(a).max()) if len(a) else 0.0


def judge_line(ctx, pfl, key="invariant", deep=True, mag=0.0):
    """What must be true of *every* portfolio line a user can get hold of.

    ``mag``: largest magnitude from which the values were computed (differences of large
    values carry the absolute rounding error of these values)."""
    fl = mag * 1e-4  # x rtol 1e-9
    ctx.saw("portfolio lines judged")
    if not isinstance(pfl, pf.PfLine):
        ctx.fail(f"{key}:type", f"expected a PfLine, got {type(pfl).__name__}")
    k = kind(pfl)
    judge_index(ctx, pfl.index, key)
    h = hours_of(pfl.index)
    s = gen.secs(pfl.index)
    a = {}
    for c in "wqpr":
        if c in AVAIL[k]:
            ser = getattr(pfl, c)
            a[c] = arr(ctx, ser, c, key)
            if len(ser) != len(s) or gen.secs(ser.index) != s:
                ctx.fail(f"{key}:series-index", f"series {c} has another index than the portfolio line")
        else:
            try:
                v = getattr(pfl, c)
            except Exception:
                ctx.saw("absent dimension refused")
            else:
                ctx.fail(f"{key}:kind", f"{k}-line hands out .{c}: {type(v).__name__}")
    if "q" in a:
        ctx.check(gen.close(a["q"], a["w"] * h, 1e-9, max(top(a["q"]), fl, 1e-12)), f"{key}:q=w*t", lambda: gen.worst(a["q"], a["w"] * h))
    if k == "all":
        nz = np.abs(a["q"]) > max(1e-300, 1e-9 * top(a["q"]), 1e-10 * mag)
        nz &= np.isfinite(a["q"]) & np.isfinite(a["p"])  # revenue without volume: no finite price
        with np.errstate(all="ignore"):
            pq = a["p"] * a["q"]
        sc = max(top(a["r"]), 1e-9, fl)
        ctx.check(gen.close(a["r"][nz], pq[nz], 1e-8, sc), f"{key}:r=p*q", lambda: gen.worst(a["r"][nz], pq[nz]))
    # equal to its own parts
    if k == "all":
        for part, cols, kk in (("volume", "wq", "vol"), ("price", "p", "pri"), ("revenue", "r", "rev")):
            sub = getattr(pfl, part)
            ctx.check(kind(sub) == kk, f"{key}:part-kind", f".{part} has kind {kind(sub)}")
            for c in cols:
                ctx.check(gen.close(arr(ctx, getattr(sub, c), c, key), a[c]), f"{key}:part-values", f".{part}.{c} differs from .{c}")
    if pfl.start != pfl.index[0] or gen.sec(pfl.end) != s[-1] + round(h[-1] * 3600):
        ctx.fail(f"{key}:start-end", f"start {pfl.start} end {pfl.end} for index {pfl.index[0]}..{pfl.index[-1]}")
    if deep and nested(pfl):
        judge_sum(ctx, pfl, key, mag)
        for c in children(pfl).values():
            judge_line(ctx, c, key, True, mag)
    return a


def judge_sum(ctx, pfl, key="sum", mag=0.0):
    """Nested line is the sum of its children, over one common index."""
    ctx.saw("nested lines judged")
    k = kind(pfl)
    ch = children(pfl)
    ctx.check(len(ch) > 0, f"{key}:no-children", "nested line without children")
    cols = {"vol": "wq", "pri": "p", "rev": "r", "all": "wqr"}[k]
    s = gen.secs(pfl.index)
    for n, c in ch.items():
        ctx.check(kind(c) == k, f"{key}:child-kind", lambda: f"child {n} has kind {kind(c)}, parent {k}")
        ctx.check(gen.secs(c.index) == s, f"{key}:child-index", lambda: f"child {n} has index {c.index[0]}..{c.index[-1]} (n={len(c.index)}), parent {pfl.index[0]}..{pfl.index[-1]} (n={len(s)})")
    for col in cols:
        parts = [arr(ctx, getattr(c, col), col, key) for c in ch.values()]
        tot = arr(ctx, getattr(pfl, col), col, key)
        sc = max(1e-12, mag * 1e-4, max(top(p) for p in parts))
        ctx.check(gen.close(tot, sum(parts), 1e-9, sc), f"{key}:children-sum", lambda: f"{col}: " + gen.worst(tot, sum(parts)))
        ctx.saw("aggregate columns compared")


def judge_equals(ctx, pfl, model, key, rtol=1e-9, names_ordered=False, price_where_q0=False, mag=0.0):
    """Observed line equals the reference model (values, index, kind, structure, names)."""
    ctx.saw("lines compared with model")
    if not isinstance(pfl, pf.PfLine):
        ctx.fail(f"{key}:type", f"expected a PfLine, got {type(pfl).__name__}")
    ctx.check(kind(pfl) == model.kind, f"{key}:kind", lambda: f"kind {kind(pfl)}, expected {model.kind}")
    judge_index(ctx, pfl.index, key, model.idx)
    agg = model.agg()
    ctx.check(nested(pfl) == model.nested, f"{key}:structure", lambda: f"nested={nested(pfl)}, expected {model.nested}")
    vals = {}
    for c in model.cols():
        vals[c] = arr(ctx, getattr(pfl, c), c, key)
    for c in model.cols():
        exp = getattr(agg, c)
        got = vals[c]
        if c == "p" and model.kind == "all":
            mask = np.abs(agg.q) > 1e-9 * max(1e-300, np.abs(agg.q).max())
            if model.nested:
                parts = [abs(ch.agg().q) for ch in model.children.values()]
                mask &= np.abs(agg.q) > 1e-7 * np.maximum(sum(parts), 1e-300)
            mask &= np.abs(agg.q) > 1e-7 * mag
            if not price_where_q0:
                got, exp = got[mask], exp[mask]
            tol = max(rtol, 1e-7)
        else:
            tol = rtol
        sc = max(top(got), top(exp), 1e-12, mag * 1e-4)
        if model.nested and c != "p":
            sc = max(1e-12, max(top(getattr(ch.agg(), c)) for ch in model.children.values()), top(getattr(agg, c)), mag * 1e-4)
        ctx.check(gen.close(got, exp, tol, sc), f"{key}:{c}", lambda: gen.worst(got, exp))
        ctx.saw("values compared", len(exp))
    if model.nested:
        ch = children(pfl)
        ctx.check(set(ch) == set(model.children), f"{key}:names", lambda: f"children {list(ch)}, expected {list(model.children)}")
        if names_ordered:
            ctx.check(list(ch) == list(model.children), f"{key}:name-order", lambda: f"children {list(ch)}, expected {list(model.children)}")
        for n, c in model.children.items():
            judge_equals(ctx, ch[n], c, key, rtol, mag=mag)


def fingerprint(o):
    """Everything observable about a line/state/frame, for exact before-after comparison."""
    if isinstance(o, pf.PfState):
        return ("state",) + tuple(fingerprint(getattr(o, p)) for p in ("offtakevolume", "unsourcedprice", "sourced"))
    if isinstance(o, pf.PfLine):
        k = kind(o)
        return (
            k,
            nested(o),
            fp_index(o.index),
            tuple((c, str(getattr(o, c).dtype), getattr(o, c).name, np.asarray(getattr(o, c).pint.magnitude, float).tobytes()) for c in AVAIL[k]),
            tuple((n, fingerprint(c)) for n, c in children(o).items()),
        )
    if isinstance(o, pd.DatetimeIndex):
        return fp_index(o)
    if isinstance(o, pd.Series):
        return ("series", o.name, str(o.dtype), fp_index(o.index), fp_vals(o))
    if isinstance(o, pd.DataFrame):
        return ("frame", tuple(map(str, o.columns)), fp_index(o.index), tuple(fp_vals(o.iloc[:, j]) + (str(o.dtypes.iloc[j]),) for j in range(o.shape[1])))
    if isinstance(o, dict):
        return tuple((k, fingerprint(v)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return tuple(fingerprint(v) for v in o)
    return repr(o)


def fp_vals(s):
    if str(s.dtype).startswith("pint"):
        return (np.asarray(s.pint.magnitude, float).tobytes(),)
    try:
        return (np.asarray(s.values, float).tobytes(),)
    except (TypeError, ValueError):
        return (repr(list(s.values)),)


def fp_index(i):
    if isinstance(i, pd.DatetimeIndex):
        return (i.name, str(i.freq), str(i.tz), tuple(gen.secs(i)))
    return repr(i)
