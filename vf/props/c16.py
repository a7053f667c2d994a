"""C16: peak/offpeak decomposition. Timeseries and portfolio lines are decomposed for random peak
definitions, frames are completed, spread over timeseries and converted to other frequencies;
each number is recomputed from the elapsed hours of the peak and offpeak periods.
"""
import alg
import cal
import gen
import numpy as np
import obs
import pandas as pd
import peak
from core import scenario

import portfolyo as pf
from portfolyo import tools

RULE = "random curves x peak definition x {summable, averagable} x source and target frequency x unit; distinct by index, definition, frequency, values"
PC = tools.peakconvert


def a_peak(rng, freq, sod):
    """Peak function usable on index with frequency; and its definition."""
    if rng.random() < 0.2 and freq != "D":
        return pf.germanpower_peakfn, (480, 1200, {1, 2, 3, 4, 5}), "german"
    while True:
        kw, a, b, days = peak.definition(rng, quarters=None if freq == "15min" else False)
        if freq == "D" or rng.random() < 0.15:
            if len(days) == 7:
                continue
            a, b, kw = 0, 1440, {"isoweekdays": list(days)}
        if a == 0 and b == 1440 and sod.hour and freq != "D":
            continue  # see C15
        if b - a >= 60 or len(days) > 1:
            return tools.peakfn.factory(**kw), (a, b, days), str(kw)


def durations(idx, pk, fine="h"):
    """Peak and offpeak hours in each period."""
    if fine == "h" and (pk[0] % 60 or pk[1] % 60):
        fine = "15min"
    if fine == "D" or (pk[0] == 0 and pk[1] == 1440):
        fine = "D"
    f = gen.Idx(fine, idx.first, idx.last, idx.sod, idx.tz)
    m = peak.is_peak(f.left, f.tz, *pk)
    g = alg.regroup(f, idx)
    return np.array([np.sum(f.hours[s][m[s]]) for s in g]), np.array([np.sum(f.hours[s][~m[s]]) for s in g])


def curve(rng, freq=None, max_n=9000):
    tgt = freq or rng.choice(["MS", "MS", "MS", "QS", "QS", "YS", "QS-FEB", "YS-APR"])
    while True:
        src = rng.choice(["15min", "h", "h", "D"])
        idx = gen.index(rng, freqs=[src], size="s", full=tgt)
        if rng.random() < 0.3 and src != "D":
            idx = gen.Idx(src, idx.first, cal.next_date(idx.last, "D", rng.randrange(1, 20)), idx.sod, idx.tz)
        if rng.random() < 0.3:
            idx = gen.Idx(src, cal.next_date(idx.first, "D", -rng.randrange(1, 20)), idx.last, idx.sod, idx.tz)
        if idx.n < max_n:
            return tgt, idx


def split(idx, tgt, v, pk, summable):
    """Expected peak and offpeak values per period of tgt."""
    m = peak.is_peak(idx.left, idx.tz, *pk)
    res = []
    for s in alg.regroup(idx, tgt):
        row = []
        for x in (m[s], ~m[s]):
            t = idx.hours[s][x]
            row.append(np.sum(v[s][x]) if summable else (np.sum(v[s][x] * t) / np.sum(t) if len(t) else np.nan))
        res.append(row)
    return np.array(res)


def col(ctx, df, c, unit, key):
    s = df[c]
    if unit is None:
        ctx.check(not str(s.dtype).startswith("pint"), f"{key}:unit", lambda: f"{s.dtype}")
        return np.asarray(s, float)
    ctx.check(str(s.dtype).startswith("pint") and abs(pf.Q_(1.0, s.pint.units).to(unit).magnitude - 1) < 1e-9, f"{key}:unit", lambda: f"{c}: {s.dtype}, expected {unit}")
    return np.asarray(s.pint.magnitude, float)


def judge_frame(ctx, df, idx, exp, unit, key, cols=("peak", "offpeak"), sc=None):
    ctx.check(isinstance(df, pd.DataFrame) and set(df.columns) == set(cols), f"{key}:columns", lambda: f"{list(df.columns)}")
    ctx.check(gen.secs(df.index) == list(idx.left), f"{key}:index", lambda: f"{list(df.index[:3])}, expected {idx!r}")
    ctx.check(df.index.freq is not None and cal.base(obs.fr_key(df.index.freqstr)) == cal.base(idx.freq), f"{key}:freq", lambda: f"{df.index.freq}, expected {idx.freq}")
    for j, c in enumerate(cols):
        a = col(ctx, df, c, unit, key)
        ctx.check(gen.close(a, exp[:, j], 1e-9, max(sc or 0, obs.top(exp))), f"{key}:{c}", lambda: f"{c}: " + gen.worst(a, exp[:, j]))
        ctx.saw("frame values compared", len(a))


@scenario(quick=300, must=["frame values compared", "no full period refused", "partial periods dropped"])
def decompose(ctx):
    rng = ctx.rng
    freq, idx = curve(rng)
    fn, pk, desc = a_peak(rng, idx.freq, idx.sod)
    summable = rng.random() < 0.5
    v = gen.values(rng, idx.n)
    unit = rng.choice([None, "MW", "Eur/MWh", "kEur", "h"])
    s = pd.Series(v.copy(), idx.pd, dtype=f"pint[{unit}]" if unit else float)
    ctx.case(index=repr(idx), freq=freq, peak=desc, summable=summable, unit=unit)
    if rng.random() < 0.15:  # no full period
        long = "YS-" + cal.MON[(idx.first.month + 4) % 12]
        if alg.full_span(idx, long) is None:
            ctx.raises("no-full-period", lambda: PC.tseries2poframe(s, fn, long, summable), f"{idx!r} to {long}")
            ctx.saw("no full period refused")
    if rng.random() < 0.1:
        f = rng.choice(["D", "h"])
        ctx.raises("short-freq", lambda: PC.tseries2poframe(s, fn, f, summable), f"{idx!r} to {f}")
    tgt = alg.full_span(idx, freq)
    fp = obs.fingerprint(s)
    df = PC.tseries2poframe(s, fn, freq, summable) if freq != "MS" or rng.random() < 0.7 else PC.tseries2poframe(s, fn, is_summable=summable)
    exp = split(idx, tgt, v, pk, summable)
    judge_frame(ctx, df, tgt, exp, unit, "decompose", sc=obs.top(v))
    if tgt.first > idx.first or tgt.last < idx.last:
        ctx.saw("partial periods dropped")
    # complete with base
    full = PC.complete_bpoframe(df, fn, summable)
    tot = (alg.down_sum if summable else alg.down_avg)(v, idx, tgt)
    judge_frame(ctx, full, tgt, np.column_stack([tot, exp]), unit, "base", ("base", "peak", "offpeak"), sc=obs.top(v))
    ctx.check(obs.fingerprint(s) == fp, "operand", "series was changed")
    ctx.nontrivial(idx.key(), freq, desc, summable, unit)


@scenario(quick=300, must=["frame values compared", "completed"])
def complete(ctx):
    """Any two of base, peak, offpeak."""
    rng = ctx.rng
    freq = rng.choice(["MS", "MS", "QS", "YS", "QS-FEB"])
    idx = gen.index(rng, freqs=[freq], size="s")
    fn, pk, desc = a_peak(rng, rng.choice(["h", "15min"]) if freq != "YS" or idx.n < 3 else "h", idx.sod)
    summable = rng.random() < 0.4
    p, o = durations(idx, pk)
    P, O = gen.values(rng, idx.n), gen.values(rng, idx.n)
    B = P + O if summable else (P * p + O * o) / (p + o)
    unit = rng.choice([None, "MW", "Eur/MWh", "ctEur"])
    given = rng.choice([("peak", "offpeak"), ("base", "peak"), ("base", "offpeak"), ("offpeak", "base"), ("base", "peak", "offpeak")])
    val = {"base": B, "peak": P, "offpeak": O}
    df = pd.DataFrame({c: pd.Series(val[c].copy(), idx.pd, dtype=f"pint[{unit}]" if unit else float) for c in given})
    if rng.random() < 0.3:
        df["extra"] = 1.0
    ctx.case(index=repr(idx), given=given, peak=desc, summable=summable, unit=unit)
    fp = obs.fingerprint(df)
    got = PC.complete_bpoframe(df, fn, summable)
    amp = 1 if summable else float(np.max((p + o) / np.minimum(p, o)))
    judge_frame(ctx, got, idx, np.column_stack([B, P, O]), unit, "complete", ("base", "peak", "offpeak"), sc=amp * max(map(obs.top, val.values())))
    ctx.check(list(got.columns) == ["base", "peak", "offpeak"], "order", lambda: f"{list(got.columns)}")
    ctx.check(obs.fingerprint(df) == fp, "operand", "frame was changed")
    ctx.saw("completed")
    one = df[[given[0]]]
    ctx.raises("too-few", lambda: PC.complete_bpoframe(one, fn, summable), f"{given[0]} only")
    ctx.nontrivial(idx.key(), given, desc, summable, unit)


@scenario(quick=220, must=["values spread", "round trips", "longer frequency", "shorter frequency"])
def spread(ctx):
    rng = ctx.rng
    freq = rng.choice(["MS", "MS", "MS", "QS", "YS"])
    idx = gen.index(rng, freqs=[freq], size="s")
    if freq == "YS":
        idx = gen.Idx(freq, idx.first, cal.next_date(idx.first, freq), idx.sod, idx.tz)
    tf = rng.choice(["h", "h", "15min"] if idx.hours.sum() < 2500 else ["h"])
    fn, pk, desc = a_peak(rng, tf, idx.sod)
    if pk[0] == 0 and pk[1] == 1440 and rng.random() < 0.5:
        tf = "D"
    summable = rng.random() < 0.5
    p, o = durations(idx, pk)
    P, O = gen.values(rng, idx.n), gen.values(rng, idx.n)
    unit = rng.choice([None, "MW", "Eur/MWh", "ctEur"])
    mk = lambda v: pd.Series(v.copy(), idx.pd, dtype=f"pint[{unit}]" if unit else float)  # noqa
    cols = {"peak": mk(P), "offpeak": mk(O)}
    if rng.random() < 0.25:  # derived from base
        B = P + O if summable else (P * p + O * o) / (p + o)
        cols = {"base": mk(B), rng.choice(["peak", "offpeak"]): None}
        cols = {k: (mk(P) if k == "peak" else mk(O)) if x is None else x for k, x in cols.items()}
    df = pd.DataFrame(cols)
    ctx.case(index=repr(idx), freq=tf, peak=desc, summable=summable, unit=unit, given=list(cols))
    fp = obs.fingerprint(df)
    s = PC.poframe2tseries(df, fn, tf, summable)
    t = gen.Idx(tf, idx.first, idx.last, idx.sod, idx.tz)
    m = peak.is_peak(t.left, t.tz, *pk)
    k = alg.contained(idx, t)
    exp = np.where(m, (P / p)[k], (O / o)[k]) * t.hours if summable else np.where(m, P[k], O[k])
    ctx.check(gen.secs(s.index) == list(t.left), "spread:index", lambda: f"{s.index[:2]}")
    a = col(ctx, s.to_frame("x"), "x", unit, "spread")
    amp = float(np.max((p + o) / np.minimum(p, o))) * 10
    ctx.check(gen.close(a, exp, 1e-9, max(obs.top(exp), amp * max(obs.top(P), obs.top(O)) if len(cols) and "base" in cols else 0)), "spread:value", lambda: gen.worst(a, exp))
    ctx.check(obs.fingerprint(df) == fp, "operand", "frame was changed")
    ctx.saw("values spread", len(a))
    # and back
    both = max(obs.top(P), obs.top(O)) * (amp if "base" in cols else 1)
    df2 = PC.tseries2poframe(s, fn, freq, summable)
    judge_frame(ctx, df2, idx, np.column_stack([P, O]), unit, "back", sc=both)
    ctx.saw("round trips")
    # other frequency
    if pk[0] % 60 == 0 and pk[1] % 60 == 0:
        f2 = rng.choice(["MS", "QS", "YS", "QS-FEB"])
        if not alg.tiles(freq, f2) or (cal.rank(f2) == cal.rank(freq)):
            f2 = freq
        up = cal.rank(f2) < cal.rank(freq)
        tgt = gen.Idx(f2, idx.first, idx.last, idx.sod, idx.tz) if up else alg.full_span(idx, f2)
        if tgt is None:
            ctx.raises("no-full-period", lambda: PC.poframe2poframe(df, fn, f2, summable), f"{idx!r} to {f2}")
            return
        h = gen.Idx("h", idx.first, idx.last, idx.sod, idx.tz)
        mh = peak.is_peak(h.left, h.tz, *pk)
        kh = alg.contained(idx, h)
        vh = np.where(mh, (P / p)[kh], (O / o)[kh]) * h.hours if summable else np.where(mh, P[kh], O[kh])
        e = split(h, tgt, vh, pk, summable)
        df3 = PC.poframe2poframe(df, fn, f2, summable) if f2 != "YS" or rng.random() < 0.5 else PC.poframe2poframe(df, fn, is_summable=summable)
        judge_frame(ctx, df3, tgt, e, unit, "other-freq", sc=both)
        ctx.saw("shorter frequency" if up else "longer frequency")
    ctx.nontrivial(idx.key(), tf, desc, summable, unit)


@scenario(quick=200, must=["lines decomposed", "columns compared"])
def po(ctx):
    """Decomposition of portfolio lines."""
    rng = ctx.rng
    freq, idx = curve(rng, max_n=4500)
    fn, pk, desc = a_peak(rng, idx.freq, idx.sod)
    kind = rng.choice(gen.KINDS)
    m = gen.line(rng, kind, idx, rng.choice([0, 0, 1, 2]), style="mixed" if kind != "all" else "pos")
    ctx.case(line=m.describe(), freq=freq, peak=desc)
    pfl = m.build(pf)
    fp = obs.fingerprint(pfl)
    df = pfl.po(fn, freq) if freq != "MS" or rng.random() < 0.7 else pfl.po(fn)
    ctx.check(obs.fingerprint(pfl) == fp, "operand", "line was changed")
    tgt = alg.full_span(idx, freq)
    a = m.agg()
    e = {"duration": split(idx, tgt, idx.hours, pk, True)}
    if kind in ("vol", "all"):
        e["q"] = split(idx, tgt, a.q, pk, True)
        e["w"] = e["q"] / e["duration"]
    if kind in ("rev", "all"):
        e["r"] = split(idx, tgt, a.r, pk, True)
    if kind == "pri":
        e["p"] = split(idx, tgt, a.p, pk, False)
    if kind == "all":
        with np.errstate(all="ignore"):
            e["p"] = e["r"] / e["q"]
    ctx.check(set(df.columns) == set(e), "po:columns", lambda: f"{list(df.columns)}, expected {list(e)}")
    ctx.check(len(df) == 2 * tgt.n, "po:rows", lambda: f"{len(df)} rows for {tgt.n} periods")
    ts = [gen.sec(x) for x in df.index.get_level_values(0)]
    lab = list(df.index.get_level_values(1))
    ctx.check(sorted(zip(ts, lab)) == sorted((s, x) for s in tgt.left for x in ("peak", "offpeak")), "po:index", lambda: f"{df.index[:4]}")
    for c, x in e.items():
        got = obs.arr(ctx, df[c], c, "po") if c != "duration" else col(ctx, df, c, "h", "po")
        ex = np.array([x[tgt.left.index(s), 0 if n == "peak" else 1] for s, n in zip(ts, lab)])
        sc = max(obs.top(ex), obs.top(getattr(a, c)) if c != "duration" else 0)
        ctx.check(gen.close(got, ex, 1e-8, sc), f"po:{c}", lambda: f"{c}: " + gen.worst(got, ex))
        ctx.saw("columns compared")
    ctx.saw("lines decomposed")
    ctx.nontrivial(idx.key(), kind, freq, desc, m.depth())
