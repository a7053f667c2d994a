"""C20: selecting periods. Random lines and states are sliced and label-selected with
timestamps (on and between period starts, in own and other timezones), strings, indices and
masks; which periods must be selected is computed from the moments, and all their values must be
unchanged. Selections that are empty, have holes or partial days must be refused. Splitting at
any day and adding up loses nothing; reindexing keeps shared values and gives zero elsewhere.
"""
import datetime as dt
import random

import cal
import gen
import numpy as np
import obs
import pandas as pd
import state
from core import Skip, scenario

import portfolyo as pf

RULE = "random lines/states x way of selecting x bounds; distinct by index, structure and selection"


def moment(rng, idx):
    """Random moment in or around index."""
    r = rng.random()
    if r < 0.62:
        d = idx.first + dt.timedelta(days=rng.randrange((idx.last - idx.first).days + 1))
        if cal.rank(idx.freq) > 2 and rng.random() < 0.7:
            d = cal.start_date(d, idx.freq)
        return cal.at(d, idx.sod, idx.tz)
    if r < 0.77:
        return rng.choice(idx.b)
    if r < 0.87:
        return rng.choice(idx.b) + rng.choice([-1, 1, 300, -300, 1800, 7200])
    if r < 0.95:
        return rng.choice([idx.b[0] - 86400 * rng.randrange(1, 40), idx.b[-1] + 86400 * rng.randrange(1, 40)])
    return rng.choice([idx.b[0], idx.b[-1], idx.b[-2]])


def labels_of(rng, secs, tz):
    """One way to write some moments (pandas wants the same timezone for both ends)."""
    seed = rng.random()
    r = [label(random.Random(seed), x, tz) if x is not None else (None, None) for x in secs]
    if len({type(x) for x, _ in r if x is not None}) > 1:
        r = [(None if x is None else gen.stamp(x, tz), None) for x in secs]
    return r


def label(rng, sec, tz):
    ts = gen.stamp(sec, tz)
    r = rng.random()
    w = cal.to_wall(sec, tz)
    if r < 0.2 and sec % 60 == 0 and cal.to_sec(w, tz, 0) == cal.to_sec(w, tz, 1):
        return w.strftime(rng.choice(["%Y-%m-%d %H:%M", "%Y-%m-%dT%H:%M"])), "minute"
    if r < 0.4 and tz is not None:
        return ts.tz_convert(rng.choice(["UTC", "Asia/Tokyo", "America/New_York"])), None
    if r < 0.5:
        return ts.to_pydatetime(), None
    return ts, None


def periodic(rng, idx):
    """Regularly spaced periods that together look like (but are not) a coarser index."""
    w = [cal.to_wall(s, idx.tz) for s in idx.left]
    ways = [lambda t: t.date().day == 1, lambda t: t.date().month % 3 == 1, lambda t: t.date().month == 1 and t.date().day == 1,
            lambda t: t.time() == idx.sod, lambda t: t.minute == 0, lambda t: t.date().weekday() < 5, lambda t: t.hour in range(8, 20)]  # fmt: skip
    sels = [[k for k, t in enumerate(w) if f(t)] for f in ways] + [list(range(0, idx.n, k)) for k in (2, 3, 4, 7, 12, 24)]
    sels = [s for s in sels if 1 < len(s) < idx.n and sub(idx, s) is None]
    return rng.choice(sels) if sels else None


def expected(idx, lo, hi):
    """Index that remains if periods starting in [lo, hi) are selected; None if invalid."""
    sel = [k for k, s in enumerate(idx.left) if (lo is None or s >= lo) and (hi is None or s < hi)]
    return sub(idx, sel)


def sub(idx, sel):
    if not sel or sel != list(range(sel[0], sel[-1] + 1)):
        return None
    if cal.rank(idx.freq) < 2:
        a, b = (cal.to_wall(idx.b[k], idx.tz) for k in (sel[0], sel[-1] + 1))
        if a.time() != b.time() or a.minute:
            return None
        if cal.to_sec(a, idx.tz, 0) != cal.to_sec(a, idx.tz, 1) or cal.to_sec(b, idx.tz, 0) != cal.to_sec(b, idx.tz, 1):
            return "unclear"  # days that start in a repeated hour
        try:
            r = gen.Idx(idx.freq, a.date(), b.date(), a.time(), idx.tz)
        except AssertionError:
            return None
        return r if r.left == [idx.left[k] for k in sel] else "unclear"
    a, b = (cal.to_wall(idx.b[k], idx.tz).date() for k in (sel[0], sel[-1] + 1))
    return gen.Idx(idx.freq, a, b, idx.sod, idx.tz)


def anything(ctx, rng, size="s"):
    idx = gen.index(rng, size=size)
    if rng.random() < 0.2 and idx.n < 1000:
        m = state.random_state(rng, idx, depth=2)
        return idx, m, m.build(), lambda o, mm, key: state.judge_state(ctx, o, mm, key), state.St.crop
    m = gen.line(rng, rng.choice(["vol", "pri", "rev", "all", "all"]), idx)
    return idx, m, m.build(pf), lambda o, mm, key: obs.judge_equals(ctx, o, mm, key, mag=gen.mag(m) * 1e-3), gen.crop


@scenario(quick=900, must=["sub-second bounds", "selections compared", "refused empty or incomplete selections", "states selected", "open ends", "strings", "other timezones"])
def slicing(ctx):
    rng = ctx.rng
    idx, m, o, judge, crop = anything(ctx, rng, rng.choice(["s", "s", "m"]))
    how = rng.choice(["slice", "slice", "loc"])
    a = moment(rng, idx) if rng.random() < 0.8 else None
    b = moment(rng, idx) if rng.random() < 0.8 else None
    if a is not None and b is not None and a > b and rng.random() < 0.9:
        a, b = b, a
    (la, _), (lb, res) = labels_of(rng, (a, b), idx.tz)
    # bounds between whole seconds
    if rng.random() < 0.15 and all(isinstance(x, pd.Timestamp) or x is None for x in (la, lb)):
        d = [pd.Timedelta(rng.choice(["0s", "1ms", "0.5s", "999ms", "999999us"])) for _ in "ab"]
        la, lb = (None if x is None else x + y for x, y in zip((la, lb), d))
        a, b = (None if x is None else x + y.total_seconds() for x, y in zip((a, b), d))
        ctx.saw("sub-second bounds")
    hi = b
    if how == "loc" and b is not None:
        hi = b + (60 if res else 1e-6)  # inclusive
    ctx.case(obj=m.describe(), index=repr(idx), how=how, start=str(la), stop=str(lb))
    e = expected(idx, a, hi)
    if e == "unclear":
        return
    call = lambda: getattr(o, how)[la:lb]  # noqa
    fp = obs.fingerprint(o)
    if e is None:
        ctx.raises(f"refuse-{how}", call, f"{idx!r}: {la} to {lb}")
        ctx.saw("refused empty or incomplete selections")
    else:
        R = call()
        judge(R, crop(m, e), how)
        ctx.saw("selections compared")
        if isinstance(m, state.St):
            ctx.saw("states selected")
        if a is None or b is None:
            ctx.saw("open ends")
        if isinstance(la, str) or isinstance(lb, str):
            ctx.saw("strings")
        if any(str(getattr(x, "tz", idx.tz)) != str(idx.tz) for x in (la, lb) if isinstance(x, pd.Timestamp)):
            ctx.saw("other timezones")
    ctx.check(obs.fingerprint(o) == fp, "operand", "object was changed by selection")
    ctx.nontrivial(idx.key(), m.describe(), how, a, b)


@scenario(quick=520, must=["regularly spaced periods", "selections compared", "refused empty or incomplete selections", "dates", "masks", "indices"])
def labels(ctx):
    """Selection with (partial) dates, masks and indices."""
    rng = ctx.rng
    how = rng.choice(["dates", "dates", "period", "mask", "index"])
    idx, m, o, judge, crop = anything(ctx, rng, "m" if how in ("dates", "period") else rng.choice("ssml"))
    if idx.n > 1500:
        raise Skip
    if how == "dates":
        fm = rng.choice(["%Y-%m-%d", "%Y-%m-%d", "%Y-%m", "%Y"])
        u = {"%Y-%m-%d": "D", "%Y-%m": "MS", "%Y": "YS"}[fm]
        d = sorted(cal.start_date(idx.first + dt.timedelta(days=rng.randrange(-2, (idx.last - idx.first).days + 3)), u) for _ in range(2))
        if rng.random() < 0.2:
            d[rng.randrange(2)] = None
        by = rng.choice(["loc", "slice"])
        z = dt.time(0)
        lo = None if d[0] is None else cal.at(d[0], z, idx.tz)
        hi = None if d[1] is None else cal.at(d[1] if by == "slice" else cal.next_date(d[1], u), z, idx.tz)
        la, lb = (None if x is None else x.strftime(fm) for x in d)
        ctx.case(obj=m.describe(), index=repr(idx), how=by, start=la, stop=lb)
        e, call = expected(idx, lo, hi), lambda: getattr(o, by)[la:lb]
        ctx.saw("dates")
    elif how == "period":
        if cal.rank(idx.freq) > 2:
            return
        fm, u = rng.choice([("%Y-%m", "MS"), ("%Y", "YS")] + ([("%Y-%m-%d", "D")] if cal.rank(idx.freq) < 2 else []))
        d = cal.start_date(idx.first + dt.timedelta(days=rng.randrange((idx.last - idx.first).days)), u)
        z = dt.time(0)
        ctx.case(obj=m.describe(), index=repr(idx), label=d.strftime(fm))
        e = expected(idx, cal.at(d, z, idx.tz), cal.at(cal.next_date(d, u), z, idx.tz))
        call = lambda: o.loc[d.strftime(fm)]  # noqa
        ctx.saw("dates")
    else:
        a, b = sorted((rng.randrange(idx.n), rng.randrange(idx.n)))
        if cal.rank(idx.freq) < 2 and rng.random() < 0.7:  # full days
            days = [cal.at(idx.first + dt.timedelta(days=k), idx.sod, idx.tz) for k in range((idx.last - idx.first).days + 1)]
            x, y = sorted(rng.sample(range(len(days)), 2))
            a, b = idx.b.index(days[x]), idx.b.index(days[y]) - 1
        sel = list(range(a, b + 1))
        if len(sel) > 2 and rng.random() < 0.25:  # hole
            del sel[rng.randrange(1, len(sel) - 1)]
        if rng.random() < 0.05:
            sel = []
        elif rng.random() < 0.35:
            reg = periodic(rng, idx)
            if reg is not None:
                sel = reg
                ctx.saw("regularly spaced periods")
        ctx.case(obj=m.describe(), index=repr(idx), how=how, periods=str(sel)[:100])
        e = sub(idx, sel)
        if how == "mask":
            v = np.isin(np.arange(idx.n), sel)
            v = rng.choice([lambda: v, lambda: list(v), lambda: pd.Series(v, idx.pd)])()
            call = lambda: o.loc[v]  # noqa
            ctx.saw("masks")
        else:
            i = idx.pd[sel[0] : sel[-1] + 1] if e is not None else idx.pd[sel]
            if e is None and len(i) > 2 and rng.random() < 0.5:
                i = pd.DatetimeIndex(i, freq=pd.infer_freq(i))
            call = lambda: o.loc[i]  # noqa
            ctx.saw("indices")
    if e == "unclear":
        return
    if e is None:
        ctx.raises(f"refuse-{how}", call, f"{idx!r}: {how}")
        ctx.saw("refused empty or incomplete selections")
    else:
        judge(call(), crop(m, e), how)
        ctx.saw("selections compared")
    ctx.nontrivial(idx.key(), m.describe(), how)


@scenario(quick=220, must=["objects split", "totals compared"])
def splitting(ctx):
    rng = ctx.rng
    while True:
        idx, m, o, judge, crop = anything(ctx, rng, rng.choice(["s", "m"]))
        cuts = [s for s in idx.left[1:] if cal.to_wall(s, idx.tz).time() == idx.sod]
        if cuts:
            break
    cuts = sorted(rng.sample(cuts, min(len(cuts), rng.choice([1, 1, 2, 3]))))
    ctx.case(obj=m.describe(), index=repr(idx), cuts=str([cal.to_wall(s, idx.tz) for s in cuts]))
    st = [gen.stamp(s, idx.tz) for s in cuts]
    pieces = [o.slice[a:b] for a, b in zip([None] + st, st + [None])]
    lefts = [s for p in pieces for s in gen.secs(p.index)]
    ctx.check(lefts == list(idx.left), "periods", lambda: f"{len(lefts)} periods in pieces, {idx.n} in original")
    parts = ["offtakevolume", "sourced", "unsourced", "pnl_cost"] if isinstance(m, state.St) else [None]
    for p in parts:
        g = lambda x: x if p is None else getattr(x, p)  # noqa
        for c in [c for c in "qr" if c in obs.AVAIL[obs.kind(g(o))]]:
            v = obs.arr(ctx, getattr(g(o), c), c)
            w = np.concatenate([obs.arr(ctx, getattr(g(x), c), c) for x in pieces])
            ctx.check(gen.close(w, v, 1e-9), "values", lambda: f"{p}.{c}: " + gen.worst(w, v))
            tot = sum(np.nansum(obs.arr(ctx, getattr(g(x), c), c)) for x in pieces)
            ctx.check(abs(tot - np.nansum(v)) <= 1e-9 * max(np.nansum(np.abs(v)), 1e-12), "total", lambda: f"{p}.{c}: pieces add up to {tot}, not {np.nansum(v)}")
            ctx.saw("totals compared")
    ctx.saw("objects split")
    ctx.nontrivial(idx.key(), m.describe(), tuple(cuts))


@scenario(quick=300, must=["reindexed", "zeros judged", "shared values judged"])
def reindexing(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    m = gen.line(rng, rng.choice(["vol", "pri", "rev", "all"]), idx)
    tgt, mode = gen.subspan(rng, idx)
    ctx.case(obj=m.describe(), target=repr(tgt), mode=mode)
    o = m.build(pf)
    fp = obs.fingerprint(o)
    R = o.reindex(tgt.pd)
    pos = {s: k for k, s in enumerate(idx.left)}
    src = [pos.get(s) for s in tgt.left]

    def go(x):
        if x.nested:
            return gen.Nest({n: go(c) for n, c in x.children.items()})
        v = lambda a: np.array([0.0 if k is None else a[k] for k in src])  # noqa
        return gen.Flat(x.kind, tgt, **{c: v(getattr(x, c)) for c in "qpr" if getattr(x, c) is not None})

    obs.judge_equals(ctx, R, go(m), "reindex", mag=gen.mag(m) * 1e-3)
    obs.judge_line(ctx, R, "invariant", mag=gen.mag(m))
    ctx.saw("reindexed")
    ctx.saw("zeros judged", sum(k is None for k in src))
    ctx.saw("shared values judged", sum(k is not None for k in src))
    ctx.check(obs.fingerprint(o) == fp, "operand", "object was changed by reindexing")
    ctx.nontrivial(idx.key(), tgt.key(), m.describe())
