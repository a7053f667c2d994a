"""C25: mapping onto another year. Every source value carries its position, so from the
result it is visible which source period each target period was taken from; this mapping is
judged day by day (month, duration type, weekday, holiday, least-used and nearest day) with
attributes from the reference calendar and the holidays package. Mapped portfolio lines are
compared with a reference model.
"""
import datetime as dt
import warnings

import cal
import gen
import holidays
import numpy as np
import obs
import pandas as pd
from core import Skip, scenario

import portfolyo as pf
from portfolyo import tools

RULE = "random spans of full months x source and target years x country x timezone x start-of-day x frequency; distinct by these"
TZS = [None, "Europe/Berlin", "Europe/Berlin", "Europe/London", "America/New_York", "Australia/Sydney", "Asia/Kolkata", "UTC"]
COUNTRIES = ["DE", "DE", "NL", "US", "GB", "FR", "AU", "IN", None, None]


def span(rng, freq, years):
    y = rng.choice(years)
    m = rng.choice([1, 2, 3, 3, 4, 5, 10, 10, 11, 12, 12, rng.randrange(1, 13)])
    k = {"15min": rng.choice([1, 1, 2]), "h": rng.choice([1, 1, 2, 3])}.get(freq) or rng.choice([1, 1, 1, 2, 3, 5, 12, 14, 25])
    a = dt.date(y, m, 1)
    return a, cal.add_months(a, k)


def mk(rng, freq, tz, years):
    if cal.rank(freq) <= 2:
        a, b = span(rng, freq, years)
    else:
        a = cal.start_date(dt.date(rng.choice(years), rng.randrange(1, 13), 1), freq)
        b = cal.next_date(a, freq, {"MS": rng.choice([1, 3, 12, 24, 31]), "QS": rng.choice([1, 4, 9])}.get(cal.base(freq)) or rng.choice([1, 2, 4]))
    return gen.Idx(freq, a, b, rng.choice(gen.SODS), tz)


def in_year(idx, year):
    d = year - idx.first.year
    return gen.Idx(idx.freq, idx.first.replace(year=year), idx.last.replace(year=idx.last.year + d), idx.sod, idx.tz)


def days(idx, country):
    """Attributes of each day in index: list of dicts."""
    dd = gen.Idx("D", idx.first, idx.last, idx.sod, idx.tz)
    hol = dict(getattr(holidays, country)(years=range(idx.first.year, idx.last.year + 1))) if country else {}
    out, d = [], idx.first
    for k in range(dd.n):
        out.append(dict(date=d, ym=(d.year, d.month), wd=d.isoweekday(), hol=hol.get(d, ""), dst=idx.tz is not None and dd.hours[k] != 24, h=dd.hours[k], a=dd.b[k], z=dd.b[k + 1]))
        d += dt.timedelta(days=1)
    return out


def candidates(s, t):
    """Days in source month which target day may be taken from."""
    if t["dst"]:
        return [x for x in s if x["dst"]]
    if not t["hol"]:
        return [x for x in s if not x["dst"] and not x["hol"] and x["wd"] == t["wd"]]
    return [x for x in s if not x["dst"] and x["hol"] == t["hol"]] or [x for x in s if not x["dst"] and (x["hol"] or x["wd"] == 7)]


def months(ds):
    out = {}
    for d in ds:
        out.setdefault(d["ym"], []).append(d)
    return out


def judge_months(ctx, src, pairs, key):
    """Mapping target month -> source month."""
    n = {m: 0 for m in src}
    for t in sorted(pairs, key=lambda t: (t not in src, t)):
        s = pairs[t]
        ctx.check(s in src and s[1] == t[1], f"{key}:month", f"{t} is taken from {s}")
        if t in src:
            ctx.check(s == t, f"{key}:same-month", f"{t} is in source, but is taken from {s}")
            ctx.saw("months mapped onto themselves")
        else:
            least = min(v for m, v in n.items() if m[1] == t[1])
            ctx.check(n[s] == least, f"{key}:month-repeated", f"{t} is taken from {s}, used {n[s]} times before; another year {least} times")
        n[s] += 1
        ctx.saw("months judged")


def possible(src, tgt):
    ms, mt = months(src), months(tgt)
    for m, td in mt.items():
        opts = [m] if m in ms else [x for x in ms if x[1] == m[1]]
        bad = [any(not candidates(ms[o], t) for t in td) for o in opts]
        if not opts or all(bad):
            return False
        if any(bad):
            return None  # depends on which month is chosen
    return True


def judge_days(ctx, sidx, tidx, ids, country, key):
    """``ids``: per target period, position of source period it is taken from."""
    src, tgt = days(sidx, country), days(tidx, country)
    ps = np.searchsorted(sidx.b, [d["a"] for d in src])
    pt = np.searchsorted(tidx.b, [d["a"] for d in tgt])
    per_s, per_t = np.append(ps, sidx.n), np.append(pt, tidx.n)
    owner = np.searchsorted(ps, ids, side="right") - 1
    chosen = []
    for k, t in enumerate(tgt):
        s = int(owner[per_t[k]])
        got, exp = list(ids[per_t[k] : per_t[k + 1]]), list(range(per_s[s], per_s[s + 1]))
        ctx.check(got == exp, f"{key}:one-day", lambda: f"{t['date']} ({len(got)} periods) takes positions {got[:3]}..{got[-1]}; source day {src[s]['date']} has {exp[0]}..{exp[-1]}")
        chosen.append(src[s])
        ctx.saw("days judged")
    pairs = {}
    for t, s in zip(tgt, chosen):
        pairs.setdefault(t["ym"], s["ym"])
        ctx.check(pairs[t["ym"]] == s["ym"], f"{key}:month-mixed", f"{t['ym']} is taken from {pairs[t['ym']]} and {s['ym']}")
    ms = months(src)
    judge_months(ctx, {m: 0 for m in ms}, pairs, key)
    for m in pairs:
        pool = ms[pairs[m]]
        used = {x["date"]: 0 for x in pool}
        todo = [(t, s) for t, s in zip(tgt, chosen) if t["ym"] == m]

        def stage(t):
            if t["dst"]:
                return 0
            if not t["hol"]:
                return 1
            return 2 if any(not x["dst"] and x["hol"] == t["hol"] for x in pool) else 3

        for t, s in sorted(todo, key=lambda x: (stage(x[0]), x[0]["date"])):
            c = candidates(pool, t)
            st = stage(t)
            what = f"{t['date']} (weekday {t['wd']}, holiday '{t['hol']}', {t['h']}h) is taken from {s['date']} (weekday {s['wd']}, holiday '{s['hol']}', {s['h']}h)"
            ctx.check(s["h"] == t["h"] or t["dst"], f"{key}:duration", what)
            ctx.check(s in c, f"{key}:{['dst', 'weekday', 'holiday', 'other-holiday'][st]}", what)
            ctx.saw(["DST days", "normal days", "holidays with same name", "other holidays"][st])
            least = min(used[x["date"]] for x in c)
            ctx.check(used[s["date"]] == least, f"{key}:repeated", lambda: f"{what}, used {used[s['date']]} times before; other candidate {least} times")
            near = min(abs(x["date"].day - t["date"].day) for x in c if used[x["date"]] == least)
            ctx.check(abs(s["date"].day - t["date"].day) == near, f"{key}:nearest", lambda: f"{what}, another candidate is {near} days away")
            used[s["date"]] += 1
            if s["date"] == t["date"]:
                ctx.saw("days mapped onto themselves")
            if pairs[m] == m:
                ctx.check(s["date"] == t["date"], f"{key}:identity", what)


def payload(rng, idx):
    x = np.arange(idx.n, dtype=float)
    i = idx.pd
    r = rng.random()
    if r < 0.35:
        return pd.Series(x, i, name=rng.choice(["x", None])), lambda f: np.asarray(f, float)
    if r < 0.6:
        return pd.Series(x, i, dtype="pint[MW]"), lambda f: np.asarray(f.pint.m, float)
    return pd.DataFrame({"a": pd.Series(x, i, dtype="pint[MW]"), "b": 3 * x + 1}, i), lambda f: (np.asarray(f["b"], float) - 1 - np.asarray(f["a"].pint.m, float)) / 2


def ids_of(ctx, r, get, tidx, key):
    obs.judge_index(ctx, r.index, key, tidx)
    x = get(r)
    ids = np.rint(x)
    ctx.check(np.isfinite(x).all() and np.abs(ids - x).max() < 1e-6, f"{key}:values", "result has values that are not in source")
    return ids.astype(int)


@scenario(quick=420, must=["days judged", "DST days", "holidays with same name", "other holidays", "months mapped onto themselves", "days mapped onto themselves", "no correspondence refused", "leap day"])
def short_frames(ctx):
    rng = ctx.rng
    tz = rng.choice(TZS)
    freq = rng.choice(["D", "D", "D", "h", "15min"])
    years = rng.choice([range(2015, 2031), range(2015, 2031), [2005, 2006, 2007, 2008, 2009]])
    sidx = mk(rng, freq, tz, years)
    country = rng.choice(COUNTRIES)
    year = rng.choice(years) if rng.random() < 0.85 else sidx.first.year
    how = rng.choice(["year", "year", "index"])
    if how == "year":
        tidx = in_year(sidx, year)
    else:
        tidx = mk(rng, freq, tz, [year])
        if rng.random() < 0.6:
            # in calendar months that are present
            k = rng.randrange((sidx.last.year - sidx.first.year) * 12 + sidx.last.month - sidx.first.month)
            a = cal.add_months(sidx.first, k)
            a = a.replace(year=rng.choice([year, a.year]))
            tidx = gen.Idx(freq, a, cal.add_months(a, 1), sidx.sod, tz)
        tidx = gen.Idx(freq, tidx.first, tidx.last, sidx.sod, tz)
    fr, get = payload(rng, sidx)
    ctx.case(src=repr(sidx), tgt=repr(tidx), country=country, how=how, type=type(fr).__name__)
    if how == "year":
        f = rng.choice([tools.changeyear.map_frame_to_year, pf.map_frame_to_year])
        fn = lambda: f(fr, year, country)  # noqa
    else:
        fn = lambda: tools.changeyear.map_frame_to_index(fr, tidx.pd, country)  # noqa
    ok = possible(days(sidx, country), days(tidx, country))
    if ok is None:
        raise Skip
    ctx.nontrivial(sidx.key(), tidx.key(), country, type(fr).__name__)
    if not ok:
        ctx.raises("impossible", fn, "day or month without correspondence")
        ctx.saw("no correspondence refused")
        return
    r = fn()
    ctx.check(type(r) is type(fr), "frame:type", lambda: type(r).__name__)
    ids = ids_of(ctx, r, get, tidx, "frame")
    judge_days(ctx, sidx, tidx, ids, country, "frame")
    if any(t["date"].month == 2 and t["date"].day == 29 for t in days(tidx, None)):
        ctx.saw("leap day")
    if sidx.key() == tidx.key():
        ctx.check(np.array_equal(ids, np.arange(sidx.n)), "frame:onto-itself", "mapping year onto itself changes values")
        ctx.saw("years mapped onto themselves")


@scenario(quick=400, must=["months judged", "no correspondence refused", "mixture refused"])
def long_frames(ctx):
    rng = ctx.rng
    tz = rng.choice(TZS)
    freq = rng.choice(["MS", "MS", "QS", "YS", "QS-FEB", "YS-APR"])
    years = range(2015, 2031)
    sidx = mk(rng, freq, tz, years)
    year = rng.choice(years) if rng.random() < 0.8 else sidx.first.year
    how = rng.choice(["year", "index"])
    tidx = in_year(sidx, year) if how == "year" else gen.Idx(freq, *(lambda x: (x.first, x.last))(mk(rng, freq, tz, years)), sidx.sod, tz)
    fr, get = payload(rng, sidx)
    ctx.case(src=repr(sidx), tgt=repr(tidx), how=how)
    ctx.nontrivial(sidx.key(), tidx.key(), how)
    if rng.random() < 0.15:
        other = mk(rng, rng.choice([f for f in ["D", "MS", "QS", "YS"] if f != freq]), tz, [2020]) if rng.random() < 0.5 else gen.Idx(freq, tidx.first, tidx.last, sidx.sod, rng.choice([t for t in TZS if t != tz]))
        ctx.raises("mixture", lambda: tools.changeyear.map_frame_to_index(fr, other.pd, None), f"target {other!r}")
        ctx.saw("mixture refused")
        return
    fn = (lambda: pf.map_frame_to_year(fr, year)) if how == "year" else (lambda: tools.changeyear.map_frame_to_index(fr, tidx.pd))
    ms = lambda i: [(w.year, w.month) for w in (cal.to_wall(s, i.tz) for s in i.left)]  # noqa
    src, tgt = ms(sidx), ms(tidx)
    if {m for _, m in tgt} - {m for _, m in src}:
        ctx.raises("impossible", fn, "month without correspondence")
        ctx.saw("no correspondence refused")
        return
    ids = ids_of(ctx, fn(), get, tidx, "long")
    judge_months(ctx, {m: 0 for m in src}, {t: src[k] for t, k in zip(tgt, ids)}, "long")
    if sidx.key() == tidx.key():
        ctx.saw("years mapped onto themselves")


def mapped(m, ids, tidx):
    if m.nested:
        return gen.Nest({n: mapped(c, ids, tidx) for n, c in m.children.items()})
    if m.kind == "vol":
        return gen.Flat("vol", tidx, w=m.w[ids])
    if m.kind == "pri":
        return gen.Flat("pri", tidx, p=m.p[ids])
    if m.kind == "rev":
        return gen.Flat("rev", tidx, r=m.r[ids] / m.idx.hours[ids] * tidx.hours)
    return gen.Flat("all", tidx, w=m.w[ids], p=m.p[ids])


@scenario(quick=260, must=["lines compared with model", "unequal durations", "nested lines", "days judged"])
def lines(ctx):
    rng = ctx.rng
    tz = rng.choice(TZS)
    freq = rng.choice(["D", "D", "h", "MS", "MS", "QS", "YS"])
    sidx = mk(rng, freq, tz, range(2015, 2031))
    if freq == "D" and sidx.n > 100:
        sidx = gen.Idx(freq, sidx.first, cal.add_months(sidx.first, 2), sidx.sod, tz)
    country = rng.choice(COUNTRIES)
    year = rng.randrange(2010, 2035)
    tidx = in_year(sidx, year)
    kind = rng.choice(gen.KINDS)
    m = gen.line(rng, kind, sidx, rng.choice([0, 0, 1, 2]), style=rng.choice(["pos", "nonzero", "big"]))
    ctx.case(src=repr(sidx), tgt=repr(tidx), country=country, line=m.describe())
    short = cal.rank(freq) <= 2
    if short and possible(days(sidx, country), days(tidx, country)) is not True:
        raise Skip
    ctx.nontrivial(sidx.key(), year, country, m.describe())
    pos = pd.Series(np.arange(sidx.n, dtype=float), sidx.pd)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ids = ids_of(ctx, tools.changeyear.map_frame_to_year(pos, year, country), lambda f: np.asarray(f, float), tidx, "line")
        if short:
            judge_days(ctx, sidx, tidx, ids, country, "line")
        pfl = m.build(pf)
        before = obs.fingerprint(pfl)
        r = pf.map_to_year(pfl, year, country)
    obs.judge_equals(ctx, r, mapped(m, ids, tidx), "line")
    ctx.check(obs.fingerprint(pfl) == before, "line:operand-changed", "mapping changed its operand")
    if (tidx.hours != sidx.hours[ids]).any():
        ctx.saw("unequal durations")
    if m.nested:
        ctx.saw("nested lines")


@scenario(quick=150, must=["days characterized", "holidays seen", "DST days seen", "indices moved", "refused"])
def characterize(ctx):
    rng = ctx.rng
    tz = rng.choice(TZS)
    idx = gen.index(rng, freqs=["D"], tz=tz, size=rng.choice(["m", "l"]))
    country = rng.choice([c for c in COUNTRIES if c])
    ctx.case(idx=repr(idx), country=country)
    ctx.nontrivial(idx.key(), country)
    f = rng.choice([pf.characterize_index, tools.changeyear.characterize_index])
    c = f(idx.pd, country) if country != "DE" or rng.random() < 0.5 else f(idx.pd)
    obs.judge_index(ctx, c.index, "char", idx)
    for k, d in enumerate(days(idx, country)):
        x = c.iloc[k]
        got = (int(x.isoweekday), int(x.yy), int(x.mm), int(x.dd), str(x.holiday), bool(x.dst_change))
        exp = (d["wd"], d["date"].year, d["date"].month, d["date"].day, d["hol"], bool(d["dst"]))
        ctx.check(got == exp, "char:day", lambda: f"{c.index[k]}: {got}, expected {exp}")
        ctx.saw("days characterized")
        if d["hol"]:
            ctx.saw("holidays seen")
        if d["dst"]:
            ctx.saw("DST days seen")
    other = gen.index(rng, freqs=["15min", "h", "MS", "QS", "YS"])
    ctx.raises("char:freq", lambda: f(other.pd, country), f"index with frequency {other.freq}")
    ctx.saw("refused")
    i2 = mk(rng, rng.choice(["15min", "h", "D", "MS", "QS", "YS", "QS-FEB", "YS-APR"]), tz, range(2015, 2031))
    y = rng.randrange(2010, 2035)
    obs.judge_index(ctx, tools.changeyear.index_with_year(i2.pd, y), "index_with_year", in_year(i2, y))
    ctx.saw("indices moved")
