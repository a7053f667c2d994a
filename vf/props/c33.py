"""C33: mock-up data (`pf.dev`). Indices, series, frames, lines (flat, nested, random) and states
are requested with random arguments; what comes back is judged as if it came from a user: is it
what was asked for, is it valid and consistent in itself, does the same seed give the same data,
and do the curves have the shape that their arguments ask for.
"""
import datetime as dt

import cal
import gen
import numpy as np
import obs
import pandas as pd
import peak
import state
from core import scenario

import portfolyo as pf

RULE = "random requests (index, kind, levels, children, amplitudes, seed); distinct by arguments and index"
KINDS = {"vol": pf.Kind.VOLUME, "pri": pf.Kind.PRICE, "rev": pf.Kind.REVENUE, "all": pf.Kind.COMPLETE}
UNITS = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur", "nodim": "dimensionless"}
LEN = {"YS": 4, "QS": 5, "MS": 14, "D": 400, "h": 10_000, "15min": 50_000}


def own(rng, **kw):
    """Index for the mock-up functions (own copy; they give it another name)."""
    x = gen.index(rng, **kw)
    return x, x.pd.copy()


def seeded(ctx, fn, key, same=None):
    """Same seed, same data."""
    s = ctx.rng.randrange(1, 10**6)
    a, b = fn(s), fn(s)
    same = same or (lambda a, b: obs.fingerprint(a) == obs.fingerprint(b))
    ctx.check(same(a, b), f"{key}:seed", f"two calls with seed {s} differ")
    ctx.saw("seeded pairs")
    return a


@scenario(quick=200, must=("short requests refused", "seeded pairs", "free indices"))
def index(ctx):
    rng = ctx.rng
    f = rng.choice(["15min", "h", "D", "MS", "QS", "YS", "QS", "YS"])
    b = f
    tz = rng.choice(gen.TZS)
    sod = rng.choice([None, dt.time(0), dt.time(6), dt.time(5)])
    kw = {"freq": f, "tz": tz}
    day = 24 * (4 if f == "15min" else 1)
    if rng.random() < 0.7:
        lo, hi = {"15min": (100, 800), "h": (25, 400), "D": (1, 400)}.get(f, (1, 30))
        kw["periods"] = rng.randint(lo, hi)
        if rng.random() < 0.4 and b in ("15min", "h"):
            kw["periods"] = day * rng.randint(2, 6)
    if rng.random() < 0.5:
        d = gen.anchor_date(rng, tz)
        kw["startdate"] = cal.start_date(d, f).isoformat()
    if sod is not None:
        kw["start_of_day"] = sod
    if "periods" not in kw and b == "15min" and ctx.tier == "quick" and rng.random() < 0.7:
        kw["periods"] = 300
    ctx.case(**{k: str(v) for k, v in kw.items()})
    ctx.nontrivial(str(kw))
    i = seeded(ctx, lambda s: pf.dev.get_index(**kw, _seed=s), "index", lambda a, b: a.equals(b) and a.freq == b.freq)
    if rng.random() < 0.3:
        i = pf.dev.get_index(**kw)
        ctx.saw("free indices")
    gf, s, gsod, gtz = obs.judge_index(ctx, i, "index")
    ctx.check(cal.base(gf) == b and cal.anchor(gf) == cal.anchor(f), "index:freq", lambda: f"{gf}, asked for {f}")
    ctx.check(gtz == tz, "index:tz", lambda: f"{gtz}, asked for {tz}")
    ctx.check(gsod == (sod or dt.time(0)), "index:sod", lambda: f"{gsod}, asked for {sod}")
    if "startdate" in kw:
        ctx.check(cal.to_wall(s[0], tz).date().isoformat() == kw["startdate"], "index:start", lambda: f"{i[0]}, asked for {kw['startdate']}")
    if "periods" in kw:
        if b in cal.STEP:
            ctx.check(kw["periods"] - day - 4 < len(i) <= kw["periods"], "index:periods", lambda: f"{len(i)}, asked for {kw['periods']}")
            # no full day is dropped
            d = cal.to_wall(s[-1] + cal.STEP[b], tz).date()
            nxt = cal.at(d + dt.timedelta(days=1), gsod, tz)
            ctx.check(s[0] + kw["periods"] * cal.STEP[b] < nxt, "index:dropped", lambda: f"{len(i)} of {kw['periods']} periods left")
        else:
            ctx.check(len(i) == kw["periods"], "index:periods", lambda: f"{len(i)}, asked for {kw['periods']}")
    else:
        n = LEN[f]
        ctx.check(n // 2 - day - 4 < len(i) < n * 2, "index:periods", lambda: f"{len(i)} periods without request")
    if b in cal.STEP:
        ctx.raises("index:short", lambda: pf.dev.get_index(**{**kw, "periods": rng.randint(1, day - day // 12)}), "less than a day")
        ctx.saw("short requests refused")


def units(ctx, s, col, has_unit, key):
    if has_unit:
        ctx.check(hasattr(s, "pint") and str(s.dtype).startswith("pint"), f"{key}:unit", lambda: f"{col}: {s.dtype}")
        if col == "nodim":
            return state.series(ctx, s, key)
        if col in UNITS:
            ctx.check(s.pint.dimensionality == pf.tools.unit.ureg.Unit(UNITS[col]).dimensionality, f"{key}:unit", lambda: f"{col}: {s.dtype}")
        v = s.pint.to(UNITS[col]).pint.magnitude
    else:
        ctx.check(s.dtype == float, f"{key}:float", lambda: f"{col}: {s.dtype}")
        v = s.values
    v = np.asarray(v, float)
    ctx.check(np.isfinite(v).all(), f"{key}:finite", lambda: f"{col}: {v[~np.isfinite(v)][:3]}")
    return v


@scenario(quick=250, must=("seeded pairs", "series judged"))
def data(ctx):
    rng = ctx.rng
    x, i = own(rng, size=rng.choice("ssm"))
    has_unit = rng.random() < 0.6
    ref = i.copy()
    ctx.case(index=repr(x), has_unit=has_unit)
    ctx.nontrivial(repr(x), has_unit)

    def judge(s, col, key):
        ctx.check(list(s.index) == list(ref) and s.index.freq == ref.freq and str(s.index.tz) == str(ref.tz), f"{key}:index", lambda: f"{col}: {s.index[:2]}, freq {s.index.freq}, asked for {ref[:2]}")
        v = units(ctx, s, col, has_unit or col in "wpqr" and hasattr(s, "pint") and has_unit, key)
        # all curves are positive with standard settings
        ctx.check((v > 0).all(), f"{key}:positive", lambda: f"{col}: min {v.min()}")
        if not has_unit or col in UNITS:
            lo, hi = {"w": (10, 80), "p": (30, 220), "nodim": (0.9, 1.1)}.get(col, (0, np.inf))
            ctx.check((v >= lo).all() and (v <= hi).all(), f"{key}:range", lambda: f"{col}: {v.min()}..{v.max()}")
        ctx.saw("series judged")

    if rng.random() < 0.6:
        col = rng.choice(["w", "q", "p", "r", "nodim"])
        s = seeded(ctx, lambda seed: pf.dev.get_series(i, col, has_unit, _seed=seed), "series")
        if col != "nodim":
            ctx.check(s.name == col, "series:name", lambda: f"{s.name}, asked for {col}")
        judge(s, col, "series")
    else:
        cols = rng.choice(["w", "q", "p", "pr", "qr", "pq", "wp", "wr", "wqpr"])
        df = seeded(ctx, lambda seed: pf.dev.get_dataframe(i, cols, has_unit, _seed=seed), "frame")
        ctx.check(list(df.columns) == list(cols), "frame:columns", lambda: f"{list(df.columns)}, asked for {cols}")
        for col in cols:
            judge(df[col], col, "frame")
    n = rng.choice(["w", "q", "p", "r", "nodim"])
    m = rng.choice([None, 3.5, -2])
    v = pf.dev.get_value(n, has_unit, m)
    if has_unit:
        ctx.check(v.dimensionality == pf.tools.unit.ureg.Unit(UNITS[n]).dimensionality, "value:unit", lambda: f"{n}: {v!r}")
        v = v.m
    ctx.check(v == m if m is not None else 0 <= v <= 200, "value:magnitude", lambda: f"{v!r}, asked for {m}")


def walk(ctx, pfl, kind, x, levels, count, key, exact=True):
    """Every level has kind, index and number of levels and children."""
    ctx.check(obs.kind(pfl) == kind, f"{key}:kind", lambda: f"{obs.kind(pfl)}, asked for {kind}")
    obs.judge_index(ctx, pfl.index, key, x)
    ctx.saw("lines judged")
    ch = obs.children(pfl) if obs.nested(pfl) else {}
    if exact:
        ctx.check(bool(ch) == (levels > 1), f"{key}:levels", lambda: f"{len(ch)} children with {levels} levels left")
        ctx.check(not ch or len(ch) == count, f"{key}:children", lambda: f"{list(ch)}, asked for {count}")
    else:
        ctx.check(not ch or levels > 1, f"{key}:levels", lambda: f"{len(ch)} children with {levels} levels left")
        ctx.check(len(ch) <= count, f"{key}:children", lambda: f"{list(ch)}, asked for at most {count}")
    return 1 + max((walk(ctx, c, kind, x, levels - 1, count, key, exact) for c in ch.values()), default=0)


def lowest(pfl):
    v = min(np.asarray(getattr(pfl, c).pint.magnitude, float).min() for c in pfl.kind.available)
    return min([v] + [lowest(c) for c in (obs.children(pfl).values() if obs.nested(pfl) else ())])


@scenario(quick=250, must=("lines judged", "seeded pairs", "positive nested", "random nested", "refused"))
def lines(ctx):
    rng = ctx.rng
    x, i = own(rng, size="s")
    k = rng.choice(list(KINDS))
    fn = rng.choice(["pfline", "flat", "nested", "random"])
    levels = rng.choice([1, 2, 2, 3, 4])
    count = rng.choice([1, 2, 2, 3, 4] if levels < 4 else [1, 2])
    pos = rng.random() < 0.6
    ctx.case(index=repr(x), kind=k, fn=fn, levels=levels, count=count, positive=pos)
    ctx.nontrivial(repr(x), k, fn, levels, count)
    K = KINDS[k]
    if fn == "pfline":
        make = lambda s: pf.dev.get_pfline(i, K, levels, count, positive=pos, _seed=s)  # noqa
    elif fn == "flat":
        levels, pos = 1, False
        make = lambda s: pf.dev.get_flatpfline(i, K, _seed=s)  # noqa
    elif fn == "nested":
        levels, pos = max(2, levels), False
        make = lambda s: pf.dev.get_nestedpfline(i, K, levels, count, _seed=s)  # noqa
    else:
        make = lambda s: pf.dev.get_randompfline(i, K, levels, count, positive=pos, _seed=s)  # noqa
    res = [seeded(ctx, make, "line")] + [make(None) for _ in range(2)]
    for pfl in res:
        obs.judge_line(ctx, pfl, "line")
        n = walk(ctx, pfl, k, x, levels, count, "line", fn != "random")
        if fn == "random" and n > 1:
            ctx.saw("random nested")
        if pos:
            lo = lowest(pfl)
            ctx.check(lo >= 0, "line:positive", lambda: f"lowest value {lo}")
            if n > 1:
                ctx.saw("positive nested")
    bad = rng.choice(["levels", "count"])
    if bad == "levels":
        ctx.raises("line:refused", lambda: pf.dev.get_nestedpfline(i, K, 1), "nested line with one level")
    else:
        ctx.raises("line:refused", lambda: pf.dev.get_pfline(i, K, 2, 0), "nested line without children")
    ctx.saw("refused")


@scenario(quick=120, must=("states judged",))
def states(ctx):
    rng = ctx.rng
    x, i = own(rng, size=rng.choice("ssm"))
    avg = rng.choice([None, None, 10.0, 250.0])
    ctx.case(index=repr(x), avg=avg)
    ctx.nontrivial(repr(x), avg)
    if rng.random() < 0.6:
        all_ = {"": pf.dev.get_pfstate(i, avg)}
    else:
        n = rng.choice([1, 2, 3, 4, 5])
        avg = None
        all_ = pf.dev.get_pfstates(i, n)
        ctx.check(len(all_) == n, "states:number", lambda: f"{list(all_)}, asked for {n}")
    for st in all_.values():
        state.judge_balance(ctx, st, "state")
        obs.judge_index(ctx, st.index, "state", x)
        w = obs.arr(ctx, st.offtakevolume.w, "w")
        ctx.check((w < 0).all(), "state:offtake", lambda: f"offtake up to {w.max()}")
        if avg:
            ctx.check((abs(w / avg + 1) < 0.75).all(), "state:average", lambda: f"offtake {w.min()}..{w.max()}, asked for average {avg}")
        f = np.asarray(state.series(ctx, st.sourcedfraction, "state"))
        ctx.check(((f > 0.1) & (f < 2)).all(), "state:sourced", lambda: f"sourced fractions {f.min()}..{f.max()}")


def magn(ctx, s, unit, has_unit, key):
    if has_unit:
        ctx.check(str(s.dtype).startswith("pint"), f"{key}:unit", lambda: f"{s.dtype}")
        return np.asarray(s.pint.to(unit).pint.magnitude, float)
    ctx.check(s.dtype == float, f"{key}:float", lambda: f"{s.dtype}")
    return np.asarray(s, float)


@scenario(quick=200, must=("year", "week", "day", "peak", "flat", "refused"))
def curves(ctx):
    """The amplitudes do what they say: nothing where they are 0, and more in winter, midweek,
    midday or peak hours, or less, if they are negative."""
    rng = ctx.rng
    hu = rng.random() < 0.5
    which = rng.choice(["w", "p"])
    amps = ["year", "week", "day"] if which == "w" else ["year", "week", "peak"]
    pick = rng.choice(amps + ["flat"])
    f = {"year": rng.choice(["MS", "D", "h"]), "week": rng.choice(["D", "h", "15min"]), "day": rng.choice(["h", "15min"]), "peak": rng.choice(["h", "15min"]), "flat": rng.choice(["15min", "h", "D", "MS", "QS", "YS"])}[pick]
    tz = rng.choice(gen.TZS)
    y = rng.randint(2001, 2033)
    d0, d1 = dt.date(y, 1, 1), dt.date(y + 1, 1, 1)
    if pick != "year" and f in ("h", "15min"):
        d0 = gen.anchor_date(rng, tz)
        d1 = d0 + dt.timedelta(days=14)
    elif pick == "flat":
        d0, d1 = dt.date(y, 1, 1), dt.date(y + 2, 1, 1)
    x = gen.Idx(f, d0, d1, dt.time(0), tz)
    a = rng.choice([0.05, 0.2, 0.4]) * rng.choice([1, 1, -1])
    avg = rng.choice([1.0, 50.0, 1000.0])
    kw = {f"{n}_amp": (a if n == pick else 0.0) for n in amps}
    fn = pf.dev.w_offtake if which == "w" else pf.dev.p_marketprices
    if which == "w":
        kw["rand_amp"] = 0.0
    ctx.case(which=which, index=repr(x), pick=pick, a=a, avg=avg)
    ctx.nontrivial(which, repr(x), pick, a)
    s = fn(x.pd, avg, **kw, has_unit=hu)
    ctx.check(s.index.equals(x.pd) and s.name == which, "curve:index", lambda: f"{s.name} {s.index[:2]}")
    v = magn(ctx, s, UNITS[which], hu, "curve") / avg - 1
    ctx.check((np.abs(v) <= (2.2 if pick in ("week", "day") and which == "w" else 1.0001) * abs(a) + 1e-9).all(), "curve:amplitude", lambda: f"{v.min()}..{v.max()} with amplitude {a}")
    walls = [cal.to_wall(t, tz) for t in x.left]
    v = v * np.sign(a)
    sel = lambda c: v[[k for k, t in enumerate(walls) if c(t)]]  # noqa
    if pick == "flat":
        ctx.check(np.abs(v).max() < 1e-9, "curve:flat", lambda: f"{v.min()}..{v.max()} without amplitudes")
    elif pick == "year":
        hi, lo = sel(lambda t: t.month in (1, 2)), sel(lambda t: t.month in (7, 8))
        ctx.check(hi.min() > lo.max(), "curve:winter", lambda: f"winter {hi.min()}, summer {lo.max()}")
    elif pick == "week":
        hi, lo = sel(lambda t: t.isoweekday() in (2, 3)), sel(lambda t: t.isoweekday() in (6, 7))
        ctx.check(hi.mean() > lo.mean(), "curve:midweek", lambda: f"midweek {hi.mean()}, weekend {lo.mean()}")
    elif pick == "day":
        hi, lo = sel(lambda t: 12 <= t.hour < 17), sel(lambda t: 1 <= t.hour < 5)
        ctx.check(hi.min() > lo.max(), "curve:midday", lambda: f"midday {hi.min()}, night {lo.max()}")
    else:
        pk = peak.is_peak(x.left, tz, 8 * 60, 20 * 60, {1, 2, 3, 4, 5})
        hi, lo = v[pk], v[~pk]
        ctx.check(hi.mean() > lo.mean() and hi.min() >= lo.min() and hi.max() >= lo.max(), "curve:peak", lambda: f"peak {hi.mean()}, offpeak {lo.mean()}")
        # well inside
        day = [k for k, t in enumerate(walls) if t.isoweekday() < 6 and 11 <= t.hour < 17]
        wkd = [k for k, t in enumerate(walls) if t.isoweekday() == 6 and 3 <= t.hour or t.isoweekday() == 7 and t.hour < 20]
        inner = lambda ks: [k for k in ks if 12 <= k < len(v) - 12]  # noqa
        ctx.check(np.allclose(v[inner(day)], abs(a)) and np.allclose(v[inner(wkd)], -abs(a)), "curve:peak-level", lambda: f"peak {v[day]}, offpeak {v[wkd]}, amplitude {a}")
    ctx.saw(pick)
    over = {f"{n}_amp": 0.5 for n in amps}
    ctx.raises("curve:refused", lambda: fn(x.pd, avg, **over), "amplitudes above 100 %")
    ctx.saw("refused")


@scenario(quick=150, must=("products judged", "peak products", "with unit", "without unit"))
def sourced(ctx):
    """Sourced volume and price: uniform price and volume per product (and per peak and offpeak
    hours), around the wanted averages."""
    rng = ctx.rng
    freq = rng.choice(["MS", "MS", "QS", "YS", "D"])
    f = rng.choice([g for g in ["15min", "h", "D", "MS", "QS"] if cal.rank(g) <= cal.rank(freq)])
    tz = rng.choice(gen.TZS)
    x = gen.index(rng, freqs=[f], tz=tz, sod=dt.time(0), size="m" if f != "15min" else "s")
    hu = rng.random() < 0.5
    unit = rng.choice(["MW", "kW", "GW"])
    w = -gen.values(rng, x.n, "pos")
    offtake = pd.Series(w, x.pd, dtype=f"pint[{unit}]" if hu else float)
    w_avg, p_avg = rng.choice([0.0, 0.3, 0.6, 1.0]), rng.choice([10.0, 100.0])
    ra = rng.choice([0.0, 0.1, 0.5])
    ctx.case(index=repr(x), freq=freq, unit=hu and unit, w_avg=w_avg, p_avg=p_avg, rand_amp=ra)
    ctx.nontrivial(repr(x), freq, w_avg, p_avg, ra)
    ws, ps = pf.dev.wp_sourced(offtake, freq, w_avg, p_avg, ra, hu)
    ctx.saw("with unit" if hu else "without unit")
    for s, n in ((ws, "w"), (ps, "p")):
        ctx.check(list(s.index) == list(x.pd), f"sourced:index-{n}", lambda: f"{s.index[:3]}")
    wv, pv = magn(ctx, ws, unit, hu, "sourced:w"), magn(ctx, ps, "Eur/MWh", hu, "sourced:p")
    pk = peak.is_peak(x.left, tz, 8 * 60, 20 * 60, {1, 2, 3, 4, 5}) if cal.base(f) in cal.STEP else np.zeros(x.n, bool)
    group = {}
    for k, s in enumerate(x.left):
        group.setdefault((cal.floor(s, freq, dt.time(0), tz), bool(pk[k])), []).append(k)
    for (_, isp), ks in group.items():
        ctx.saw("products judged")
        if isp:
            ctx.saw("peak products")
        ctx.check(np.ptp(pv[ks]) < 1e-9 and np.ptp(wv[ks]) <= 1e-9 * max(1e-9, np.abs(wv[ks]).max()), "sourced:uniform", lambda: f"p {pv[ks]}, w {wv[ks]}")
        ctx.check(abs(pv[ks[0]] / p_avg - 1) <= ra + 1e-9, "sourced:price", lambda: f"{pv[ks[0]]}, asked for {p_avg} +- {ra}")
        m = -w[ks].mean()
        ctx.check(abs(wv[ks[0]] - m * w_avg) <= m * ra + 1e-9 * m, "sourced:volume", lambda: f"{wv[ks[0]]} of {m}, asked for {w_avg} +- {ra}")
