"""C23: standardizing. Frames of random delivery periods are presented in all the ways that are
accepted (left- or right-bound, with or without frequency, timezone-aware, agnostic, or with the
wall-clock times of a timezone, stamps as text), and converted in random ways; the result must
have the values on the periods computed by the model. Frames with one defect must be refused.
"""
import datetime as dt

import alg
import cal
import gen
import numpy as np
import obs
import pandas as pd
import tzmodel
from core import Skip, scenario

import portfolyo as pf

RULE = "random delivery periods x presentation x requested conversion; one defect per refused frame; distinct by index, presentation and arguments"


def frame(rng, v, i):
    """Series or frame; and function to get values."""
    r = rng.random()
    if r < 0.35:
        return pd.Series(v.copy(), i, name="x"), lambda f: np.asarray(f, float)
    if r < 0.6:
        return pd.Series(v.copy(), i, name="y", dtype="pint[MW]"), lambda f: np.asarray(f.pint.to("MW").pint.m, float)
    if r < 0.8:
        return pd.DataFrame({"a": v, "b": -v}, i), lambda f: np.asarray(f["a"], float) + 0 * np.asarray(f["b"], float)
    return pd.DataFrame({"a": pd.Series(v, i, dtype="pint[MW]"), "b": v}, i), lambda f: np.asarray(f["a"].pint.m, float)


def judge(ctx, r, fr, get, e, x, key):
    ctx.check(type(r) is type(fr), f"{key}:type", lambda: type(r).__name__)
    ctx.check(isinstance(r.index, pd.DatetimeIndex) and obs.tzname(r.index) == e.tz, f"{key}:tz", lambda: f"{r.index.dtype}, expected {e.tz}")
    ctx.check(gen.secs(r.index) == list(e.left), f"{key}:periods", lambda: f"{r.index[:2]}..{r.index[-1:]} ({len(r)}), expected {e!r}")
    f = r.index.freq
    ctx.check(f is not None and equivalent(obs.freq_of(r.index), e.pd.freqstr), f"{key}:freq", lambda: f"{f}, expected {e.freq}")
    got = get(r)
    ctx.check(np.array_equal(got, x, equal_nan=True), f"{key}:values", lambda: gen.worst(got, x))
    if isinstance(fr, pd.Series):
        ctx.check(r.dtype == fr.dtype and r.name == fr.name, f"{key}:attributes", lambda: f"{r.dtype} {r.name}")
    else:
        ctx.check(list(r.columns) == list(fr.columns) and list(r.dtypes) == list(fr.dtypes), f"{key}:attributes", lambda: f"{r.dtypes}")


def equivalent(a, b):
    a, b = obs.fr_key(a), obs.fr_key(b)
    return cal.rank(a) == cal.rank(b) and alg.tiles(a, b)


@scenario(quick=4000, must=["frames compared", "right-bound", "without frequency", "wall clock of timezone", "to agnostic", "to aware", "idempotent", "DST", "stamps as text"])
def accepted(ctx):
    rng = ctx.rng
    nofreq = rng.random() < 0.55
    idx = gen.index(rng, size=rng.choice(["s", "m"]))
    if rng.random() < 0.2:
        f = rng.choice(["QS-FEB", "QS-APR", "QS-MAR", "YS-FEB", "YS-APR", "YS-OCT"])
        idx = gen.index(rng, freqs=[f], size="m")
    if nofreq and idx.n < 3 or idx.n > 1500:
        raise Skip
    bound = rng.choice(["left", "right"])
    v = gen.values(rng, idx.n, "mixed")
    if rng.random() < 0.2 and idx.n > 2:
        v[rng.randrange(1, idx.n - 1)] = np.nan
    clock = None
    b = idx.b[:-1] if bound == "left" else idx.b[1:]
    if idx.tz is not None and cal.rank(idx.freq) < 2 and rng.random() < 0.35:
        # wall clock of timezone, for right-bound stamps in two ways
        clock = rng.choice(["A", "B"]) if bound == "right" else "left"
        if clock == "A":
            step = {"15min": 900, "h": 3600}[idx.freq]
            st = [gen.stamp(cal.to_sec(cal.to_wall(s, idx.tz), None) + step, None) for s in idx.left]
        else:
            st = [gen.stamp(cal.to_sec(cal.to_wall(s, idx.tz), None), None) for s in b]
        i = pd.DatetimeIndex(st, name=rng.choice([None, "time"]))
        nofreq = True
    else:
        i = gen.mk_index(b, idx.tz, None, rng.choice([None, "ts_left", "time"]))
        if not nofreq:
            i.freq = idx.freq
    fr, get = frame(rng, v, i)
    if rng.random() < 0.15 and nofreq and (i.tz is None or len({x.utcoffset() for x in i}) == 1 and str(i.tz) == "UTC"):
        fr = fr.set_axis([str(x) for x in i])
        ctx.saw("stamps as text")
    force = rng.choice([None, "aware", "agnostic"])
    tz = None
    if clock:
        tz = idx.tz
    elif force == "aware":
        tz = rng.choice([idx.tz, idx.tz, rng.choice(gen.TZS)]) or rng.choice(gen.TZS[1:])
    elif rng.random() < 0.3 and idx.tz is not None:
        tz = idx.tz
    if clock and not any(x.dst() != gen.stamp(idx.b[0], idx.tz).dst() for x in (gen.stamp(s, idx.tz) for s in idx.b)):
        # No DST change: nothing shows that it is a timezone's clock.
        base = gen.Idx(idx.freq, idx.first, idx.last, idx.sod, None)
    else:
        base = idx
    kw = dict(force=force, bound=bound, tz=tz)
    kw = {k: x for k, x in kw.items() if x is not None and not (k == "bound" and x == "left" and rng.random() < 0.5)}
    ctx.case(index=repr(idx), nofreq=nofreq, clock=clock, args=kw, type=type(fr).__name__)
    if clock:
        fin = tz if force == "aware" else None
    else:
        fin = {None: idx.tz, "aware": tz, "agnostic": None}[force]
    e, pos = tzmodel.floating(base, fin)
    fp = obs.fingerprint(fr)
    r = pf.standardize(fr, **kw)
    judge(ctx, r, fr, get, e, v[pos], "std")
    ctx.check(r.index.name == "ts_left", "std:name", lambda: f"index is called {r.index.name}")
    ctx.saw("frames compared")
    for flag, what in ((bound == "right", "right-bound"), (nofreq, "without frequency"), (clock, "wall clock of timezone"), (force == "agnostic" and idx.tz, "to agnostic"), (force == "aware" and idx.tz != tz, "to aware"), (idx.dst, "DST")):
        if flag:
            ctx.saw(what)
    # again
    kw2 = dict(kw)
    kw2.pop("bound", None)
    if force == "aware" or rng.random() < 0.5:
        r2 = pf.standardize(r, **kw2)
    else:
        r2 = pf.standardize(r)
    judge(ctx, r2, fr, get, e, v[pos], "again")
    ctx.saw("idempotent")
    ctx.check(obs.fingerprint(fr) == fp, "operand", "input was changed")
    ctx.nontrivial(idx.key(), nofreq, clock, str(kw), type(fr).__name__)


@scenario(quick=3000, must=["rejections demanded", "refused gap", "refused duplicate", "refused partial day", "refused period start", "refused hour", "refused not sorted", "refused not timestamps", "refused empty", "refused second"])
def refused(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size=rng.choice(["s", "m"]))
    why = rng.choice(["gap", "gap", "duplicate", "partial day", "period start", "hour", "not sorted", "not timestamps", "empty", "two years", "second"])
    bound = rng.choice(["left", "left", "right"])
    b = list(idx.b[:-1] if bound == "left" else idx.b[1:])
    n = len(b)
    tz = idx.tz
    freq = None
    v = gen.values(rng, n, "pos")
    i = None
    if why == "gap":
        if n < 5 or idx.n > 1500:
            raise Skip
        if n > 30 and rng.random() < 0.3 and cal.rank(idx.freq) < 2:  # a day
            k = [j for j, s in enumerate(b) if cal.to_wall(s, tz).date() == cal.to_wall(b[n // 2], tz).date()]
        elif n > 30 and rng.random() < 0.3 and cal.rank(idx.freq) < 2:  # many values just before the last one
            per = 24 if idx.freq == "h" else 96
            k = list(range(n - 1 - per, n - 1)) if n > per + 5 else [n - 2]
        else:
            k = [rng.choice([rng.randrange(2, n - 1), n - 2])]
        if k[0] == 0 or k[-1] == n - 1:
            raise Skip
        b = [s for j, s in enumerate(b) if j not in k]
    elif why == "duplicate":
        k = rng.randrange(n)
        b.insert(k, b[k])
    elif why == "partial day":
        if cal.rank(idx.freq) >= 2:
            raise Skip
        k = rng.randrange(1, min(23, n - 3)) * (1 if idx.freq == "h" else 4) if n < 100 else rng.randrange(1, 23) * (4 if idx.freq == "15min" else 1)
        if idx.freq == "15min" and rng.random() < 0.4 and n > 100:  # not a whole number of hours
            b = b[: -rng.choice([1, 2, 3, 5, 93, 94, 95])]
        else:
            b = b[:-k] if rng.random() < 0.5 else b[k:]
        w = [cal.to_wall(s, tz).time() for s in (b[0], b[-1] + {"15min": 900, "h": 3600}[idx.freq])]
        if w[0] == w[1] or idx.dst:
            raise Skip
        freq = idx.freq if rng.random() < 0.7 else None
    elif why == "period start":
        # stamps at constant distance after period starts
        d = {"15min": [300, 420, 1], "h": [900, 1800, 60]}.get(idx.freq)
        if d:
            b = [s + rng.choice(d[:1]) for s in b]
            if rng.random() < 0.5:
                freq = idx.freq
        elif cal.rank(idx.freq) > 2:
            sh = rng.randrange(1, 20)
            if bound == "right":
                raise Skip
            b = [cal.at(cal.day_of(s, idx.sod, tz) + dt.timedelta(days=sh), idx.sod, tz) for s in b]
            if n < 3:
                raise Skip
        else:
            raise Skip
    elif why == "hour":
        if cal.rank(idx.freq) < 2:
            raise Skip
        m = rng.choice([1, 15, 30])
        b = [s + 60 * m for s in b]
        freq = idx.freq if rng.random() < 0.7 else None
    elif why == "not sorted":
        if n < 4:
            raise Skip
        j, k = rng.sample(range(n), 2)
        b[j], b[k] = b[k], b[j]
    elif why == "not timestamps":
        i = rng.choice([lambda: pd.Index([f"label{k}" for k in range(n)]), lambda: pd.Index([object() for _ in range(n)])])()
    elif why == "empty":
        b, v = [], v[:0]
        freq = rng.choice([idx.freq, None])
    elif why == "two years":  # a regular grid, but not of delivery periods
        f = rng.choice(["2D", "2h", "5min", "30min", "W", "2MS", "2YS", "6MS"])
        i = pd.date_range("2020-01-05 00:00", periods=rng.choice([24, 48, 96]), freq=f, tz=tz)
        if rng.random() < 0.5:
            i.freq = None
    elif why == "second":
        if rng.random() < 0.7:
            freq = idx.freq
    if i is None:
        i = gen.mk_index(b, tz, None)
        if why == "second":
            i = i + rng.choice([pd.Timedelta(seconds=rng.randrange(1, 60)), pd.Timedelta(milliseconds=500), pd.Timedelta(seconds=-1), pd.Timedelta(microseconds=1)])
            i.freq = None
        if freq and len(i):
            try:
                i.freq = freq
            except ValueError:
                pass
    v = gen.values(rng, len(i), "pos") if len(i) else v[:0]
    fr = frame(rng, v, i)[0] if len(i) else pd.Series(v, i, dtype=float)
    kw = {}
    if bound == "right":
        kw["bound"] = "right"
    if rng.random() < 0.4:
        kw["force"] = rng.choice(["aware", "agnostic"])
        if kw["force"] == "aware":
            kw["tz"] = tz or "Europe/Berlin"
    ctx.case(index=repr(idx), why=why, args=kw, stamps=str(list(i[:3])), n=len(i))
    ctx.raises(f"refuse-{why}", lambda: pf.standardize(fr, **kw), f"{why}: {i[:4]} ({len(i)})")
    # A line cannot be made from it either
    if bound == "left" and why != "empty" or why == "empty":
        s = pd.Series(v, i, dtype=float)
        ctx.raises(f"refuse-line-{why}", lambda: pf.PfLine({"w": s}), f"{why}: {i[:4]} ({len(i)})")
    ctx.saw("refused " + why)
    ctx.nontrivial(why, idx.key(), str(kw))
