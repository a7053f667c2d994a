"""C24: timezone conversion. Random frames (also with name, columns, unit, missing values) are
converted to agnostic, to a timezone, and between timezones; each target period's value is
looked up in a model that works on wall clock times. Round trips are judged as well.
"""
import datetime as dt

import cal
import gen
import numpy as np
import obs
import pandas as pd
import tzmodel
from core import Skip, scenario

from portfolyo import tools
import portfolyo as pf

RULE = "random frames x conversion x timezone pair, many with DST changes; distinct by index, conversion and type"

TZS = [z for z in gen.TZS if z is not None] + ["Asia/Tokyo", "America/Sao_Paulo", "Europe/Lisbon"]


def frame(rng, v, i):
    r = rng.random()
    name = rng.choice(["x", None, ("a", 1)])
    if r < 0.3:
        return pd.Series(v.copy(), i, name=name), lambda f: np.asarray(f, float)
    if r < 0.55:
        return pd.Series(v.copy(), i, name=name, dtype="pint[Eur/MWh]"), lambda f: np.asarray(f.pint.m, float)
    if r < 0.75:
        return pd.DataFrame({"a": v, "b": 2 * v}, i), lambda f: np.asarray(f["b"], float) - np.asarray(f["a"], float)
    c = pd.MultiIndex.from_tuples([("x", "w"), ("y", "p")])
    return pd.DataFrame({"w": pd.Series(v, i, dtype="pint[MW]"), "p": v}, i).set_axis(c, axis=1), lambda f: np.asarray(f[("x", "w")].pint.m, float)


def judge(ctx, r, fr, get, e, x, key):
    ctx.check(type(r) is type(fr), f"{key}:type", lambda: type(r).__name__)
    ctx.check(obs.tzname(r.index) == e.tz, f"{key}:tz", lambda: f"{r.index.dtype}, expected {e.tz}")
    ctx.check(gen.secs(r.index) == list(e.left), f"{key}:periods", lambda: f"{r.index[:2]}..{r.index[-1:]} ({len(r)}), expected {e!r}")
    ctx.check(r.index.freq is not None and obs.freq_of(r.index) == obs.fr_key(e.pd.freqstr), f"{key}:freq", lambda: f"{r.index.freq}, expected {e.freq}")
    attributes(ctx, r, fr, key)
    got = get(r)
    ctx.check(np.array_equal(got, x, equal_nan=True), f"{key}:values", lambda: gen.worst(got, x))
    ctx.saw("values compared", len(x))


def attributes(ctx, r, fr, key):
    if isinstance(fr, pd.Series):
        ctx.check(r.dtype == fr.dtype and r.name == fr.name, f"{key}:attributes", lambda: f"{r.dtype} {r.name}, was {fr.dtype} {fr.name}")
    else:
        ctx.check(list(r.columns) == list(fr.columns) and list(r.dtypes) == list(fr.dtypes), f"{key}:attributes", lambda: f"{r.dtypes}")


@scenario(quick=3000, must=["conversions compared", "to agnostic", "from agnostic", "floating", "moments kept", "refused", "DST", "repeated hours", "skipped hours", "round trips"])
def convert(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size=rng.choice(["s", "m"]), tz=rng.choice([None] + TZS))
    if rng.random() < 0.15:
        idx = gen.index(rng, freqs=["QS-FEB", "QS-APR", "YS-FEB", "YS-OCT"], size="s", tz=rng.choice([None] + TZS))
    nofreq = rng.random() < 0.3 and idx.n >= 4 and idx.freq in ("15min", "h", "D", "MS")
    v = gen.values(rng, idx.n, "mixed")
    if rng.random() < 0.3:
        v[rng.randrange(idx.n)] = np.nan
    i = idx.pd.rename(rng.choice(["ts_left", "time", None]))
    if nofreq:
        i.freq = None
    fr, get = frame(rng, v, i)
    fp = obs.fingerprint(fr)
    what = rng.choice(["agnostic", "aware", "aware", "fixed"])
    tz = rng.choice(TZS)
    ctx.case(index=repr(idx), what=what, tz=tz, nofreq=nofreq, type=type(fr).__name__)
    if what == "agnostic":
        r = tools.tzone.force_agnostic(fr) if rng.random() < 0.7 else pf.force_agnostic(fr) if hasattr(pf, "force_agnostic") else tools.tzone.force_agnostic(fr)
        e, pos = tzmodel.floating(idx, None)
        judge(ctx, r, fr, get, e, v[pos], "agnostic")
        ctx.saw("to agnostic")
    elif what == "aware" or idx.tz is None:
        r = tools.tzone.force_aware(fr, tz, floating=rng.choice([True, False])) if idx.tz is None else tools.tzone.force_aware(fr, tz)
        e, pos = tzmodel.floating(idx, tz)
        judge(ctx, r, fr, get, e, v[pos], "aware")
        ctx.saw("from agnostic" if idx.tz is None else "floating")
    else:
        can, std = tzmodel.fixed(idx, tz)
        call = lambda: tools.tzone.force_aware(fr, tz, floating=False)  # noqa
        if not std:
            ctx.raises("standardize-fixed", lambda: pf.standardize(fr, "aware", tz=tz, floating=False), f"{idx!r} in {tz}")
            ctx.saw("refused")
        try:
            r = call()
        except Exception:
            if can:
                raise
            return
        ctx.check(type(r) is type(fr) and obs.tzname(r.index) == tz, "fixed:tz", lambda: f"{r.index.dtype}, expected {tz}")
        ctx.check(gen.secs(r.index) == list(idx.left), "fixed:moments", lambda: f"{r.index[:3]}.. from {idx!r}")
        ctx.check(np.array_equal(get(r), v, equal_nan=True), "fixed:values", lambda: gen.worst(get(r), v))
        ctx.check(r.index.freq is not None and obs.freq_of(r.index) == obs.fr_key(idx.pd.freqstr), "fixed:freq", lambda: f"{r.index.freq}")
        attributes(ctx, r, fr, "fixed")
        # and back
        back = tools.tzone.force_aware(r, idx.tz, floating=False)
        ctx.check(gen.secs(back.index) == list(idx.left) and np.array_equal(get(back), v, equal_nan=True), "fixed:back", "conversion there and back changed frame")
        ctx.saw("moments kept")
        e, pos = idx, list(range(idx.n))
    ctx.saw("conversions compared")
    if idx.dst or e.dst:
        ctx.saw("DST")
    if len(set(pos)) < len(pos):
        ctx.saw("repeated hours")
    if len(set(pos)) < idx.n:
        ctx.saw("skipped hours")
    # there and back
    if what != "fixed" and not idx.dst and not e.dst:
        back = tools.tzone.force_agnostic(r) if idx.tz is None else tools.tzone.force_aware(r, idx.tz)
        judge(ctx, back, fr, get, idx, v, "back")
        ctx.saw("round trips")
    ctx.check(obs.fingerprint(fr) == fp, "operand", "input was changed")
    ctx.nontrivial(idx.key(), what, tz, nofreq, type(fr).__name__)


@scenario(quick=500, must=["rejections demanded"])
def refused(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size="s", tz=rng.choice([None] + TZS))
    fr = frame(rng, gen.values(rng, idx.n, "pos"), idx.pd)[0]
    why = rng.choice(["no timezone", "unknown timezone", "gap", "index"])
    call = lambda f: tools.tzone.force_aware(f, rng.choice(TZS))  # noqa
    if why == "no timezone":
        call = lambda f: tools.tzone.force_aware(f, rng.choice([None, ""]))  # noqa
    elif why == "unknown timezone":
        call = lambda f: tools.tzone.force_aware(f, "Europe/Nowhere")  # noqa
    elif why == "gap":
        if idx.n < 5:
            raise Skip
        k = rng.randrange(1, idx.n - 1)
        if idx.n == 3:
            raise Skip
        fr = fr[[j != k for j in range(idx.n)]]
        if rng.random() < 0.5:
            call = tools.tzone.force_agnostic
    else:
        fr = fr.set_axis(range(idx.n))
        if rng.random() < 0.5:
            call = tools.tzone.force_agnostic
    ctx.case(index=repr(idx), why=why)
    ctx.raises(f"refuse-{why}", lambda: call(fr), why)
    ctx.nontrivial(idx.key(), why)
