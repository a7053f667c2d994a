"""C15: peak functions. Functions from random definitions (times, weekdays in any form) classify
random indices; each single period is judged on its own wall-clock start (stdlib calendar).
Peak and offpeak durations are judged against the sum over (quarter)hours. Definitions and
indices for which no classification exists must be refused.
"""
import datetime as dt

import alg
import cal
import gen
import numpy as np
import obs
import pandas as pd
from core import scenario
from peak import definition, form_days, is_peak, longest

import portfolyo as pf
from portfolyo import tools

RULE = "random (left, right, weekdays) x index around DST/weekend/year change x frequency; distinct by definition and index"
ASSUMPTIONS = [
    "for functions that only look at the weekday, and days that do not start at midnight, a period belongs to the calendar day on which it starts; peak durations are then not judged",
    "peak times that end before they start (e.g. 20:00-08:00) are not judged",
]


@scenario(quick=900, must=["periods classified", "peak periods", "offpeak periods", "too long refused", "periods at DST change"])
def classify(ctx):
    rng = ctx.rng
    kw, a, b, days = definition(rng)
    lf = longest(a, b)
    ctx.case(definition={k: str(v) for k, v in kw.items()})
    f = tools.peakfn.factory(**form_days(rng, kw)) if rng.random() < 0.5 else pf.create_peakfn(**form_days(rng, kw))
    for _ in range(3):
        freq = rng.choice([x for x in ("15min", "h", "D") if cal.rank(x) <= cal.rank(lf)])
        idx = gen.index(rng, freqs=[freq], size="m")
        i = idx.pd
        fp = obs.fingerprint(i)
        got = f(i)
        ctx.check(obs.fingerprint(i) == fp, "operand", "index was changed")
        ctx.check(isinstance(got, pd.Series) and got.dtype == bool and got.index.equals(i), "classify:form", lambda: f"{type(got).__name__} {getattr(got, 'dtype', None)}")
        exp = is_peak(idx.left, idx.tz, a, b, days)
        bad = np.flatnonzero(got.values != exp)
        ctx.check(not len(bad), "classify", lambda: f"{i[bad[0]]} ({freq}): {got.iloc[bad[0]]} for {kw}")
        ctx.saw("periods classified", len(i))
        ctx.saw("peak periods", exp.sum())
        ctx.saw("offpeak periods", (~exp).sum())
        if idx.dst:
            ctx.saw("periods at DST change", len(i))
        ctx.nontrivial(str(kw), idx.key())
    # too long
    freq = rng.choice([x for x in cal.FREQS if cal.rank(x) > cal.rank(lf)])
    idx = gen.index(rng, freqs=[freq], size="s")
    ctx.raises("too-long", lambda: f(idx.pd), lambda: f"{kw} on {idx!r}")
    ctx.saw("too long refused")


def sibling(rng, idx):
    """Index that shares some, but not all, of: moments, wall-clock times, length, frequency."""
    what = rng.choice(["same moments", "same wall clock", "same start", "same length", "copy"])
    i = idx.pd
    if what == "same moments" and idx.tz and cal.rank(idx.freq) < 2:
        tz = rng.choice([t for t in gen.TZS + ["Asia/Tokyo", "America/Los_Angeles"] if t and t != idx.tz])
        if idx.freq == "15min" or i.tz_convert(tz)[0].minute == 0:
            return i.tz_convert(tz), tz, what
    if what == "same wall clock":
        j = gen.Idx(idx.freq, idx.first, idx.last, idx.sod, rng.choice([t for t in gen.TZS if t != idx.tz]))
    elif what == "same start":
        j = gen.Idx(idx.freq, idx.first, idx.last + dt.timedelta(days=rng.choice([1, 2, 7])), idx.sod, idx.tz)
    elif what == "same length":
        d = dt.timedelta(days=rng.choice([1, 2, 3, 7, 30]))
        j = gen.Idx(idx.freq, idx.first + d, idx.last + d, idx.sod, idx.tz)
    else:
        what = "copy"
        j = gen.Idx(idx.freq, idx.first, idx.last, idx.sod, idx.tz)
    return j.pd, j.tz, what


@scenario(quick=300, must=["same moments", "same wall clock", "same start", "same length", "copy"])
def reuse(ctx):
    """One function, used for a sequence of similar indices."""
    rng = ctx.rng
    kw, a, b, days = definition(rng)
    if rng.random() < 0.3:
        kw, a, b, days = {}, 480, 1200, {1, 2, 3, 4, 5}
        f, lf = pf.germanpower_peakfn, "h"
    else:
        f, lf = tools.peakfn.factory(**kw), longest(a, b)
    freq = rng.choice([x for x in ("15min", "h", "h", "D") if cal.rank(x) <= cal.rank(lf)])
    idx = gen.index(rng, freqs=[freq], size="s")
    ctx.case(definition={k: str(v) for k, v in kw.items()}, index=repr(idx))
    f(idx.pd)
    for _ in range(4):
        i, tz, what = sibling(rng, idx)
        ctx.saw(what)
        got = f(i)
        exp = is_peak(gen.secs(i), tz, a, b, days)
        bad = np.flatnonzero(np.asarray(got.values != exp))
        ctx.check(got.index.equals(i) and not len(bad), "reuse", lambda: f"after {idx!r}: {i[bad[:3]]} ({what}): {got.iloc[bad[:3]].tolist()} for {kw}")
    ctx.nontrivial(str(kw), idx.key(), ctx.i)


@scenario(quick=500, must=["rejections demanded"])
def no_definition(ctx):
    rng = ctx.rng
    kw, a, b, days = definition(rng)
    kw = dict(kw)
    why = rng.choice(["nothing", "no days", "all", "not round", "not round"])
    if why == "nothing":
        kw = {"isoweekdays": [1, 2, 3, 4, 5, 6, 7], **rng.choice([{}, {"peak_left": dt.time(0)}, {"peak_right": dt.time(0)}])}
    elif why == "all":
        kw = {"peak_left": dt.time(0), "peak_right": dt.time(0), "isoweekdays": rng.sample(range(1, 8), 7)}
    elif why == "no days":
        kw["isoweekdays"] = rng.choice([[], (), [0], [8, 9]])
    else:
        m = rng.choice([x for x in range(1, 60) if x % 15])
        side = rng.choice(["peak_left", "peak_right"])
        kw[side] = dt.time(rng.randrange(24), m)
    ctx.case(definition={k: str(v) for k, v in kw.items()}, why=why)
    ctx.raises(f"refuse-{why}", lambda: tools.peakfn.factory(**kw), lambda: str(kw))
    ctx.nontrivial(str(kw))


@scenario(quick=420, must=["durations compared", "peak hours", "days with DST change"])
def durations(ctx):
    rng = ctx.rng
    kw, a, b, days = definition(rng)
    lf = longest(a, b)
    freq = rng.choice(cal.FREQS + ["QS-FEB", "QS-APR", "YS-OCT", "YS-APR"])
    idx = gen.index(rng, freqs=[freq], size="s" if cal.rank(freq) > 3 else "m", sod="?" if lf != "D" else dt.time(0))
    if cal.base(freq) == "YS" and idx.n > 2:
        idx = gen.Idx(freq, idx.first, cal.next_date(idx.first, freq, 2), idx.sod, idx.tz)
    fine = lf if cal.rank(lf) <= cal.rank(freq) else cal.base(freq)
    ctx.case(definition={k: str(v) for k, v in kw.items()}, index=repr(idx))
    german = rng.random() < 0.15
    if german:
        a, b, days, lf, fine = 480, 1200, {1, 2, 3, 4, 5}, "h", "h" if cal.rank(freq) > 0 else "15min"
    f = pf.germanpower_peakfn if german else tools.peakfn.factory(**kw)
    fidx = gen.Idx(fine, idx.first, idx.last, idx.sod, idx.tz)
    pk = is_peak(fidx.left, idx.tz, a, b, days)
    grp = [slice(k, k + 1) for k in range(idx.n)] if fine == freq else alg.regroup(fidx, idx)
    i = idx.pd
    dur = {"peak": tools.peakfn.peak_duration(i, f), "offpeak": tools.peakfn.offpeak_duration(i, f)}
    for n, mask in (("peak", pk), ("offpeak", ~pk)):
        exp = np.array([np.sum(fidx.hours[g][mask[g]]) for g in grp])
        s = dur[n]
        ctx.check(isinstance(s, pd.Series) and gen.secs(s.index) == list(idx.left), f"{n}:index", lambda: f"{s.index[:3]}...")
        ctx.check(s.index.freq is not None and s.index.freq == i.freq, f"{n}:freq", lambda: f"{s.index.freq}")
        ctx.check(str(s.pint.units) == "h" or s.pint.units == pf.Unit("h"), f"{n}:unit", lambda: str(s.dtype))
        got = np.asarray(s.pint.magnitude, float)
        ctx.check(gen.close(got, exp, 1e-9), f"{n}:duration", lambda: f"{idx!r} {kw}: " + gen.worst(got, exp))
        ctx.saw("durations compared", len(exp))
        ctx.saw("peak hours", int(pk.sum()))
    tot = np.asarray((dur["peak"] + dur["offpeak"]).pint.magnitude, float)
    ctx.check(gen.close(tot, idx.hours, 1e-9), "total", lambda: gen.worst(tot, idx.hours))
    if idx.dst:
        ctx.saw("days with DST change")
    ctx.nontrivial(str(kw), idx.key(), german)
