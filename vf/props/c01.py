"""C01: rounding to delivery periods, judged against a standard-library calendar.

Every result of flooring/ceiling a moment, of the boundary test, of the right-bound
function and of the trading-product lookup is compared with periods enumerated by
``cal.py`` (zoneinfo, no pandas).  Moments are concentrated on DST transitions, period
edges (+-1 s, +-1 ns), leap days and on start-of-days other than midnight.
"""
import datetime as dt

import cal
import gen
import pandas as pd
from core import Skip, scenario

import portfolyo as pf

T = pf.tools
ANCH = ["QS-FEB", "QS-APR", "QS-DEC", "YS-APR", "YS-OCT"]
RULE = "random (moment, frequency, zone, start-of-day, offset); non-trivial when the moment is within two days of a DST change, on/next to a period edge, or start-of-day is not midnight; distinct by all of these"


def moment(rng, tz, freq, sod):
    d = gen.anchor_date(rng, tz)
    mode = rng.choice(["any", "edge", "edge", "nearedge", "dsthour", "period"])
    if mode in ("edge", "nearedge"):
        f = freq if cal.rank(freq) >= 2 else rng.choice(["D", "MS"])
        s = cal.at(cal.start_date(d, f), sod, tz)
        if mode == "nearedge":
            s += rng.choice([-3600, -900, -60, -1, 1, 30, 60, 900, 3599, 3601])
        return s, mode
    if mode == "period":
        s = cal.to_sec(dt.datetime.combine(d, dt.time(rng.randrange(24))), tz)
        return cal.floor(s, freq, sod, tz), mode
    base = cal.at(d, dt.time(0), tz)
    if mode == "dsthour":  # transitions are at 01:00-03:00 local
        return base + rng.randrange(0, 4 * 3600, rng.choice([1, 60, 900])), mode
    return base + rng.randrange(-86400, 2 * 86400), mode


def near_dst(sec, tz):
    if tz is None:
        return False
    off = lambda s: (cal.to_wall(s, tz) - cal.to_wall(s, None)).total_seconds()  # noqa
    return off(sec - 2 * 86400) != off(sec + 2 * 86400)


@scenario(quick=16000, must=["floors", "ceils", "boundary verdicts", "moments near a DST change"])
def rounding(ctx):
    rng = ctx.rng
    tz, freq, sod = rng.choice(gen.TZS), rng.choice(cal.FREQS * 2 + ANCH), rng.choice(gen.SODS)
    s, mode = moment(rng, tz, freq, sod)
    n = rng.choice([0, 0, 0, 1, -1, 2, -2, 5])
    nanos = rng.choice([0, 0, 0, 0, 1000, 10**6])
    ts = gen.stamp(s, tz) + pd.Timedelta(nanos, unit="ns")
    ctx.case(ts=str(ts), freq=freq, sod=str(sod), tz=tz, n=n)
    dst = near_dst(s, tz)
    if dst:
        ctx.saw("moments near a DST change")
    if dst or mode != "any" or sod != dt.time(0):
        ctx.nontrivial(str(ts), freq, sod, n)
    s_up = s + (1 if nanos else 0)  # ceil of s+1ns == ceil of s+1s on a 1 s grid
    fl, ce = cal.floor(s, freq, sod, tz), cal.ceil(s_up, freq, sod, tz)
    f0, c0 = T.floor.stamp(ts, freq, 0, sod), T.ceil.stamp(ts, freq, 0, sod)
    ctx.saw("floors")
    ctx.saw("ceils")
    ctx.check(gen.sec(f0) == fl, "floor", lambda: f"floor({ts}, {freq}, sod {sod}) = {f0}, expected {cal.to_wall(fl, tz)}")
    ctx.check(gen.sec(c0) == ce, "ceil", lambda: f"ceil({ts}, {freq}, sod {sod}) = {c0}, expected {cal.to_wall(ce, tz)}")
    ctx.check(str(f0.tz) == str(ts.tz) and str(c0.tz) == str(ts.tz), "tz", "time zone changed")
    fn, cn = T.floor.stamp(ts, freq, n, sod), T.ceil.stamp(ts, freq, n, sod)
    fle, cee = cal.floor(fl, freq, sod, tz, n), cal.floor(ce, freq, sod, tz, n)
    ctx.check(gen.sec(fn) == fle, "floor-n", lambda: f"floor({ts}, {freq}, {n}, sod {sod}) = {fn}, expected {cal.to_wall(fle, tz)}")
    ctx.check(gen.sec(cn) == cee, "ceil-n", lambda: f"ceil({ts}, {freq}, {n}, sod {sod}) = {cn}, expected {cal.to_wall(cee, tz)}")
    isb = T.isboundary.stamp(ts, freq, sod)
    ctx.saw("boundary verdicts")
    ctx.check(bool(isb) == (fl == s and not nanos), "boundary", lambda: f"isboundary({ts}, {freq}, sod {sod}) = {isb}")
    if sod == dt.time(0):
        ctx.check(T.floor.stamp(ts, freq) == f0 and T.ceil.stamp(ts, freq) == c0, "default-sod", "default start-of-day is not midnight")
        ctx.check(bool(T.isboundary.stamp(ts, freq)) == bool(isb), "default-sod", "default start-of-day of isboundary is not midnight")
    # next period starts where this one ends
    r = T.right.stamp(f0, freq)
    ctx.check(gen.sec(r) == cal.floor(fl, freq, sod, tz, 1), "right", lambda: f"right({f0}, {freq}) = {r}")
    # rounding is idempotent
    ctx.check(T.floor.stamp(f0, freq, 0, sod) == f0 and T.ceil.stamp(c0, freq, 0, sod) == c0, "idempotent", f"{ts} {freq} {sod}")


@scenario(quick=5000, must=["delivery periods"])
def products(ctx):
    """Trading date -> delivery period of the n-th front day/month/quarter/season/year."""
    rng = ctx.rng
    tz, sod = rng.choice(gen.TZS), rng.choice(gen.SODS)
    d = gen.anchor_date(rng, tz)
    if rng.random() < 0.4:
        d = d.replace(day=rng.choice([1, 28]), month=rng.randrange(1, 13))
    s = cal.to_sec(dt.datetime.combine(d, dt.time(rng.randrange(24), rng.randrange(60))), tz)
    ts = gen.stamp(s, tz)
    typ = rng.choice("dmqsy")
    n = rng.choice([1, 1, 2, 3, 4, 7])
    ctx.case(ts=str(ts), sod=str(sod), type=typ, n=n)
    ctx.nontrivial(str(ts), sod, typ, n)
    left, right = T.product.delivery_period(ts, typ, n, sod)
    if sod == dt.time(0):
        ctx.check(T.product.delivery_period(ts, typ, n) == (left, right), "default-sod", "default start-of-day of delivery_period is not midnight")
    if typ == "s":
        # seasons: half years starting in April or October; the n-th that starts after the trade day
        x = dt.date(d.year, 4, 1)
        cand = sorted(dt.date(y, m, 1) for y in range(d.year - 1, d.year + n + 2) for m in (4, 10))
        cand = [c for c in cand if c > d]
        first = cand[n - 1]
        last = cal.add_months(first, 6)
    else:
        fr = {"d": "D", "m": "MS", "q": "QS", "y": "YS"}[typ]
        first = cal.next_date(cal.start_date(d, fr), fr, n)
        last = cal.next_date(first, fr)
    el, er = cal.at(first, sod, tz), cal.at(last, sod, tz)
    ctx.saw("delivery periods")
    ctx.check(gen.sec(left) == el and gen.sec(right) == er, f"delivery-period-{typ}", lambda: f"delivery_period({ts}, {typ}, {n}, {sod}) = {left}, {right}; expected {first}..{last}")


@scenario(quick=5000, must=["spans"])
def spans(ctx):
    """Completing/ordering a pair of bounds into a delivery period."""
    rng = ctx.rng
    tz, sod = rng.choice(gen.TZS), rng.choice(gen.SODS)
    a = gen.anchor_date(rng, tz)
    b = a + dt.timedelta(days=rng.choice([-400, -30, -1, 1, 2, 31, 365, 500]))
    mode = rng.choice(["both", "left", "right", "right-yearstart", "mixed-time", "mixed-tz", "none", "strings"])
    sa, sb = cal.at(a, sod, tz), cal.at(b, sod, tz)
    A, B = gen.stamp(sa, tz), gen.stamp(sb, tz)
    ctx.case(A=str(A), B=str(B), mode=mode, sod=str(sod))
    ctx.nontrivial(str(A), str(B), mode)
    S = T.leftandright.stamps
    ctx.saw("spans")
    if mode == "both":
        left, right = S(A, B)
        ctx.check((gen.sec(left), gen.sec(right)) == tuple(sorted((sa, sb))), "span-order", lambda: f"{left}, {right}")
    elif mode == "left":
        left, right = S(A, None)
        e = cal.floor(sa, "YS", sod, tz, 1)
        ctx.check(gen.sec(left) == sa and gen.sec(right) == e, "span-left", lambda: f"{left}, {right}")
    elif mode in ("right", "right-yearstart"):
        s = cal.floor(sa, "YS", sod, tz) if mode != "right" else sa
        ts = gen.stamp(s, tz)
        left, right = S(None, ts)
        e = cal.floor(s - 1, "YS", sod, tz)
        ctx.check(gen.sec(right) == s and gen.sec(left) == e, "span-right", lambda: f"{left}, {right}")
    elif mode == "mixed-time":
        C = B + pd.Timedelta(hours=1)
        ctx.raises("span-mixed-time", lambda: S(A, C), f"{A} and {C}")
    elif mode == "mixed-tz":
        if tz is None:
            raise Skip
        C = gen.stamp(cal.at(b, sod, None), None)
        ctx.raises("span-mixed-tz", lambda: S(A, C), f"{A} and {C}")
    elif mode == "none":
        left, right = S(None, None, tz, sod)
        for t in (left, right):
            w = cal.to_wall(gen.sec(t), tz)
            ctx.check((w.month, w.day, w.time()) == (1, 1, sod), "span-none", str(t))
        ctx.check(cal.to_wall(gen.sec(right), tz).year - cal.to_wall(gen.sec(left), tz).year == 1, "span-none", f"{left} {right}")
        now = pd.Timestamp.now(tz=tz)
        ctx.check(left > now - pd.Timedelta(days=1), "span-none", f"{left} is not in the future")
    else:
        left, right = S(str(min(a, b)), str(max(a, b)), tz, sod)
        ctx.check((gen.sec(left), gen.sec(right)) == (min(sa, sb), max(sa, sb)), "span-strings", lambda: f"{left}, {right}")
