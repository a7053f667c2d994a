"""C02: an index of delivery periods tiles time without gap or overlap, and period lengths
are the truly elapsed hours.

Right bounds, durations, right-to-left conversion, boundary flags, start-of-day changes and
trimming of whole indices are compared with ``cal.py``.
"""
import datetime as dt

import cal
import gen
import numpy as np
import obs
import pandas as pd
from core import Skip, scenario

import portfolyo as pf

T = pf.tools
RULE = "random index (frequency incl. anchored, span near DST/leap/quarter events, zone, start-of-day); non-trivial when it contains a DST change or leap day, or is not midnight-based or spans >2 periods; distinct by index"
ANCH = ["QS-FEB", "QS-APR", "YS-APR", "YS-OCT"]


def note(ctx, idx):
    ctx.case(index=repr(idx))
    if idx.dst:
        ctx.saw("indices containing a DST change")
    if idx.dst or idx.n > 2 or idx.sod != dt.time(0):
        ctx.nontrivial(*idx.key())


@scenario(quick=5000, must=["periods measured", "indices containing a DST change", "periods of unusual length"])
def durations(ctx):
    rng = ctx.rng
    idx = gen.index(rng, freqs=cal.FREQS * 2 + ANCH, size=rng.choice("ssm"))
    note(ctx, idx)
    i = idx.pd
    r = T.right.index(i)
    ctx.check(gen.secs(r) == idx.b[1:], "right-index", lambda: f"{list(map(str, r))[:4]} for {idx}")
    ctx.check(gen.secs(i.right) == idx.b[1:], "right-accessor", lambda: f"{idx}")
    h = T.duration.index(i)
    ctx.check(h.pint.units == pf.Unit("h"), "duration-unit", str(h.pint.units))
    hm = np.asarray(h.pint.magnitude, float)
    ctx.saw("periods measured", idx.n)
    ctx.saw("periods of unusual length", int(np.sum(np.abs(idx.hours - {"15min": 0.25, "h": 1, "D": 24}.get(idx.freq, np.median(idx.hours))) > 1e-9)))
    ctx.check(gen.close(hm, idx.hours, 1e-12), "duration-index", lambda: f"{idx}: " + gen.worst(hm, idx.hours))
    ctx.check(abs(hm.sum() - (idx.b[-1] - idx.b[0]) / 3600) < 1e-6, "duration-total", lambda: f"{idx}: {hm.sum()}")
    ctx.check(gen.close(np.asarray(i.duration.pint.magnitude, float), idx.hours, 1e-12), "duration-accessor", lambda: f"{idx}")
    ctx.check(gen.secs(h.index) == idx.left, "duration-stamps", lambda: f"{idx}")
    s = pd.Series(1.0, i)
    ctx.check(gen.close(np.asarray(T.duration.frame(s).pint.magnitude, float), idx.hours, 1e-12), "duration-frame", lambda: f"{idx}")
    k = rng.randrange(idx.n)
    d = T.duration.stamp(i[k], idx.freq)
    ctx.check(abs(d.to("h").magnitude - idx.hours[k]) < 1e-9, "duration-stamp", lambda: f"{i[k]} {idx.freq}: {d}")
    rs = T.right.stamp(i[k], idx.freq)
    ctx.check(gen.sec(rs) == idx.b[k + 1], "right-stamp", lambda: f"{i[k]} {idx.freq}: {rs}")


@scenario(quick=900, must=["twin zone", "other zone", "longer", "later", "other start-of-day", "copy", "same moments", "periods measured"])
def history(ctx):
    """Sequence of similar indices: what is found for one must not depend on those before."""
    rng = ctx.rng
    idx = gen.index(rng, freqs=["h", "D", "MS", "QS", "YS", *ANCH], size="s", tz=rng.choice(["?", "UTC", "Europe/London", None]))
    if cal.rank(idx.freq) > 2 and rng.random() < 0.4:
        idx = gen.Idx(idx.freq, idx.first, cal.next_date(idx.first, idx.freq), idx.sod, idx.tz)
    seq, log = [idx], [repr(idx)]
    for _ in range(4):
        j, what = gen.sibling(rng, rng.choice(seq))
        ctx.saw(what)
        seq.append(j)
        log.append(f"{what}: {j!r}")
    rng.shuffle(seq)
    ctx.case(indices=log)
    for j in seq:
        i = j.pd
        hm = np.asarray(T.duration.index(i).pint.magnitude, float)
        ctx.saw("periods measured", j.n)
        ctx.check(gen.close(hm, j.hours, 1e-12), "history:duration", lambda: f"{j} in {seq}: " + gen.worst(hm, j.hours))
        r = T.right.index(i)
        ctx.check(gen.secs(r) == j.b[1:] and obs.tzname(r) == j.tz, "history:right", lambda: f"{list(map(str, r))[:4]} for {j} in {seq}")
        k = rng.randrange(j.n)
        ctx.check(abs(T.duration.stamp(i[k], j.freq).to("h").magnitude - j.hours[k]) < 1e-9, "history:stamp", lambda: f"{i[k]} {j.freq} in {seq}")
    ctx.nontrivial(*[j.key() for j in seq])


@scenario(quick=1500, must=["right-bound indices converted", "indices containing a DST change"])
def right_to_left(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size=rng.choice("sml"))
    if idx.n < 2:
        raise Skip
    note(ctx, idx)
    right = gen.mk_index(idx.b[1:], idx.tz)
    with_freq = rng.random() < 0.6
    if with_freq:
        right.freq = idx.freq
    elif idx.n < 8 or cal.base(idx.freq) == "YS" or (idx.tz is None and False):
        raise Skip  # too few stamps to recognise the frequency
    ctx.case(with_freq=with_freq)
    left = T.righttoleft.index(right)
    ctx.saw("right-bound indices converted")
    ctx.check(gen.secs(left) == idx.left, "right-to-left", lambda: f"{idx}: {list(map(str, left))[:5]} (n={len(left)})")


@scenario(quick=4000, must=["boundary flags", "true flags", "false flags"])
def boundary_flags(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size=rng.choice("ml"))
    fr = rng.choice(cal.FREQS * 2 + (ANCH if cal.rank(idx.freq) < 4 else []))
    note(ctx, idx)
    ctx.case(freq=fr)
    got = T.isboundary.index(idx.pd, fr)
    if cal.rank(idx.freq) >= cal.rank(fr):
        exp = [True] * idx.n
    else:
        exp = [cal.floor(s, fr, idx.sod, idx.tz) == s for s in idx.left]
    ctx.saw("boundary flags", idx.n)
    ctx.saw("true flags", sum(exp))
    ctx.saw("false flags", idx.n - sum(exp))
    g = [bool(x) for x in got.values]
    ctx.check(g == exp and gen.secs(got.index) == idx.left, "isboundary-index", lambda: f"{idx} at {fr}: first difference at {next((k for k in range(idx.n) if g[k] != exp[k]), None)}")


@scenario(quick=5000, must=["trims", "trims that drop something", "trims to nothing"])
def trimming(ctx):
    """Trimming keeps exactly the periods that lie in completely covered target periods."""
    rng = ctx.rng
    idx = gen.index(rng, size=rng.choice("sml"))
    fr = rng.choice(cal.FREQS[max(0, cal.rank(idx.freq)) :] * 2 + (ANCH if cal.rank(idx.freq) < 4 else []))
    note(ctx, idx)
    ctx.case(freq=fr)
    pairs, groups = cal.group(idx.b, fr, idx.sod, idx.tz)
    keep = [k for g in groups for k in g]
    i = idx.pd
    ctx.saw("trims")
    ctx.saw("trims that drop something", len(keep) < idx.n)
    ctx.saw("trims to nothing", not keep)
    got = T.trim.index(i, fr)
    ctx.check(gen.secs(got) == [idx.b[k] for k in keep], "trim-index", lambda: f"{idx} to {fr}: {got[:1]}..{got[-1:]} (n={len(got)}), expected n={len(keep)}")
    if keep:
        ctx.check(obs.freq_of(got) is None or cal.base(obs.fr_key(obs.freq_of(got))) == idx.freq, "trim-freq", str(got.freq))
    v = gen.values(rng, idx.n)
    for frm in (pd.Series(v, i), pd.DataFrame({"a": v, "b": -v}, i)):
        t = T.trim.frame(frm, fr)
        tv = t.values if t.ndim == 1 else t["a"].values
        ctx.check(list(tv) == [v[k] for k in keep] and gen.secs(t.index) == [idx.b[k] for k in keep], "trim-frame", lambda: f"{idx} to {fr}")


@scenario(quick=3000, must=["start-of-day changes"])
def start_of_day(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size=rng.choice("sm"))
    note(ctx, idx)
    i = idx.pd
    ctx.check(T.startofday.get(i) == idx.sod, "sod-get", str(T.startofday.get(i)))
    ctx.check(T.startofday.get(i, "str") == idx.sod.strftime("%H:%M:00"), "sod-get-str", str(T.startofday.get(i, "str")))
    ctx.check(T.startofday.get(i, "timedelta") == dt.timedelta(hours=idx.sod.hour), "sod-get-td", str(T.startofday.get(i, "timedelta")))
    new = rng.choice(gen.SODS)
    if cal.rank(idx.freq) >= 2:
        exp = gen.Idx(idx.freq, idx.first, idx.last, new, idx.tz).left
    else:
        a, b = idx.first, idx.last
        if new < idx.sod:
            a += dt.timedelta(days=1)
        if new > idx.sod:
            b -= dt.timedelta(days=1)
        if b <= a:
            raise Skip
        exp = gen.Idx(idx.freq, a, b, new, idx.tz).left
    got = T.startofday.set(i, new)
    ctx.saw("start-of-day changes")
    ctx.check(gen.secs(got) == exp, "sod-set", lambda: f"{idx} to {new}: {got[0]}..{got[-1]} n={len(got)}")
