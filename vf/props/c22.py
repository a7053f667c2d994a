"""C22: intersections. Random sets of 2-4 indices, series, dataframes, lines and states, with
random relations (overlap, frequency, timezone, start-of-day) and random flags are intersected;
the common periods are computed from calendar dates, and every result must have them, with its
own values and attributes, in any order. Without the flag, differences must be refused.
"""
import datetime as dt

import alg
import cal
import gen
import numpy as np
import obs
import pandas as pd
import state
from core import Skip, scenario

import portfolyo as pf
from portfolyo import tools

RULE = "random sets of 2-4 objects x differing attributes x flags; distinct by indices, flags and types"


def longest(idxs):
    return max((i.freq for i in idxs), key=cal.rank)


def expected(idxs):
    """Indices after intersection, ignoring all differences. None if without common period."""
    first, last = max(i.first for i in idxs), min(i.last for i in idxs)
    if first >= last:
        return None
    f = longest(idxs)
    if not all(alg.tiles(i.freq, f) for i in idxs):
        return None
    if cal.rank(f) >= 2:
        s = alg.full_span(gen.Idx("D", first, last), f)
        if s is None:
            return None
        first, last = s.first, s.last
    return [gen.Idx(i.freq, first, last, i.sod, i.tz) for i in idxs]


def family(rng, differ, k):
    """k indices around the same time, that differ in the given respects."""
    freq = rng.choice(["15min", "h", "D", "D", "MS", "QS", "YS"]) if "freq" not in differ else rng.choice(["15min", "h", "D", "D", "MS"])
    a = gen.index(rng, freqs=[freq], size=rng.choice(["s", "m"]) if freq not in ("15min", "h") else "s", full=rng.choice([None, "MS"]) if "freq" in differ and freq != "15min" else None)
    if a.n > 3000:
        raise Skip
    res = [a]
    for _ in range(k - 1):
        b = gen.subspan(rng, a, rng.choice(["same", "inside", "left", "right", "left", "right", "contain", "disjoint"]))[0]
        f, sod, tz = b.freq, b.sod, b.tz
        if "freq" in differ and rng.random() < 0.8:
            f = rng.choice(["15min", "h", "D", "MS", "QS", "YS"])
            if f in ("QS", "YS") and rng.random() < 0.4:
                f += "-" + rng.choice(cal.MON)
        if "sod" in differ and rng.random() < 0.8:
            sod = rng.choice(gen.SODS)
        if "tz" in differ and rng.random() < 0.8:
            tz = rng.choice(gen.TZS)
        first, last = b.first, b.last
        if cal.rank(f) > 2:
            first, last = cal.start_date(first, f), cal.start_date(last, f)
            r = rng.random()
            if r < 0.6 or last <= first:
                last = cal.next_date(last, f)
            if r > 0.8:
                last = cal.next_date(last, f)
            if rng.random() < 0.2:
                first = cal.next_date(first, f, -1)
        elif cal.rank(f) < 2 and (last - first).days * (24 if f == "h" else 96) > 4000:
            last = first + dt.timedelta(days=40 if f == "h" else 35)
        res.append(gen.Idx(f, first, last, sod, tz))
    rng.shuffle(res)
    return res


def same(idxs, what):
    return len({str(getattr(i, what)) for i in idxs}) == 1


def obj(rng, i, only=None):
    """(object, judge function) for index."""
    t = only or rng.choice(["series", "series", "pint", "frame", "line", "line", "state"])
    v = gen.values(rng, i.n, "mixed")
    pos = {s: k for k, s in enumerate(i.left)}
    if t in ("series", "pint"):
        o = pd.Series(v.copy(), i.pd.rename(rng.choice(["ts_left", "x", None])), name=rng.choice(["x", None]), dtype="pint[MW]" if t == "pint" else float)

        def judge(ctx, r, e):
            ctx.check(isinstance(r, pd.Series) and r.dtype == o.dtype and r.name == o.name, "series-type", lambda: f"{type(r).__name__} {getattr(r, 'dtype', '')} {getattr(r, 'name', '')}")
            check_index(ctx, r.index, e)
            w = np.asarray(r.pint.m if t == "pint" else r, float)
            x = v[[pos[s] for s in e.left]] if e else v[:0]
            ctx.check(np.array_equal(w, x), "values", lambda: gen.worst(w, x))
    elif t == "frame":
        u = np.arange(i.n)
        o = pd.DataFrame({"a": v, "b": u}, i.pd.rename(rng.choice(["ts_left", "x", None])))

        def judge(ctx, r, e):
            ctx.check(isinstance(r, pd.DataFrame) and list(r.columns) == ["a", "b"], "frame-type", lambda: type(r).__name__)
            check_index(ctx, r.index, e)
            k = [pos[s] for s in e.left] if e else []
            ctx.check(np.array_equal(np.asarray(r["a"]), v[k]) and np.array_equal(np.asarray(r["b"]), u[k]), "values", "values differ")
    elif t == "line":
        m = gen.line(rng, rng.choice(["vol", "pri", "rev", "all"]), i, rng.choice([0, 0, 1]), style="pos")
        o = m.build(pf)

        def judge(ctx, r, e):
            obs.judge_equals(ctx, r, gen.crop(m, e), "line", mag=gen.mag(m) * 1e-3)
    else:
        m = state.random_state(rng, i)
        o = m.build()

        def judge(ctx, r, e):
            state.judge_state(ctx, r, m.crop(e), "state")
    return o, judge, t


def check_index(ctx, r, e):
    if e is None:
        ctx.check(len(r) == 0, "empty", lambda: f"{len(r)} elements without common period")
        return
    ctx.check(gen.secs(r) == list(e.left), "index", lambda: f"{r[:2]}..{r[-1:]} ({len(r)}), expected {e!r}")
    ctx.check(obs.tzname(r) == e.tz, "tz", lambda: f"{r.tz}, expected {e.tz}")
    ctx.check(r.freq is not None and obs.freq_of(r) == obs.fr_key(e.pd.freqstr), "freq", lambda: f"{r.freq}, expected {e.freq}")


@scenario(quick=700, must=["intersections compared", "objects compared", "without overlap", "differing freq", "differing tz", "differing sod", "states intersected", "lines intersected", "orders compared"])
def flexible(ctx):
    rng = ctx.rng
    differ = set(x for x in ("freq", "tz", "sod") if rng.random() < 0.4)
    k = rng.choice([2, 2, 2, 3, 4])
    idxs = family(rng, differ, k)
    how = rng.choice(["indices", "frames", "objects", "objects"])
    need = {w for w in ("freq", "tz", "sod") if not same(idxs, w)}
    flags = {w: w in need or rng.random() < 0.3 for w in ("freq", "tz", "sod")}
    kw = {f"ignore_{'start_of_day' if w == 'sod' else w}": True for w in flags if flags[w]}
    things = []
    if how == "indices":
        things = [(i.pd.rename(rng.choice(["ts_left", "x", "y", None])), None, "index") for i in idxs]
        fn = tools.intersect.indices_flex
    else:
        things = [obj(rng, i, rng.choice(["series", "pint", "frame"]) if how == "frames" else None) for i in idxs]
        fn = tools.intersect.frames if how == "frames" else pf.intersection
    ctx.case(indices=[repr(i) for i in idxs], how=how, types=[t for _, _, t in things], flags=kw)
    call = lambda order: fn(*[things[j][0] for j in order], **kw)  # noqa
    order = list(range(k))
    fps = [obs.fingerprint(t[0]) for t in things]
    if "sod" in need and any(cal.rank(i.freq) < 2 for i in idxs):
        ctx.raises("short-with-other-sod", lambda: call(order), "different start-of-day with shorter-than-daily values")
        ctx.saw("refused short periods with other start-of-day")
        return
    e = expected(idxs)
    if e is None and any(t in ("line", "state") for _, _, t in things):
        ctx.raises("no-overlap-line", lambda: call(order), "lines and states cannot be empty")
        ctx.saw("without overlap")
        return
    # Wall times at which days start must exist
    rng.shuffle(order)
    for o in (order, order[::-1]):
        res = call(o)
        ctx.check(len(res) == k, "number", lambda: f"{len(res)} results for {k} objects")
        for j, r in zip(o, res):
            x = e[j] if e else None
            if how == "indices":
                check_index(ctx, r, x)
            elif things[j][2] in ("series", "pint", "frame"):
                things[j][1](ctx, r, x)
                ctx.saw("objects compared")
            else:
                things[j][1](ctx, r, x)
                ctx.saw("objects compared")
            if x and things[j][2] in ("index", "series", "pint", "frame"):
                n = things[j][0].name if how == "indices" else things[j][0].index.name
                ctx.check((r if how == "indices" else r.index).name == n, "name", lambda: f"{r}: expected name {n}")
            if things[j][2] in ("line", "state"):
                ctx.saw(things[j][2] + "s intersected")
        ctx.saw("orders compared")
    if e is None:
        ctx.saw("without overlap")
    for w in need:
        ctx.saw(f"differing {w}")
    ctx.saw("intersections compared")
    ctx.check([obs.fingerprint(t[0]) for t in things] == fps, "operands", "an object was changed by intersection")
    ctx.nontrivial(tuple(i.key() for i in idxs), how, tuple(kw))


@scenario(quick=300, must=["strict intersections compared", "without overlap"])
def strict(ctx):
    """Indices with equal attributes."""
    rng = ctx.rng
    idxs = family(rng, set(), rng.choice([1, 2, 2, 3, 4]))
    ctx.case(indices=[repr(i) for i in idxs])
    e = expected(idxs)
    e = e[0] if e else None
    names = [rng.choice(["ts_left", "x", None]) for _ in idxs]
    pds = [i.pd.rename(n) for i, n in zip(idxs, names)]
    r = tools.intersect.indices(*pds)
    if e is None:
        ctx.check(len(r) == 0 and obs.tzname(r) == idxs[0].tz, "empty", lambda: repr(r))
        ctx.saw("without overlap")
    else:
        check_index(ctx, r, e)
        ctx.check(r.name == names[0], "name", lambda: f"{r.name}, expected {names[0]}")
    r2 = tools.intersect.indices(*pds[::-1])
    ctx.check(gen.secs(r) == gen.secs(r2), "order", "result depends on order")
    # same with an empty index
    if rng.random() < 0.2:
        x = list(pds)
        x.insert(rng.randrange(len(x) + 1), pds[0][:0])
        ctx.check(len(tools.intersect.indices(*x)) == 0, "empty", "intersection with empty index is not empty")
        ctx.check(all(len(y) == 0 for y in tools.intersect.indices_flex(*x)), "empty", "intersection with empty index is not empty")
    ctx.saw("strict intersections compared")
    ctx.nontrivial(tuple(i.key() for i in idxs))


@scenario(quick=400, must=["rejections demanded", "refused freq", "refused tz", "refused sod"])
def refused(ctx):
    """Differences that are not ignored."""
    rng = ctx.rng
    differ = rng.sample(["freq", "tz", "sod"], rng.choice([1, 1, 2]))
    idxs = family(rng, set(differ), rng.choice([2, 2, 3]))
    need = [w for w in ("freq", "tz", "sod") if not same(idxs, w)]
    if not need:
        raise Skip
    drop = rng.choice(need)
    kw = {f"ignore_{'start_of_day' if w == 'sod' else w}": True for w in ("freq", "tz", "sod") if w != drop and (w in need or rng.random() < 0.3)}
    how = rng.choice(["indices", "frames", "objects", "strict"])
    ctx.case(indices=[repr(i) for i in idxs], how=how, flags=kw)
    if how in ("indices", "strict"):
        things = [i.pd for i in idxs]
        fn = tools.intersect.indices_flex
        if how == "strict":
            fn, kw = tools.intersect.indices, {}
    else:
        things = [obj(rng, i, rng.choice(["series", "pint", "frame"]) if how == "frames" else None)[0] for i in idxs]
        fn = tools.intersect.frames if how == "frames" else pf.intersection
    ctx.raises(f"refuse-{drop}", lambda: fn(*things, **kw), f"different {drop}")
    ctx.saw("refused " + drop)
    ctx.nontrivial(tuple(i.key() for i in idxs), how, drop)
