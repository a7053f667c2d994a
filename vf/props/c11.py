"""C11: alignment of operands. Operands are generated that differ in exactly one of frequency,
timezone, start-of-day, or that share no / some periods; every binary operation (also with
series, child setting, construction, states, hedging) must refuse the former and give
exactly the shared periods, with values of the same timestamps, for the latter.
"""
import datetime as dt
import operator as op

import alg
import cal
import gen
import numpy as np
import obs
import pandas as pd
from core import Skip, scenario

import portfolyo as pf

RULE = "pairs of lines/states x kind of index difference or overlap x operation x order; distinct by all of these"
OPS = {"+": op.add, "-": op.sub, "*": op.mul, "/": op.truediv, "|": op.or_}
GOOD = {
    "+": [(k, k) for k in gen.KINDS],
    "-": [(k, k) for k in gen.KINDS],
    "*": [("vol", "pri"), ("pri", "vol")],
    "/": [("rev", "pri"), ("rev", "vol"), ("vol", "vol"), ("pri", "pri"), ("rev", "rev")],
    "|": [("vol", "pri"), ("pri", "rev"), ("rev", "vol"), ("vol", "rev"), ("pri", "vol"), ("rev", "pri")],
}
SAME_OFFSET = {"Europe/Berlin": ["Europe/Paris", "Europe/Amsterdam", "Europe/Madrid"], "UTC": ["Africa/Abidjan", "Etc/GMT"], "Europe/London": ["Europe/Dublin"], "America/New_York": ["America/Toronto"], "Asia/Kolkata": ["Asia/Colombo"], "Australia/Sydney": ["Australia/Melbourne"], None: ["UTC"]}


def different(rng, idx, what):
    """Index that differs from ``idx`` in just one aspect, and covers the same time."""
    if what == "freq" and cal.rank(idx.freq) > 3 and rng.random() < 0.5:  # other months
        step = 3 if cal.base(idx.freq) == "QS" else 12
        m = cal.MON[(idx.first.month - 1 + rng.randrange(1, step)) % 12]
        f = f"{cal.base(idx.freq)}-{m}"
        a = cal.start_date(idx.first, f)
        k = max(idx.n + rng.choice([0, 0, 1, -1]), 1)
        return gen.Idx(f, a, cal.next_date(a, f, k), idx.sod, idx.tz)
    if what == "freq":
        c = [f for f in ["15min", "h", "D", "MS", "QS", "YS"] if f != idx.freq]
        f = rng.choice(c)
        a, b = idx.first, idx.last
        if cal.rank(f) > 2:
            a = cal.start_date(a, f)
            b = cal.next_date(cal.start_date(b, f), f)
        if cal.rank(f) < 2 and (b - a).days > 40:
            b = a + dt.timedelta(days=rng.choice([1, 5, 20]))
        return gen.Idx(f, a, b, idx.sod, idx.tz)
    if what == "sod":
        s = rng.choice([x for x in gen.SODS + [dt.time(4), dt.time(12)] if x != idx.sod])
        return gen.Idx(idx.freq, idx.first, idx.last, s, idx.tz)
    tzs = [t for t in gen.TZS if t != idx.tz] + SAME_OFFSET.get(idx.tz, []) * 2
    return gen.Idx(idx.freq, idx.first, idx.last, idx.sod, rng.choice(tzs))


def ln(rng, kind, idx, depth=None):
    return gen.line(rng, kind, idx, rng.choice([0, 0, 1]) if depth is None else depth, style="pos")


@scenario(quick=900, must=["refused freq", "refused sod", "refused tz", "op child", "op factor", "op hedge", "op state"])
def incompatible(ctx):
    rng = ctx.rng
    idx = gen.index(rng, freqs=["15min", "h", "h", "D", "D", "MS", "QS", "YS", "QS-FEB", "YS-APR"], size="s")
    what = rng.choice(["freq", "sod", "tz"])
    j = different(rng, idx, what)
    which = rng.choice(["op", "op", "op", "op", "child", "nest", "factor", "hedge", "state", "stateop", "statefactor", "reindex", "dict", "standin"])
    ctx.case(index=repr(idx), other=repr(j), differs=what, which=which)
    if which == "op":
        o = rng.choice(list(OPS))
        k1, k2 = rng.choice(GOOD[o])
        A, B = ln(rng, k1, idx).build(pf), ln(rng, k2, j).build(pf)
        ctx.raises(f"{what}:{o}", lambda: OPS[o](A, B), f"{k1} {o} {k2}")
        if (k2, k1) in GOOD[o]:
            ctx.raises(f"{what}:{o}", lambda: OPS[o](B, A), f"{k2} {o} {k1}")
        sig = (o, k1, k2)
    elif which == "child":
        k = rng.choice(gen.KINDS)
        A, B = ln(rng, k, idx, 1).build(pf), ln(rng, k, j).build(pf)
        ctx.raises(f"{what}:set_child", lambda: A.set_child(rng.choice(["new", *A]), B), "set_child")
        sig = (k,)
    elif which == "nest":
        k = rng.choice(gen.KINDS)
        A, B = ln(rng, k, idx).build(pf), ln(rng, k, j).build(pf)
        ctx.raises(f"{what}:nest", lambda: pf.PfLine({"a": A, "b": B}), "children")
        ctx.raises(f"{what}:nest", lambda: pf.PfLine({"b": B, "a": A}), "children")
        sig = (k,)
    elif which == "dict":
        s = {"w": gen.flat(rng, "vol", idx, "pos").series("w"), "p": gen.flat(rng, "pri", j, "pos").series("p")}
        ctx.raises(f"{what}:dict", lambda: pf.PfLine(s), "dictionary of series")
        sig = ()
    elif which == "factor":
        k = rng.choice(gen.KINDS)
        A = ln(rng, k, idx).build(pf)
        f = pd.Series(gen.values(rng, j.n, "pos"), j.pd, dtype=rng.choice([float, "pint[dimensionless]"]))
        ctx.raises(f"{what}:factor", lambda: A * f, "line * series")
        ctx.raises(f"{what}:factor", lambda: A / f, "line / series")
        sig = (k,)
    elif which == "standin":
        A = ln(rng, "vol", idx).build(pf)
        f = gen.flat(rng, "vol", j, "pos").series("q", True)
        ctx.raises(f"{what}:standin", lambda: A + f, "line + series with unit")
        ctx.raises(f"{what}:standin", lambda: A - f, "line - series with unit")
        sig = ()
    elif which == "hedge":
        if cal.rank(idx.freq) > 2 and what != "freq":
            fr = "YS"
        else:
            fr = "MS"
        V, P = ln(rng, "vol", idx).build(pf), ln(rng, "pri", j).build(pf)
        ctx.raises(f"{what}:hedge", lambda: V.hedge_with(P, rng.choice(["vol", "val"]), None, fr), "hedge_with")
        sig = (fr,)
    elif which == "reindex":
        A = ln(rng, rng.choice(["vol", "pri", "rev"]), idx).build(pf)
        ctx.raises(f"{what}:reindex", lambda: A.reindex(j.pd), "reindex")
        sig = ()
    else:
        def state(i):
            return pf.PfState(ln(rng, "vol", i).build(pf), ln(rng, "pri", i).build(pf), ln(rng, "all", i).build(pf) if rng.random() < 0.6 else None)

        S = state(idx)
        if which == "state":
            o, p, s = ln(rng, "vol", idx).build(pf), ln(rng, "pri", idx).build(pf), ln(rng, "all", idx).build(pf)
            bad = rng.choice("ops")
            if bad == "o":
                o = ln(rng, "vol", j).build(pf)
            elif bad == "p":
                p = ln(rng, "pri", j).build(pf)
            else:
                s = ln(rng, "all", j).build(pf)
            ctx.raises(f"{what}:state", lambda: pf.PfState(o, p, s), f"state, {bad} on other index")
            fn = rng.choice([lambda: S.set_offtakevolume(ln(rng, "vol", j).build(pf)), lambda: S.set_unsourcedprice(ln(rng, "pri", j).build(pf)), lambda: S.set_sourced(ln(rng, "all", j).build(pf)), lambda: S.add_sourced(ln(rng, "all", j).build(pf))])
            ctx.raises(f"{what}:state-set", fn, "set part of state")
            sig = (bad,)
        elif which == "stateop":
            Z = state(j)
            for o in "+-/":
                ctx.raises(f"{what}:state{o}", lambda: OPS[o](S, Z), f"state {o} state")
                ctx.raises(f"{what}:state{o}", lambda: OPS[o](Z, S), f"state {o} state")
            which = "state"
            sig = ("op",)
        else:
            f = pd.Series(gen.values(rng, j.n, "pos"), j.pd)
            ctx.raises(f"{what}:state*", lambda: S * f, "state * series")
            ctx.raises(f"{what}:state/", lambda: S / f, "state / series")
            which = "state"
            sig = ("factor",)
    ctx.saw("refused " + what)
    ctx.saw("op " + which)
    ctx.nontrivial(idx.key(), j.key(), which, sig)


@scenario(quick=520, must=["refused disjoint", "adjacent", "distant"])
def disjoint(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    j, _ = gen.subspan(rng, idx, "disjoint")
    ctx.saw("adjacent" if j.first == idx.last or j.last == idx.first else "distant")
    which = rng.choice(["op", "op", "op", "op", "op", "nested+", "child", "nest", "dict", "factor", "hedge", "state", "stateop"])
    ctx.case(index=repr(idx), other=repr(j), which=which)
    sig = ()
    if which == "op":
        o = rng.choice(list(OPS))
        k1, k2 = rng.choice(GOOD[o])
        A, B = ln(rng, k1, idx).build(pf), ln(rng, k2, j).build(pf)
        ctx.raises(f"disjoint:{o}", lambda: OPS[o](A, B), f"{k1} {o} {k2}")
        sig = (o, k1, k2)
    elif which == "nested+":
        k = rng.choice(gen.KINDS)
        A, B = ln(rng, k, idx, 1).build(pf), ln(rng, k, j, 1).build(pf)
        ctx.raises("disjoint:nested+", lambda: A + B, "nested + nested")
        ctx.raises("disjoint:nested-", lambda: A - B, "nested - nested")
    elif which == "child":
        k = rng.choice(gen.KINDS)
        A, B = ln(rng, k, idx, 1).build(pf), ln(rng, k, j).build(pf)
        ctx.raises("disjoint:set_child", lambda: A.set_child("new", B), "set_child")
    elif which == "nest":
        k = rng.choice(gen.KINDS)
        ctx.raises("disjoint:nest", lambda: pf.PfLine({"a": ln(rng, k, idx).build(pf), "b": ln(rng, k, j).build(pf)}), "children")
    elif which == "dict":
        s = {"w": gen.flat(rng, "vol", idx, "pos").series("w"), "p": gen.flat(rng, "pri", j, "pos").series("p")}
        ctx.raises("disjoint:dict", lambda: pf.PfLine(s), "dictionary of series")
    elif which == "factor":
        A = ln(rng, rng.choice(gen.KINDS), idx).build(pf)
        f = pd.Series(gen.values(rng, j.n, "pos"), j.pd)
        ctx.raises("disjoint:factor", lambda: A * f, "line * series")
    elif which == "hedge":
        V, P = ln(rng, "vol", idx).build(pf), ln(rng, "pri", j).build(pf)
        ctx.raises("disjoint:hedge", lambda: V.hedge_with(P, "vol", None, "MS" if cal.rank(idx.freq) < 3 else "YS"), "hedge_with")
    else:
        o, p = ln(rng, "vol", idx).build(pf), ln(rng, "pri", idx).build(pf)
        if which == "state":
            ctx.raises("disjoint:state-p", lambda: pf.PfState(o, ln(rng, "pri", j).build(pf)), "price elsewhere")
            ctx.raises("disjoint:state-s", lambda: pf.PfState(o, p, ln(rng, "all", j).build(pf)), "sourced elsewhere")
        else:
            S, Z = pf.PfState(o, p), pf.PfState(ln(rng, "vol", j).build(pf), ln(rng, "pri", j).build(pf))
            for x in "+-/":
                ctx.raises(f"disjoint:state{x}", lambda: OPS[x](S, Z), f"state {x} state")
    ctx.saw("refused disjoint")
    ctx.nontrivial(idx.key(), j.key(), which, sig)


@scenario(quick=420, must=["aligned results", "op +", "op *", "op /", "op |", "op factor", "op state+"])
def overlapping(ctx):
    """Operands that share only some of their periods."""
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    j, mode = gen.subspan(rng, idx, rng.choice(["inside", "left", "right", "contain"]))
    shared = gen.common(idx, j)
    which = rng.choice(["+", "-", "*", "/", "|", "factor", "state+"])
    if mode == "contain" or rng.random() < 0.5:
        idx, j = j, idx
    ctx.case(left=repr(idx), right=repr(j), which=which)
    ctx.saw("op " + which)
    if which in OPS:
        k1, k2 = rng.choice(GOOD[which])
        a, b = ln(rng, k1, idx), ln(rng, k2, j)
        got = OPS[which](a.build(pf), b.build(pf))
        want = {"+": alg.add, "-": alg.sub, "*": alg.mul, "/": alg.div, "|": alg.unite}[which](a, b)
        mg = gen.mag(a, b) * 2 if which in "+-" else 0.0
        if isinstance(want, tuple):
            obs.judge_index(ctx, got.index, f"align:{which}", shared)
            ctx.check(gen.close(np.asarray(got.pint.magnitude, float), want[1]), f"align:{which}", "ratios of other timestamps")
        else:
            obs.judge_equals(ctx, got, want, f"align:{which}", rtol=1e-8, mag=mg)
            obs.judge_line(ctx, got, f"align:{which}", mag=mg)
        sig = (which, k1, k2)
    elif which == "factor":
        k = rng.choice(gen.KINDS)
        a = ln(rng, k, idx)
        v = gen.values(rng, j.n, "nonzero")
        f = pd.Series(v, j.pd, dtype=rng.choice([float, "pint[dimensionless]"]))
        pos = {s: n for n, s in enumerate(j.left)}
        fac = v[[pos[s] for s in shared.left]]
        obs.judge_equals(ctx, a.build(pf) * f, alg.scale(gen.crop(a, shared), fac), "align:factor")
        obs.judge_equals(ctx, a.build(pf) / f, alg.scale(gen.crop(a, shared), 1 / fac), "align:factor")
        sig = (which, k)
    else:
        parts = {}
        for i in (idx, j):
            parts[i] = ln(rng, "vol", i), ln(rng, "pri", i), ln(rng, "all", i)
        A, B = (pf.PfState(*(m.build(pf) for m in parts[i])) for i in (idx, j))
        S = A + B
        (o1, p1, s1), (o2, p2, s2) = parts[idx], parts[j]
        mg = gen.mag(o1, o2, s1, s2) * 2
        obs.judge_equals(ctx, S.offtakevolume, alg.add(o1, o2), "align:state-offtake", mag=mg)
        obs.judge_equals(ctx, S.sourced, alg.add(s1, s2), "align:state-sourced", mag=mg)
        u = [-(gen.crop(o.agg(), shared).q + gen.crop(s.agg(), shared).q) for o, s in ((o1, s1), (o2, s2))]
        pr = [gen.crop(p.agg(), shared).p for p in (p1, p2)]
        r = u[0] * pr[0] + u[1] * pr[1]
        obs.judge_index(ctx, S.unsourced.index, "align:state", shared)
        got = obs.arr(ctx, S.unsourced.r, "r")
        ctx.check(gen.close(got, r, 1e-8, max(obs.top(r), mg * 1e-3)), "align:state-unsourced", lambda: gen.worst(got, r))
        sig = (which,)
    ctx.saw("aligned results")
    ctx.nontrivial(idx.key(), j.key(), sig)
