"""C10: dimensionally senseless operations. The full table of (kind, operator, kind) is known:
every combination outside the small table of meaningful ones must raise. Quantities, series
with units, dictionaries and numbers are used in place of lines; they must act as the line
they stand for.
"""
import operator as op

import alg
import gen
import numpy as np
import obs
import pandas as pd
from core import scenario

import portfolyo as pf

RULE = "all (operator, kind/number/quantity/series/state) combinations over random lines; distinct by (operator, kinds, structures, form)"
OPS = {"+": op.add, "-": op.sub, "*": op.mul, "/": op.truediv, "|": op.or_}


def meaningful(o, a, b):
    if o in "+-":
        return a == b
    if o == "*":
        return {a, b} == {"vol", "pri"}
    if o == "/":
        return (a, b) in {("rev", "pri"), ("rev", "vol")} or (a == b and a != "all")
    if o == "|":
        return a != b and "all" not in (a, b)


@scenario(quick=640, must=["rejections demanded", "meaningful accepted", "refused +", "refused -", "refused *", "refused /", "refused |"])
def table(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    j = idx if rng.random() < 0.7 else gen.subspan(rng, idx, rng.choice(["inside", "left", "right", "contain"]))[0]
    # go through the table systematically
    combos = [(o, a, b) for o in OPS for a in gen.KINDS for b in gen.KINDS]
    o, k1, k2 = combos[ctx.i % len(combos)]
    st = rng.choice(["pos", "nonzero", "zeros0"])
    if st == "zeros0":  # all-zero lines have a dimension too
        mk = lambda k, i: gen.Flat(k, i, **({"w": np.zeros(i.n)} if k == "vol" else {"p": np.zeros(i.n)} if k == "pri" else {"r": np.zeros(i.n)} if k == "rev" else {"w": np.ones(i.n), "p": np.zeros(i.n)}))  # noqa
        a, b = mk(k1, idx), mk(k2, j)
    else:
        a, b = gen.line(rng, k1, idx, style=st), gen.line(rng, k2, j, style=st)
    ctx.case(op=o, a=a.describe(), b=b.describe())
    A, B = a.build(pf), b.build(pf)
    if meaningful(o, k1, k2):
        if st != "zeros0":
            r = OPS[o](A, B)
            ctx.check(isinstance(r, (pf.PfLine, pd.Series)), "result-type", type(r).__name__)
            ctx.saw("meaningful accepted")
    else:
        ctx.raises(f"{k1}{o}{k2}", lambda: OPS[o](A, B), f"{k1} {o} {k2}")
        ctx.saw("refused " + o)
    ctx.nontrivial(o, k1, k2, a.describe(), b.describe())


@scenario(quick=420, must=["rejections demanded", "refused number", "refused series", "refused other"])
def numbers(ctx):
    """Nonzero plain numbers / dimensionless series cannot be added; wrong units neither."""
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    kind = rng.choice(gen.KINDS)
    a = gen.line(rng, kind, idx, style="nonzero")
    A = a.build(pf)
    x = rng.choice([1, -2, 3.5, 1e-3, 1000])
    part = np.zeros(idx.n)
    part[rng.randrange(idx.n)] = x
    zs = np.zeros(idx.n)
    zs[rng.randrange(idx.n)] = x
    if idx.n > 1:  # values that cancel
        zs[[k for k in range(idx.n) if zs[k] == 0][rng.randrange(idx.n - 1)]] = -x
    alt = np.where(np.arange(idx.n) % 2, x, -x) * 1.0
    form, val = rng.choice([
        ("series", pd.Series(rng.choice([zs, alt]), idx.pd)),
        ("series", pd.Series(rng.choice([zs, alt]), idx.pd).astype("pint[dimensionless]")),
        ("series", pd.Series([pf.Q_(float(y), "") for y in zs], idx.pd)),
        ("series", pd.Series(zs.astype(int), idx.pd) if x == int(x) else pd.Series(alt, idx.pd)),
        ("other", {"nodim": pd.Series(zs, idx.pd)}),
        ("number", x),
        ("number", pf.Q_(float(x), "")),
        ("series", pd.Series(float(x), idx.pd)),
        ("series", pd.Series(part, idx.pd)),
        ("series", pd.Series(part, idx.pd).astype("pint[dimensionless]")),
        ("other", pf.Q_(float(x), "h")),
        ("other", pf.Q_(float(x), "degC")),
        ("other", pd.Series(gen.values(rng, idx.n, "pos"), idx.pd).astype("pint[h]")),
        ("other", "text"[:0] or object()),
        ("other", {"x": 3.0}),
        ("other", {"nodim": 3.0}),
    ])  # fmt: skip
    ops = ["+", "-"] if form != "other" else ["+", "-", "*", "/", "|"]
    if isinstance(val, dict) and "nodim" in val:
        ops = ["+", "-"]
    o = rng.choice(ops)
    ctx.case(kind=kind, op=o, form=form, val=repr(val)[:100])
    ctx.raises(f"{kind}{o}{form}", lambda: OPS[o](A, val), f"{kind} {o} {val!r}")
    if isinstance(val, (int, float)):
        ctx.raises(f"{form}{o}{kind}", lambda: OPS[o](val, A), f"{val!r} {o} {kind}")
        ctx.raises(f"{form}|{kind}", lambda: A | val, "union with a number")
        ctx.raises(f"{form}/{kind}", lambda: val / A, "number divided by line")
    ctx.saw("refused " + form)
    for n in (None,):
        ctx.raises("mul-none", lambda: A * n, "line * None")
        ctx.raises("div-none", lambda: A / n, "line / None")
    ctx.nontrivial(kind, o, form, repr(val)[:40])


LINEOF = {"w": "vol", "q": "vol", "p": "pri", "r": "rev"}


@scenario(quick=520, must=["stand-ins", "rejections demanded", "quantity", "series", "dict"])
def standins(ctx):
    """A quantity/series/dict with a unit acts as the line it describes."""
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    kind = rng.choice(["vol", "pri", "rev"])
    a = gen.line(rng, kind, idx, style="pos")
    A = a.build(pf)
    col = rng.choice("wqpr")
    k2 = LINEOF[col]
    form = rng.choice(["quantity", "series", "series", "dict"])
    if form == "quantity":
        v = np.full(idx.n, rng.choice([1.0, 2.5, 40.0, 0.25]))
        u = rng.choice(list(gen.FACTORS[col]))
        val = pf.Q_(float(v[0]) / gen.FACTORS[col][u], u)
        j = idx
    else:
        j = idx if rng.random() < 0.6 else gen.subspan(rng, idx, rng.choice(["inside", "left", "right", "contain"]))[0]
        v = gen.values(rng, j.n, "pos")
        if form == "series":
            val = gen.dress(rng, col, v, j.pd, rng.choice(["pint", "unit"]))[0]
        else:
            val = {col: rng.choice([pd.Series(v, j.pd), gen.dress(rng, col, v, j.pd)[0]])}
    b = gen.Flat(k2, j, **{col: v})
    o = rng.choice(list(OPS))
    ctx.case(op=o, a=a.describe(), b=b.describe(), form=form, col=col)
    ctx.saw(form)
    if not meaningful(o, kind, k2):
        ctx.raises(f"{kind}{o}{form}-{col}", lambda: OPS[o](A, val), f"{kind} {o} {form} of {col}")
        return
    got = OPS[o](A, val)
    ctx.saw("stand-ins")
    key = f"standin{o}"
    mg = gen.mag(a, b) * 2
    if o == "+":
        obs.judge_equals(ctx, got, alg.add(a.agg(), b), key, mag=mg)
    elif o == "-":
        obs.judge_equals(ctx, got, alg.sub(a.agg(), b), key, mag=mg)
    elif o == "*":
        obs.judge_equals(ctx, got, alg.mul(a, b), key)
    elif o == "|":
        obs.judge_equals(ctx, got, alg.unite(a, b), key, rtol=1e-8)
    else:
        want = alg.div(a, b)
        if isinstance(want, tuple):
            g = np.asarray(got.pint.magnitude, float)
            obs.judge_index(ctx, got.index, key, want[0])
            ctx.check(gen.close(g, want[1]), key, lambda: gen.worst(g, want[1]))
        else:
            obs.judge_equals(ctx, got, want, key)
    # other operand order with a dict (python falls back on the line's reflected operator)
    if form == "dict":
        if o in "+*":
            r = OPS[o](val, A)
            obs.judge_equals(ctx, r, alg.add(a.agg(), b) if o == "+" else alg.mul(a, b), key + "-reflected", mag=mg)
            ctx.saw("reflected")
        elif o == "-":
            obs.judge_equals(ctx, OPS[o](val, A), alg.sub(b, a.agg()), key + "-reflected", mag=mg)
        if o == "/" and kind == k2:
            r = OPS[o](val, A)
            want = alg.div(b, a)
            g = np.asarray(r.pint.magnitude, float)
            ctx.check(gen.close(g, want[1]), key + "-reflected", lambda: gen.worst(g, want[1]))
            ctx.saw("reflected")
    ctx.nontrivial(o, kind, col, form, a.describe())


@scenario(quick=160, must=["rejections demanded"])
def states(ctx):
    """Portfolio states combine with states and plain factors only."""
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    o = gen.line(rng, "vol", idx, style="pos")
    p = gen.flat(rng, "pri", idx, "pos")
    S = pf.PfState(o.build(pf), p.build(pf))
    other = gen.line(rng, rng.choice(gen.KINDS), idx, style="pos").build(pf)
    val = rng.choice([other, pf.Q_(2.0, "MW"), pf.Q_(2.0, "Eur/MWh"), pf.Q_(3.0, "Eur"), pd.Series(2.0, idx.pd, dtype="pint[MWh]"), pd.Series(2.0, idx.pd, dtype="pint[Eur]"), object()])
    k = rng.choice(list(OPS))
    ctx.case(op=k, val=repr(val)[:80])
    ctx.raises(f"state{k}", lambda: OPS[k](S, val), f"state {k} {val!r:.100}")
    x = rng.choice([1, 2.5, pd.Series(2.0, idx.pd)])
    k = rng.choice("+-|")
    ctx.raises(f"state{k}number", lambda: OPS[k](S, x), f"state {k} {x!r:.60}")
    k = rng.choice("*|")
    ctx.raises(f"state{k}state", lambda: OPS[k](S, S), f"state {k} state")
    ctx.nontrivial(k, repr(val)[:40], idx.key())
