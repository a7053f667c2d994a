"""C09: products, quotients and unions. Results of the library are compared with element-wise
computation on the shared periods, the three operations with each other (inverses), and with
the same operation on flattened operands.
"""
import alg
import gen
import numpy as np
import obs
import pandas as pd
from core import Skip, scenario

import portfolyo as pf

RULE = "random pairs of lines (flat/nested, same/partial spans) with nonzero denominators; distinct by (kinds, structures, spans)"


def two(rng, k1, k2, style="nonzero", structure=None):
    idx = gen.index(rng, size="s")
    j = idx if rng.random() < 0.6 else gen.subspan(rng, idx, rng.choice(["inside", "left", "right", "contain"]))[0]
    dep = lambda: rng.choice([0, 0, 1, 2])  # noqa
    a = gen.line(rng, k1, idx, dep(), style="pos" if style == "pos" else style)
    b = gen.line(rng, k2, j, dep(), style="pos" if style == "pos" else style)
    return (a, b) if rng.random() < 0.5 or k1 != k2 else (b, a)


def judge_series(ctx, s, idx, vals, key):
    ctx.check(isinstance(s, pd.Series), key + ":type", f"{type(s).__name__}")
    obs.judge_index(ctx, s.index, key, idx)
    ctx.check(str(s.dtype) == "pint[dimensionless]" or getattr(getattr(s, "pint", None), "dimensionless", False), key + ":unit", f"dtype {s.dtype}")
    got = np.asarray(s.pint.to("").pint.magnitude, float)
    ctx.check(gen.close(got, vals, 1e-9), key + ":values", lambda: gen.worst(got, vals))
    ctx.saw("ratios compared", len(vals))


@scenario(quick=420, must=["lines compared with model", "partial overlap", "nested operands", "inverses judged"])
def products(ctx):
    rng = ctx.rng
    v, p = two(rng, "vol", "pri", "pos" if rng.random() < 0.7 else "nonzero")
    ctx.case(v=v.describe(), p=p.describe())
    V, P = v.build(pf), p.build(pf)
    want = alg.mul(v, p)
    mg = gen.mag(v) * gen.mag(p)
    for key, r in (("v*p", V * P), ("p*v", P * V)):
        obs.judge_equals(ctx, r, want, key, mag=mg)
        obs.judge_line(ctx, r, key, mag=mg)
    if want.idx.n < max(v.idx.n, p.idx.n):
        ctx.saw("partial overlap")
    if v.nested or p.nested:
        ctx.saw("nested operands")
    R = V * P
    r = want
    sv, sp = gen.crop(v, want.idx), gen.crop(p, want.idx)
    # division undoes it
    qa, pa = sv.agg().q, sp.agg().p
    if np.abs(pa).min() > 1e-6 * np.abs(pa).max():
        obs.judge_equals(ctx, R / P, sv.agg(), "r/p", mag=gen.mag(v))
        ctx.saw("inverses judged")
    if np.abs(qa).min() > 1e-6 * np.abs(qa).max():
        obs.judge_equals(ctx, R / V, sp.agg(), "r/v", mag=gen.mag(p))
    # the complete line has them as its parts
    for key, U in (("v|p", V | P), ("p|v", P | V)):
        obs.judge_equals(ctx, U, alg.unite(v, p), key, mag=mg, rtol=1e-8)
        obs.judge_line(ctx, U, key, mag=mg)
        ctx.check(U.volume == V.flatten().loc[U.index], key + ":volume", "volume of the union differs")
        ctx.check(U.price == P.flatten().loc[U.index], key + ":price", "price of the union differs")
        obs.judge_equals(ctx, U.revenue, r, key + ":revenue", mag=mg)
    ctx.nontrivial(v.describe(), p.describe())


@scenario(quick=420, must=["lines compared with model", "partial overlap", "quotients", "unions"])
def quotients(ctx):
    rng = ctx.rng
    den = rng.choice(["pri", "vol"])
    r, d = two(rng, "rev", den, "pos" if rng.random() < 0.6 else "nonzero")
    if r.kind != "rev":
        r, d = d, r
    x = d.agg().p if den == "pri" else d.agg().q
    if np.abs(x).min() < 1e-6 * np.abs(x).max():
        raise Skip
    ctx.case(r=r.describe(), d=d.describe())
    R, D = r.build(pf), d.build(pf)
    want = alg.div(r, d)
    if want.idx.n < max(r.idx.n, d.idx.n):
        ctx.saw("partial overlap")
    Q = R / D
    obs.judge_equals(ctx, Q, want, f"rev/{den}", rtol=1e-9)
    obs.judge_line(ctx, Q, f"rev/{den}")
    ctx.saw("quotients")
    obs.judge_equals(ctx, Q * D, gen.crop(r.agg(), want.idx), f"(rev/{den})*{den}", mag=gen.mag(r))
    for key, U in (("r|d", R | D), ("d|r", D | R)):
        obs.judge_equals(ctx, U, alg.unite(r, d), key, rtol=1e-8)
        obs.judge_line(ctx, U, key)
        ctx.check(U.revenue == R.flatten().loc[U.index], key + ":revenue", "revenue of the union differs")
        ctx.saw("unions")
    ctx.nontrivial(r.describe(), d.describe())


@scenario(quick=300, must=["ratios compared", "partial overlap"])
def ratios(ctx):
    rng = ctx.rng
    k = rng.choice(["vol", "pri", "rev"])
    a, b = two(rng, k, k, "pos" if rng.random() < 0.7 else "nonzero")
    x = {"vol": lambda m: m.q, "pri": lambda m: m.p, "rev": lambda m: m.r}[k](b.agg())
    if np.abs(x).min() < 1e-6 * np.abs(x).max():
        raise Skip
    ctx.case(a=a.describe(), b=b.describe())
    A, B = a.build(pf), b.build(pf)
    idx, vals = alg.div(a, b)
    if idx.n < max(a.idx.n, b.idx.n):
        ctx.saw("partial overlap")
    judge_series(ctx, A / B, idx, vals, "ratio")
    judge_series(ctx, A.flatten() / B.flatten(), idx, vals, "ratio-flat")
    judge_series(ctx, B / B, b.idx, np.ones(b.idx.n), "ratio-self")
    # the ratio is a factor
    back = B.flatten() * (A / B)
    obs.judge_equals(ctx, back, gen.crop(a.agg(), idx), "ratio-back", mag=gen.mag(a))
    # a nonzero period next to zero denominators
    z = gen.flat(rng, k, b.idx, "pos")
    c = {"vol": "w", "pri": "p", "rev": "r"}[k]
    val = getattr(z, c).copy()
    pos = rng.randrange(len(val))
    val[pos] = 0.0
    Z = gen.Flat(k, b.idx, **{c: val})
    out = B.flatten() / Z.build(pf)
    got = np.asarray(out.pint.magnitude, float)
    ok = np.arange(len(val)) != pos
    bv = getattr(b.agg(), c)
    ctx.check(gen.close(got[ok], bv[ok] / val[ok], 1e-9), "ratio-zero", "ratio next to a zero denominator is wrong")
    ctx.check(not np.isfinite(got[pos]), "ratio-zero", lambda: f"ratio with zero denominator is {got[pos]}")
    ctx.nontrivial(a.describe(), b.describe())
