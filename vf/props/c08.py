"""C08: algebra of addition, subtraction, negation and scaling. Random lines (flat/nested,
partially overlapping) are combined by the library and by the reference model; laws
(commutative, associative, a-b = a+(-b), a-a = 0, a*f/f = a, neutral elements) are judged on
observed results.
"""
import alg
import gen
import numpy as np
import obs
import pandas as pd
from core import Skip, scenario

import portfolyo as pf

RULE = "pairs/triples of random lines of one kind (flat, nested, mixed; same/partial spans; shared and own child names) and random factors; distinct by (kind, structures, spans, operation)"


def pair(rng, n=2):
    idx = gen.index(rng, size="s")
    kind = rng.choice(gen.KINDS)
    out = []
    names = rng.sample(gen.NAMES, 4)
    for k in range(n):
        i = idx if rng.random() < 0.6 else gen.subspan(rng, idx, rng.choice(["inside", "left", "right", "contain"]))[0]
        depth = rng.choice([0, 0, 1, 1, 2])
        if depth:
            m = gen.Nest({nm: gen.line(rng, kind, i, rng.randrange(0, depth), style=st(rng, kind)) for nm in rng.sample(names, rng.randrange(1, 4))})
        else:
            m = gen.flat(rng, kind, i, st(rng, kind))
        out.append(m)
    return kind, out


def st(rng, kind):
    return rng.choice(["pos", "nonzero", "const", "big"]) if kind == "all" else None


def same(ctx, a, b, key, mag, model=None):
    """Two observed lines agree in every value."""
    ctx.check(obs.kind(a) == obs.kind(b), key + ":kind", "kinds differ")
    ctx.check(gen.secs(a.index) == gen.secs(b.index), key + ":index", "indices differ")
    for c in obs.AVAIL[obs.kind(a)]:
        x, y = obs.arr(ctx, getattr(a, c), c), obs.arr(ctx, getattr(b, c), c)
        if c == "p" and obs.kind(a) == "all":
            q = obs.arr(ctx, a.q, "q")
            ok = np.abs(q) > 1e-7 * max(mag, 1e-300)
            x, y = x[ok], y[ok]
        ctx.check(gen.close(x, y, 1e-8, max(obs.top(x), obs.top(y), mag * 1e-4, 1e-12)), f"{key}:{c}", lambda: gen.worst(x, y))
    ctx.saw("laws judged")


@scenario(quick=300, must=["lines compared with model", "laws judged", "partial overlap", "nested+nested", "mixed structure"])
def addition(ctx):
    rng = ctx.rng
    kind, ms = pair(rng, 3)
    a, b, c = ms
    ctx.case(kind=kind, a=a.describe(), b=b.describe(), c=c.describe())
    A, B, C = (m.build(pf) for m in ms)
    mg = gen.mag(*ms) * 3
    want = alg.add(a, b)
    if want is None:
        raise Skip
    if want.idx.n < max(a.idx.n, b.idx.n):
        ctx.saw("partial overlap")
    ctx.saw("nested+nested" if a.nested and b.nested else "mixed structure" if a.nested != b.nested else "flat+flat")
    ab = A + B
    obs.judge_equals(ctx, ab, want, "add", mag=mg)
    obs.judge_line(ctx, ab, "add", mag=mg)
    same(ctx, ab, B + A, "commutative", mg)
    obs.judge_equals(ctx, B + A, want, "add-swapped", mag=mg)
    d = A - B
    obs.judge_equals(ctx, d, alg.sub(a, b), "sub", mag=mg)
    same(ctx, d, A + (-B), "a-b=a+(-b)", mg)
    same(ctx, d, -(B - A), "a-b=-(b-a)", mg)
    all3 = gen.common(a.idx, b.idx, c.idx)
    if all3 is not None and gen.common(b.idx, c.idx) is not None:
        same(ctx, ab + C, A + (B + C), "associative", mg)
        s = sum([A, B, C])
        obs.judge_equals(ctx, s, alg.add(alg.add(a, b), c), "sum", mag=mg)
        ctx.saw("sums of three")
    ctx.nontrivial(kind, a.describe(), b.describe())


@scenario(quick=260, must=["lines compared with model", "zero differences", "factor series", "factor q", "factor pintseries", "neutral elements"])
def scaling(ctx):
    rng = ctx.rng
    kind, (a,) = pair(rng, 1)
    A = a.build(pf)
    mg = gen.mag(a)
    form = rng.choice(["float", "int", "q", "series", "pintseries", "series-part", "np"])
    f = rng.choice([2.0, -1.0, 0.5, -3.25, 1e-3, 1e4, 7.0])
    idx = a.idx
    if form == "int":
        f = rng.choice([2, -1, 3, 10])
    fac, F = f, np.float64(f) if form == "np" else f
    if form == "np":
        F = float(f)
    if form == "q":
        F = pf.Q_(f * 100, "percent") if rng.random() < 0.0 else pf.Q_(f, rng.choice(["", "dimensionless"]))
        if rng.random() < 0.2:
            F = pf.Q_(f * 1000, "kWh/MWh")
    elif "series" in form:
        idx = a.idx if form != "series-part" else gen.subspan(rng, a.idx, rng.choice(["inside", "left", "right", "contain"]))[0]
        v = gen.values(rng, idx.n, "nonzero")
        F = pd.Series(v, idx.pd)
        if form == "pintseries" or form == "series-part" and rng.random() < 0.5:
            F = F.astype("pint[dimensionless]")
        shared = gen.common(a.idx, idx)
        pos = {s: k for k, s in enumerate(idx.left)}
        fac = v[[pos[s] for s in shared.left]]
        a = gen.crop(a, shared)
    ctx.saw("factor " + form)
    ctx.case(kind=kind, a=a.describe(), form=form, f=f)
    if "series" not in form and rng.random() < 0.4 and form != "q":
        res = F * A
    else:
        res = A * F
    mg2 = mg * max(1.0, np.abs(fac).max())
    obs.judge_equals(ctx, res, alg.scale(a, fac), "scale", mag=mg2)
    obs.judge_line(ctx, res, "scale", mag=mg2)
    same(ctx, res / F, A if a.idx.n == len(A.index) else A.loc[res.index], "undo", mg)
    obs.judge_equals(ctx, A / F, alg.scale(a, 1 / fac), "divide", mag=mg * max(1.0, np.abs(1 / np.asarray(fac)).max()))
    N = -A
    if a.idx.n == len(A.index):
        obs.judge_equals(ctx, N, alg.scale(a, -1), "negate", mag=mg)
    same(ctx, -N, A, "double-negation", mg)
    # distributive
    same(ctx, (A + A) * F, A * F + A * F, "distributive", mg2 * 2)
    same(ctx, A + A, A * 2, "a+a=2a", mg * 2)
    # difference with itself
    Z = A - A
    for c in {"vol": "wq", "pri": "p", "rev": "r", "all": "wqr"}[kind]:
        z = obs.arr(ctx, getattr(Z, c), c)
        ctx.check(np.abs(z).max() <= 1e-12 * max(mg, 1e-300), "a-a", lambda: f"{c}: {z}")
        ctx.saw("zero differences", len(z))
    # neutral elements
    for zero in (0, 0.0, None, pf.Q_(0.0, ""), pd.Series(0.0, A.index)):
        for r in (A + zero, A - zero) + ((zero + A,) if zero is None or isinstance(zero, (int, float)) else ()):
            ctx.check(r == A, "neutral", lambda: f"adding {zero!r} changes the line")
            ctx.saw("neutral elements")
    ctx.check(sum([A]) == A, "neutral", "sum of one")
    ctx.nontrivial(kind, a.describe(), form, f)


@scenario(quick=160, must=["cancelled volumes, same price", "partly cancelled"])
def cancelling(ctx):
    """Complete lines whose volumes cancel: the price is the common price, or undefined."""
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    a = gen.flat(rng, "all", idx)
    ctx.case(a=a.describe())
    A = a.build(pf)
    B = gen.Flat("all", idx, w=-a.w, p=a.p.copy()).build(pf)
    if rng.random() < 0.3:
        A, B = pf.PfLine({"x": A}), pf.PfLine({"x": B})
    S = A + B
    if obs.nested(S):
        S = S["x"]
    q, r, p = (obs.arr(ctx, getattr(S, c), c) for c in "qrp")
    ctx.check(np.all(np.abs(q) <= 1e-12 * np.abs(a.q).max()), "cancel:q", "volumes do not cancel")
    ctx.check(np.all(np.abs(r) <= 1e-12 * np.abs(a.r).max()), "cancel:r", "revenues do not cancel")
    ctx.check(gen.close(p, a.p, 1e-9), "cancel:p", lambda: "price of two equal prices: " + gen.worst(p, a.p))
    ctx.saw("cancelled volumes, same price")
    # different price: revenue without volume
    p2 = a.p + 10
    C = gen.Flat("all", idx, w=-a.w, p=p2).build(pf)
    T = A.flatten() + C
    r, p = obs.arr(ctx, T.r, "r"), obs.arr(ctx, T.p, "p")
    ctx.check(gen.close(r, a.r - a.q * p2, 1e-9), "cancel:revenue", lambda: gen.worst(r, a.r - a.q * p2))
    ctx.check(not np.isfinite(p).any() if np.all(obs.arr(ctx, T.q, "q") == 0) else True, "cancel:undefined", lambda: f"price without volume: {p}")
    # cancelled in one period only
    k = rng.randrange(idx.n)
    w = gen.values(rng, idx.n, "pos")
    w[k] = -a.w[k]
    D = gen.Flat("all", idx, w=w, p=gen.values(rng, idx.n, "pos"))
    D.p[k] = a.p[k]
    D = gen.Flat("all", idx, w=w, p=D.p)
    U = a.build(pf) + D.build(pf)
    obs.judge_equals(ctx, U, alg.add(a, D), "partly-cancelled", mag=gen.mag(a, D))
    pk = obs.arr(ctx, U.p, "p")[k]
    ctx.check(abs(pk - a.p[k]) < 1e-6 * max(1, abs(a.p[k])), "partly-cancelled:p", lambda: f"{pk}, expected {a.p[k]}")
    ctx.saw("partly cancelled")
    ctx.nontrivial(idx.key(), a.w[0])
