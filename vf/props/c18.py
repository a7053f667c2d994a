"""C18: arithmetic and resampling of portfolio states. Random states (nested parts, partial
overlap, any sign) are added, subtracted, negated, scaled, divided and resampled, and each
part of the result - volumes, market price, cost, value - is compared with a model that is
computed from plain numbers; conservation of cost is judged on the observed values as well.
"""
import alg
import cal
import gen
import numpy as np
import obs
import pandas as pd
import state
from core import Skip, scenario

import portfolyo as pf

RULE = "random pairs of states x operation x overlap x nesting x sign; random states x target frequency; distinct by indices, structure and operation"


def pair(rng, nonzero=True):
    i = gen.index(rng, size="s")
    j = i if rng.random() < 0.5 else gen.subspan(rng, i)[0]
    return state.random_state(rng, i, depth=2), state.random_state(rng, j, depth=2)


@scenario(quick=110, must=["sums compared", "partial overlap", "no overlap refused", "differences compared"])
def addition(ctx):
    rng = ctx.rng
    a, b = pair(rng)
    op = rng.choice(["a+b", "b+a", "a-b", "a+b-b"])
    ctx.case(a=a.describe(), ia=repr(a.idx), b=b.describe(), ib=repr(b.idx), op=op)
    A, B = a.build(), b.build()
    fa, fb = obs.fingerprint(A), obs.fingerprint(B)
    if gen.common(a.idx, b.idx) is None:
        ctx.raises("no-overlap", {"a+b": lambda: A + B, "b+a": lambda: B + A, "a-b": lambda: A - B, "a+b-b": lambda: A - B}[op], "states without shared period")
        ctx.saw("no overlap refused")
        return
    if gen.common(a.idx, b.idx).n < max(a.idx.n, b.idx.n):
        ctx.saw("partial overlap")
    mag = (a.mag + b.mag) * 4
    if op in ("a+b", "b+a"):
        R, m = (A + B, state.add(a, b)) if op == "a+b" else (B + A, state.add(b, a))
        ctx.saw("sums compared")
    else:
        mb = state.scale(b, -1)
        R, m = A - B, state.add(a, mb)
        ctx.saw("differences compared")
        if op == "a+b-b":
            R, m = (A + B) - B, state.add(state.add(a, b), mb)
    # Prices where both states have no unsourced volume at all are not determined.
    state.judge_state(ctx, R, m, op, price_where_u0=False, rtol=1e-8, mag=mag)
    # cost of procurement: sum of the costs
    if op != "a+b-b":
        sgn = 1 if op != "a-b" else -1
        idx = m.idx
        ok = np.abs(m.uq) > 1e-6 * max(obs.top(a.uq), obs.top(b.uq), 1e-12)
        pick = lambda S, c: np.asarray([v for v in getattr(S.pnl_cost, c).pint.m.loc[idx.pd]], float)  # noqa
        for c in "qr":
            x, y = pick(R, c), pick(A, c) + sgn * pick(B, c)
            g = ok & np.isfinite(y)
            ctx.check(gen.close(x[g], y[g], 1e-8, mag), f"cost:{op}", lambda: f"{c}: " + gen.worst(x[g], y[g]))
    if rng.random() < 0.3:
        state.judge_balance(ctx, R, f"balance:{op}", mag)
    ctx.check(obs.fingerprint(A) == fa and obs.fingerprint(B) == fb, "operands", "operand was changed")
    ctx.nontrivial(op, a.idx.key(), b.idx.key(), a.describe(), b.describe())


FACTORS = ["int", "float", "neg", "zero", "series", "nodim", "quantity", "longer"]


@scenario(quick=150, must=["scaled states compared", "negations compared", "neutral operations", "self-difference"])
def scaling(ctx):
    rng = ctx.rng
    a = state.random_state(rng, gen.index(rng, size="s"), depth=2, nonzero=False)
    op = rng.choice(["neg", "mul", "mul", "mul", "rmul", "div", "div", "none", "self"])
    ctx.case(a=a.describe(), index=repr(a.idx), op=op)
    A = a.build()
    fa = obs.fingerprint(A)
    if op == "none":
        for R in (A + None, None + A, A - None, A + None + None):
            ctx.check(R == A, "neutral", "adding nothing changes the state")
            state.judge_state(ctx, R, a, "neutral")
        ctx.saw("neutral operations")
        ctx.nontrivial(op, a.idx.key())
        return
    if op == "neg":
        m = state.scale(a, -1)
        state.judge_state(ctx, -A, m, "neg")
        state.judge_state(ctx, -(-A), a, "negneg")
        ctx.saw("negations compared")
        ctx.nontrivial(op, a.idx.key(), a.describe())
        return
    if op == "self":
        R = A - A
        for part in ("offtakevolume", "sourced", "unsourced"):
            for c in "qr" if part != "offtakevolume" else "q":
                v = obs.arr(ctx, getattr(getattr(R, part), c), c)
                v = v[np.isfinite(v)]
                ctx.check(not np.any(v), "self", lambda: f"{part}.{c} of a - a is not zero: {obs.top(v)}")
        ctx.saw("self-difference")
        ctx.nontrivial(op, a.idx.key(), a.describe())
        return
    how = rng.choice(FACTORS if op != "div" else [f for f in FACTORS if f != "zero"])
    n = a.idx.n
    idx, f = a.idx, rng.choice([2, 0.5, 3.25, 1e-3, 250.0]) if how != "int" else rng.choice([1, 2, 3, 10])
    if how == "neg":
        f = -f
    elif how == "zero":
        f = rng.choice([0, 0.0])
    arg = f
    if how in ("series", "nodim", "longer"):
        f = gen.values(rng, n, "pos")
        s, i = f, idx
        if how == "longer":
            i = gen.subspan(rng, idx)[0]
            s = gen.values(rng, i.n, "pos")
        arg = pd.Series(s.copy(), i.pd, dtype="pint[]" if how == "nodim" or rng.random() < 0.3 else float)
        if how == "longer":
            co = gen.common(idx, i)
            if co is None:
                ctx.raises("no-overlap", (lambda: A / arg) if op == "div" else (lambda: A * arg), "factor without shared period")
                return
            k = i.left.index(co.left[0])
            f, a, idx = s[k : k + co.n], a.crop(co), co
    elif how == "quantity":
        arg = pf.Q_(float(f), "")
    elif how == "percent":
        arg = pf.Q_(float(f) * 100)
    if op == "div":
        R, m = A / arg, state.scale(a, 1 / f)
    elif op == "rmul" and how in ("int", "float", "neg", "zero"):
        R, m = arg * A, state.scale(a, f)
    else:
        R, m = A * arg, state.scale(a, f)
    state.judge_state(ctx, R, m, f"{op}-{how}")
    ctx.saw("scaled states compared")
    if op == "mul" and how not in ("zero", "longer"):
        state.judge_state(ctx, R / arg, a, "undo")
        ctx.saw("scaling undone")
    ctx.check(obs.fingerprint(A) == fa, "operands", "operand was changed")
    ctx.nontrivial(op, how, a.idx.key(), a.describe())


@scenario(quick=120, must=["ratios compared"])
def division(ctx):
    rng = ctx.rng
    a, b = pair(rng)
    co = gen.common(a.idx, b.idx)
    ctx.case(a=a.describe(), ia=repr(a.idx), b=b.describe(), ib=repr(b.idx))
    A, B = a.build(), b.build()
    if co is None:
        ctx.raises("no-overlap", lambda: A / B, "states without shared period")
        return
    R = A / B
    ctx.check(isinstance(R, pd.DataFrame), "type", lambda: type(R).__name__)
    ctx.check(gen.secs(R.index) == list(co.left), "index", lambda: f"{R.index}")
    a, b = a.crop(co), b.crop(co)
    with np.errstate(all="ignore"):

        def parts(m):
            s = m.s.agg()
            sp = np.where(s.q == 0, np.nan, s.r / s.q)
            cost = (s.r + m.ur) / (s.q + m.uq)
            return {("offtake", "volume"): m.o.agg().q, ("sourced", "volume"): s.q, ("sourced", "price"): sp, ("unsourced", "volume"): m.uq, ("unsourced", "price"): m.up, ("pnl_cost", "price"): cost}

        x, y = parts(a), parts(b)
        ctx.check(set(R.columns) == set(x), "columns", lambda: str(list(R.columns)))
        for k in x:
            e = x[k] / y[k]
            ok = np.isfinite(e) & (np.abs(e) > 1e-9) if k == ("pnl_cost", "price") else np.isfinite(e)
            if k[0] in ("unsourced", "pnl_cost"):  # no cancellation
                for m in (a, b):
                    ok &= (np.abs(m.uq) > 1e-6 * obs.top(m.o.agg().q)) & (np.abs(m.s.agg().r + m.ur) > 1e-6 * m.mag)
            got = state.series(ctx, R[k], "ratio")
            ctx.check(gen.close(got[ok], e[ok], 1e-8), f"ratio-{k[0]}-{k[1]}", lambda: gen.worst(got[ok], e[ok]))
            ctx.saw("ratios compared", int(ok.sum()))
    ctx.nontrivial(a.idx.key(), a.describe(), b.describe())


@scenario(quick=140, must=["states resampled", "upsampled", "downsampled", "partial periods dropped", "no full period refused", "costs conserved"])
def resampling(ctx):
    rng = ctx.rng
    freq = rng.choice(["15min", "h", "h", "D", "D", "MS", "QS", "YS"])
    up = rng.random() < 0.35 and freq != "15min" or freq == "YS"
    f = None
    for _ in range(50):
        idx = gen.index(rng, freqs=[freq], size="m" if cal.rank(freq) > 1 else "s", full=None if rng.random() < 0.5 or cal.rank(freq) > 2 else rng.choice(["MS", "QS"]))
        f = alg.shorter(rng, idx.freq, idx.n, 3000) if up else alg.longer(rng, idx.freq)
        if f is not None and idx.n < 3000:
            break
    if f is None:
        raise Skip
    a = state.random_state(rng, idx, depth=2, nonzero=rng.random() < 0.8)
    ctx.case(a=a.describe(), index=repr(idx), freq=f)
    A = a.build()
    fa = obs.fingerprint(A)
    m = state.asfreq(a, f)
    call = (lambda: A.asfreq()) if f == "MS" and rng.random() < 0.5 else (lambda: A.asfreq(f))
    if m is None:
        ctx.raises("no-full-period", call, f"{idx!r} to {f}")
        ctx.saw("no full period refused")
        return
    R = call()
    state.judge_state(ctx, R, m, "up" if up else "down", price_where_u0=False, rtol=1e-8, mag=a.mag)
    ctx.saw("upsampled" if up else "downsampled")
    ctx.saw("states resampled")
    ctx.check(obs.fingerprint(A) == fa, "operands", "operand was changed")
    # conservation, from observed values
    cost = {}
    for S, i in ((A, idx), (R, m.idx)):
        cost[i.freq] = {(p, c): np.asarray(getattr(getattr(S, p), c).pint.m, float) for p in ("pnl_cost", "unsourced", "sourced") for c in "qr"}
    hi, lo = (m.idx, idx) if up else (idx, m.idx)  # short, long
    groups = alg.regroup(gen.Idx(hi.freq, lo.first, lo.last, lo.sod, lo.tz), lo)
    off = hi.left.index(lo.left[0])
    uq, sh = a.uq, [slice(g.start + off, g.stop + off) for g in groups]
    if lo.n < 400:
        us = np.abs(np.asarray(R.unsourced.q.pint.m, float)) if not up else np.abs(uq)
        tot = np.array([np.abs(uq[g]).sum() for g in sh]) if not up else us
        ok = (us > 1e-5 * np.maximum(tot, 1e-12)) & (us > 1e-6 * max(obs.top(uq), 1e-12))
        for k in cost[hi.freq]:
            x = np.array([cost[hi.freq][k][g].sum() for g in sh])
            y = cost[lo.freq][k]
            g = ok & np.isfinite(x)
            ctx.check(gen.close(x[g], y[g], 1e-7, a.mag), "conservation", lambda: f"{k[0]}.{k[1]}: " + gen.worst(x[g], y[g]))
            ctx.saw("costs conserved", int(g.sum()))
    if not up and (m.idx.first, m.idx.last) != (idx.first, idx.last):
        ctx.saw("partial periods dropped")
    if rng.random() < 0.25:
        state.judge_balance(ctx, R, "balance", a.mag)
    ctx.nontrivial(idx.key(), f, a.describe())


@scenario(quick=150, must=["rejections demanded"])
def refused(ctx):
    rng = ctx.rng
    a = state.random_state(rng, gen.index(rng, size="s"))
    A = a.build()
    i = a.idx
    why = rng.choice(["number", "line", "quantity", "state*state", "rdiv", "none", "freq", "tz", "sod", "union", "garbage"])
    L = lambda k: gen.line(rng, k, i, rng.choice([0, 1]), style="pos").build(pf)  # noqa
    x = rng.choice([1, 2.5, -3])
    if why == "number":
        x = rng.choice([x, pf.Q_(x, ""), pd.Series(float(x), i.pd)])
        ops = [lambda: A + x, lambda: A - x, lambda: x + A, lambda: x - A]
        if isinstance(x, pd.Series):
            ops = ops[:2]  # pandas itself decides about series + object
    elif why == "line":
        y = L(rng.choice(["vol", "pri", "rev", "all"]))
        ops = [lambda: A + y, lambda: A - y, lambda: A * y, lambda: A / y, lambda: y + A, lambda: y - A, lambda: y * A, lambda: y / A]
    elif why == "quantity":
        y = pf.Q_(float(x), rng.choice(["MW", "MWh", "Eur/MWh", "Eur", "h", "kW", "Eur**2"]))
        ops = [lambda: A + y, lambda: A - y, lambda: A * y, lambda: A / y]
    elif why == "state*state":
        B = state.random_state(rng, i).build()
        ops = [lambda: A * B]
    elif why == "rdiv":
        ops = [lambda: x / A, lambda: L("vol") / A]
    elif why == "none":
        ops = [lambda: A * None, lambda: A / None, lambda: None * A, lambda: None / A]
    elif why == "union":
        B = state.random_state(rng, i).build()
        ops = [lambda: A | B, lambda: A | L("vol"), lambda: L("pri") | A]
    elif why == "garbage":
        y = rng.choice(["text", [1, 2], {}, object(), pd.DataFrame({"q": [1.0]})])
        ops = [lambda: A + y, lambda: A - y, lambda: A * y, lambda: A / y]
    else:
        if why == "freq":
            f = alg.longer(rng, i.freq) or alg.shorter(rng, i.freq, i.n)
            j = gen.Idx(f, i.first, i.last, i.sod, i.tz) if cal.rank(f) < cal.rank(i.freq) else None
            if j is None:
                first = cal.start_date(i.first, f) if cal.rank(f) > 1 else i.first
                last = cal.next_date(cal.start_date(i.last, f), f) if cal.rank(f) > 1 else i.last
                j = gen.Idx(f, first, last, i.sod, i.tz)
        elif why == "tz":
            j = gen.Idx(i.freq, i.first, i.last, i.sod, rng.choice([z for z in gen.TZS if z != i.tz]))
        else:
            j = gen.Idx(i.freq, i.first, i.last, rng.choice([s for s in gen.SODS if s != i.sod]), i.tz)
        if j.n > 10000:
            raise Skip
        B = state.random_state(rng, j).build()
        s = pd.Series(gen.values(rng, j.n, "pos"), j.pd)
        ops = [lambda: A + B, lambda: A - B, lambda: A / B, lambda: B + A, lambda: A * s, lambda: A / s]
    ctx.case(index=repr(i), why=why)
    k = rng.randrange(len(ops))
    ctx.raises(f"refuse-{why}", ops[k], f"{why} #{k}")
    ctx.saw("refused " + why)
    ctx.nontrivial(why, k, i.key())
