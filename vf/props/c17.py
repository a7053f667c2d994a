"""C17: balance of portfolio states. States are made from random (nested) offtake, price and
sourcing, in all ways in which they can be made and with longer input than needed; every
period of every derived part is recomputed. Incomplete data must be refused. Also judges the
states that occur in random histories of operations.
"""
import alg
import gen
import hist
import numpy as np
import obs
import pandas as pd
import state
from core import scenario

import portfolyo as pf

RULE = "random offtake/price/sourcing (signs, nesting, zero and exactly sourced volume, longer spans) x way of construction; histories of operations; distinct by index, structure, values"


def longer(rng, idx):
    """Index that contains idx."""
    return gen.subspan(rng, idx, "contain")[0] if rng.random() < 0.4 else idx


@scenario(quick=240, must=["sourcing from price and revenue", "incomplete series refused", "states judged", "periods judged", "periods without unsourced volume", "without sourcing", "reduced to offtake"])
def construct(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    m = state.random_state(rng, idx, nonzero=False, depth=2)
    how = rng.choice(["lines", "lines", "lines", "series", "complete", "raw"])
    none = obs.top(m.s.agg().q) == 0
    ctx.case(index=repr(idx), state=m.describe(), how=how)
    if how == "series":
        kw = {}
        for c in rng.choice(["w", "q", "wq"]):
            kw[c + "o"] = gen.dress(rng, c, getattr(m.o.agg(), c), idx.pd)[0]
        kw["pu"] = gen.dress(rng, "p", m.up, idx.pd)[0]
        if not none:
            s = m.s.agg()
            fin = np.isfinite(s.p).all()
            cols = rng.choice(["wr", "qr", "wqr"] + (["wp", "qp", "wqp", "wpr", "qpr", "wqpr"] if fin else []) + (["pr"] * 3 if fin and np.abs(s.p).min() > 1e-3 and np.abs(s.q).min() > 1e-3 else []))
            if cols == "pr":
                ctx.saw("sourcing from price and revenue")
            for c in cols:
                kw[c + "s"] = gen.dress(rng, c, getattr(s, c), idx.pd, rng.choice(["float", "pint", "unit"]))[0]
        # incomplete series
        part = {k: v for k, v in kw.items() if k[1] != "s"}
        if rng.random() < 0.3:
            lack = rng.choice(["o", "pu", "s"])
            s = pd.Series(gen.values(rng, idx.n, "pos"), idx.pd)
            bad = {"o": lambda: {k: v for k, v in kw.items() if k[1] != "o"}, "pu": lambda: {k: v for k, v in kw.items() if k != "pu"}, "s": lambda: {**part, rng.choice(["ps", "rs", "ws", "qs"]): s}}[lack]()
            ctx.raises(f"refuse-series-{lack}", lambda: pf.PfState.from_series(**bad), f"only {sorted(bad)} given")
            ctx.saw("incomplete series refused")
        pfs = pf.PfState.from_series(**kw)
        m = state.St(m.o.agg(), gen.Flat("pri", idx, p=m.up), m.s.agg())
    else:
        i2, i3 = longer(rng, idx), longer(rng, idx)
        p, s = m.p, m.s
        if i2 is not idx:
            big = gen.line(rng, "pri", i2, 0, style="pos")
            pos = i2.left.index(idx.left[0])
            if not p.nested:
                big.p[pos : pos + idx.n] = p.p
                p = big
                ctx.saw("reduced to offtake")
        if i3 is not idx and not s.nested and not none:
            big = gen.flat(rng, "all", i3, "pos", "pos")
            pos = i3.left.index(idx.left[0])
            big.q[pos : pos + idx.n], big.r[pos : pos + idx.n] = s.q, s.r
            s = gen.Flat("all", i3, q=big.q, r=big.r, p=big.r / np.where(big.q == 0, np.nan, big.q))
            ctx.saw("reduced to offtake")
        O, P, S = state.build(m.o), state.build(p), None if none and rng.random() < 0.7 else state.build(s)
        if how == "complete":  # superfluous information
            if not m.o.nested:
                O = pf.PfLine({"q": m.o.series("q"), "p": pd.Series(gen.values(rng, idx.n, "pos"), idx.pd)})
            if not p.nested:
                P = pf.PfLine({"p": p.series("p"), "w": pd.Series(gen.values(rng, p.idx.n, "pos"), p.idx.pd)})
        elif how == "raw":  # data from which a line can be made
            if not m.o.nested:
                O = rng.choice([lambda: {"q": m.o.series("q")}, lambda: m.o.series("w", pint=True), lambda: pd.DataFrame({"w": m.o.series("w")})])()
            if not p.nested:
                P = rng.choice([lambda: {"p": p.series("p")}, lambda: p.series("p", pint=True)])()
            if S is not None and not s.nested:
                S = rng.choice([lambda: {"q": s.series("q"), "r": s.series("r")}, lambda: pd.DataFrame({"w": s.series("w"), "r": s.series("r")})])()
        pfs = pf.PfState(O, P, S) if S is not None or rng.random() < 0.5 else pf.PfState(O, P)
    if none:
        ctx.saw("without sourcing")
    state.judge_balance(ctx, pfs, "balance", m.mag)
    state.judge_state(ctx, pfs, m, "values")
    if none:
        for c in "wqr":
            ctx.check(not np.any(obs.arr(ctx, getattr(pfs.sourced, c), c)), "no-sourcing", f"sourced {c} is not zero")
    for part in ("offtakevolume", "sourced", "unsourcedprice"):
        obs.judge_line(ctx, getattr(pfs, part), f"part-{part}", mag=m.mag)
    ctx.nontrivial(idx.key(), m.describe(), how)


@scenario(quick=240, must=["rejections demanded"])
def refused(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    while idx.n < 2 or (gen.cal.rank(idx.freq) < 2 and (idx.last - idx.first).days < 2):
        idx = gen.index(rng, size="s")
    depth = lambda: rng.choice([0, 0, 1])  # noqa
    ln = lambda k, i: gen.line(rng, k, i, depth(), style="pos").build(pf)  # noqa
    good = {"o": ("vol", idx), "p": ("pri", idx), "s": ("all", idx)}
    part = rng.choice("ops")
    why = rng.choice(["kind", "short", "short", "freq", "tz", "sod", "none", "garbage"])
    bad = None
    if why == "kind":
        bad = ln(rng.choice({"o": ["pri", "rev"], "p": ["vol", "rev"], "s": ["vol", "pri", "rev"]}[part]), idx)
    elif why == "short":
        part = rng.choice("ps")
        bad = ln(good[part][0], gen.subspan(rng, idx, rng.choice(["inside", "left", "right", "disjoint"]))[0])
    elif why == "freq":
        f = rng.choice([x for x in gen.cal.FREQS if x != gen.cal.base(idx.freq)])
        u = f if gen.cal.rank(f) > 2 else "D"
        first, last = gen.cal.start_date(idx.first, u), gen.cal.start_date(idx.last, u)
        last = gen.cal.next_date(last, u) if last < idx.last or last <= first else last
        j = gen.Idx(f, first, last, idx.sod, idx.tz)
        if j.n > 20000:
            j = gen.Idx(f, first, gen.cal.next_date(first, "MS"), idx.sod, idx.tz)
        bad = ln(good[part][0], j)
    elif why == "tz":
        bad = ln(good[part][0], gen.Idx(idx.freq, idx.first, idx.last, idx.sod, rng.choice([z for z in gen.TZS if z != idx.tz])))
    elif why == "sod":
        bad = ln(good[part][0], gen.Idx(idx.freq, idx.first, idx.last, rng.choice([s for s in gen.SODS if s != idx.sod]), idx.tz))
    elif why == "none":
        part = rng.choice("op")
    else:
        bad = rng.choice([3.0, {}, object(), pf.Q_(3.0, "MW"), pd.Series([1.0, 2.0])])
    ctx.case(index=repr(idx), part=part, why=why)
    args = {k: (bad if k == part else ln(*v)) for k, v in good.items()}
    ctx.raises(f"refuse-{part}-{why}", lambda: pf.PfState(args["o"], args["p"], args["s"]), f"{part} {why}")
    ctx.saw(f"refused {part} {why}")
    # also when replacing a part
    if why != "none" and (why, part) not in (("kind", "o"),):
        ok = pf.PfState(*(ln(*v) for v in good.values()))
        fp = obs.fingerprint(ok)
        fn = {"o": ok.set_offtakevolume, "p": ok.set_unsourcedprice, "s": ok.set_sourced}[part]
        ctx.raises(f"refuse-set-{part}-{why}", lambda: fn(bad), f"{part} {why}")
        ctx.check(obs.fingerprint(ok) == fp, "state-changed", "state changed by refused operation")
    ctx.nontrivial(idx.key(), part, why)


@scenario(quick=40, must=["states judged"])
def histories(ctx):
    """States that are the result of sequences of operations."""
    W = hist.World(ctx.rng)
    names = []
    ctx.case(index=repr(W.idx), ops=names)
    n = 0
    for _ in range(60):
        name, operands, fn = W.step()
        if name not in ("stateadd", "stateset", "statehedge", "newstate", "neg", "scale", "asfreq", "slc", "loc", "set", "add", "sub", "concat") and ctx.rng.random() < 0.7:
            continue
        names.append(name)
        try:
            res = fn()
        except Exception:
            continue
        for s in W.states_in(res):
            state.judge_balance(ctx, s, f"after-{name}", W.mag * 8)
            n += 1
        W.keep(res)
        if n >= 6:
            break
    ctx.nontrivial(tuple(names), W.idx.key())


@scenario(quick=120, must=["states judged", "twin zone"])
def history(ctx):
    """States with similar delivery periods, one after the other: none may depend on those before."""
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    seq, log = [idx], [repr(idx)]
    for _ in range(3):
        j, what = gen.sibling(rng, rng.choice(seq))
        ctx.saw(what)
        seq.append(j)
        log.append(f"{what}: {j!r}")
    rng.shuffle(seq)
    ctx.case(indices=log)
    none = rng.random() < 0.4
    for j in seq:
        m = state.random_state(rng, j, sourced="none" if none else "?", nonzero=False)
        pfs = m.build(via_none=obs.top(m.s.agg().q) == 0)
        obs.judge_index(ctx, pfs.sourced.index, "history:index", j)
        state.judge_balance(ctx, pfs, "history:balance", m.mag)
        state.judge_state(ctx, pfs, m, "history:values")
    ctx.nontrivial(*[j.key() for j in seq], none)
