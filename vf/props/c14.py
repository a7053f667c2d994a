"""C14: hedging. Random volume and price curves (flat, nested, partially overlapping, any
start-of-day and timezone) are hedged for random products; each product's constant power and
price are recomputed from the curves, and conservation of volume or value is judged directly.
Impossible hedges must be refused.
"""
import cal
import gen
import numpy as np
import obs
from core import scenario
from hedging import a_peak, curves, prices, ragged, reference

import portfolyo as pf
from portfolyo import tools

RULE = "random volume x price curves x {vol, val} x product frequency x peak definition x overlap; distinct by indices, products, method"


@scenario(quick=420, must=["hedges compared", "products", "volume conserved", "value conserved", "partial products dropped", "no full product refused", "peak and offpeak"])
def lines(ctx):
    rng = ctx.rng
    prod, idx = curves(rng)
    iw, ip = ragged(rng, idx), ragged(rng, idx)
    how = rng.choice(["vol", "val"])
    kind = rng.choice(["vol", "vol", "all"])
    depth = rng.choice([0, 0, 1, 2])
    mw = gen.line(rng, kind, iw, depth, style=rng.choice(["pos", "mixed", "const"]) if kind == "vol" else "pos")
    pkind = rng.choice(["pri", "pri", "all"])
    mp = gen.Flat("pri", ip, p=prices(rng, ip.n))
    if pkind == "all":
        mp = gen.Flat("all", ip, w=gen.values(rng, ip.n, "pos"), p=mp.p)
    elif rng.random() < 0.25:
        mp = gen.Nest({"base": mp, "fee": gen.Flat("pri", ip, p=gen.values(rng, ip.n, "pos"))})
    fn, pk, pdesc = a_peak(rng, idx, prod)
    ctx.case(volume=mw.describe(), price=mp.describe(), how=how, product=prod, peak=pdesc)
    co = gen.common(iw, ip)
    a, b = mw.build(pf), mp.build(pf)
    fa, fb = obs.fingerprint(a), obs.fingerprint(b)
    call = lambda: a.hedge_with(b, how, fn, prod)  # noqa
    if how == "val" and prod == "MS" and rng.random() < 0.3:
        call = (lambda: a.hedge_with(b)) if fn is None else (lambda: a.hedge_with(b, peak_fn=fn))
    ref = None
    if co is not None:
        ref = reference(co, gen.crop(mw.agg(), co).w, gen.crop(mp.agg(), co).p, how, prod, pk)
    if ref is None:
        ctx.raises("no-full-product", call, lambda: f"{mw.describe()} with {mp.describe()} for {prod}")
        ctx.saw("no full product refused")
        return
    src, w, p, W, P, groups = ref
    if src.n < co.n:
        ctx.saw("partial products dropped")
    res = call()
    obs.judge_equals(ctx, res, gen.Flat("all", src, w=W, p=P), "hedge", rtol=1e-8, mag=max(obs.top(w), obs.top(W)) * 1e-2)
    hw, hp = obs.arr(ctx, res.w, "w"), obs.arr(ctx, res.p, "p")
    t = src.hours
    for s in groups:
        ctx.check(np.ptp(hw[s]) <= 1e-9 * max(1e-9, np.abs(hw[s]).max()) and np.ptp(hp[s]) <= 1e-9 * max(1e-9, np.abs(hp[s]).max()), "flat", lambda: f"power or price not constant in product with {len(s)} periods")
        if how == "vol":
            x, y, sc = np.sum(hw[s] * t[s]), np.sum(w[s] * t[s]), np.sum(np.abs(w[s]) * t[s])
        else:
            x, y, sc = np.sum(hw[s] * p[s] * t[s]), np.sum(w[s] * p[s] * t[s]), np.sum(np.abs(hw[s] * p[s]) * t[s]) + np.sum(np.abs(w[s] * p[s]) * t[s])
        ctx.check(abs(x - y) <= 1e-8 * max(sc, 1e-9), f"conserved-{how}", lambda: f"hedge has {x}, original {y}")
        ctx.saw("volume conserved" if how == "vol" else "value conserved")
        ctx.saw("products")
    if pk is not None:
        ctx.saw("peak and offpeak")
    ctx.check(obs.fingerprint(a) == fa and obs.fingerprint(b) == fb, "operands", "operand was changed")
    ctx.saw("hedges compared")
    ctx.nontrivial(iw.key(), ip.key(), how, prod, pdesc)


@scenario(quick=200, must=["series compared", "empty results"])
def series(ctx):
    """The hedge of power and price series (with and without unit)."""
    rng = ctx.rng
    prod, idx = curves(rng, rng.choice(["D", "MS", "MS", "QS"]))
    iw, ip = ragged(rng, idx), ragged(rng, idx)
    if rng.random() < 0.15:
        iw = gen.Idx(idx.freq, idx.first, cal.next_date(idx.first, "D", 3), idx.sod, idx.tz)
        prod = "MS"
    how = rng.choice(["vol", "val"])
    w, p = gen.values(rng, iw.n, rng.choice(["pos", "mixed"])), prices(rng, ip.n)
    fn, pk, pdesc = a_peak(rng, idx, prod)
    unit = rng.random() < 0.6
    uw, up = (rng.choice(["MW", "kW", "GW"]), rng.choice(["Eur/MWh", "ctEur/kWh"])) if unit else (None, None)
    mk = lambda v, i, u: gen.pd.Series(v.copy(), i.pd, dtype=f"pint[{u}]" if u else float)  # noqa
    a, b = mk(w, iw, uw), mk(p, ip, up)
    ctx.case(volume=repr(iw), price=repr(ip), how=how, product=prod, peak=pdesc, units=(uw, up))
    co = gen.common(iw, ip)
    ref = None
    if co is not None:
        aw = iw.left.index(co.left[0])
        ap = ip.left.index(co.left[0])
        ref = reference(co, w[aw : aw + co.n], p[ap : ap + co.n], how, prod, pk)
    if co is None:
        return
    x, y = tools.hedge.hedge(a, b, how, fn, prod)
    if ref is None:
        ctx.check(len(x) == 0 and len(y) == 0, "empty", lambda: f"{len(x)} values without complete product")
        ctx.saw("empty results")
        return
    src, _, _, W, P, _ = ref
    for s, e, u in ((x, W, uw), (y, P, up)):
        ctx.check(gen.secs(s.index) == list(src.left) and s.index.freq == a.index.freq, "index", lambda: f"{s.index[:2]}.. freq {s.index.freq}")
        if u:
            ctx.check(str(s.dtype).startswith("pint") and abs(pf.Q_(1.0, s.pint.units).to(u).magnitude - 1) < 1e-9, "unit", lambda: f"{s.dtype}, expected {u}")
        v = np.asarray(s.pint.magnitude if u else s, float)
        ctx.check(gen.close(v, e, 1e-8, max(obs.top(e), obs.top(w) if s is x else 0)), "value", lambda: gen.worst(v, e))
    ctx.saw("series compared")
    ctx.nontrivial(iw.key(), ip.key(), how, prod, pdesc, unit)


@scenario(quick=300, must=["rejections demanded"])
def impossible(ctx):
    rng = ctx.rng
    src = rng.choice(["15min", "h", "D", "MS", "QS", "YS"])
    idx = gen.index(rng, freqs=[src], size="s", full=None if src in ("QS", "YS", "MS") else "D")
    vol = gen.line(rng, "vol", idx, rng.choice([0, 1]), style="pos").build(pf)
    pri = gen.flat(rng, "pri", idx, "pos").build(pf)
    kw = dict(how=rng.choice(["vol", "val"]), freq="D")
    ok = cal.rank(src) <= 2
    why = rng.choice(["how", "freq", "kind", "long", "peak-daily", "peak-day-product", "other-freq", "price-kind", "other-tz"])
    a, b = vol, pri
    if why == "how":
        kw["how"] = rng.choice(["", "value", "volume", None, "VOL", 3])
    elif why == "freq":
        kw["freq"] = rng.choice(["h", "15min", "W", "QS-FEB", "", None])
    elif why == "kind":
        a = gen.line(rng, rng.choice(["pri", "rev"]), idx, rng.choice([0, 1]), style="pos").build(pf)
    elif why == "long":
        src = rng.choice(["MS", "QS", "YS"])
        idx = gen.index(rng, freqs=[src], size="s")
        a, b = gen.line(rng, "vol", idx, style="pos").build(pf), gen.flat(rng, "pri", idx, "pos").build(pf)
        kw["freq"] = rng.choice(["D", "MS", "QS", "YS"])
    elif why == "peak-daily":
        idx = gen.index(rng, freqs=["D"], size="s", full="MS")
        a, b = gen.line(rng, "vol", idx, style="pos").build(pf), gen.flat(rng, "pri", idx, "pos").build(pf)
        kw.update(freq="MS", peak_fn=rng.choice([pf.germanpower_peakfn, tools.peakfn.factory(isoweekdays=[6, 7])]))
    elif why == "peak-day-product":
        idx = gen.index(rng, freqs=["15min", "h"], size="s")
        a, b = gen.line(rng, "vol", idx, style="pos").build(pf), gen.flat(rng, "pri", idx, "pos").build(pf)
        kw["peak_fn"] = pf.germanpower_peakfn
    elif why == "other-freq":
        other = gen.Idx(rng.choice([f for f in ("15min", "h", "D") if f != src]), idx.first, idx.last, idx.sod, idx.tz)
        b = gen.flat(rng, "pri", other, "pos").build(pf)
        ok = True
    elif why == "price-kind":
        b = gen.flat(rng, rng.choice(["vol", "rev"]), idx, "pos").build(pf)
    elif why == "other-tz":
        tz = rng.choice([z for z in gen.TZS if z != idx.tz])
        b = gen.flat(rng, "pri", gen.Idx(idx.freq, idx.first, idx.last, idx.sod, tz), "pos").build(pf)
    ctx.case(why=why, index=repr(idx), kw={k: str(v) for k, v in kw.items()})
    if not ok and why not in ("long", "peak-daily", "peak-day-product"):
        why += "+long"
    ctx.raises(f"refuse-{why}", lambda: a.hedge_with(b, **kw), why)
    ctx.saw("refused " + why)
    ctx.nontrivial(why, idx.key(), str(kw))
