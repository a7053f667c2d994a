"""C19: updating, sourcing and valuing portfolio states. Random sequences of updates (replace
offtake, price or sourcing; add sourcing; source the unsourced volume) are followed in a model,
and every intermediate state is compared with it; earlier states must not change. Hedges of the
unsourced volume are recomputed per product, and nothing may remain unsourced per product
afterwards. Mark-to-market values are recomputed per period.
"""
import alg
import gen
import hedging
import numpy as np
import obs
import state
from core import Skip, scenario

import portfolyo as pf

RULE = "random states x sequences of 3-6 updates; x {vol, val} x product x peak definition; distinct by index, structure and sequence"


def remaining(ctx, R, how, groups, idx, m, p):
    """Unsourced volume or value that remains per product."""
    q = obs.arr(ctx, R.unsourced.q, "q")
    w0 = np.maximum(np.abs(m.o.agg().q), np.abs(m.s.agg().q)) / idx.hours
    t = idx.hours
    for s in groups:
        if how == "vol":
            x, sc = np.sum(q[s]), np.sum(np.abs(w0[s]) * t[s])
        else:
            x, sc = np.sum(q[s] * p[s]), np.sum(np.abs(w0[s] * p[s]) * t[s])
            sc += np.sum(np.abs(q[s] * p[s]))
        ctx.check(abs(x) <= 1e-8 * max(sc, 1e-9), f"remaining-{how}", lambda: f"{x} remains unsourced in product of {len(s)} periods (scale {sc})")
        ctx.saw("products fully sourced")


def small(rng, full=None):
    while True:
        i = gen.index(rng, size="s", full=full)
        if i.n < 3000:
            return i


@scenario(quick=110, must=["updates compared", "sourced the unsourced", "older states unchanged", "added to nested sourcing"])
def updates(ctx):
    rng = ctx.rng
    hedgeable = rng.random() < 0.5
    if hedgeable:
        prod, idx = hedging.curves(rng, rng.choice(["D", "MS"]))
        if idx.n > 1500:
            raise Skip
    else:
        prod, idx = None, small(rng)
    m = state.random_state(rng, idx, depth=2, nonzero=False)
    S = m.build()
    seq, older = [], []
    ctx.case(index=repr(idx), state=m.describe(), sequence=seq)
    for _ in range(rng.randrange(3, 7) if idx.n < 800 else 2):
        ops = ["offtake", "price", "sourced", "sourced", "add", "add", "add"] + (["source"] * 4 if hedgeable else [])
        op = rng.choice(ops)
        older.append((S, obs.fingerprint(S)))
        i = idx
        if op in ("price", "sourced") and rng.random() < 0.3:
            i = gen.subspan(rng, idx, "contain")[0]
        d = rng.choice([0, 0, 1])
        if op == "offtake":
            x = alg.scale(gen.line(rng, "vol", idx, d, style="pos"), -1)
            S, m = S.set_offtakevolume(x.build(pf)), state.St(x, m.p, m.s)
        elif op == "price":
            x = gen.Flat("pri", i, p=gen.values(rng, i.n, rng.choice(["pos", "mixed"])))
            S, m = S.set_unsourcedprice(x.build(pf)), state.St(m.o, gen.crop(x, idx), m.s)
        elif op == "sourced":
            x = gen.line(rng, "all", i, d, style="pos")
            S, m = S.set_sourced(x.build(pf)), state.St(m.o, m.p, gen.crop(x, idx))
        elif op == "add":
            x = gen.line(rng, "all", i, rng.choice([0, 1, 1]), style="pos")
            if m.s.nested and x.nested and rng.random() < 0.7:
                x = gen.Nest({n: gen.line(rng, "all", i, 0, style="pos") for n in list(m.s.children)[:1] + ["extra"] if n not in m.s.children or not m.s.children[n].nested})
                ctx.saw("added to nested sourcing")
            S, m = S.add_sourced(x.build(pf)), state.St(m.o, m.p, alg.add(m.s, gen.crop(x, idx)))
        else:
            how = rng.choice(["vol", "val"])
            fn, pk, desc = hedging.a_peak(rng, idx, prod)
            ref = hedging.reference(idx, m.uq / idx.hours, m.up, how, prod, pk)
            call = lambda: S.source_unsourced(how, fn, prod)  # noqa
            if how == "val" and prod == "MS" and rng.random() < 0.3:
                call = lambda: S.source_unsourced(peak_fn=fn)  # noqa
            if ref is None or ref[0].n < idx.n:
                ctx.raises("incomplete-products", call, f"{idx!r} for {prod}")
                ctx.saw("incomplete products refused")
                continue
            src, w, p, W, P, groups = ref
            S = call()
            remaining(ctx, S, how, groups, idx, m, p)
            m = state.St(m.o, m.p, alg.add(m.s, gen.Flat("all", idx, w=W, p=P)))
            ctx.saw("sourced the unsourced")
        seq.append(op)
        state.judge_state(ctx, S, m, f"after-{op}", rtol=1e-8)
        ctx.saw("updates compared")
    for o, fp in older:
        ctx.check(obs.fingerprint(o) == fp, "older-state", "an update changed the state it was called on")
        ctx.saw("older states unchanged")
    if rng.random() < 0.3:
        state.judge_balance(ctx, S, "balance", m.mag)
    ctx.nontrivial(idx.key(), tuple(seq), m.describe())


@scenario(quick=140, must=["hedges compared", "products fully sourced", "no full product refused", "incomplete products refused", "peak and offpeak"])
def hedges(ctx):
    rng = ctx.rng
    prod, idx = hedging.curves(rng)
    if rng.random() < 0.3:
        idx = hedging.ragged(rng, idx)
    m = state.random_state(rng, idx, depth=1)
    how = rng.choice(["vol", "val"])
    fn, pk, desc = hedging.a_peak(rng, idx, prod)
    ctx.case(index=repr(idx), state=m.describe(), how=how, product=prod, peak=desc)
    S = m.build()
    fp = obs.fingerprint(S)
    kw = dict(how=how, peak_fn=fn, freq=prod)
    for k, v in (("how", "val"), ("peak_fn", None), ("freq", "MS")):
        if kw[k] == v and rng.random() < 0.5:
            del kw[k]
    ref = hedging.reference(idx, m.uq / idx.hours, m.up, how, prod, pk)
    if ref is None:
        ctx.raises("no-full-product", lambda: S.hedge_of_unsourced(**kw), f"{idx!r} for {prod}")
        ctx.raises("no-full-product", lambda: S.source_unsourced(**kw), f"{idx!r} for {prod}")
        ctx.saw("no full product refused")
        return
    src, w, p, W, P, groups = ref
    H = S.hedge_of_unsourced(**kw)
    mh = gen.Flat("all", src, w=W, p=P)
    obs.judge_equals(ctx, H, mh, "hedge", rtol=1e-8, mag=max(obs.top(w), obs.top(W)) * 1e-2)
    ctx.saw("hedges compared")
    if pk is not None:
        ctx.saw("peak and offpeak")
    if src.n < idx.n:
        ctx.raises("incomplete-products", lambda: S.source_unsourced(**kw), f"{idx!r} for {prod}")
        ctx.saw("incomplete products refused")
    else:
        R = S.source_unsourced(**kw)
        remaining(ctx, R, how, groups, idx, m, p)
        ctx.check(R.offtakevolume == S.offtakevolume and R.unsourcedprice == S.unsourcedprice, "unaffected", "sourcing changed offtake or price")
        ctx.check(R.sourced == S.sourced + H, "sourced", "sourced is not increased by the hedge")
        if how == "vol":
            again = S.add_sourced(H).source_unsourced(**kw)
            q = obs.arr(ctx, (again.sourced.volume - R.sourced.volume).q, "q")
            ctx.check(gen.close(q, 0 * q, 1e-8, max(obs.top(m.o.agg().q), obs.top(m.uq))), "twice", lambda: f"sourcing twice sources {obs.top(q)} more")
    ctx.check(obs.fingerprint(S) == fp, "operands", "state was changed")
    ctx.nontrivial(idx.key(), m.describe(), how, prod, desc)


@scenario(quick=160, must=["values compared"])
def mtm(ctx):
    rng = ctx.rng
    idx = small(rng)
    m = state.random_state(rng, idx, depth=2, nonzero=False)
    ctx.case(index=repr(idx), state=m.describe())
    S = m.build()
    fp = obs.fingerprint(S)
    R = S.mtm_of_sourced()
    ctx.check(obs.kind(R) == "rev", "kind", lambda: obs.kind(R))
    obs.judge_index(ctx, R.index, "index", idx)
    s = m.s.agg()
    e = s.q * m.up - s.r
    ok = s.q != 0
    got = obs.arr(ctx, R.r, "r")
    ctx.check(gen.close(got[ok], e[ok], 1e-8, max(obs.top(s.r), obs.top(s.q) * obs.top(m.up), 1e-9)), "mtm", lambda: gen.worst(got[ok], e[ok]))
    ctx.saw("values compared", int(ok.sum()))
    ctx.check(obs.fingerprint(S) == fp, "operands", "state was changed")
    ctx.nontrivial(idx.key(), m.describe())
