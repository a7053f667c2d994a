"""Reference model of a portfolio state, and monitors for observed states."""
from __future__ import annotations

import alg
import gen
import numpy as np
import obs
from gen import Flat, Nest

import portfolyo as pf


class St:
    """Offtake volume (o), market price (p), sourced volume and cost (s)."""

    def __init__(self, o, p, s=None):
        self.o, self.p = o, p
        self.idx = o.idx
        self.s = s if s is not None else Flat("all", o.idx, q=np.zeros(o.idx.n), r=np.zeros(o.idx.n), p=np.full(o.idx.n, np.nan))

    def build(self, via_none=False):
        return pf.PfState(build(self.o), build(self.p), None if via_none else build(self.s))

    @property
    def uq(self):
        return -(self.o.agg().q + self.s.agg().q)

    @property
    def up(self):
        return self.p.agg().p

    @property
    def ur(self):
        return np.where(self.uq == 0, 0.0, self.uq * self.up)

    def crop(self, idx):
        return St(gen.crop(self.o, idx), gen.crop(self.p, idx), gen.crop(self.s, idx))

    @property
    def mag(self):
        return max(gen.mag(self.o, self.s) * 2, obs.top(self.ur))

    def describe(self):
        return f"offtake {self.o.describe()}; price {'nested' if self.p.nested else 'flat'}; sourced {self.s.describe()}"


def build(m):
    """Line from model; complete lines from volume and revenue, as prices may be undefined."""
    if m.nested:
        return pf.PfLine({n: build(c) for n, c in m.children.items()})
    return m.build(pf, "qr" if m.kind == "all" else None)


def add(a: St, b: St):
    idx = gen.common(a.idx, b.idx)
    if idx is None:
        return None
    a, b = a.crop(idx), b.crop(idx)
    with np.errstate(all="ignore"):
        p = (a.ur + b.ur) / (a.uq + b.uq)
    return St(alg.add(a.o, b.o), Flat("pri", idx, p=p), alg.add(a.s, b.s))


def scale(a: St, f):
    return St(alg.scale(a.o, f), a.p, alg.scale(a.s, f))


def asfreq(a: St, freq):
    o, s = alg.asfreq(a.o, freq), alg.asfreq(a.s, freq)
    if o is None:
        return None
    u = alg.asfreq(Flat("all", a.idx, q=a.uq, r=a.ur, p=a.up), freq)
    with np.errstate(all="ignore"):
        p = u.p
    return St(o, Flat("pri", o.idx, p=p), s)


def random_state(rng, idx, sourced="?", depth=1, nonzero=True):
    """Random state; ``nonzero``: unsourced volume is not zero anywhere."""
    d = lambda: rng.choice([0, 0, depth, rng.randrange(depth + 1)])  # noqa
    vol = rng.choice(["pos", "const", "mixed", "spiky"])
    o = alg.scale(gen.line(rng, "vol", idx, d(), style=vol), rng.choice([-1, -1, -1, 1]))
    p = gen.Flat("pri", idx, p=gen.values(rng, idx.n, rng.choice(["pos", "mixed", "const"])))
    if rng.random() < 0.2:
        p = gen.Nest({"base": p, "fee": gen.Flat("pri", idx, p=gen.values(rng, idx.n, "pos"))})
    if sourced == "?":
        sourced = rng.choice(["none", "some", "some", "some", "zeros", "exact"])
    if sourced == "none":
        s = None
    elif sourced == "zeros":  # no sourcing in some periods
        q = gen.values(rng, idx.n, "pos")
        q[np.array([rng.random() < 0.4 for _ in q])] = 0.0
        pr = gen.values(rng, idx.n, "pos")
        with np.errstate(all="ignore"):
            s = gen.Flat("all", idx, q=q, r=q * pr, p=np.where(q == 0, np.nan, pr))
    elif sourced == "exact" and not nonzero:  # nothing unsourced, in some periods
        q = -o.agg().q.copy()
        m = np.array([rng.random() < 0.4 for _ in q])
        q[m] *= rng.choice([0.5, 2])
        s = gen.Flat("all", idx, q=q, p=gen.values(rng, idx.n, "pos"))
    else:
        s = gen.line(rng, "all", idx, d(), style="pos")
    return St(o, p, s)


# ------------------------------------------------------------ monitors
def series(ctx, s, key):
    """Dimensionless series."""
    if str(s.dtype).startswith("pint"):
        ctx.check(str(s.pint.units) in ("", "dimensionless"), f"{key}:unit", lambda: f"{s.dtype}")
        return np.asarray(s.pint.magnitude, float)
    return np.asarray(s, float)


def judge_balance(ctx, pfs, key, mag=0.0):
    """What must be true of every state, from its own public parts."""
    ctx.saw("states judged")
    ctx.check(isinstance(pfs, pf.PfState), f"{key}:type", lambda: type(pfs).__name__)
    o, s, u, n, c = pfs.offtakevolume, pfs.sourced, pfs.unsourced, pfs.netposition, pfs.pnl_cost
    up = pfs.unsourcedprice
    secs = gen.secs(pfs.index)
    pick = ctx.rng.choice(["offtake", "offtakevolume", "sourced", "unsourced", "unsourcedprice", "netposition", "pnl_cost"])
    for name, x, k in (("offtake", o, "vol"), ("offtake", pfs.offtake, "vol"), ("sourced", s, "all"), ("unsourced", u, "all"), ("unsourcedprice", up, "pri"), ("netposition", n, "all"), ("pnl_cost", c, "all")):
        ctx.check(obs.kind(x) == k, f"{key}:part-kind", lambda: f"{name} has kind {obs.kind(x)}")
        ctx.check(gen.secs(x.index) == secs and x.index.freq == pfs.index.freq and str(x.index.tz) == str(pfs.index.tz), f"{key}:part-index", lambda: f"{name} has index {x.index[0]}..{x.index[-1]}, timezone {x.index.tz}")
        if name == pick:
            ctx.check(pfs[name] == x, f"{key}:item", lambda: f"state[{name!r}] differs from attribute")
    A = lambda x, col: obs.arr(ctx, getattr(x, col), col, key)  # noqa
    oq, sq, uq = A(o, "q"), A(s, "q"), A(u, "q")
    sc = max(obs.top(oq), obs.top(sq), mag * 1e-3, 1e-12)
    ctx.check(gen.close(oq + sq + uq, np.zeros(len(oq)), 1e-9, sc), f"{key}:balance", lambda: "offtake + sourced + unsourced: " + gen.worst(oq + sq + uq, 0 * oq))
    P, ur, upp = A(up, "p"), A(u, "r"), A(u, "p")
    nz = np.isfinite(P) & (np.abs(uq) > 1e-7 * sc)
    ctx.check(gen.close(upp[nz], P[nz], 1e-9), f"{key}:unsourced-price", lambda: gen.worst(upp[nz], P[nz]))
    ok = np.isfinite(P)
    rsc = max(obs.top(P[ok]) * sc, 1e-9)
    ctx.check(gen.close(ur[ok], (uq * P)[ok], 1e-9, rsc), f"{key}:unsourced-value", lambda: gen.worst(ur[ok], (uq * P)[ok]))
    ctx.saw("periods without unsourced volume", int((~nz).sum()))
    ctx.saw("periods judged", len(oq))
    # net position
    for col in "wqr":
        x, y = A(n, col), -A(u, col)
        f = np.isfinite(y)
        ctx.check(gen.close(x[f], y[f], 1e-9), f"{key}:netposition", lambda: f"{col}: " + gen.worst(x, y))
    x = A(n, "p")
    ctx.check(gen.close(x[nz], P[nz], 1e-7), f"{key}:netposition-price", lambda: gen.worst(x[nz], P[nz]))
    # procurement
    ch = obs.children(c)
    ctx.check(set(ch) == {"sourced", "unsourced"}, f"{key}:pnl-children", lambda: str(list(ch)))
    ctx.check(ch["sourced"] == s, f"{key}:pnl-sourced", "pnl_cost.sourced differs from sourced")
    for col in "qr":
        x, y = A(c, col), A(s, col) + A(u, col)
        f = np.isfinite(y)
        q = sc if col == "q" else max(rsc, obs.top(A(s, "r")))
        ctx.check(gen.close(x[f], y[f], 1e-9, q), f"{key}:pnl-sum", lambda: f"{col}: " + gen.worst(x, y))
        z = A(ch["unsourced"], col)
        ctx.check(gen.close(z[f], A(u, col)[f], 1e-9, q), f"{key}:pnl-unsourced", lambda: gen.worst(z, A(u, col)))
    # fractions
    fr, uf = series(ctx, pfs.sourcedfraction, key), series(ctx, pfs.unsourcedfraction, key)
    ctx.check(gen.secs(pfs.sourcedfraction.index) == secs == gen.secs(pfs.unsourcedfraction.index), f"{key}:fraction-index", "index of fraction")
    on = np.abs(oq) > 1e-9 * max(obs.top(oq), 1e-300)
    with np.errstate(all="ignore"):
        e = sq / -oq
    ctx.check(gen.close(fr[on], e[on], 1e-9), f"{key}:sourcedfraction", lambda: gen.worst(fr[on], e[on]))
    ctx.check(gen.close(uf[on], 1 - e[on], 1e-9, max(1, obs.top(e[on]))), f"{key}:unsourcedfraction", lambda: gen.worst(uf[on], 1 - e[on]))


def judge_state(ctx, pfs, m: St, key, price_where_u0=True, rtol=1e-9, mag=None):
    """Observed state equals model."""
    mag = max(m.mag, mag or 0)
    obs.judge_equals(ctx, pfs.offtakevolume, m.o, f"{key}:offtake", rtol, mag=mag * 1e-2)
    obs.judge_equals(ctx, pfs.sourced, m.s, f"{key}:sourced", rtol, mag=mag * 1e-2)
    uq, P = m.uq, m.up
    sc = max(obs.top(m.o.agg().q), obs.top(m.s.agg().q), mag * 1e-3, 1e-12)
    if price_where_u0:
        obs.judge_equals(ctx, pfs.unsourcedprice, m.p, f"{key}:price", max(rtol, 1e-8))
    else:
        obs.judge_index(ctx, pfs.unsourcedprice.index, f"{key}:price", m.idx)
        ok = np.isfinite(P) & (np.abs(uq) > 1e-6 * sc)
        got = obs.arr(ctx, pfs.unsourcedprice.p, "p", key)
        ctx.check(gen.close(got[ok], P[ok], 1e-7), f"{key}:price", lambda: gen.worst(got[ok], P[ok]))
    q = obs.arr(ctx, pfs.unsourced.q, "q", key)
    ctx.check(gen.close(q, uq, rtol, sc), f"{key}:unsourced-volume", lambda: gen.worst(q, uq))
    ok = np.isfinite(P) & ((np.abs(uq) > 1e-6 * sc) | price_where_u0)
    r, e = obs.arr(ctx, pfs.unsourced.r, "r", key), m.ur
    ctx.check(gen.close(r[ok], e[ok], max(rtol, 1e-8), max(obs.top(e[ok]), mag * 1e-3, sc)), f"{key}:unsourced-cost", lambda: gen.worst(r[ok], e[ok]))
    ctx.saw("states compared with model")
