"""C07: upsampling. Every shorter period must carry the power/price of the longer period that
contains it and its share (elapsed hours) of energy/revenue, according to the reference
calendar; missing values stay missing; totals are conserved; resampling back restores.
"""
import alg
import cal
import gen
import numpy as np
import obs
import pandas as pd
from core import Skip, scenario

import portfolyo as pf

RULE = "random index x kind x shorter target frequency x values (with missing values for frames); distinct by (index, target, kind)"


def source(rng):
    f = rng.choice(["h", "D", "D", "D", "MS", "MS", "QS", "QS-APR", "QS-FEB", "YS", "YS-APR"])
    idx = gen.index(rng, [f], size="s")
    tgt = alg.shorter(rng, f, idx.n)
    if tgt is None:
        raise Skip
    return idx, tgt


@scenario(quick=480, must=["lines compared with model", "restored", "cases with DST", "nested compared", "totals conserved"])
def lines(ctx):
    rng = ctx.rng
    idx, tgt = source(rng)
    kind = rng.choice(gen.KINDS)
    m = gen.line(rng, kind, idx, depth=rng.choice([0, 0, 1]), style=rng.choice([None, "pos", "mixed", "zeros"]) if kind != "all" else None)
    ctx.case(index=repr(idx), kind=kind, target=tgt, line=m.describe())
    pfl = m.build(pf)
    want = alg.asfreq(m, tgt)
    got = pfl.asfreq(tgt)
    mg = gen.mag(m)
    obs.judge_equals(ctx, got, want, "up", mag=mg)
    obs.judge_line(ctx, got, "up", mag=mg)
    if idx.dst:
        ctx.saw("cases with DST")
    if m.nested:
        ctx.saw("nested compared")
    for c in {"vol": "q", "rev": "r", "all": "qr"}.get(kind, ""):
        x, y = obs.arr(ctx, getattr(pfl, c), c), obs.arr(ctx, getattr(got, c), c)
        ctx.check(abs(x.sum() - y.sum()) <= 1e-9 * np.abs(x).sum() + 1e-12, "up:total", lambda: f"{c}: {x.sum()} became {y.sum()}")
        ctx.saw("totals conserved")
    back = got.asfreq(idx.freq)
    obs.judge_equals(ctx, back, m, "restore", rtol=1e-8, mag=mg * 10)
    ctx.saw("restored")
    ctx.nontrivial(idx.key(), tgt, kind, m.describe())


@scenario(quick=200, must=["lines compared", "twin zone", "other zone", "longer", "later", "other start-of-day", "copy"])
def history(ctx):
    """Sequence of conversions of similar lines: no result may depend on those before."""
    rng = ctx.rng
    idx, tgt = source(rng)
    if idx.n > 3000:
        raise Skip
    seq, log = [idx], [repr(idx)]
    for _ in range(3):
        j, what = gen.sibling(rng, rng.choice(seq))
        ctx.saw(what)
        seq.append(j)
        log.append(f"{what}: {j!r}")
    rng.shuffle(seq)
    ctx.case(indices=log, target=tgt)
    for j in seq:
        m = gen.flat(rng, rng.choice(gen.KINDS), j, "pos")
        want = alg.asfreq(m, tgt)
        if want is None:
            continue
        obs.judge_equals(ctx, m.build(pf).asfreq(tgt), want, "history:up", mag=gen.mag(m))
        ctx.saw("lines compared")
    ctx.nontrivial(*[j.key() for j in seq], tgt)


@scenario(quick=420, must=["frames compared", "missing values", "restored", "cases with DST"])
def frames(ctx):
    rng = ctx.rng
    idx, tgt = source(rng)
    summable = rng.random() < 0.5
    fn = pf.asfreq_sum if summable else pf.asfreq_avg
    full = gen.Idx(tgt, idx.first, idx.last, idx.sod, idx.tz)
    ref = alg.up_sum if summable else alg.up_avg
    ncol = rng.choice([1, 1, 2, 3])
    i = idx.pd
    vals, cols, units = {}, {}, {}
    for k in range(ncol):
        nm = f"c{k}"
        v = gen.values(rng, idx.n)
        kind = rng.choice(["float", "float", "int", "pint"])
        if kind == "int":
            v = np.round(v)
        elif rng.random() < 0.5:
            miss = [j for j in range(idx.n) if rng.random() < 0.35]
            v[miss] = np.nan
            ctx.saw("missing values", len(miss))
        u = rng.choice(["MW", "Eur", "kWh", "Eur/MWh"])
        vals[nm], units[nm] = v, u if kind == "pint" else None
        cols[nm] = pd.Series(v.astype(int) if kind == "int" else v, i, dtype=f"pint[{u}]" if kind == "pint" else None, name=nm)
    ctx.case(index=repr(idx), target=tgt, summable=summable, units=units)
    if idx.dst:
        ctx.saw("cases with DST")
    single = ncol == 1
    obj = cols["c0"] if single else pd.DataFrame(cols)
    out = fn(obj, tgt)
    obs.judge_index(ctx, out.index, "frames", full)
    back = fn(out, idx.freq)
    obs.judge_index(ctx, back.index, "frames-back", idx)
    for nm in cols:
        got = out if single else out[nm]
        bk = back if single else back[nm]
        if units[nm]:
            ctx.check(hasattr(got, "pint"), "frames:unit", lambda: f"unit lost: {got.dtype}")
            got, bk = got.pint.to(units[nm]).pint.magnitude, bk.pint.to(units[nm]).pint.magnitude
        got, bk = np.asarray(got, float), np.asarray(bk, float)
        exp = ref(vals[nm], idx, full)
        ctx.check(gen.close(got, exp), "frames:values", lambda: f"{nm} {units[nm]} " + gen.worst(got, exp))
        if not np.isnan(vals[nm]).any():
            ctx.check(gen.close(bk, vals[nm]), "frames:restore", lambda: f"{nm} " + gen.worst(bk, vals[nm]))
            ctx.saw("restored")
        ctx.saw("frames compared")
    ctx.check((out.name if single else list(out.columns)) == ("c0" if single else list(cols)), "frames:name", "name lost")
    obs.judge_index(ctx, pf.tools.changefreq.index(idx.pd, tgt), "index", full)
    same = fn(obj, idx.freq)
    ctx.check(obs.fingerprint(same) == obs.fingerprint(obj) or any(u is None for u in units.values()) and gen.close(np.asarray(same if single else same["c0"].astype(float) if units["c0"] is None else same["c0"].pint.magnitude, float), vals["c0"]), "same-frequency", "changing to own frequency changes values")
    ctx.nontrivial(idx.key(), tgt, summable, tuple(units.items()))
