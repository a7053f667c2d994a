"""C06: downsampling. The expected periods and values come from the reference calendar: which
longer periods are completely covered, and which source periods each contains. Energy and
revenue are summed, power and price-only values averaged with elapsed hours. Lines (flat and
nested, all kinds), and series/dataframes with and without units.
"""
import alg
import cal
import gen
import numpy as np
import obs
import pandas as pd
from core import Skip, scenario

import portfolyo as pf

RULE = "random index (partial periods at both ends) x kind x target frequency (incl. anchored quarters/years) x values; non-trivial if at least one full period; distinct by (index, target, kind)"


def source(rng):
    """Index that has a reasonable chance of containing full periods of the target."""
    f = rng.choice(["15min", "h", "h", "D", "D", "D", "MS", "MS", "QS", "QS-APR"])
    while True:
        tgt = alg.longer(rng, f)
        if f == "15min" and cal.base(tgt) in ("QS", "YS", "MS") and rng.random() < 0.8:
            continue
        if f == "h" and cal.base(tgt) in ("QS", "YS") and rng.random() < 0.7:
            continue
        break
    tz, sod = rng.choice(gen.TZS), rng.choice(gen.SODS)
    if cal.rank(tgt) <= 2:
        return gen.index(rng, [f], tz, sod, "s"), tgt
    mode = rng.choice(["full", "full", "lead", "trail", "both", "any"])
    if mode == "any":
        return gen.index(rng, [f], tz, sod, rng.choice("sm")), tgt
    d = gen.anchor_date(rng, tz)
    a = cal.start_date(d, tgt)
    k = 1 if f in ("15min",) else rng.choice([1, 1, 2, 3]) if f != "h" else rng.choice([1, 1, 2])
    first, last = a, cal.next_date(a, tgt, k)
    unit = "D" if cal.rank(f) <= 2 else f
    if mode in ("lead", "both"):
        first = cal.next_date(first, unit, rng.choice([-1, -2, 1, 1, -5 if unit == "D" else -1]))
    if mode in ("trail", "both"):
        last = cal.next_date(last, unit, rng.choice([1, -1, -1, 2]))
    if unit != "D":  # be on a boundary of the source frequency
        first, last = cal.start_date(first, f), cal.start_date(last, f)
    if first >= last:
        last = cal.next_date(first, unit)
    return gen.Idx(f, first, last, sod, tz), tgt


@scenario(quick=520, must=["lines compared with model", "conversions refused", "cases with DST", "partial periods dropped", "nested compared"])
def lines(ctx):
    rng = ctx.rng
    idx, tgt = source(rng)
    kind = rng.choice(gen.KINDS)
    m = gen.line(rng, kind, idx, depth=rng.choice([0, 0, 1, 2]), style=rng.choice([None, "pos", "mixed"]) if kind != "all" else None)
    ctx.case(index=repr(idx), kind=kind, target=tgt, line=m.describe())
    pfl = m.build(pf)
    want = alg.asfreq(m, tgt)
    if want is None:
        ctx.raises("no-full-period", lambda: pfl.asfreq(tgt), "no complete period")
        ctx.saw("conversions refused")
        return
    got = pfl.asfreq(tgt)
    mg = gen.mag(m)
    obs.judge_equals(ctx, got, want, "down", mag=mg)
    obs.judge_line(ctx, got, "down", mag=mg)
    if idx.dst:
        ctx.saw("cases with DST")
    if want.idx.b[0] != idx.b[0] or want.idx.b[-1] != idx.b[-1]:
        ctx.saw("partial periods dropped")
    if m.nested:
        ctx.saw("nested compared")
    # conservation, judged on what is observed on both sides
    a = [k for k, s in enumerate(gen.secs(pfl.index)) if want.idx.b[0] <= s < want.idx.b[-1]]
    for c in {"vol": "q", "rev": "r", "all": "qr"}.get(kind, ""):
        x, y = obs.arr(ctx, getattr(pfl, c), c)[a], obs.arr(ctx, getattr(got, c), c)
        ctx.check(abs(x.sum() - y.sum()) <= 1e-9 * np.abs(x).sum() + 1e-12, "down:total", lambda: f"{c}: {x.sum()} became {y.sum()}")
        ctx.saw("totals conserved")
    # in several steps
    mid = [f for f in ("h", "D", "MS", "QS") if cal.rank(idx.freq) < cal.rank(f) < cal.rank(tgt)]
    mid = [f for f in mid if f != "QS" or cal.anchor(tgt) % 3 == 1]
    if mid:
        f = rng.choice(mid)
        if alg.full_span(idx, f) is not None:
            via = pfl.asfreq(f).asfreq(tgt)
            obs.judge_equals(ctx, via, want, "down-two-steps", mag=mg)
            ctx.saw("two-step conversions")
    ctx.nontrivial(idx.key(), tgt, kind, m.describe())


@scenario(quick=200, must=["lines compared", "twin zone", "other zone", "longer", "later", "other start-of-day", "copy", "same moments"])
def history(ctx):
    """Sequence of conversions of similar lines: no result may depend on those before."""
    rng = ctx.rng
    idx, tgt = source(rng)
    if idx.n > 3000:
        raise Skip
    seq, log = [idx], [repr(idx)]
    for _ in range(3):
        j, what = gen.sibling(rng, rng.choice(seq))
        ctx.saw(what)
        seq.append(j)
        log.append(f"{what}: {j!r}")
    rng.shuffle(seq)
    ctx.case(indices=log, target=tgt)
    for j in seq:
        m = gen.flat(rng, rng.choice(gen.KINDS), j, "pos")
        want = alg.asfreq(m, tgt)
        if want is None:
            continue
        obs.judge_equals(ctx, m.build(pf).asfreq(tgt), want, "history:down", mag=gen.mag(m))
        ctx.saw("lines compared")
    ctx.nontrivial(*[j.key() for j in seq], tgt)


@scenario(quick=460, must=["series compared", "frames compared", "cases with DST", "integer values"])
def frames(ctx):
    """Tools on series and dataframes (summable/averagable), also on the index."""
    rng = ctx.rng
    idx, tgt = source(rng)
    summable = rng.random() < 0.5
    fn = pf.asfreq_sum if summable else pf.asfreq_avg
    full = alg.full_span(idx, tgt)
    ref = alg.down_sum if summable else alg.down_avg
    ncol = rng.choice([1, 1, 2, 3])
    i = idx.pd
    i.name = rng.choice(["ts_left", None, "x"])
    vals, cols, units = {}, {}, {}
    for k in range(ncol):
        nm = f"c{k}"
        vals[nm] = gen.values(rng, idx.n)
        kind = rng.choice(["float", "float", "int", "pint"])
        if kind == "int":
            vals[nm] = np.round(vals[nm])
            ctx.saw("integer values")
        u = rng.choice(["MW", "Eur", "kWh", "Eur/MWh", "degC"][: 4 if summable else 5])
        units[nm] = u if kind == "pint" else None
        cols[nm] = pd.Series(vals[nm].astype(int) if kind == "int" else vals[nm], i, dtype=f"pint[{u}]" if kind == "pint" else None, name=nm)
    if not summable:
        for nm in [n for n, u in units.items() if u == "degC"]:  # offset unit can't be averaged by pint
            cols[nm], units[nm] = pd.Series(vals[nm], i, name=nm), None
    ctx.case(index=repr(idx), target=tgt, summable=summable, units=units, frame=ncol > 1)
    single = ncol == 1
    obj = cols["c0"] if single else pd.DataFrame(cols)
    out = fn(obj, tgt)
    if full is None:
        ctx.check(len(out) == 0, "frames:none", lambda: f"no complete period, but got {len(out)} values")
        ctx.saw("empty results")
        return
    obs.judge_index(ctx, out.index, "frames", full)
    if idx.dst:
        ctx.saw("cases with DST")
    for nm in cols:
        got = out if single else out[nm]
        if units[nm]:
            ctx.check(hasattr(got, "pint"), "frames:unit", lambda: f"unit lost: {got.dtype}")
            got = got.pint.to(units[nm]).pint.magnitude
        else:
            ctx.check(not str(got.dtype).startswith("pint"), "frames:dtype", lambda: f"unit appeared: {got.dtype}")
        exp = ref(vals[nm], idx, full)
        got = np.asarray(got, float)
        ctx.check(gen.close(got, exp, 1e-9, max(obs.top(exp), 1e-4 * obs.top(vals[nm]), 1e-12)), "frames:values", lambda: f"{nm} {units[nm]} " + gen.worst(got, exp))
        ctx.saw("series compared" if single else "frames compared")
    ctx.check((out.name if single else list(out.columns)) == ("c0" if single else list(cols)), "frames:name", "name lost")
    j = pf.tools.changefreq.index(idx.pd, tgt)
    obs.judge_index(ctx, j, "index", full)
    ctx.nontrivial(idx.key(), tgt, summable, tuple(units.items()))
