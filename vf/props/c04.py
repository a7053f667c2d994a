"""C04: creation of portfolio lines. The same values are handed to the library in random
equivalent disguises (container, unit, dtype, redundant dimensions, scalars, unequal
spans, children); a reference model with plain arrays says what the line must contain.
Corrupted input (gaps, shifted or partial days, contradictions, unknown names, ...) must be
refused.
"""
import gen
import numpy as np
import obs
import pandas as pd
from core import Skip, scenario

import portfolyo as pf

RULE = "random index and values x dimension subset x container x representation of each dimension; non-trivial if more than one disguise is possible; distinct by (index, kind, columns, container, forms)"

SETS = {
    "vol": ["w", "q", "wq"],
    "pri": ["p"],
    "rev": ["r"],
    "all": ["wp", "qp", "wr", "qr", "pr", "wqp", "wqr", "wpr", "qpr", "wqpr"],
}


def nz(rng, n):
    return gen.values(rng, n, rng.choice(["pos", "nonzero", "const", "spiky"]))


def model(rng, kind, idx, ints=False):
    if ints:
        v = lambda: np.where((x := gen.values(rng, idx.n, "ints")) == 0, 3.0, x)  # noqa
    else:
        v = lambda: nz(rng, idx.n)  # noqa
    if kind == "vol":
        return gen.Flat("vol", idx, **{rng.choice("wq"): v()})
    if kind == "pri":
        return gen.Flat("pri", idx, p=v())
    if kind == "rev":
        return gen.Flat("rev", idx, r=v())
    return gen.Flat("all", idx, **{rng.choice("wq"): v(), "p": v()})


@scenario(quick=900, must=["lines compared with model", "scalars", "unequal spans", "container list"])
def disguises(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    kind = rng.choice(gen.KINDS)
    m = model(rng, kind, idx, ints=rng.random() < 0.3)
    cols = list(rng.choice(SETS[kind]))
    rng.shuffle(cols)
    container = rng.choice(["dict", "dict", "frame", "list", "one", "tuplekeys", "seriesofseries"])
    i = idx.pd
    data, forms, expect = {}, [], idx
    for c in cols:
        vals = getattr(m, c)
        if container in ("list", "one"):
            s, f = gen.dress(rng, c, vals, i, rng.choice(["pint", "unit", "objects"]))
        elif container == "frame" and rng.random() < 0.7:
            s, f = gen.dress(rng, c, vals, i, rng.choice(["float", "pint", "unit"]))
        else:
            s, f = gen.dress(rng, c, vals, i)
        data[c] = s
        forms.append(c + ":" + f)
    # scalars instead of a constant series
    if container == "dict" and len(cols) > 1:
        k = rng.choice(cols)
        vals = getattr(m, k)
        if np.all(vals == vals[0]):
            u = rng.choice(list(gen.FACTORS[k]))
            data[k] = rng.choice([float(vals[0]), pf.Q_(float(vals[0]) / gen.FACTORS[k][u], u)])
            forms.append(k + ":scalar")
            ctx.saw("scalars")
    # series of unequal length
    if container in ("dict", "list") and len(cols) > 1 and rng.random() < 0.4:
        k = rng.choice(cols)
        if isinstance(data[k], pd.Series):
            sub, _ = gen.subspan(rng, idx, "inside")
            if sub.n < idx.n:
                pos = {s: j for j, s in enumerate(idx.left)}
                a = pos[sub.left[0]]
                data[k] = data[k].iloc[a : a + sub.n]
                expect = sub
                m = gen.crop(m, sub)
                ctx.saw("unequal spans")
    if container == "one" and len(cols) > 1:
        container = "list"
    ctx.saw("container " + container)
    ctx.case(index=repr(idx), kind=kind, cols=cols, container=container, forms=forms, expect=repr(expect))
    if container == "dict":
        arg = data
    elif container == "frame":
        arg = pd.DataFrame(data)
    elif container == "list":
        arg = rng.choice([list, tuple])(data.values())
    elif container == "one":
        arg = data[cols[0]]
    elif container == "tuplekeys":
        order = rng.random() < 0.5
        arg = {((c, "x") if order else ("x", c)): s for c, s in data.items()}
    else:
        arg = pd.Series(data) if len(data) > 1 else data
    how = rng.choice(["PfLine", "PfLine", "flatpfline", "pfline"])
    make = {"PfLine": pf.PfLine, "flatpfline": pf.create.flatpfline, "pfline": pf.create.pfline}[how]
    pfl = make(arg)
    obs.judge_equals(ctx, pfl, m, f"disguise:{container}", rtol=1e-9)
    obs.judge_line(ctx, pfl, f"disguise:{container}")
    # constructing from the result is the identity
    again = pf.PfLine(rng.choice([pfl, pfl.dataframe(), {c: getattr(pfl, c) for c in m.cols()}]))
    obs.judge_equals(ctx, again, m, "from-line", rtol=1e-9)
    ctx.nontrivial(idx.key(), kind, tuple(cols), container, tuple(forms))


@scenario(quick=350, must=["lines compared with model", "multi-level frames", "children of unequal span"])
def nested_forms(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    kind = rng.choice(gen.KINDS)
    names = rng.sample(gen.NAMES, rng.randrange(1, 4))
    kids, forms, idxs, ms = {}, [], [], {}
    frame = rng.random() < 0.25
    for n in names:
        sub = idx if frame or rng.random() < 0.7 else gen.subspan(rng, idx, rng.choice(["inside", "left", "right", "contain"]))[0]
        m = gen.line(rng, kind, sub, depth=0 if frame else rng.choice([0, 0, 1]), style="nonzero")
        idxs.append(sub)
        ms[n] = m
        if m.nested:
            form = rng.choice(["line", "dict"])
            kids[n] = m.build(pf) if form == "line" else {k: c.build(pf) for k, c in m.children.items()}
        else:
            form = "frame" if frame else rng.choice(["line", "dict", "frame", "series"])
            cols = rng.choice(SETS[kind])
            if form == "line":
                kids[n] = m.build(pf)
            elif form == "series" and len(cols) == 1:
                kids[n] = m.series(cols, True)
            elif form == "dict" or form == "series":
                kids[n] = {c: gen.dress(rng, c, getattr(m, c), sub.pd)[0] for c in cols}
            else:
                kids[n] = pd.DataFrame({c: m.series(c, rng.random() < 0.5) for c in cols})
        forms.append(form)
    exp = gen.common(*idxs)
    ctx.case(index=repr(idx), kind=kind, names=names, forms=forms, spans=[repr(x) for x in idxs], frame=frame)
    make = rng.choice([pf.PfLine, pf.create.nestedpfline, pf.create.pfline])
    if frame and len(names) == 1:  # columns (name, dimension) of one child also describe a flat line
        make = pf.create.nestedpfline
    arg = pd.concat(kids, axis=1) if frame else kids
    if exp is None:
        ctx.raises("nested:no-overlap", lambda: make(arg), "children without common period")
        return
    if frame:
        ctx.saw("multi-level frames")
    if len({x.key() for x in idxs}) > 1:
        ctx.saw("children of unequal span")
    want = gen.Nest({n: gen.crop(m, exp) for n, m in ms.items()})
    res = make(arg)
    obs.judge_equals(ctx, res, want, "nested", names_ordered=True)
    obs.judge_line(ctx, res, "nested")
    flat = pf.create.flatpfline(res)
    obs.judge_equals(ctx, flat, want.agg(), "flatpfline(nested)")
    ctx.check(pf.PfLine(res) == res, "nested:PfLine(line)", "PfLine(line) differs from line")
    ctx.nontrivial(idx.key(), kind, tuple(names), tuple(forms))


def broken_index(rng, idx):
    """Index that is no standardized index, and why."""
    i, f = idx.pd, idx.freq
    why = rng.choice(["nofreq", "gap", "shifted", "partial", "freq", "strings", "ints"])
    if why == "nofreq":
        return pd.DatetimeIndex(list(i), tz=i.tz), why
    if why == "gap":
        if len(i) < 3:
            raise Skip
        return i.delete(rng.randrange(1, len(i) - 1)), why
    if why == "shifted":
        # same frequency, but periods do not start at period starts
        if f == "15min":
            d = pd.Timedelta(minutes=rng.choice([5, 7, 15, 30, 45]))
        elif f == "h":
            d = pd.Timedelta(minutes=rng.choice([15, 30, 1]))
        else:
            d = None
        if d is None or rng.random() < 0.3:  # any period: not at a full minute
            e = rng.choice([pd.Timedelta(seconds=rng.randrange(1, 60)), pd.Timedelta(milliseconds=1), pd.Timedelta(seconds=1)])
            if rng.random() < 0.4:
                return pd.date_range(i[0] + e, periods=len(i), freq=f), why
        if d is not None:
            return pd.date_range(i[0] + d, periods=len(i), freq=f), why
        if f == "D":
            w = i[0].tz_localize(None).replace(minute=rng.choice([15, 30, 20]))
            return pd.date_range(w, periods=len(i), freq="D", tz=i.tz), why
        raise Skip
    if why == "partial":
        if f not in ("h", "15min"):
            raise Skip
        return i[: len(i) - rng.randrange(1, 12)], why
    if why == "freq":
        g = rng.choice(["2h", "30min", "ME", "W-MON", "2D", "5min", "YE", "2MS"])
        j = pd.date_range(i[0], periods=5, freq=g)
        return j, why + g
    if why == "strings":
        return pd.Index([str(x) for x in i]), why
    return pd.RangeIndex(len(i)), why


@scenario(quick=700, must=["contradictions with zero values", "rejections demanded", "refused gap", "refused partial", "refused shifted", "refused contradiction", "refused duplicate", "refused unit"])
def refusals(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    kind = rng.choice(gen.KINDS)
    m = model(rng, kind, idx)
    i = idx.pd
    what = rng.choice(["index", "index", "index", "contradiction", "names", "duplicate", "unit", "scalar", "nothing", "agnostic", "kinds", "childname", "nooverlap", "mixed-freq", "missing"])
    make = rng.choice([pf.PfLine, pf.create.flatpfline, pf.create.pfline])
    ctx.case(index=repr(idx), kind=kind, what=what)
    good = {c: m.series(c) for c in rng.choice(SETS[kind])}
    if what == "index":
        j, why = broken_index(rng, idx)
        ctx.case(why=why)
        v = {c: pd.Series(gen.values(rng, len(j), "pos"), j) for c in good if c != "r" or kind == "rev"}
        arg = rng.choice([lambda: v, lambda: pd.DataFrame(v)])()
        if rng.random() < 0.3:
            arg, make = {"A": arg, "B": arg}, rng.choice([pf.PfLine, pf.create.nestedpfline])
        what = why
    elif what == "contradiction":
        k = rng.randrange(idx.n)
        vol = rng.random() < 0.5
        f = rng.choice([1.01, 0.5, -1, 1.0001, 2])
        if kind == "vol" or vol:
            if kind not in ("vol", "all"):
                raise Skip
            m.q = m.q.copy()
            m.q[k] *= f
            arg = {"w": m.series("w"), "q": m.series("q")}
        else:
            if kind != "all":
                raise Skip
            m.r = m.r.copy()
            z = rng.choice(["", "", "q", "p", "r", "qp"])  # zero values that do not make the contradiction disappear
            if z:
                m.p, m.q, m.w = m.p.copy(), m.q.copy(), m.w.copy()
                if "q" in z:
                    m.q[k] = m.w[k] = 0
                if "p" in z:
                    m.p[k] = 0
                m.r[k] = 0 if z == "r" else rng.choice([1, -3.5, 100])
                ctx.case(zero=z)
                ctx.saw("contradictions with zero values")
            else:
                m.r[k] *= f
            arg = {c: m.series(c) for c in rng.choice(["wpr", "qpr", "wqpr"])}
        ctx.case(position=k, factor=f, cols=list(arg))
    elif what == "names":
        bad = rng.choice(["W", "x", "price", "wq", "volume", "qq", "t"])
        arg = {**good, bad: m.series(next(iter(good)))}
        ctx.case(bad=bad)
    elif what == "duplicate":
        c = next(iter(good))
        arg = [m.series(x, True) for x in good] + [m.series(c, True)]
    elif what == "unit":
        c = next(iter(good))
        other = rng.choice([x for x in "wqpr" if x != c])
        u = rng.choice(list(gen.FACTORS[other]))
        arg = {**good, c: pd.Series(getattr(m, c), i).astype(f"pint[{u}]")}
        ctx.case(col=c, unit=u)
    elif what == "scalar":
        arg = rng.choice([{"w": 3.0}, {"p": pf.Q_(3.0, "Eur/MWh")}, pf.Q_(3.0, "MW"), {"w": 3, "p": 4}])
    elif what == "nothing":
        arg = rng.choice([None, {}, [], pd.DataFrame(), object(), {"A": None}])
    elif what == "agnostic":
        s = pd.Series(getattr(m, next(iter(good))), i)
        arg = rng.choice([lambda: s, lambda: s.astype("pint[dimensionless]"), lambda: 3.0, lambda: [s], lambda: {"nodim": s}, lambda: {"agn": s}, lambda: {**good, "nodim": s}, lambda: s.astype("pint[tCO2]"), lambda: s.astype("pint[h]")])()
    elif what == "kinds":
        other = model(rng, rng.choice([k for k in gen.KINDS if k != kind]), idx)
        arg = {"A": m.build(pf), "B": other.build(pf)}
    elif what == "childname":
        arg = rng.choice([{"w": m.build(pf), "A": m.build(pf)}, {"A": m.build(pf), "p": m.build(pf)}, {1: m.build(pf)}, {("a", "b"): m.build(pf)}])
    elif what == "nooverlap":
        other, _ = gen.subspan(rng, idx, "disjoint")
        o = model(rng, kind, other)
        if kind == "all" and rng.random() < 0.5:
            arg = {"w": m.series("w"), "p": o.series("p")}
        else:
            arg = {"A": m.build(pf), "B": o.build(pf)}
    elif what == "mixed-freq":
        other = gen.index(rng, tz=rng.choice(gen.TZS), sod=rng.choice(gen.SODS), size="s")
        if (other.freq, other.tz, other.sod) == (idx.freq, idx.tz, idx.sod):
            raise Skip
        o = model(rng, kind, other)
        if kind == "all" and rng.random() < 0.5:
            arg = {"w": m.series("w"), "p": o.series("p")}
        else:
            arg = {"A": m.build(pf), "B": o.build(pf)}
        ctx.case(other=repr(other))
    elif what == "missing":
        # nothing that makes up a kind
        if kind != "all":
            raise Skip
        arg = rng.choice([{"p": m.series("p"), "x": m.series("w")}, {"A": {"w": m.series("w")}, "B": {"p": m.series("p")}}])
    ctx.raises(f"refuse:{what}", lambda: make(arg), f"{what} must be refused")
    ctx.saw("refused " + what)
    ctx.nontrivial(idx.key(), kind, what)
