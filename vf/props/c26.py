"""C26: purity. A monitor takes a fingerprint (values bit by bit, index, frequency, names,
children) of every object before an operation and compares it afterwards - also of objects
that took no part in it, after failing operations, and at the end of a history. Operations
are repeated, at once and at the end of the history, and must give identical results. Frames
that were used to build a line, or exported from it, are overwritten in place.
"""
import datetime as dt
import warnings

import cal
import gen
import hist
import numpy as np
import obs
import pandas as pd
import peak as pk
from core import Skip, scenario

import portfolyo as pf
from portfolyo import tools

RULE = "random histories of operations (also failing) on random lines, states and frames; distinct by operations and objects"


def fps(xs):
    return [obs.fingerprint(x) for x in xs]


def unchanged(ctx, xs, before, what, key="changed"):
    for k, (x, b) in enumerate(zip(xs, before)):
        ctx.check(obs.fingerprint(x) == b, f"operand-{key}", lambda: f"{what} changed operand {k} ({type(x).__name__})")
        ctx.saw("operands compared")


def comparable(x):
    return isinstance(x, (pf.PfLine, pf.PfState, pd.Series, pd.DataFrame, pd.DatetimeIndex, str, bool, float)) or (isinstance(x, (tuple, list)) and all(comparable(y) for y in x))


@scenario(quick=120, must=["operations monitored", "operations repeated", "late repetitions", "operands compared", "bystanders compared", "failed operations"])
def histories(ctx):
    rng = ctx.rng
    w = hist.World(rng)
    names, late = [], []
    watched = {}

    def watch():
        for q in list(w.pool.values()) + [w.states]:
            for x in q:
                if id(x) not in watched:
                    watched[id(x)] = (x, obs.fingerprint(x))

    watch()
    for step in range(rng.choice([6, 12, 20])):
        name, operands, fn = w.step()
        names.append(name)
        ctx.case(idx=repr(w.idx), ops=names)
        before = fps(operands)
        try:
            res = fn()
        except Exception as e:
            ctx.saw("failed operations")
            unchanged(ctx, operands, before, f"failing {name} ({type(e).__name__})", "changed-by-failing")
            continue
        unchanged(ctx, operands, before, name)
        ctx.saw("operations monitored")
        if name not in ("newstate", "sums") and comparable(res):
            f1 = obs.fingerprint(res)
            if rng.random() < 0.4:
                ctx.check(obs.fingerprint(fn()) == f1, "repeat", f"repeating {name} gives another result")
                ctx.saw("operations repeated")
            else:
                late.append((name, fn, f1))
        w.keep(res)
        watch()
    ctx.nontrivial(w.idx.key(), tuple(names))
    for x, f in watched.values():
        ctx.check(obs.fingerprint(x) == f, "bystander", lambda: f"object {x!r:.100} was changed during history")
        ctx.saw("bystanders compared")
    for name, fn, f1 in late:
        ctx.check(obs.fingerprint(fn()) == f1, "late-repeat", f"repeating {name} at the end of the history gives another result")
        ctx.saw("late repetitions")


@scenario(quick=300, must=["failed operations", "operands compared"])
def failing(ctx):
    """Operations that must fail, on all kinds of operands."""
    rng = ctx.rng
    idx = gen.index(rng, freqs=["h", "D", "MS", "QS"])
    other = gen.index(rng, freqs=[f for f in ["15min", "h", "D", "MS", "QS", "YS"] if f != idx.freq])
    far = gen.subspan(rng, idx, "disjoint")[0]
    kind = rng.choice(gen.KINDS)
    a = gen.line(rng, kind, idx).build(pf)
    b = gen.line(rng, kind, other).build(pf)
    c = gen.line(rng, kind, far).build(pf)
    k2 = rng.choice([k for k in gen.KINDS if k != kind])
    d = gen.line(rng, k2, idx).build(pf)
    n = pf.PfLine({"A": a, "B": a})
    s = a.w.pint.m if kind in ("vol", "all") else pd.Series(gen.values(rng, idx.n), idx.pd)
    gap = pd.DataFrame({"w": s, "p": s})
    gap = gap.drop(gap.index[rng.randrange(len(gap))]) if len(gap) > 3 else gap.iloc[::-1]
    gap.index = pd.DatetimeIndex(list(gap.index), freq=None) if len(gap) else gap.index
    o, p = gen.line(rng, "vol", idx).build(pf), gen.line(rng, "pri", idx).build(pf)
    st = pf.PfState(o, p)
    ops = {
        "add other frequency": ([a, b], lambda: a + b),
        "subtract other kind": ([a, d], lambda: a - d if {kind, k2} != {"pri", "all"} else a + d),
        "multiply same kind": ([a], lambda: a * a),
        "power": ([a], lambda: a**2),
        "add number": ([a], lambda: a + 3),
        "unite far": ([a, c], lambda: a | c),
        "union with dict": ([a], lambda: pf.PfLine({"A": a, "B": "text"})),
        "mixed kinds": ([a, d], lambda: pf.PfLine({"A": a, "B": d})),
        "other frequencies": ([a, b], lambda: pf.PfLine({"A": a, "B": b})),
        "gap": ([gap], lambda: pf.PfLine(gap)),
        "bad frequency": ([a], lambda: a.asfreq("3h")),
        "unknown child": ([n], lambda: n.drop_child("nope")),
        "wrong child": ([n, d], lambda: n.set_child("B", d)),
        "wrong child name": ([n, a], lambda: n.set_child("w", a)),
        "reindex": ([a, other.pd], lambda: a.reindex(other.pd)),
        "concat twice": ([a, n], lambda: pf.concat([a, a])),
        "concat far": ([a, b], lambda: pf.concat([a, b])),
        "concat mixture": ([a, st], lambda: pf.concat([a, st])),
        "state of prices": ([p], lambda: pf.PfState(p, p)),
        "state of other frequency": ([o, b], lambda: pf.PfState(o, b)),
        "state offtake": ([st, p], lambda: st.set_offtakevolume(p)),
        "state price": ([st, o], lambda: st.set_unsourcedprice(o)),
        "state source": ([st, p], lambda: st.add_sourced(p)),
        "states multiplied": ([st], lambda: st * st),
        "state plus number": ([st], lambda: st + 1),
        "slice away": ([a], lambda: a.slice[a.index[-1] + pd.Timedelta(days=800) :]),
        "intersect": ([a, b], lambda: pf.intersection(a, b)),
        "standardize": ([gap], lambda: pf.standardize(gap)),
        "hedge by price": ([a, b], lambda: a.hedge_with(b)),
        "map": ([gap], lambda: tools.changeyear.map_frame_to_year(gap, 2021)),
        "summable": ([gap], lambda: tools.changefreq.summable(gap, "MS")),
        "trim": ([gap], lambda: tools.trim.frame(gap, "MS")),
    }
    name = rng.choice(list(ops))
    operands, fn = ops[name]
    ctx.case(idx=repr(idx), other=repr(other), kind=kind, op=name)
    allof = [a, b, c, d, n, gap, o, p, st] + operands
    before = fps(allof)
    try:
        fn()
    except Exception:
        ctx.saw("failed operations")
        ctx.nontrivial(name, idx.key(), kind)
    unchanged(ctx, allof, before, name, "changed-by-failing")


def some_frame(rng, idx, missing=False):
    v = gen.values(rng, idx.n)
    if missing and idx.n > 3:
        v[rng.randrange(1, idx.n)] = np.nan
    i = idx.pd
    r = rng.random()
    if r < 0.3:
        return pd.Series(v, i, name=rng.choice(["a", "w", None]))
    if r < 0.5:
        return pd.Series(v, i, dtype="pint[MW]", name="w")
    if r < 0.75:
        return pd.DataFrame({"w": v, "p": v[::-1].copy()}, i)
    return pd.DataFrame({"w": pd.Series(v, i, dtype="pint[MW]"), "p": pd.Series(v[::-1].copy(), i, dtype="pint[Eur/MWh]")})


@scenario(quick=900, must=["operations monitored", "operations repeated", "operands compared", "failed operations"])
def frames(ctx):
    """Functions that work on series, dataframes and indices."""
    rng = ctx.rng
    t = tools
    idx = gen.index(rng, freqs=["15min", "h", "h", "D", "D", "MS", "QS", "YS"], size=rng.choice("sm"))
    if idx.n > 1500:
        raise Skip
    fr, fr2 = some_frame(rng, idx), some_frame(rng, gen.subspan(rng, idx, "right")[0])
    nan = some_frame(rng, idx, True)
    raw = fr.copy()
    raw.index = pd.DatetimeIndex(list(raw.index), freq=None, name=rng.choice([None, "x"]))
    right = raw.copy()
    right.index = t.right.index(idx.pd)
    i = idx.pd
    noname = i.rename(rng.choice([None, "x"]))
    pos = pd.Series(gen.values(rng, idx.n, "pos"), i)
    f1 = rng.choice(["h", "D", "MS", "QS", "YS"])
    tz = rng.choice([z for z in gen.TZS if z])
    fn_peak = pf.germanpower_peakfn
    df = pd.DataFrame({"a": pos, "b": gen.values(rng, idx.n)})
    wts = pd.DataFrame({"a": gen.values(rng, idx.n, "pos"), "b": gen.values(rng, idx.n, "pos")}, i)
    swts = pd.Series([1.0, 3.0], ["a", "b"])
    if rng.random() < 0.5:  # also values that are missing or do not count
        df = pd.DataFrame({"a": df["a"], "b": df["b"].where(np.arange(idx.n) != rng.randrange(idx.n))})
        wts = pd.DataFrame({"a": wts["a"].where(np.arange(idx.n) != rng.randrange(idx.n), 0.0), "b": wts["b"].where(df["b"].notna(), 0.0)})
        swts = rng.choice([pd.Series([1.0, 0.0], ["a", "b"]), pd.Series([0.0, 3.0], ["a", "b"]), swts])
    ser, serw = df["b"].copy(), rng.choice([lambda: wts["b"].copy(), lambda: wts["b"].tolist(), lambda: wts["b"].to_numpy().copy()])()
    w_, p_ = pd.Series(gen.values(rng, idx.n, "pos"), i, dtype="pint[MW]"), pd.Series(gen.values(rng, idx.n, "pos"), i, dtype="pint[Eur/MWh]")
    tgt = rng.choice(["MS", "QS", "YS"])
    dic = {"w": w_, "p": p_}
    kids = {"A": pf.PfLine(w_), "B": pf.PfLine({"q": pos})}
    ops = {
        "summable": ([fr, f1], lambda: t.changefreq.summable(fr, f1)),
        "averagable": ([fr, f1], lambda: t.changefreq.averagable(fr, f1)),
        "asfreq index": ([noname, f1], lambda: t.changefreq.index(noname, f1)),
        "standardize": ([raw], lambda: pf.standardize(raw, "agnostic")),
        "standardize aware": ([raw], lambda: pf.standardize(raw, "aware", "left", tz, True)),
        "standardize right": ([right], lambda: pf.standardize(right, "agnostic", "right")),
        "fill_gaps": ([nan], lambda: t.frame.fill_gaps(nan, 2)),
        "trim": ([fr, tgt], lambda: t.trim.frame(fr, tgt)),
        "trim index": ([noname, tgt], lambda: t.trim.index(noname, tgt)),
        "force_agnostic": ([fr], lambda: pf.force_agnostic(fr)),
        "force_aware": ([fr, tz], lambda: pf.force_aware(fr, tz, floating=True)),
        "force_aware fixed": ([fr, tz], lambda: pf.force_aware(fr, tz, floating=False)),
        "wavg": ([df, wts], lambda: pf.wavg(df, wts, axis=1)),
        "wavg rows": ([df, pos], lambda: pf.wavg(df, pos, axis=0)),
        "wavg columns": ([df, swts], lambda: pf.wavg(df, swts, axis=1)),
        "wavg series": ([pos, wts], lambda: pf.wavg(pos, wts["a"])),
        "wavg values": ([ser, serw, df], lambda: pf.wavg(ser, serw)),
        "wavg column": ([wts, df], lambda: pf.wavg(df["b"], wts["b"])),
        "right index": ([noname], lambda: t.right.index(noname)),
        "duration": ([noname], lambda: t.duration.index(noname)),
        "duration frame": ([fr], lambda: t.duration.frame(fr)),
        "left of right": ([right.index], lambda: t.righttoleft.index(right.index)),
        "guess": ([raw], lambda: t.freq.guess_to_frame(raw)),
        "guess index": ([raw.index], lambda: t.freq.guess_to_index(raw.index)),
        "set freq": ([raw], lambda: t.freq.set_to_frame(raw, idx.freq)),
        "start of day": ([noname], lambda: t.startofday.set(noname, dt.time(7))),
        "boundary": ([noname, tgt], lambda: t.isboundary.index(noname, tgt)),
        "intersect": ([fr, fr2], lambda: t.intersect.frames(fr, fr2)),
        "intersect ignoring": ([fr, fr2, raw], lambda: t.intersect.frames(fr, fr2, ignore_freq=True, ignore_tz=True, ignore_start_of_day=True)),
        "intersection": ([fr, fr2], lambda: pf.intersection(fr, fr2)),
        "intersect indices": ([noname, fr2.index], lambda: t.intersect.indices(noname, fr2.index)),
        "header": ([df], lambda: t.frame.add_header(df, "x")),
        "concat": ([df, wts], lambda: t.frame.concat([df, wts.rename(columns={"a": "c", "b": "d"})], axis=1)),
        "allclose": ([w_, p_], lambda: t.frame.series_allclose(w_, w_)),
        "hedge": ([w_, p_, tgt], lambda: pf.hedge(w_, p_, "vol", fn_peak if cal.rank(idx.freq) < 2 else None, tgt)),
        "hedge value": ([w_, p_, tgt], lambda: pf.hedge(w_, p_, "val", None, tgt)),
        "peak split": ([pos], lambda: t.peakconvert.tseries2poframe(pos, fn_peak, tgt, False)),
        "peak duration": ([noname], lambda: t.peakfn.peak_duration(noname, fn_peak)),
        "offpeak duration": ([noname], lambda: t.peakfn.offpeak_duration(noname, fn_peak)),
        "peak hours": ([noname], lambda: fn_peak(noname)),
        "defaultunit": ([fr], lambda: t.unit.defaultunit(fr)),
        "objects": ([fr], lambda: t.unit.avoid_frame_of_objects(fr)),
        "split unit": ([w_], lambda: t.unit.split_magn_unit(w_)),
        "map": ([fr], lambda: pf.map_frame_to_year(fr, 2022, "DE")),
        "characterize": ([noname], lambda: pf.characterize_index(noname)),
        "build from series": ([w_], lambda: pf.PfLine(w_)),
        "build from dict": ([dic, w_, p_], lambda: pf.PfLine(dic)),
        "build from frame": ([df], lambda: pf.PfLine(df.rename(columns={"a": "w", "b": "p"}))),
        "build from list": ([w_, p_], lambda: pf.PfLine([w_, p_])),
        "build nested": ([kids], lambda: pf.PfLine(kids)),
        "build state": ([w_, p_], lambda: pf.PfState.from_series(qo=-pos, pu=p_) if hasattr(pf.PfState, "from_series") else None),
        "line times series": ([kids["A"], pos], lambda: kids["A"] * pos),
        "line plus series": ([kids["A"], w_], lambda: kids["A"] + w_),
        "line minus dict": ([kids["A"], dic], lambda: kids["A"] - {"q": pos}),
        "quantities": ([w_], lambda: w_ * pf.Q_(2, "h")),
        "dev series": ([i], lambda: pf.dev.get_series(i, "w") is None),
        "dev frame": ([i], lambda: pf.dev.get_dataframe(i, "wp") is None),
        "dev line": ([i], lambda: pf.dev.get_pfline(i) is None),
        "dev state": ([i], lambda: pf.dev.get_pfstate(i) is None),
    }
    name = rng.choice(list(ops))
    operands, fn = ops[name]
    ctx.case(idx=repr(idx), op=name, f1=f1, tgt=tgt, tz=tz, type=type(fr).__name__)
    before = fps(operands)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = fn()
        except Exception:
            ctx.saw("failed operations")
            unchanged(ctx, operands, before, f"failing {name}", "changed-by-failing")
            return
        unchanged(ctx, operands, before, name)
        ctx.saw("operations monitored")
        ctx.nontrivial(name, idx.key(), type(fr).__name__)
        f = obs.fingerprint(r)
        ctx.check(obs.fingerprint(fn()) == f, "repeat", f"repeating {name} gives another result")
        ctx.saw("operations repeated")
        unchanged(ctx, operands, before, name)


def ispint(s):
    return str(s.dtype).startswith("pint")


def overwrite(rng, x):
    """Change all values of series, dataframe, dict or list, in place."""
    if isinstance(x, dict):
        for k in list(x):
            if rng.random() < 0.5:
                overwrite(rng, x[k])
            else:
                del x[k]
        x["zzz"] = 3
    elif isinstance(x, list):
        for y in x:
            overwrite(rng, y)
        x.append(4)
    elif isinstance(x, pd.Series):
        how = rng.choice(["iloc", "all", "values", "loc"])
        new = -12345.0 if not ispint(x) else pf.Q_(-12345.0, x.pint.units)
        if x.dtype == object:
            new = pf.Q_(-12345.0, x.iloc[0].units)
        elif x.dtype == "int64":
            new = -12345
        if how == "iloc":
            x.iloc[rng.randrange(len(x))] = new
        elif how == "loc":
            x.loc[x.index[-1]] = new
        elif how == "values" and not ispint(x) and x.values.flags.writeable:
            x.values[:] = new
        else:
            x[:] = new
    elif isinstance(x, pd.DataFrame):
        k = rng.randrange(len(x.columns))
        if rng.random() < 0.3:
            x[x.columns[k]] = -12345.0
        elif all(d == float for d in x.dtypes) and rng.random() < 0.5:
            x.values[:] = -12345.0
        else:
            new = -12345.0 if not ispint(x.iloc[:, k]) else pf.Q_(-12345.0, x.iloc[:, k].pint.units)
            x.iloc[rng.randrange(len(x)), k] = new
        if rng.random() < 0.2:
            x.drop(columns=x.columns[0], inplace=True)


@scenario(quick=600, must=["sources overwritten", "exports overwritten", "states judged"])
def aliasing(ctx):
    rng = ctx.rng
    idx = gen.index(rng, freqs=["h", "D", "D", "MS", "QS", "YS"])
    m = gen.line(rng, rng.choice(gen.KINDS), idx)
    if rng.random() < 0.5:
        # building
        kind = rng.choice(gen.KINDS)
        fl = gen.flat(rng, kind, idx)
        cols = {"vol": rng.choice(["w", "q"]), "pri": "p", "rev": "r", "all": rng.choice(["wp", "qr", "qp"])}[kind]
        i = idx.pd
        ser = {c: gen.dress(rng, c, getattr(fl, c), i)[0] for c in cols}
        how = rng.choice(["dict", "frame", "list", "series", "nested dict", "nested frame", "numbers", "arithmetic"])
        ctx.case(idx=repr(idx), kind=kind, cols=cols, how=how, dtypes=[str(s.dtype) for s in ser.values()])
        if how in ("list", "series") and any(not ispint(s) for s in ser.values()):
            ser = {c: fl.series(c, True) for c in cols}
        if how == "dict":
            src = ser
        elif how == "frame":
            src = pd.DataFrame(ser)
        elif how == "list":
            src = list(ser.values())
        elif how == "series":
            src = list(ser.values())[0]
        elif how == "nested dict":
            src = {"A": dict(ser), "B": dict(ser)}
        elif how == "nested frame":
            src = {"A": pd.DataFrame(ser), "B": pf.PfLine(dict(ser))}
        elif how == "numbers":
            src = dict(ser)
        else:
            src = fl.series(cols[0], True)
        if how == "arithmetic":
            base = gen.flat(rng, {"w": "vol", "q": "vol", "p": "pri", "r": "rev"}[cols[0]], idx).build(pf)
            pfl = rng.choice([lambda: base + src, lambda: base - src])()
        else:
            pfl = pf.PfLine(src)
        before = obs.fingerprint(pfl)
        overwrite(rng, src)
        ctx.check(obs.fingerprint(pfl) == before, "source-aliased", f"overwriting the source ({how}) changes the line")
        ctx.saw("sources overwritten")
        ctx.nontrivial("build", how, idx.key(), kind, cols)
        return
    if rng.random() < 0.25:
        obj = hist.World(rng, freqs=("D", "MS")).new_state()
        exports = [lambda: obj.dataframe(), lambda: obj.dataframe(has_units=False), lambda: obj.sourced.q, lambda: obj.unsourcedprice.p, lambda: obj.offtakevolume.w, lambda: obj.unsourced.r, lambda: obj.sourcedfraction, lambda: obj.dataframe(childlevels=0)]
        ctx.saw("states judged")
    else:
        obj = m.build(pf)
        exports = [(lambda c=c: getattr(obj, c)) for c in obs.AVAIL[obs.kind(obj)]] * 3
        exports += [lambda: obj.dataframe(), lambda: obj.dataframe(has_units=False), lambda: obj.dataframe(childlevels=0), lambda: obj.flatten().dataframe(has_units=False)]
        c0 = m.cols()[0]
        exports += [lambda: getattr(obj, c0).pint.m, lambda: getattr(obj.flatten(), c0), lambda: getattr(obj.slice[:], c0), lambda: getattr(obj * 1, c0), lambda: getattr(obj + 0, c0), lambda: getattr(obj.asfreq(idx.freq), c0)]
        if m.kind == "all":
            exports += [lambda: obj.volume.q, lambda: obj.price.p, lambda: obj.revenue.r]
        if m.nested:
            n0 = next(iter(m.children))
            exports += [lambda: getattr(obj[n0], c0), lambda: dict(obj), lambda: dict(obj.items()), lambda: getattr(obj[n0].loc[:], c0)]
    k = rng.randrange(len(exports))
    ctx.case(idx=repr(idx), kind=m.describe(), export=k, type=type(obj).__name__)
    before = obs.fingerprint(obj)
    x = exports[k]()
    if isinstance(x, dict):
        x.clear()
    else:
        overwrite(rng, x)
    ctx.check(obs.fingerprint(obj) == before, "export-aliased", lambda: f"overwriting exported {type(x).__name__} ({k}) changes the object")
    ctx.saw("exports overwritten")
    ctx.nontrivial("export", k, m.describe())


@scenario(quick=120, must=["assignments refused"])
def assignment(ctx):
    rng = ctx.rng
    idx = gen.index(rng, freqs=["D", "MS", "QS"])
    m = gen.line(rng, rng.choice(gen.KINDS), idx)
    obj = m.build(pf) if rng.random() < 0.75 else hist.World(rng, freqs=("D", "MS")).new_state()
    ctx.case(obj=type(obj).__name__, line=m.describe())
    ctx.nontrivial(type(obj).__name__, m.describe())
    before = obs.fingerprint(obj)
    names = ["w", "q", "p", "r", "index", "foo", "kind", "structure", "volume", "price", "children", "A", "start", "slice"]
    if isinstance(obj, pf.PfState):
        names = ["offtakevolume", "unsourcedprice", "sourced", "unsourced", "index", "foo", "pnl_cost", "offtake"]
    for nm in names:
        ctx.raises("assign", lambda: setattr(obj, nm, 3), f"attribute {nm}")
        ctx.saw("assignments refused")
    new = gen.line(rng, "vol", idx).build(pf)

    def setitem(k):
        obj[k] = new

    def delitem(k):
        del obj[k]

    for nm in (list(obj) if getattr(m, "nested", False) and isinstance(obj, pf.PfLine) else []) + ["A", "w", "q", "new"]:
        ctx.raises("setitem", lambda: setitem(nm), f"item {nm}")
        ctx.raises("delitem", lambda: delitem(nm), f"item {nm}")
        ctx.saw("assignments refused")
    for f in ("loc", "slice"):
        def put():
            getattr(obj, f)[obj.index[0] :] = new

        ctx.raises("indexer", put, f"{f}[...] = line")
    ctx.check(obs.fingerprint(obj) == before, "assign-changed", "refused assignment changed the object")


@scenario(quick=40, must=["mock-up functions called"])
def mockup(ctx):
    """Functions that create mock-up data for an index."""
    rng = ctx.rng
    idx = gen.index(rng, freqs=["D", "MS", "QS"])
    i = idx.pd.rename(rng.choice([None, "x"]))
    fn = rng.choice(["get_series", "get_dataframe", "get_pfline", "get_pfstate"])
    ctx.case(idx=repr(idx), fn=fn, name=i.name)
    ctx.nontrivial(idx.key(), fn, i.name)
    before = obs.fingerprint(i)
    getattr(pf.dev, fn)(i)
    ctx.saw("mock-up functions called")
    after = obs.fingerprint(i)
    ctx.check(after[1:] == before[1:], "operand-changed", f"{fn} changes index")
    ctx.check(after[0] == before[0] or after[0] != "ts_left", "dev-renames-index", f"{fn} renames the index that is passed, from {before[0]!r} to {after[0]!r}")
    ctx.check(after == before, "operand-changed", f"{fn} changes name of index")
