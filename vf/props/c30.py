"""C30: figures show the data. Random lines, states, groups of states and plain timeseries are
plotted (without display); the monitor reads back, from the artists that would be rendered, what
the figure shows in each delivery period - bars and segments by position, areas and stepped lines
at several moments within the period - and the labels, ticks, legends, titles and visible range,
and compares with the reference model. Figures with mixed frequencies or units must be refused.
"""
import copy
import datetime as dt
import math

import cal
import figures
import gen
import numpy as np
import obs
import pandas as pd
import state
from core import Skip, scenario
from figures import plt

import portfolyo as pf

RULE = "random lines, states and timeseries of all kinds and frequencies x children x way of plotting; distinct by frequency, kind, number of values and children"
KINDS = {"vol": pf.Kind.VOLUME, "pri": pf.Kind.PRICE, "rev": pf.Kind.REVENUE}
NUM = {"w": 1, "q": 0, "p": 2, "r": 0}  # decimals of the labels
LIMIT = 60  # periods in which values are read back (evenly spread)


def categorical(idx):
    return cal.base(idx.freq) in ("MS", "QS", "YS")


def some(n, k=LIMIT):
    return sorted(set(np.linspace(0, n - 1, min(n, k)).astype(int).tolist()))


def judge_values(ctx, ax, layer, idx, vals, key, scale):
    """The layer shows exactly one value in each period: the correct one."""
    i = idx.pd
    for k in some(idx.n):
        if categorical(idx):
            at = [float(k)]
        else:
            a = figures.x_of(ax, i[k])
            b = figures.x_of(ax, gen.stamp(idx.b[k + 1], idx.tz))
            ctx.check(b > a, key + ":axis", lambda: f"time axis runs backwards at {i[k]}")
            at = [a + f * (b - a) for f in (0.03, 0.35, 0.5, 0.65, 0.97)]
        for x in at:
            got = layer.at(x)
            want = float(vals[k])
            if math.isnan(want):
                ok = all(math.isnan(g) for g in got)
            else:
                ok = len(got) >= 1 and all(abs(g - want) <= 1e-9 * scale + 1e-9 * abs(want) for g in got)
            ctx.check(ok, key + ":value", lambda: f"{layer} shows {got} at {x} (period {k}, {i[k]}), data: {want}")
    if categorical(idx):
        ctx.check(layer.count == idx.n, key + ":count", lambda: f"{layer} has {layer.count} elements for {idx.n} periods")
        ctx.check(not layer.at(-1.0) and not layer.at(float(idx.n)), key + ":beyond", f"{layer} shows data outside the {idx.n} periods")
    else:
        w = (figures.x_of(ax, gen.stamp(idx.b[-1], idx.tz)) - figures.x_of(ax, i[0])) / idx.n
        for x in (figures.x_of(ax, i[0]) - 0.02 * w, figures.x_of(ax, gen.stamp(idx.b[-1], idx.tz)) + 0.02 * w):
            ctx.check(not layer.at(x), key + ":beyond", lambda: f"{layer} shows {layer.at(x)} outside of the data, at {x}")
    ctx.saw("values read off figure", idx.n)


def judge_range(ctx, ax, idx, vals, key):
    """All of the data is in sight."""
    v = vals[np.isfinite(vals)]
    if not len(v):
        return
    lo, hi = sorted(ax.get_ylim())
    tol = 2e-3 * (hi - lo)  # less than a pixel
    ctx.check(lo - tol <= v.min() and v.max() <= hi + tol, key + ":out-of-sight", lambda: f"vertical axis {lo}..{hi}, values {v.min()}..{v.max()}")
    x0, x1 = sorted(ax.get_xlim())
    if categorical(idx):
        a, b = 0.0, idx.n - 1.0
    else:
        a, b = figures.x_of(ax, idx.pd[0]), figures.x_of(ax, gen.stamp(idx.b[-1], idx.tz))
    ctx.check(x0 <= a + 1e-9 * abs(a) and b <= x1 + 1e-9 * abs(b), key + ":out-of-sight", lambda: f"horizontal axis {x0}..{x1}, data {a}..{b}")


def judge_ticks(ctx, ax, idx, key):
    """Bars are named after their delivery period."""
    i = idx.pd
    pos, names = list(ax.get_xticks()), [t.get_text() for t in ax.get_xticklabels()]
    ctx.check(len(pos) == len(names) and len(pos) >= 1, key + ":ticks", f"{pos} {names}")
    ctx.check(len(set(pos)) == len(pos) and set(pos) <= set(range(idx.n)), key + ":ticks", lambda: f"ticks at {pos}, {idx.n} periods")
    ctx.check(0 in pos, key + ":ticks", "first period has no name")
    if idx.n <= 12:
        ctx.check(len(pos) == idx.n, key + ":ticks", lambda: f"only {len(pos)} of {idx.n} periods have a name")
    for x, name in zip(pos, names):
        t = i[int(x)]
        parts = name.split()
        b = cal.base(idx.freq)
        years = [p for p in parts if p.isdigit()]
        ctx.check(all(int(y) == t.year for y in years), key + ":tick-year", lambda: f"period starting {t} is named {name!r}")
        if x == 0 or b == "YS":
            ctx.check(bool(years), key + ":tick-year", lambda: f"no year in {name!r}")
        if b == "YS" and t.month == 1:
            ctx.check(parts == [str(t.year)], key + ":tick", lambda: f"period starting {t} is named {name!r}")
        if b == "MS":
            ctx.check(parts[0] == t.strftime("%b"), key + ":tick", lambda: f"period starting {t} is named {name!r}")
        if b == "QS" and t.month % 3 == 1:
            ctx.check(parts[0] == f"Q{(t.month + 2) // 3}", key + ":tick", lambda: f"period starting {t} is named {name!r}")
        ctx.saw("ticks judged")


def judge_labels(ctx, ax, idx, vals, key, fmt=None, decimals=None, expect=True):
    texts = [t for t in ax.texts if hasattr(t, "xy")]
    if not expect:
        ctx.check(not texts, key + ":labels", lambda: f"unexpected labels {[t.get_text() for t in texts]}")
        return
    if idx.n <= 12:
        ctx.check(len(texts) == idx.n, key + ":labels", lambda: f"{len(texts)} labels for {idx.n} values")
    seen = set()
    for t in texts:
        x, y = t.xy
        if categorical(idx):
            k = int(round(float(x)))
        else:
            f = figures.x_of(ax, x)
            edges = [figures.x_of(ax, gen.stamp(s, idx.tz)) for s in idx.b]
            k = int(np.searchsorted(edges, f, side="right")) - 1
        ctx.check(0 <= k < idx.n and k not in seen, key + ":label-place", lambda: f"label {t.get_text()!r} at {x}")
        seen.add(k)
        v = float(vals[k])
        ctx.check(abs(figures.plain(y) - v) <= 1e-9 * max(abs(v), 1), key + ":label-place", lambda: f"label of value {v} at height {y}")
        s = t.get_text()
        if fmt is not None:
            ctx.check(s == fmt.format(figures.plain(y)).replace(",", " "), key + ":label", lambda: f"value {v}, format {fmt!r}: label {s!r}")
        else:
            num = float(s.replace(" ", "").replace(",", ""))
            ctx.check(abs(num - v) <= 0.5 * 10.0**-decimals * (1 + 1e-6) + 1e-9 * abs(v), key + ":label", lambda: f"value {v}: label {s!r}")
        ctx.saw("labels judged")


def judge_axes(ctx, ax, col, idx, vals, kids, key, labels=None, ticks=False):
    """Axes shows ``vals`` and, if ``kids`` (dictionary of names and values) is not None, those."""
    every = [vals] + list((kids or {}).values())
    scale = max([1e-300] + [float(np.nanmax(np.abs(v))) for v in every if np.isfinite(v).any()])
    las = figures.layers(ax)
    kids = kids or {}
    ctx.check(len(las) == 1 + len(kids), key + ":layers", lambda: f"{las} for data with {len(kids)} children")
    main = [la for la in las if la.label not in kids]
    ctx.check(len(main) == 1, key + ":layers", lambda: f"{las} for children {list(kids)}")
    main = main[0]
    want = "bars" if categorical(idx) else "area" if col == "w" else "line"
    ctx.check(main.form == want, key + ":form", lambda: f"{col} with frequency {idx.freq} is shown as {main.form}")
    judge_values(ctx, ax, main, idx, vals, key, scale)
    for name, v in kids.items():
        la = [la for la in las if la.label == name]
        ctx.check(len(la) == 1, key + ":child", lambda: f"{las}: child {name!r}")
        judge_values(ctx, ax, la[0], idx, v, key + ":child", scale)
        ctx.saw("children judged")
    lg = figures.legend(ax)
    if kids:
        ctx.check(lg is not None and sorted(lg) == sorted(kids), key + ":legend", lambda: f"legend {lg}, children {list(kids)}")
    judge_range(ctx, ax, idx, np.concatenate(every), key)
    if categorical(idx) and (ticks or any(t.get_text() for t in ax.get_xticklabels())):
        judge_ticks(ctx, ax, idx, key)
    if labels is not None:
        judge_labels(ctx, ax, idx, vals, key, **labels)
    if col in "wqpr":
        unit = ax.get_ylabel()
        ok = {"w": unit == "MW", "q": "MW" in unit and "h" in unit, "p": "Eur" in unit and "MW" in unit and "h" in unit, "r": unit == "Eur"}[col]
        ctx.check(ok, key + ":unit", lambda: f"axis for {col} is in {unit!r}")


def column(kind, idx):
    return {"vol": "q" if categorical(idx) else "w", "pri": "p", "rev": "r"}[kind]


def of(m, col):
    return np.asarray(getattr(m.agg(), col), float)


def kids_of(m, col):
    return {n: of(c, col) for n, c in m.children.items()} if m.nested else None


def names(rng, n):
    return rng.sample(["A", "B", "solar", "B2B", "x y", "Zürich", "a", "wind 2", "total", "P"], n)


def random_line(rng, kind, idx):
    if rng.random() < 0.35:
        return gen.flat(rng, kind, idx)
    ns = names(rng, rng.choice([1, 2, 3, 5]))
    ch = {}
    for n in ns:
        ch[n] = gen.line(rng, kind, idx, depth=rng.choice([0, 0, 1]))
    return gen.Nest(ch)


def an_index(rng):
    r = rng.random()
    if r < 0.45:
        f = rng.choice(["MS", "MS", "QS", "YS", "QS-FEB", "QS-OCT", "YS-APR", "QS-JUL"])
    else:
        f = rng.choice(["D", "D", "h", "15min"])
    return gen.index(rng, freqs=[f], size=rng.choice("ssm") if r > 0.45 else rng.choice("sml"))


@scenario(quick=420, must=("values read off figure", "children judged", "labels judged", "ticks judged"))
def lines(ctx):
    """plot() and plot_to_ax() of a line."""
    rng = ctx.rng
    idx = an_index(rng)
    kind = rng.choice(gen.KINDS)
    m = random_line(rng, kind, idx)
    pfl = m.build(pf)
    children = rng.random() < 0.6
    before = obs.fingerprint(pfl)
    ctx.case(line=m.describe(), children=children)
    try:
        if rng.random() < 0.6:
            fig = pfl.plot(children) if rng.random() < 0.5 else pfl.plot(children=children)
            dims = ["vol", "pri", "rev"] if kind == "all" else [kind]
            ctx.check(isinstance(fig, plt.Figure), "figure", f"plot returns {type(fig).__name__}")
            ctx.check(len(fig.axes) == len(dims), "figure", lambda: f"{len(fig.axes)} axes for kind {kind}")
            todo = [(ax, d, dict(decimals=NUM[column(d, idx)])) for ax, d in zip(fig.axes, dims)]
            if rng.random() < 0.2:
                fig.canvas.draw()
        else:
            dims = [rng.choice(["vol", "pri", "rev"])] if kind == "all" else [kind]
            fig, ax = plt.subplots()
            kw, lab = {}, dict(decimals=NUM[column(dims[0], idx)])
            r = rng.random()
            if r < 0.3:
                fmt = rng.choice(["{:.3f}", "{:,.1f}", "{:+.0f} x", "{:.1e}"])
                kw, lab = {"labelfmt": fmt}, {"fmt": fmt}
            elif r < 0.5:
                kw, lab = {"labelfmt": ""}, {"expect": False}
            elif r < 0.7:
                kw = {"color": "red", "alpha": 0.4}
            k = KINDS[dims[0]] if kind == "all" else rng.choice([None, KINDS[dims[0]], pf.Kind.COMPLETE])
            out = pfl.plot_to_ax(ax, children, k, **kw) if rng.random() < 0.5 else pfl.plot_to_ax(ax, children=children, kind=k, **kw)
            ctx.check(out is None, "figure", f"plot_to_ax returns {out!r}")
            todo = [(ax, dims[0], lab)]
        for ax, d, lab in todo:
            col = column(d, idx)
            kids = kids_of(m, col) if children else None
            if idx.n > 24:
                lab = {"expect": False} if not categorical(idx) else lab
            if not np.isfinite(of(m, col)).all():
                lab = None
            judge_axes(ctx, ax, col, idx, of(m, col), kids, f"line:{d}", lab, ticks=ax is todo[-1][0])
        ctx.check(obs.fingerprint(pfl) == before, "changed", "plotting changed the portfolio line")
        ctx.nontrivial(idx.freq, kind, idx.n, children and m.nested, len(todo))
    finally:
        figures.close()


@scenario(quick=200, must=("states judged",))
def states(ctx):
    """plot() of a state, and plot_pfstates() of several."""
    rng = ctx.rng
    idx = an_index(rng)
    m = state.random_state(rng, idx, sourced=True, depth=rng.choice([0, 1]), nonzero=rng.random() < 0.7)
    if rng.random() < 0.4:  # prices that barely change
        near = lambda: level + np.array([rng.uniform(-1, 1) for _ in range(idx.n)]) * abs(level) * 0.03  # noqa
        level = rng.choice([60.0, 250.0, -40.0])
        m.p = gen.Flat("pri", idx, p=near())
        if not m.s.nested:
            m.s = gen.Flat("all", idx, q=of(m.s, "q"), p=near())
    pfs = m.build()
    children = rng.random() < 0.5
    before = obs.fingerprint(pfs)
    ctx.case(state=m.describe(), children=children)
    col = column("vol", idx)
    h = idx.hours if col == "w" else 1.0
    o, s = of(m.o, "q") / h, of(m.s, "q") / h
    sr = of(m.s, "r")
    with np.errstate(all="ignore"):
        sp = np.where(of(m.s, "q") == 0, np.nan, sr / of(m.s, "q"))
        # Procurement: offtake, at cost of what is sourced and of what is not.
        cost = (sr + m.ur) / -of(m.o, "q")
    if np.any(of(m.o, "q") == 0):
        raise Skip("offtake of zero")
    try:
        if rng.random() < 0.6:
            fig = pfs.plot(children)
            ctx.check(isinstance(fig, plt.Figure) and len(fig.axes) == 6, "figure", "a state is shown in 6 axes")
            want = {
                "Offtake volume": (col, -o, kids_of(m.o, "q"), -1 / h),
                "Sourced volume": (col, s, kids_of(m.s, "q"), 1 / h),
                "Unsourced volume": (col, m.uq / h, None, 1),
                "Procurement price": ("p", cost, None, 1),
                "Sourced price": ("p", sp, kids_of(m.s, "p"), 1),
                "Unsourced price": ("p", m.up, None, 1),
            }
            titles = [ax.get_title() for ax in fig.axes]
            ctx.check(sorted(titles) == sorted(want), "titles", f"{titles}")
            for ax in fig.axes:
                c, v, kids, f = want[ax.get_title()]
                kids = {n: k * f for n, k in kids.items()} if kids is not None and children else None
                if kids is not None and c == "p":
                    for n, ch in m.s.children.items():
                        a = ch.agg()
                        with np.errstate(all="ignore"):
                            kids[n] = np.where(a.q == 0, np.nan, a.r / a.q)
                judge_state_axes(ctx, ax, c, idx, v, kids, ax.get_title())
        else:
            k = rng.choice([1, 2, 3])
            ns = names(rng, k)
            ms = [m] + [state.random_state(rng, idx, sourced=True, depth=0, nonzero=True) for _ in range(k - 1)]
            ms = [x for x in ms if not np.any(of(x.o, "q") == 0)]
            ns = ns[: len(ms)]
            fig = pf.plot_pfstates({n: x.build() for n, x in zip(ns, ms)})
            ctx.check(isinstance(fig, plt.Figure), "group:figure", f"plot_pfstates returns {type(fig).__name__}")
            ctx.check(len(fig.axes) == 6 * len(ms), "group:figure", lambda: f"{len(fig.axes)} axes for {len(ms)} states")
            full = [ax for ax in fig.axes if figures.layers(ax)]
            ctx.check(len(full) == 3 * len(ms), "group:figure", lambda: f"{len(full)} axes with data for {len(ms)} states")
            said = [" ".join(t.get_text().split()) for ax in fig.axes if not figures.layers(ax) for t in ax.texts]
            ctx.check(said == ns, "group:names", lambda: f"{said} for {ns}")
            for x, (a1, a2, a3) in zip(ms, zip(*[iter(full)] * 3)):
                oq, sq = of(x.o, "q"), of(x.s, "q")
                judge_state_axes(ctx, a1, col, idx, -oq / h, None, "group:offtake")
                judge_state_axes(ctx, a2, "f", idx, sq / -oq, None, "group:fraction")
                judge_state_axes(ctx, a3, "p", idx, (of(x.s, "r") + x.ur) / -oq, None, "group:price")
            ctx.saw("groups judged")
        ctx.check(obs.fingerprint(pfs) == before, "changed", "plotting changed the portfolio state")
        ctx.saw("states judged")
        ctx.nontrivial(idx.freq, idx.n, children)
    finally:
        figures.close()


def judge_state_axes(ctx, ax, col, idx, vals, kids, key):
    key = key.lower().replace(" ", "-")
    judge_axes(ctx, ax, "p" if col == "f" else col, idx, vals, kids, key) if col != "f" else judge_fraction(ctx, ax, idx, vals, key)


def judge_fraction(ctx, ax, idx, vals, key):
    las = figures.layers(ax)
    ctx.check(len(las) == 1, key + ":layers", lambda: f"{las}")
    judge_values(ctx, ax, las[0], idx, vals, key, max(1e-300, float(np.nanmax(np.abs(vals)))))
    judge_range(ctx, ax, idx, vals, key)


FNS = {"bar": True, "hline": True, "area": False, "step": False}
UNITS = {"MW": "w", "GW": "w", "kW": "w", "MWh": "q", "GWh": "q", "kWh": "q", "Eur/MWh": "p", "ctEur/kWh": "p", "Eur": "r", "kEur": "r", "MEur": "r", "": "f", "h": "t", "Eur/MW": "c", "1": "f"}
BASE = {"MW": 1, "GW": 1e3, "kW": 1e-3, "MWh": 1, "GWh": 1e3, "kWh": 1e-3, "Eur/MWh": 1, "ctEur/kWh": 10, "Eur": 1, "kEur": 1e3, "MEur": 1e6, "": 1, "h": 1, "Eur/MW": 1, "1": 1}


@scenario(quick=220, must=("units mixed", "refused"))
def timeseries(ctx):
    """Plain timeseries, also several (of different units) to the same axes; what does not belong
    together, or not in the kind of plot, is refused."""
    rng = ctx.rng
    idx = an_index(rng)
    form = rng.choice([f for f, c in FNS.items() if c == categorical(idx)])
    unit = rng.choice(list(UNITS))
    vals = gen.values(rng, idx.n)
    fn = getattr(pf.tools.visualize, f"plot_timeseries_as_{form}")

    def series(u, v, i=None):
        s = pd.Series(v, idx.pd if i is None else i)
        return s.astype(f"pint[{u}]") if u else s

    ctx.case(form=form, unit=unit, idx=str(idx))
    try:
        fig, ax = plt.subplots()
        fmt = rng.choice(["", "{:.2f}", "{:,.0f}"])
        s = series(unit, vals)
        keep = copy.deepcopy(s)
        fn(ax, s, labelfmt=fmt, label="first")
        pd.testing.assert_series_equal(s, keep)
        las = figures.layers(ax)
        want = {"bar": "bars", "hline": "segments", "area": "area", "step": "line"}
        ctx.check(len(las) == 1 and las[0].form == want[form], "series:layers", lambda: f"{las}")
        v = vals * BASE[unit]
        scale = max(1e-300, float(np.nanmax(np.abs(v))))
        judge_values(ctx, ax, las[0], idx, v, "series", scale)
        judge_range(ctx, ax, idx, v, "series")
        if categorical(idx):
            judge_ticks(ctx, ax, idx, "series")
        if not fmt or (idx.n > 24 and form != "bar"):
            judge_labels(ctx, ax, idx, v, "series", expect=False)
        elif idx.n <= 24:
            judge_labels(ctx, ax, idx, v, "series", fmt=fmt)
        r = rng.random()
        if r < 0.35:  # second series, same dimension
            u2 = rng.choice([u for u in UNITS if UNITS[u] == UNITS[unit]])
            v2 = gen.values(rng, idx.n)
            form2 = rng.choice([f for f, c in FNS.items() if c == categorical(idx)])
            getattr(pf.tools.visualize, f"plot_timeseries_as_{form2}")(ax, series(u2, v2), label="second")
            la = [la for la in figures.layers(ax) if la.label == "second"]
            ctx.check(len(la) == 1, "series:layers", lambda: f"{figures.layers(ax)}")
            judge_values(ctx, ax, la[0], idx, v2 * BASE[u2], "series:second", max(scale, float(np.nanmax(np.abs(v2 * BASE[u2])))))
            judge_values(ctx, ax, figures.layers(ax)[0] if figures.layers(ax)[0].label == "first" else [x for x in figures.layers(ax) if x.label == "first"][0], idx, v, "series:first", scale)
            ctx.saw("units mixed")
        elif r < 0.6:  # other dimension
            u2 = rng.choice([u for u in UNITS if UNITS[u] != UNITS[unit]])
            ctx.raises("refuse-unit", lambda: fn(ax, series(u2, vals)), f"timeseries in {u2!r} on axis with {unit!r}")
            ctx.saw("refused")
        elif r < 0.8:  # other frequency
            f2 = rng.choice([f for f in cal.FREQS if (cal.base(f) in ("MS", "QS", "YS")) == categorical(idx) and cal.base(f) != cal.base(idx.freq)])
            i2 = gen.index(rng, freqs=[f2], tz=idx.tz, size="s")
            ctx.raises("refuse-freq", lambda: fn(ax, series(unit, gen.values(rng, i2.n), i2.pd)), f"timeseries with frequency {f2} on axis with {idx.freq}")
            ctx.saw("refused")
        else:  # unsuitable plot
            form2 = rng.choice([f for f, c in FNS.items() if c != categorical(idx)])
            _, ax2 = plt.subplots()
            ctx.raises("refuse-form", lambda: getattr(pf.tools.visualize, f"plot_timeseries_as_{form2}")(ax2, series(unit, vals)), f"{form2} of timeseries with frequency {idx.freq}")
            ctx.saw("refused")
        ctx.nontrivial(form, unit, idx.freq, idx.n)
    finally:
        figures.close()


@scenario(quick=80, must=("refused line",))
def refused(ctx):
    """A complete line needs a choice of what to plot; lines that don't match are not plotted
    to the same axes."""
    rng = ctx.rng
    idx = an_index(rng)
    m = random_line(rng, "all", idx)
    pfl = m.build(pf)
    ctx.case(line=m.describe())
    try:
        _, ax = plt.subplots()
        k = rng.choice([None, pf.Kind.COMPLETE, "volume", 3])
        ctx.raises("refuse-kind", lambda: pfl.plot_to_ax(ax, rng.random() < 0.5, k), f"complete line, kind {k!r}")
        ctx.check(not figures.layers(ax), "refuse-kind:drawn", "refused, but something is drawn")
        d = rng.choice(list(KINDS))
        pfl.plot_to_ax(ax, False, KINDS[d])
        n = len(figures.layers(ax))
        d2 = rng.choice([x for x in KINDS if x != d])
        ctx.raises("refuse-dimension", lambda: pfl.plot_to_ax(ax, False, KINDS[d2]), f"{d2} on axes with {d}")
        ctx.check(len(figures.layers(ax)) == n, "refuse-dimension:drawn", "refused, but something is drawn")
        m2 = random_line(rng, "all", idx)
        m2.build(pf).plot_to_ax(ax, False, KINDS[d])
        las = figures.layers(ax)
        ctx.check(len(las) == n + 1, "second:layers", lambda: f"{las}")
        c = column(d, idx)
        for la, x in zip(las, (m, m2)):
            judge_values(ctx, ax, la, idx, of(x, c), "second", max(1e-300, np.nanmax(np.abs(of(m, c))), np.nanmax(np.abs(of(m2, c)))))
        ctx.saw("refused line")
        ctx.nontrivial(idx.freq, d, d2)
    finally:
        figures.close()
