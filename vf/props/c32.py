"""C32: comparison of timeseries. Two timeseries or dataframes that are built separately from
the same data, or that differ in exactly one way, are compared with the functions in pf.testing;
these must pass in the first case, and raise AssertionError in the second.
"""
import cal
import gen
import numpy as np
import pandas as pd
from core import Skip, scenario

import portfolyo as pf

RULE = "random series and frames with and without unit x kind of change; distinct by form and change"
T = pf.testing
TWIN = {"MW": ("GW", 1e-3), "MWh": ("kWh", 1e3), "Eur": ("kEur", 1e-3), "Eur/MWh": ("ctEur/kWh", 0.1), "GW": ("MW", 1e3), "ctEur/kWh": ("Eur/MWh", 10.0)}
UNITS = ["MW", "MWh", "Eur/MWh", "Eur", "GW", "ctEur/kWh", None]


def judge(ctx, fn, a, b, equal, what, **kw):
    for x, y in ((a, b), (b, a)):
        try:
            fn(x, y, **kw)
            got = True
        except AssertionError:
            got = False
        ctx.check(got == equal, "equal-fails" if equal else "unequal-passes", lambda: f"{fn.__name__}: {what}: {'passes' if got else 'fails'}")
    ctx.saw("equal" if equal else "unequal")


def mk(vals, i, unit, name, form):
    if unit is None:
        return pd.Series(vals.copy(), i, name=name)
    if form == "objects":
        return pd.Series([pf.Q_(v, unit) for v in vals], i, name=name)
    return pd.Series(vals.copy(), i, name=name).astype(f"pint[{unit}]")


def other_index(rng, idx):
    """Another index with the same number of periods."""
    r = rng.random()
    if r < 0.5:
        step = rng.choice([1, -1])
        b = idx.b
        i = gen.mk_index([s + 86400 * step for s in b[:-1]] if cal.rank(idx.freq) < 2 else [cal.at(cal.next_date(cal.day_of(s, idx.sod, idx.tz), idx.freq, step), idx.sod, idx.tz) for s in b[:-1]], idx.tz)
        return i, "index moved"
    return gen.mk_index(idx.b[:-1], "Asia/Tokyo" if idx.tz is not None else "UTC"), "timezone of index"


def change(rng, vals):
    v = vals.copy()
    k = rng.choice([0, len(v) - 1, rng.randrange(len(v))])
    how = rng.choice(["small", "sign", "nan", "zero"])
    if how == "small":
        v[k] += max(abs(v[k]) * rng.choice([1e-3, 1e-2, 1]), 1e-3)
    elif how == "sign":
        v[k] = -v[k] if v[k] else 1.0
    elif how == "nan":
        v[k] = np.nan
    else:
        v[k] = 0.0 if v[k] else 1.0
    return v, f"value {k}: {vals[k]} -> {v[k]}"


@scenario(quick=500, must=("equal", "unequal"))
def series(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    vals = gen.values(rng, idx.n)
    vals[np.abs(vals) < 1e-6] = 0.0
    if rng.random() < 0.2:
        vals[rng.randrange(idx.n)] = np.nan  # (infinite is not distinguished from missing)
    unit = rng.choice(UNITS)
    name = rng.choice([None, "a", "w"])
    form = "pint"
    s = mk(vals, idx.pd, unit, name, form)
    how = rng.choice(["same", "noise", "value", "value", "unit", "other-unit", "no-unit", "index", "length", "name", "noname"])
    ctx.case(idx=str(idx), unit=unit, change=how)
    if how == "same":
        judge(ctx, T.assert_series_equal, s, mk(vals, idx.pd, unit, name, form), True, "same data")
    elif how == "noise":
        judge(ctx, T.assert_series_equal, s, mk(vals * (1 + 1e-10), idx.pd, unit, name, form), True, "rounding error")
    elif how == "value":
        v, what = change(rng, vals)
        if np.array_equal(v, vals, equal_nan=True):
            raise Skip("nothing changed")
        judge(ctx, T.assert_series_equal, s, mk(v, idx.pd, unit, name, form), False, what)
    elif how == "unit":
        u = rng.choice([u for u in UNITS if u and u != unit])
        if unit is None:
            u = "MW"
        if unit in TWIN and TWIN[unit][0] == u and not (np.isfinite(vals) & (vals != 0)).any():
            raise Skip("the same in both units")
        judge(ctx, T.assert_series_equal, s, mk(vals, idx.pd, u, name, form), False, f"unit {unit} and {u}")
    elif how == "other-unit":
        if unit not in TWIN:
            raise Skip("no other unit")
        u, f = TWIN[unit]
        judge(ctx, T.assert_series_equal, s, mk(vals * f, idx.pd, u, name, form), True, f"same quantities in {unit} and {u}")
    elif how == "no-unit":
        u = None if unit else "MW"
        judge(ctx, T.assert_series_equal, s, mk(vals, idx.pd, u, name, form), False, f"unit {unit} and {u}")
    elif how == "index":
        i, what = other_index(rng, idx)
        judge(ctx, T.assert_series_equal, s, mk(vals, i, unit, name, form), False, what, check_freq=False)
    elif how == "length":
        v2 = np.append(vals, vals[-1])
        i2 = gen.mk_index(idx.b, idx.tz)
        judge(ctx, T.assert_series_equal, s, mk(v2, i2, unit, name, form), False, "one value more", check_freq=False)
    else:
        eq = how == "noname"
        judge(ctx, T.assert_series_equal, s, mk(vals, idx.pd, unit, "other", form), eq, "name", **({"check_names": False} if eq else {}))
    ctx.nontrivial(how, unit, idx.freq, idx.n)


@scenario(quick=300, must=("equal", "unequal"))
def frames(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    cols = rng.sample(["w", "q", "p", "r", "a", "b"], rng.choice([1, 2, 3]))
    units = {c: rng.choice(UNITS) for c in cols}
    vals = {c: gen.values(rng, idx.n) for c in cols}

    def build(order=None, change=None, **kw):
        return pd.DataFrame({c: mk({**vals, **kw}[c], idx.pd, units[c], c, "pint") for c in order or cols})

    a = build()
    how = rng.choice(["same", "order", "value", "value", "column", "extra", "unit"])
    ctx.case(idx=str(idx), units=units, change=how)
    keep = list(a.columns)
    c = rng.choice(cols)
    if how == "same":
        judge(ctx, T.assert_frame_equal, a, build(), True, "same data")
    elif how == "order":
        judge(ctx, T.assert_frame_equal, a, build(rng.sample(cols, len(cols))), True, "other order of columns")
    elif how == "value":
        v, what = change(rng, vals[c])
        judge(ctx, T.assert_frame_equal, a, build(**{c: v}), False, f"column {c}, {what}")
    elif how == "column":
        judge(ctx, T.assert_frame_equal, a, build().rename(columns={c: "zz"}), False, f"column {c} renamed")
    elif how == "extra":
        b = build()
        b[rng.choice(["zz", "0"])] = 1.0
        judge(ctx, T.assert_frame_equal, a, b, False, "additional column")
    else:
        b = build()
        u = rng.choice([u for u in UNITS if u != units[c] and u])
        if not vals[c].any():
            raise Skip("the same in both units")
        b[c] = mk(vals[c], idx.pd, u, c, "pint")
        judge(ctx, T.assert_frame_equal, a, b, False, f"unit of {c}: {units[c]} and {u}")
    ctx.check(list(a.columns) == keep, "changed", "order of columns changed by comparing")
    ctx.nontrivial(how, len(cols), idx.freq, idx.n)


@scenario(quick=300, must=("equal", "unequal"))
def other(ctx):
    """Single values, indices, and consistency of w, q, p and r."""
    rng = ctx.rng
    r = rng.random()
    if r < 0.35:
        unit = rng.choice(["MW", "Eur", None])
        v = rng.choice([0.0, 1.0, -5.5, 1234.5, float("nan"), 1e7])
        q = lambda x, u=unit: x if u is None else pf.Q_(x, u)  # noqa
        ctx.case(value=v, unit=unit)
        if rng.random() < 0.4:
            judge(ctx, T.assert_value_equal, q(v), q(v * (1 + 1e-9)), True, f"{v} {unit}")
        else:
            d = rng.choice([v + max(1e-3, abs(v) * 1e-3) if v == v else 1.0, -v if v else 2.0]) if v == v else 5.0
            judge(ctx, T.assert_value_equal, q(v), q(d), False, f"{v} {d} {unit}")
        ctx.nontrivial("value", v, unit)
    elif r < 0.65:
        idx = gen.index(rng, size="s")
        sib = gen.sibling(rng, idx)[0]
        same = lambda x, y: x.freq == y.freq and x.sod == y.sod and x.tz == y.tz  # noqa
        ctx.case(idx=str(idx), other=str(sib))
        for x, y in ((idx, idx), (idx, sib)):
            judge(ctx, T.assert_indices_compatible, x.pd, y.pd, same(x, y), f"{x} {y}")
        ctx.nontrivial("index", idx.freq, sib.freq, idx.tz, sib.tz)
    else:
        idx = gen.index(rng, freqs=cal.FREQS, size="s")
        m = gen.flat(rng, "all", idx)
        w, q, p, rr = (m.series(c, True) for c in "wqpr")
        ctx.case(idx=str(idx))

        def passes(fn, *a):
            try:
                fn(*a)
                return True
            except AssertionError:
                return False

        ctx.check(passes(T.assert_p_q_r_compatible, rr, p, q), "consistent-fails", "r = p * q, but assert_p_q_r_compatible fails")
        k = rng.randrange(idx.n)
        bad = rr.copy()
        bad.iloc[k] = pf.Q_(m.r[k] * 1.01 + (1.0 if m.r[k] >= 0 else -1.0), "Eur")
        ctx.check(not passes(T.assert_p_q_r_compatible, bad, p, q), "inconsistent-passes", lambda: f"r off in period {k}, but assert_p_q_r_compatible passes")
        ctx.check(passes(T.assert_w_q_compatible, idx.freq, w, q), "consistent-fails", lambda: f"q = w * duration ({idx}), but assert_w_q_compatible fails")
        bad = q.copy()
        bad.iloc[k] = pf.Q_(m.q[k] * 1.2 + (1.0 if m.q[k] >= 0 else -1.0), "MWh")
        ctx.check(not passes(T.assert_w_q_compatible, idx.freq, w, bad), "inconsistent-passes", lambda: f"q off in period {k}, but assert_w_q_compatible passes")
        ctx.saw("equal")
        ctx.saw("unequal")
        ctx.nontrivial("wqpr", idx.freq, idx.n)
