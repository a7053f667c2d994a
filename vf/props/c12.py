"""C12: units. Quantities, series (float, integer, pint, objects, mixed units), dataframes and
dictionaries in random units are handed to the unit tools and to the portfolio line
constructor; what comes back is compared with an independent conversion table. Values of
another dimension must be refused. Names are judged for random composite units.
"""
import gen
import numpy as np
import obs
import pandas as pd
from core import scenario

import portfolyo as pf
from portfolyo.tools import unit as U

RULE = "random magnitudes x all units of a table (prefixes, aliases, spelling, composites) x container; distinct by (dimension, unit, container, values)"

F = {k: dict(v) for k, v in gen.FACTORS.items()}
F["w"].update({"megawatt": 1, "kilowatt": 1e-3, "Watt": 1e-6, "KW": 1e-3, "gigawatt": 1e3, "terrawatt": 1e6, "MWh/h": 1, "GJ/h": 1 / 3.6, "kJ/s": 1e-3, "kWh/min": 0.06})
F["q"].update({"megawatthour": 1, "KWH": 1e-3, "gigawatthour": 1e3, "terrawatthour": 1e6, "Joule": 1 / 3.6e9, "W*s": 1 / 3.6e9, "MW*min": 1 / 60, "tonne_oil_equiv": 11.63, "ktce": 6978})
F["p"].update({"euro_per_MWh": 1, "EUR/MWH": 1, "cent_per_kWh": 10, "euro/kWh": 1e3, "ct/MJ": 36, "Eur/(MW*h)": 1, "Eur/toe": 1 / 11.63, "Eur/MJ": 3600, "kEur/(GW*h)": 1})
F["r"].update({"EUR": 1, "eurocent": 1e-2, "cents": 1e-2, "cEur": 1e-2, "c€": 1e-2, "ct€": 1e-2, "kiloEur": 1e3, "Eur/kWh*MWh": 1e3, "GEur": 1e9})
F["duration"].update({"hr": 1, "hours": 1, "minute": 1 / 60, "minutes": 1 / 60, "sec": 1 / 3600, "second": 1 / 3600, "MWh/kW": 1e3, "kh": 1e3})
F["t"] = {"degC": 1}
F["nodim"] = {"": 1, "dimensionless": 1, "MWh/GWh": 1e-3, "kW/MW": 1e-3, "Eur/ct": 100, "h/min": 60}
DEF = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur", "duration": "h", "t": "degC", "nodim": ""}


def mag_of(rng):
    return rng.choice([lambda: rng.uniform(-1e3, 1e3), lambda: float(rng.randrange(-50, 50)), lambda: rng.randrange(-50, 50), lambda: 10 ** rng.uniform(-6, 9), lambda: 0.0, lambda: 0, lambda: float("nan")])()


def same(a, b):
    return gen.close([a], [b], 1e-9)


def in_default(ctx, q, name, key):
    """Magnitude of something that must be in the default unit."""
    if name == "nodim":
        if isinstance(q, pf.Q_):
            ctx.check(str(q.units) in ("", "dimensionless"), f"{key}:unit", f"{q!r} is not dimensionless")
            return float(q.magnitude)
        return float(q)
    ctx.check(isinstance(q, pf.Q_), f"{key}:type", lambda: f"{name}: {q!r} is no quantity")
    f = pf.Q_(1.0, q.units).to(DEF[name]).magnitude
    ctx.check(abs(f - 1) < 1e-12, f"{key}:unit", lambda: f"{q.units} is not the default unit for {name}")
    return float(q.magnitude)


@scenario(quick=5000, must=["quantities converted", "plain numbers"])
def quantities(ctx):
    rng = ctx.rng
    name = rng.choice(list(F))
    u = rng.choice(list(F[name]))
    m = mag_of(rng)
    ctx.case(name=name, unit=u, magnitude=m)
    q = pf.Q_(m, u)
    exp = m * F[name][u]
    got = U.defaultunit(q)
    ctx.check(same(in_default(ctx, got, name, "defaultunit"), exp), "defaultunit:value", lambda: f"{q!r} became {got!r}, expected {exp} {DEF[name]}")
    ctx.check(q.magnitude is m or q.magnitude == m, "operand", "quantity was changed")
    ctx.check(U.to_name(q.units) == name, "to_name", lambda: f"{u}: {U.to_name(q.units)}, expected {name}")
    ctx.check(abs(pf.Q_(1.0, U.from_name(name)).to(DEF[name] or "dimensionless").magnitude - 1) < 1e-12, "from_name", lambda: f"{name}: {U.from_name(name)}")
    a, b = U.split_magn_unit(q)
    back = a if b is None else pf.Q_(a, b)
    ctx.check(same(in_default(ctx, back, name, "split"), exp), "split:value", lambda: f"{q!r} split into {a!r}, {b!r}")
    # twice is once
    ctx.check(same(in_default(ctx, U.defaultunit(got), name, "twice"), exp), "defaultunit:twice", lambda: repr(got))
    # default unit and back to original unit
    if name != "nodim":
        ctx.check(same(got.to(u).magnitude, m), "back", lambda: f"{got!r} in {u}: {got.to(u)!r}, was {m}")
    # quantities that are written as text
    if isinstance(m, float) and m == m and u and not u.startswith(("€", "c€", "ct€")):
        t = pf.Q_(f"{m!r} * {u}" if rng.random() < 0.5 else f"{m!r} {u}")
        ctx.check(same(in_default(ctx, U.defaultunit(t), name, "text"), exp), "text:value", lambda: f"{m!r} {u} was read as {t!r}")
    ctx.saw("quantities converted")
    # a second quantity of the same dimension is comparable and addable, one of another is not
    u2 = rng.choice(list(F[name]))
    m2 = mag_of(rng)
    tot = U.defaultunit(q + pf.Q_(m2, u2))
    ctx.check(same(in_default(ctx, tot, name, "add"), exp + m2 * F[name][u2]) or abs(exp) < 1e-9 * abs(m2 * F[name][u2]), "add:value", lambda: f"{q!r} + {m2} {u2} = {tot!r}")
    other = rng.choice([n for n in F if n != name])
    o = pf.Q_(m2, rng.choice(list(F[other])))
    if {name, other} != {"nodim", None}:
        ctx.raises("add-other", lambda: q + o, lambda: f"{q!r} + {o!r}")
    x = mag_of(rng)
    d = U.defaultunit(x)
    ctx.check(type(d) is float and same(d, float(x)), "number", lambda: f"{x!r} became {d!r}")
    ctx.check(U.split_magn_unit(x)[1] is None, "number-split", lambda: f"{x!r}")
    ctx.saw("plain numbers")
    ctx.nontrivial(name, u, m)


def series_of(rng, name, n, i):
    """Series (some form) and the magnitudes in default unit."""
    form = rng.choice(["pint", "pint", "pintint", "objects", "mixed"])
    us = list(F[name])
    v = gen.values(rng, n, rng.choice(["mixed", "ints", "ints", "zeros", "const", "small"]))
    u = rng.choice(us)
    if form == "pint" or name == "nodim":
        return pd.Series(v, i).astype(f"pint[{u or 'dimensionless'}]"), v * F[name][u], form
    if form == "pintint":
        v = np.round(v)
        return pd.Series(v.astype("int64"), i).astype(f"pint[{u}]"), v * F[name][u], form
    if form == "objects":
        return pd.Series([pf.Q_(float(x), u) for x in v], i), v * F[name][u], form
    uu = [rng.choice(us) for _ in range(n)]
    return pd.Series([pf.Q_(float(x), w) for x, w in zip(v, uu)], i), np.array([x * F[name][w] for x, w in zip(v, uu)]), form


def judge_series(ctx, s, i, name, exp, key):
    ctx.check(isinstance(s, pd.Series) and list(s.index) == list(i), f"{key}:index", lambda: f"{type(s).__name__}")
    if name in ("nodim", "plain"):
        a = np.asarray(s.pint.magnitude if hasattr(s, "pint") and str(s.dtype).startswith("pint") else s, float)
        if str(s.dtype).startswith("pint"):
            a = a * pf.Q_(1.0, s.pint.units).to("dimensionless").magnitude
    else:
        ctx.check(str(s.dtype).startswith("pint"), f"{key}:dtype", lambda: f"{name}: {s.dtype}")
        f = pf.Q_(1.0, s.pint.units).to(DEF[name]).magnitude
        ctx.check(abs(f - 1) < 1e-12, f"{key}:unit", lambda: f"{s.pint.units} for {name}")
        a = np.asarray(s.pint.magnitude, float)
    ctx.check(gen.close(a, exp, 1e-9), f"{key}:values", lambda: f"{name}: " + gen.worst(a, exp))
    ctx.saw("values converted", len(exp))


@scenario(quick=900, must=["values converted", "frames", "mixed dimensions"])
def series(ctx):
    rng = ctx.rng
    n = rng.randrange(1, 6)
    i = rng.choice([pd.RangeIndex(n), pd.Index(list("abcdef")[:n]), pd.date_range("2024-03-30", periods=n, freq="D", tz=rng.choice([None, "Europe/Berlin"]))])
    name = rng.choice(list(F))
    s, exp, form = series_of(rng, name, n, i)
    ctx.case(name=name, form=form, values=repr(list(s.values))[:300])
    fp = obs.fingerprint(s)
    judge_series(ctx, U.defaultunit(s), i, name, exp, "defaultunit")
    a, b = U.split_magn_unit(s)
    back = a if b is None else a.astype(f"pint[{b:P}]")
    judge_series(ctx, back, i, name, exp, "split")
    av = U.avoid_frame_of_objects(s)
    ctx.check(str(av.dtype).startswith("pint"), "avoid:dtype", lambda: f"{form} -> {av.dtype}")
    judge_series(ctx, U.defaultunit(av), i, name, exp, "avoid")
    ctx.check(obs.fingerprint(s) == fp, "operand", "series was changed")
    # several columns of different dimensions
    cols = {"A": (s, exp, name)}
    for c in rng.sample("BCD", rng.randrange(1, 3)):
        if rng.random() < 0.3:
            v = gen.values(rng, n, "ints")
            cols[c] = (pd.Series(v.astype(rng.choice(["int64", float])), i), v, "plain")
        else:
            n2 = rng.choice(list(F))
            s2, e2, _ = series_of(rng, n2, n, i)
            cols[c] = (s2, e2, n2)
    df = pd.DataFrame({c: x[0] for c, x in cols.items()})
    got, got2 = U.defaultunit(df), U.avoid_frame_of_objects(df)
    ctx.check(list(got.columns) == list(cols) == list(got2.columns), "frame:columns", lambda: f"{list(got.columns)}")
    for c, (_, e, nm) in cols.items():
        judge_series(ctx, got[c], i, nm, e, "frame")
        judge_series(ctx, U.defaultunit(got2[c]), i, nm, e, "frame-avoid")
    ctx.saw("frames")
    # dimensions that cannot be one series
    if n > 1:
        n1, n2 = rng.sample([x for x in F if x != "nodim"], 2)
        names = [n1, n2] + [rng.choice([n1, n2]) for _ in range(n - 2)]
        rng.shuffle(names)
        qq = [(rng.uniform(1, 9), rng.choice(list(F[x]))) for x in names]
        mix = pd.Series([pf.Q_(v, u) for v, u in qq], i)
        ctx.raises("avoid-mixed", lambda: U.avoid_frame_of_objects(mix), lambda: f"{list(mix)}")
        d = U.defaultunit(mix)
        m, u = U.split_magn_unit(mix)
        for k, (nm, (v, un)) in enumerate(zip(names, qq)):
            e = v * F[nm][un]
            ctx.check(same(in_default(ctx, d.iloc[k], nm, "mixed"), e), "mixed:value", lambda: f"{mix.iloc[k]!r} became {d.iloc[k]!r}")
            ctx.check(same(in_default(ctx, pf.Q_(m.iloc[k], u.iloc[k]), nm, "mixed-split"), e), "mixed-split:value", lambda: f"{mix.iloc[k]!r} became {m.iloc[k]!r} {u.iloc[k]!r}")
        ctx.saw("mixed dimensions")
    ctx.nontrivial(name, form, exp.tobytes(), str(i.dtype))


@scenario(quick=4000, must=["units named", "units without name", "rejections demanded"])
def names(ctx):
    """A composite unit has a standard name exactly if its dimension is a standard one."""
    rng = ctx.rng
    std = {"w": (1, -1, 0), "q": (1, 0, 0), "p": (-1, 0, 1), "r": (0, 0, 1), "duration": (0, 1, 0), "nodim": (0, 0, 0)}
    E = {"MWh": (1, 0, 0), "kWh": (1, 0, 0), "J": (1, 0, 0), "GW": (1, -1, 0), "W": (1, -1, 0), "h": (0, 1, 0), "min": (0, 1, 0), "Eur": (0, 0, 1), "ctEur": (0, 0, 1), "Eur/kWh": (-1, 0, 1)}
    if rng.random() < 0.5:
        want = rng.choice(list(std.values()))
        parts = [("MWh", want[0]), ("h", want[1]), ("Eur", want[2])]
        for _ in range(rng.randrange(0, 3)):  # add dimensions and compensate for them
            x = rng.choice(list(E))
            e = rng.choice([-1, 1])
            parts += [(x, e)] + [(b, -e * k) for b, k in zip(("kWh", "min", "ctEur"), E[x])]
    else:
        parts = [(rng.choice(list(E)), rng.choice([-2, -1, 1, 1, 2])) for _ in range(rng.randrange(1, 4))]
    rng.shuffle(parts)
    txt = " * ".join(f"({u})**({e})" for u, e in parts if e) or "dimensionless"
    dim = tuple(sum(E[u][k] * e for u, e in parts) for k in range(3))
    ctx.case(unit=txt)
    u = pf.Q_(1.0, "dimensionless").units
    for x, e in parts:
        if e:
            u = u * pf.Unit(x) ** e
    exp = next((n for n, d in std.items() if d == dim), None)
    if exp is not None:
        got = U.to_name(u)
        ctx.check(got == exp, "to_name", lambda: f"{txt}: {got}, expected {exp}")
        ctx.saw("units named")
    else:
        ctx.raises("to_name", lambda: U.to_name(u), txt)
        ctx.saw("units without name")
    ctx.raises("from_name", lambda: U.from_name(rng.choice(["W", "x", "power", "", "wq", "MWh", None])), "from_name")
    ctx.nontrivial(txt)


@scenario(quick=500, must=["lines compared with model", "rejections demanded"])
def lines(ctx):
    """Units of data from which a portfolio line is made."""
    rng = ctx.rng
    idx = gen.index(rng, size="s", freqs=["h", "D", "MS", "QS", "YS"])
    kind = rng.choice(gen.KINDS)
    m = gen.flat(rng, kind, idx, rng.choice(["mixed", "nonzero", "ints"]) if kind != "all" else "nonzero")
    cols = rng.choice({"vol": ["w", "q"], "pri": ["p"], "rev": ["r"], "all": ["wp", "qp", "wr", "qr", "pr"]}[kind])
    i = idx.pd
    data, units = {}, {}
    const = None
    for c in cols:
        v = getattr(m, c)
        u = rng.choice([x for x in F[c]])
        form = rng.choice(["pint", "objects", "mixed", "float"])
        units[c] = (form, u)
        if form == "float":
            data[c] = pd.Series(v.copy(), i)
        elif form == "pint":
            data[c] = pd.Series(v / F[c][u], i).astype(f"pint[{u}]")
        elif form == "objects":
            data[c] = pd.Series([pf.Q_(float(x) / F[c][u], u) for x in v], i)
        else:
            uu = [rng.choice(list(F[c])) for _ in v]
            data[c] = pd.Series([pf.Q_(float(x) / F[c][w], w) for x, w in zip(v, uu)], i)
    if len(cols) == 2 and rng.random() < 0.4:  # one of them a single quantity
        c = cols[rng.randrange(2)]
        u = rng.choice(list(F[c]))
        const = rng.choice([rng.uniform(1, 9), float(rng.randrange(1, 9)), -rng.uniform(1, 9)])
        data[c] = pf.Q_(const / F[c][u], u)
        units[c] = ("quantity", u)
        kw = {x: (np.full(idx.n, const) if x == c else getattr(m, x)) for x in cols}
        if "p" in kw and "r" in kw:
            kw = {"q": kw["r"] / kw["p"], **kw}
        m = gen.Flat("all", idx, **kw)
    ctx.case(index=repr(idx), kind=kind, units=units)
    with_unit = all(f != "float" for f, _ in units.values())
    how = rng.choice(["dict", "dict", "frame", "bare"])
    if how == "frame" and const is None:
        arg = pd.DataFrame(data)
    elif how == "bare" and with_unit:
        arg = list(data.values())
        arg = arg[0] if len(arg) == 1 else arg
    else:
        arg = data
    obs.judge_equals(ctx, pf.PfLine(arg), m, "line", rtol=1e-8, price_where_q0=False)
    # the same magnitudes with a unit of another dimension
    c = rng.choice(cols)
    d = rng.choice([x for x in ("w", "q", "p", "r", "duration", "t", "nodim") if x != c])
    u = rng.choice(list(F[d])) or "dimensionless"
    bad = pd.Series(np.asarray(getattr(m, c)), i).astype(f"pint[{u}]")
    if rng.random() < 0.5:
        bad = pd.Series([pf.Q_(float(x), u) for x in getattr(m, c)], i)
    ctx.raises("wrong-dimension", lambda: pf.PfLine({**data, c: bad}), lambda: f"{c} in {u}")
    if d in ("duration", "t", "nodim"):
        ctx.raises("no-line-dimension", lambda: pf.PfLine(bad), lambda: f"series in {u}")
    ctx.nontrivial(idx.key(), cols, repr(units))
