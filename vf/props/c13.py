"""C13: weighted averages. Random values and (exactly representable) weights in every container
form are averaged by the library; an independent implementation of the documented rules is the
oracle. Order of values, common factor in weights, and form of the weights must not matter.
"""
import math
from fractions import Fraction

import gen
import numpy as np
import obs
import pandas as pd
from core import scenario

import portfolyo as pf
from portfolyo import tools

RULE = "random values x weights (zero, negative, cancelling, NaN values) x container/unit/axis; distinct by values, weights, form"
ASSUMPTIONS = ["the weighted average of a series (not a dataframe) with only zero weights is not judged"]
FACT = {None: {None: 1.0}, **{k: gen.FACTORS[k] for k in "wqpr"}}


def rule(vals, weights):
    """Documented rules. Returns (value, why)."""
    vw = [(v, w) for v, w in zip(vals, weights)]
    use = [(v, w) for v, w in vw if w != 0]
    if not use:
        use, kind = vw, "all weights zero"
    else:
        kind = "normal"
    if any(math.isnan(v) for v, _ in use):
        return math.nan, "NaN with weight" if kind == "normal" else kind + " NaN"
    tot = sum(Fraction(w) for _, w in use)
    if tot == 0:
        if len({v for v, _ in use}) == 1:
            return use[0][0], kind + " identical" if kind != "normal" else "sum zero identical"
        return math.nan, kind + " distinct" if kind != "normal" else "sum zero distinct"
    return float(sum(Fraction(v) * Fraction(w) for v, w in use) / tot), kind


def weights(rng, n):
    """Dyadic weights, of all kinds."""
    st = rng.choice(["pos", "mixed", "mixed", "somezero", "somezero", "cancel", "cancel", "same", "allzero", "one"])
    w = [rng.choice([0.25, 0.5, 1, 1, 2, 3, 7, 10, 100]) for _ in range(n)]
    if st == "mixed":
        w = [x * rng.choice([1, -1]) for x in w]
    elif st == "somezero":
        w = [x * rng.choice([1, 1, 0, -1]) for x in w]
    elif st == "cancel" and n > 1:
        w = [x * rng.choice([1, -1, 0]) for x in w]
        w[-1] = 0.0
        w[-1] = -sum(w)
        rng.shuffle(w)
    elif st == "same":
        w = [rng.choice([1.0, -2.0, 3.5])] * n
    elif st == "allzero":
        w = [0.0] * n
    elif st == "one":
        w = [0.0] * n
        w[rng.randrange(n)] = rng.choice([1.0, -3.0])
    return [float(x) for x in w]


def vals(rng, n):
    st = rng.choice(["any", "any", "ints", "same", "nan", "nan", "samenan", "big"])
    if st in ("same", "samenan"):
        v = [float(rng.randrange(-9, 9))] * n
        if n > 1 and rng.random() < 0.4:
            v[rng.randrange(n)] += rng.choice([1, -1, 0.5])
    elif st == "ints":
        v = [float(rng.randrange(-20, 50)) for _ in range(n)]
    else:
        v = [rng.uniform(-50, 120) * (1e6 if st == "big" else 1) for _ in range(n)]
    if st.endswith("nan"):
        for _ in range(rng.choice([1, 1, 2])):
            v[rng.randrange(n)] = math.nan
    return v


def elem(ctx, x, unit, col, key):
    if isinstance(x, pf.Q_):
        if math.isnan(x.magnitude):  # unit of undefined value is not judged
            return math.nan
        if unit is None:
            if str(x.units) in ("", "dimensionless"):
                return float(x.magnitude)
            ctx.fail(f"{key}:unit", f"got {x!r} for numbers without unit")
        return float(x.to(unit).magnitude)
    x = float(x)
    if unit is not None and not math.isnan(x):
        ctx.fail(f"{key}:unit", f"unit was lost: {x!r}, expected in {unit}")
    return x


def eq(a, b, sc):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= 1e-9 * max(sc, abs(a), abs(b))


def amp(v, w):
    """Size of largest term of the sum."""
    t = abs(float(sum(Fraction(x) for x in w)))
    a = np.abs(np.nan_to_num(np.array(v, float)))
    if t == 0:
        return float(a.max(initial=1e-12))
    return float(max((a * np.abs(np.array(w)) / t).max(initial=0), a.max(initial=0), 1e-12))


def pick(s, unit):
    return s if unit is None else s.astype(f"pint[{unit}]")


def form_weights(rng, w, labels, wunit):
    """Weights in any of the forms that mean the same."""
    f = rng.choice(["list", "tuple", "array", "dict", "series", "shuffled", "pint", "objects", "intlist", "generator"])
    if f == "list":
        return list(w), f
    if f == "tuple":
        return tuple(w), f
    if f == "array":
        return np.array(w), f
    if f == "generator":
        return pd.Index(w), f
    if f == "intlist" and all(float(x).is_integer() for x in w):
        return [int(x) for x in w], f
    perm = list(range(len(w)))
    rng.shuffle(perm)
    if f == "dict":
        return {labels[k]: w[k] for k in perm}, f
    if f == "series":
        return pd.Series(w, labels), f
    s = pd.Series([w[k] for k in perm], [labels[k] for k in perm])
    if f == "pint":
        return s.astype(f"pint[{wunit}]"), f
    if f == "objects":
        return pd.Series([pf.Q_(x, wunit) for x in s], s.index), f
    return s, f


def labels_of(rng, n):
    return list(rng.choice([
        [f"c{k}" for k in range(n)],
        list(range(10, 10 + n)),
        list(pd.date_range("2024-03-30", periods=n, freq="D", tz=rng.choice([None, "Europe/Berlin"]))),
        [(k // 2, k % 2) for k in range(n)] if n > 9 else [chr(97 + k) for k in range(n)],
    ]))  # fmt: skip


@scenario(quick=2600, must=["series averaged", "rule: normal", "rule: NaN with weight", "rule: sum zero identical", "rule: sum zero distinct", "more weights than values"])
def series(ctx):
    rng = ctx.rng
    n = rng.randrange(1, 7)
    v, w = vals(rng, n), weights(rng, n)
    col = rng.choice([None, None, "w", "q", "p", "r"])
    unit = rng.choice(list(FACT[col]))
    wunit = rng.choice(["h", "MWh", "Eur/kWh", "min", "dimensionless"])
    labels = labels_of(rng, n)
    s = pick(pd.Series(v, labels), unit)
    if unit is None and not any(map(math.isnan, v)) and all(x.is_integer() for x in v) and rng.random() < 0.5:
        s = s.astype(int)
    exp, why = rule(v, w)
    ww, f = form_weights(rng, w, labels, wunit)
    ctx.case(values=v, weights=w, unit=unit, form=f)
    fn = rng.choice([tools.wavg.general, tools.wavg.series])
    judged = any(w)
    fp, fpw = obs.fingerprint(s), obs.fingerprint(ww)
    r = fn(s, ww)
    ctx.check(obs.fingerprint(s) == fp and obs.fingerprint(ww) == fpw, "operands", "values or weights were changed")
    if judged:
        got = elem(ctx, r, unit, col, "series")
        ctx.check(eq(got, exp, amp(v, w)), "series:value", lambda: f"got {r!r}, expected {exp} {unit} ({why})")
        ctx.saw("series averaged")
        ctx.saw("rule: " + why)
        # order of the values
        perm = list(range(n))
        rng.shuffle(perm)
        got = elem(ctx, fn(s.iloc[perm], [w[k] for k in perm]), unit, col, "series")
        ctx.check(eq(got, exp, amp(v, w)), "series:order", lambda: f"other order gives {got}, expected {exp}")
        # common factor
        c = rng.choice([2.0, 0.5, -1.0, 1024.0, -0.25])
        ww, f = form_weights(rng, [x * c for x in w], labels, wunit)
        got = elem(ctx, fn(s, ww), unit, col, "series")
        ctx.check(eq(got, exp, amp(v, w)), "series:factor", lambda: f"factor {c} in weights ({f}) gives {got}, expected {exp}")
        # fewer weights than values: other values are ignored
        if n > 2:
            k = rng.randrange(1, n)
            sel = rng.sample(range(n), k)
            e, _ = rule([v[j] for j in sel], [w[j] for j in sel])
            if any(w[j] for j in sel):
                got = elem(ctx, fn(s, {labels[j]: w[j] for j in sel}), unit, col, "series")
                ctx.check(eq(got, e, amp([v[j] for j in sel], [w[j] for j in sel])), "series:subset", lambda: f"weights for {sel}: {got}, expected {e}")
    # more weights than values
    ctx.raises("more-weights", lambda: fn(s, {**dict(zip(labels, w)), "other": 1.0}), "weight without value")
    ctx.saw("more weights than values")
    if not any(map(math.isnan, v)):
        got = elem(ctx, fn(s), unit, col, "unweighted")
        ctx.check(eq(got, math.fsum(v) / n, amp(v, [1.0] * n)), "unweighted", lambda: f"{got}, expected mean of {v}")
    ctx.nontrivial(v, w, unit, f)


@scenario(quick=1500, must=["frames averaged", "elements averaged", "rule: normal", "rule: NaN with weight", "rule: sum zero identical", "rule: sum zero distinct", "rule: all weights zero identical", "rule: all weights zero distinct", "weights per element"])
def frames(ctx):
    rng = ctx.rng
    nr, nc = rng.randrange(1, 6), rng.randrange(1, 5)
    axis = rng.choice([0, 1])
    n, k = (nr, nc) if axis == 0 else (nc, nr)  # values per average; number of averages
    perelem = rng.random() < 0.5
    shuffle = rng.random() < 0.4
    V = [vals(rng, n) for _ in range(k)]
    W1 = weights(rng, n)
    W = [weights(rng, n) for _ in range(k)] if perelem else [W1] * k
    # units: per column
    if axis == 1:
        col = rng.choice([None, "w", "q", "p", "r"])
        cu = [(col, rng.choice(list(FACT[col]))) for _ in range(nc)]
        if rng.random() < 0.6 or (col and any(rule(v, w)[1].startswith(("sum zero", "all")) for v, w in zip(V, W))):
            cu = [cu[0]] * nc
    else:
        col = rng.choice([None, "w", "q", "p", "r"])
        cu = [(col, rng.choice(list(FACT[col])))] * nc
        if rng.random() < 0.5:  # other dimensions
            cu = [(c, rng.choice(list(FACT[c]))) for c in (rng.choice([None, "w", "q", "p", "r"]) for _ in range(nc))]
    rows, cols = labels_of(rng, nr), [f"C{j}" for j in range(nc)]
    if shuffle:
        rng.shuffle(rows)
        rng.shuffle(cols)
    A = np.array(V).T if axis == 0 else np.array(V)
    B = np.array(W).T if axis == 0 else np.array(W)
    df = pd.DataFrame({c: pick(pd.Series(A[:, j], rows), cu[j][1]) for j, c in enumerate(cols)})
    wunit = rng.choice([None, None, "h", "MWh"])
    avg_labels = rows if axis == 0 else cols
    if perelem:
        wd = pd.DataFrame(B, rows, cols)
        if rng.random() < 0.5:
            wd = wd.iloc[:, rng.sample(range(nc), nc)]
        if wunit:
            wd = wd.astype(f"pint[{wunit}]")
        ww, f = wd, f"frame {wunit}"
        ctx.saw("weights per element")
    else:
        ww, f = form_weights(rng, W1, avg_labels, wunit or "h")
    ctx.case(axis=axis, values=V, weights=W if perelem else W1, units=cu, form=f)
    fp, fpw = obs.fingerprint(df), obs.fingerprint(ww)
    fn = rng.choice([tools.wavg.general, tools.wavg.dataframe])
    r = fn(df, ww, axis)
    ctx.check(obs.fingerprint(df) == fp and obs.fingerprint(ww) == fpw, "operands", "values or weights were changed")
    ctx.check(isinstance(r, pd.Series), "frame:type", lambda: type(r).__name__)
    outl = cols if axis == 0 else rows
    ctx.check((list(r.index) == list(outl) or (perelem and axis == 0)) and sorted(map(str, r.index)) == sorted(map(str, outl)), "frame:index", lambda: f"index {list(r.index)}, expected {outl}")
    for j, lab in enumerate(outl):
        if axis == 0:
            unit = cu[j][1]
            v = V[j]
        else:  # values of one row: in unit of first column
            unit = cu[0][1]
            v = [x * FACT[cu[c][0]][cu[c][1]] / FACT[cu[0][0]][unit] for c, x in enumerate(V[j])] if len(set(cu)) > 1 else V[j]
        e, why = rule(v, W[j])
        got = elem(ctx, r.loc[lab], unit, None, "frame")
        ctx.check(eq(got, e, amp(v, W[j])), "frame:value", lambda: f"axis {axis}, {lab}: got {r.loc[lab]!r}, expected {e} {unit} ({why}: values {v} weights {W[j]})")
        ctx.saw("elements averaged")
        ctx.saw("rule: " + why)
    ctx.saw("frames averaged")
    # same as series by series
    if any(W1) and not perelem:
        j = rng.randrange(k)
        unit = cu[j][1] if axis == 0 else cu[0][1]
        if axis == 0 or len(set(cu)) == 1:
            s = pick(pd.Series(V[j], avg_labels), unit)
            a = elem(ctx, tools.wavg.series(s, W1), unit, None, "versus")
            b = elem(ctx, r.loc[outl[j]], unit, None, "versus")
            ctx.check(eq(a, b, amp(V[j], W1)), "frame-vs-series", lambda: f"{a} for series, {b} in frame")
    ctx.nontrivial(axis, V, W, repr(cu), f)
