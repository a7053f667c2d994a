"""C29: filling gaps. Series and dataframes with random gap patterns; every single position of
the result is judged: filled by linear interpolation in time, still missing, or unchanged.
"""
import gen
import numpy as np
import obs
import pandas as pd
from core import scenario

from portfolyo import tools

RULE = "random values x gap pattern (leading, trailing, runs around maxgap) x index (regular, irregular, DST, numbers); distinct by pattern, maxgap, index"


def pattern(rng, n, maxgap):
    """Boolean array: missing."""
    st = rng.choice(["runs", "runs", "runs", "random", "all", "none", "one"])
    if st == "all":
        return np.ones(n, bool)
    if st == "none":
        return np.zeros(n, bool)
    if st == "random":
        p = rng.random()
        return np.array([rng.random() < p for _ in range(n)])
    if st == "one":
        m = np.ones(n, bool)
        m[rng.randrange(n)] = False
        return m
    out = []
    gap = rng.random() < 0.4
    while len(out) < n:
        k = rng.choice([1, 1, 2, max(1, maxgap - 1), max(1, maxgap), maxgap + 1, maxgap + 2]) if gap else rng.choice([1, 1, 1, 2, 3])
        out += [gap] * k
        gap = not gap
    return np.array(out[:n])


def reference(v, x, maxgap):
    """Result, and what happened with each position."""
    n = len(v)
    out, why = v.copy(), [""] * n
    miss = np.isnan(v)
    k = 0
    while k < n:
        if not miss[k]:
            why[k] = "kept"
            k += 1
            continue
        e = k
        while e < n and miss[e]:
            e += 1
        if k == 0 or e == n:
            w = "edge"
        elif e - k > maxgap:
            w = "long"
        else:
            w = "filled"
            for j in range(k, e):
                out[j] = v[k - 1] + (v[e] - v[k - 1]) * ((x[j] - x[k - 1]) / (x[e] - x[k - 1]))
        for j in range(k, e):
            why[j] = w
        k = e
    return out, why


def an_index(rng, n):
    kind = rng.choice(["freq", "freq", "irregular", "numbers", "nofreq"])
    if kind == "numbers":
        x = np.cumsum([rng.choice([1, 1, 2, 5]) for _ in range(n)])
        return pd.Index(x), x.astype(float), kind
    if kind == "irregular":
        s = np.cumsum([rng.choice([900, 3600, 3600, 86400]) for _ in range(n)]) + 1_711_800_000
        i = gen.mk_index(s, rng.choice([None, "Europe/Berlin", "UTC"]))
        return i, s.astype(float), kind
    idx = gen.index(rng, size="m")
    while idx.n < n:
        idx = gen.index(rng, size="l")
    st = rng.randrange(idx.n - n + 1)
    i = idx.pd[st : st + n]
    if kind == "nofreq":
        i = pd.DatetimeIndex(i, freq=None)
    return i, np.array(idx.left[st : st + n], float), f"{kind} {idx.freq} {idx.tz}"


def judge(ctx, s, got, v, x, maxgap, key):
    exp, why = reference(v, x, maxgap)
    ctx.check(isinstance(got, pd.Series) and got.index.equals(s.index), f"{key}:index", lambda: type(got).__name__)
    ctx.check(got.dtype == s.dtype, f"{key}:dtype", lambda: f"{s.dtype} became {got.dtype}")
    a = np.asarray(got.pint.magnitude if str(got.dtype).startswith("pint") else got, float)
    for k in range(len(v)):
        # computed from the two values around the gap
        sc = np.nanmax(np.abs(np.append(v, 1e-12)))
        ok = (np.isnan(a[k]) and np.isnan(exp[k])) or abs(a[k] - exp[k]) <= 1e-12 * sc
        ctx.check(ok, f"{key}:{why[k]}", lambda: f"position {k}: {v[k]} became {a[k]}, expected {exp[k]} ({why[k]}; maxgap {maxgap}; values {v})")
        ctx.saw("positions " + why[k])


@scenario(quick=2600, must=["positions filled", "positions kept", "positions long", "positions edge"])
def series(ctx):
    rng = ctx.rng
    maxgap = rng.choice([0, 1, 1, 2, 2, 3, 5, 10])
    n = rng.choice([1, 2, 3, 5, 8, 12, 20, 30])
    i, x, kind = an_index(rng, n)
    n = len(i)
    v = gen.values(rng, n, rng.choice(["mixed", "ints", "const", "small", "big", "zeros"]))
    m = pattern(rng, n, maxgap)
    v[m] = np.nan
    s = pd.Series(v.copy(), i, name=rng.choice([None, "w", "x"]))
    form = rng.choice(["float", "float", "pint"])
    if form == "pint":
        s = s.astype(rng.choice(["pint[MW]", "pint[Eur/kWh]", "pint[°C]" if False else "pint[degC]"]))
    ctx.case(index=kind, maxgap=maxgap, values=v.tolist(), form=form)
    fp = obs.fingerprint(s)
    got = tools.frame.fill_gaps(s) if maxgap == 2 and rng.random() < 0.5 else tools.frame.fill_gaps(s, maxgap)
    ctx.check(obs.fingerprint(s) == fp, "operand", "input was changed")
    judge(ctx, s, got, v, x, maxgap, "series")
    ctx.check(got.name == s.name, "name", lambda: f"{s.name} became {got.name}")
    ctx.nontrivial(kind, maxgap, v.tobytes(), form)


@scenario(quick=700, must=["positions filled", "positions kept", "frames"])
def frames(ctx):
    rng = ctx.rng
    maxgap = rng.choice([0, 1, 2, 3, 5])
    n = rng.choice([3, 8, 12, 20])
    i, x, kind = an_index(rng, n)
    cols = rng.sample(["w", "p", "A", 3, ("a", "b")], rng.randrange(1, 4))
    if ("a", "b") in cols:
        cols = [("a", "b"), ("a", "c"), ("d", "b")][: len(cols)]
    V = {}
    for c in cols:
        V[c] = gen.values(rng, len(i), rng.choice(["mixed", "ints", "const"]))
        V[c][pattern(rng, len(i), maxgap)] = np.nan
    df = pd.DataFrame({c: pd.Series(v.copy(), i, dtype=rng.choice([float, float, "pint[MW]"])) for c, v in V.items()})
    ctx.case(index=kind, maxgap=maxgap, columns=cols)
    fp = obs.fingerprint(df)
    got = tools.frame.fill_gaps(df, maxgap)
    ctx.check(obs.fingerprint(df) == fp, "operand", "input was changed")
    ctx.check(isinstance(got, pd.DataFrame) and list(got.columns) == list(df.columns) and got.index.equals(i), "frame:form", lambda: f"{list(got.columns)}")
    for c in cols:
        judge(ctx, df[c], got[c], V[c], x, maxgap, "frame")
    ctx.saw("frames")
    ctx.nontrivial(kind, maxgap, repr(cols), b"".join(v.tobytes() for v in V.values()))
