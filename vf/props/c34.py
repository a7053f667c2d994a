"""C34: operands and arguments in any form. Each operation of a portfolio line with another line
is repeated with the same operand in another form (timeseries in several units, single value with
unit, dictionary or dataframe of timeseries or constants, dictionary of lines), which must give
the same outcome as with the line - same values, same children, same index - or the same refusal.
"""
import operator

import gen
import numpy as np
import obs
import pandas as pd
from core import scenario

import alg
import portfolyo as pf

RULE = "random lines x operation x form of the operand; distinct by lines, operation and form"
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "|": operator.or_}
PAIRS = [("+", k, k) for k in gen.KINDS] + [("-", k, k) for k in gen.KINDS]
PAIRS += [("*", "vol", "pri"), ("*", "pri", "vol"), ("/", "rev", "vol"), ("/", "rev", "pri"), ("/", "vol", "vol"), ("/", "pri", "pri"), ("/", "rev", "rev")]
PAIRS += [("|", a, b) for a in ("vol", "pri", "rev") for b in ("vol", "pri", "rev") if a != b]
COLS = {"vol": ["w", "q"], "pri": ["p"], "rev": ["r"], "all": ["wp", "qp", "wr", "qr", "pr"]}


def outcome(fn):
    try:
        return fn()
    except Exception as e:  # judged below
        return e


def same(ctx, got, want, key, what):
    if isinstance(want, Exception):
        ctx.check(isinstance(got, Exception), f"{key}:not-refused", lambda: f"{what}: refused with a line ({want!r}), but gives {str(got)[:200]}")
        ctx.saw("refusals compared")
        return
    if isinstance(got, Exception):
        ctx.fail(f"{key}:refused", f"{what}: {got!r}, but works with a line")
    ctx.saw("outcomes compared")
    if isinstance(want, pd.Series):
        ctx.check(isinstance(got, pd.Series), f"{key}:type", lambda: f"{what}: {type(got).__name__}")
        ctx.check(gen.secs(got.index) == gen.secs(want.index) and str(got.index.tz) == str(want.index.tz) and got.index.freq == want.index.freq, f"{key}:index", lambda: f"{what}: {got.index}")
        x, y = (np.asarray(s.pint.to("").pint.magnitude if hasattr(s, "pint") else s, float) for s in (got, want))
        ctx.check(gen.close(x, y, 1e-8), f"{key}:ratio", lambda: f"{what}: " + gen.worst(x, y))
        return
    walk(ctx, got, want, key, what)


def walk(ctx, got, want, key, what):
    ctx.check(isinstance(got, pf.PfLine), f"{key}:type", lambda: f"{what}: {type(got).__name__}")
    ctx.check(obs.kind(got) == obs.kind(want) and obs.nested(got) == obs.nested(want), f"{key}:kind", lambda: f"{what}: {type(got).__name__} instead of {type(want).__name__}")
    ctx.check(gen.secs(got.index) == gen.secs(want.index) and str(got.index.tz) == str(want.index.tz) and got.index.freq == want.index.freq, f"{key}:index", lambda: f"{what}: {got.index}")
    q = obs.arr(ctx, want.q, "q") if obs.kind(want) == "all" else None
    for c in obs.AVAIL[obs.kind(want)]:
        x, y = (obs.arr(ctx, getattr(o, c), c) for o in (got, want))
        if c == "p" and q is not None:
            ok = np.abs(q) > 1e-7 * max(obs.top(q), 1e-300)
            x, y = x[ok], y[ok]
        ctx.check(gen.close(x, y, 1e-8, max(obs.top(x), obs.top(y), 1e-9)), f"{key}:{c}", lambda: f"{what}: {c}: " + gen.worst(x, y))
    if obs.nested(want):
        a, b = obs.children(got), obs.children(want)
        ctx.check(set(a) == set(b), f"{key}:children", lambda: f"{what}: {list(a)} instead of {list(b)}")
        for n in b:
            walk(ctx, a[n], b[n], key, f"{what}, child {n}")


def lines(rng, ka, kb):
    idx = gen.index(rng, size="s")
    st = lambda k: rng.choice(["pos", "nonzero", "big"]) if k == "all" else rng.choice([None, "pos"])  # noqa
    a = gen.line(rng, ka, idx, rng.choice([0, 0, 1, 2]), style=st(ka))
    jdx = idx if rng.random() < 0.5 else gen.subspan(rng, idx, rng.choice(["inside", "left", "right", "contain"]))[0]
    return idx, a, gen.flat(rng, kb, jdx, st(kb))


@scenario(quick=420, must=("outcomes compared", "series", "dict", "frame", "list", "reflected"))
def timeseries(ctx):
    rng = ctx.rng
    on, ka, kb = rng.choice(PAIRS)
    idx, a, b = lines(rng, ka, kb)
    cols = rng.choice(COLS[kb])
    i = b.idx.pd
    form = rng.choice(["series", "dict", "frame", "list"] if len(cols) == 1 else ["dict", "frame", "list"])
    loose = form in ("dict", "frame")
    data, how = {}, []
    for c in cols:
        # (with w and p, the timeseries needs a unit to be recognised as what it is)
        s, f = gen.dress(rng, c, getattr(b, c), i, None if loose else rng.choice(["pint", "unit", "objects"]))
        data[c] = s
        how.append(f"{c}:{f}")
    if form == "frame" and any(isinstance(s, pd.Series) and s.dtype == object for s in data.values()):
        form = "dict"
    x = {"series": lambda: data[cols], "dict": lambda: data, "frame": lambda: pd.DataFrame(data), "list": lambda: list(data.values())}[form]()
    ctx.saw(form)
    ctx.case(op=on, a=a.describe(), b=b.describe(), form=form, how=how)
    ctx.nontrivial(on, a.describe(), b.describe(), form, tuple(how))
    A, B = a.build(pf), b.build(pf)
    op = OPS[on]
    want = outcome(lambda: op(A, B))
    same(ctx, outcome(lambda: op(A, x)), want, f"{form}", f"{ka} {on} {kb} as {form} ({how})")
    if form in ("dict", "list") and on in "+*|" and not isinstance(want, Exception):
        if form == "dict":
            same(ctx, outcome(lambda: op(x, A)), outcome(lambda: op(B, A)), f"reflected-{form}", f"{kb} as {form} ({how}) {on} {ka}")
            ctx.saw("reflected")


def number(rng):
    return rng.choice([1.0, 2.0, 5.0, -3.0, 0.25, 12.5, 1000.0])


@scenario(quick=420, must=("outcomes compared", "constant int", "constant float", "constant quantity", "constant dict", "constant mixed", "reflected"))
def constants(ctx):
    """A single value stands for a line with that value in every period."""
    rng = ctx.rng
    on, ka, kb = rng.choice(PAIRS)
    idx, a, _ = lines(rng, ka, kb)
    cols = rng.choice(COLS[kb])
    vals = {c: number(rng) for c in cols}
    if cols == "pr" and vals["p"] < 0:
        vals["p"] = 2.0
    A = a.build(pf)
    i = A.index
    B = pf.PfLine({c: pd.Series(v, i) for c, v in vals.items()})

    def one(c, f):
        v = vals[c]
        if f == "int":
            return int(v) if v == int(v) else v
        if f == "quantity":
            u = rng.choice(list(gen.FACTORS[c]))
            return pf.Q_(v / gen.FACTORS[c][u], u)
        if f == "series":
            return pd.Series(v, i)
        return v

    form = rng.choice(["quantity", "dict", "dict", "dict", "mixed"])
    if form == "quantity" and len(cols) > 1:
        form = "dict"
    fs = [rng.choice(["int", "float", "quantity"] + (["series"] if form == "mixed" else [])) for c in cols]
    if form == "quantity":
        x, fs = one(cols, "quantity"), ["quantity"]
    else:
        x = {c: one(c, f) for c, f in zip(cols, fs)}
    for f in fs:
        ctx.saw(f"constant {f}")
    ctx.saw("constant " + form)
    ctx.case(op=on, a=a.describe(), kind=kb, x=str(x)[:200])
    ctx.nontrivial(on, a.describe(), str(vals), form, tuple(fs))
    op = OPS[on]
    want = outcome(lambda: op(A, B))
    same(ctx, outcome(lambda: op(A, x)), want, f"const-{form}", f"{ka} {on} {x}")
    if form != "quantity" and on in "+*|" and not isinstance(want, Exception):
        same(ctx, outcome(lambda: op(x, A)), outcome(lambda: op(B, A)), f"reflected-const-{form}", f"{x} {on} {ka}")
        ctx.saw("reflected")


@scenario(quick=200, must=("outcomes compared", "factor"))
def factors(ctx):
    """Dimensionless numbers, in any form."""
    rng = ctx.rng
    ka = rng.choice(gen.KINDS)
    idx, a, _ = lines(rng, ka, ka)
    v = rng.choice([2, -1, 3, 0.5, 10, 0.25])
    A = a.build(pf)
    form = rng.choice(["int", "float", "quantity", "energy", "dict", "series", "pint", "intseries", "dictseries"])
    s = pd.Series(float(v), A.index)
    x = {
        "int": lambda: int(v) if v == int(v) else v,
        "float": lambda: float(v),
        "quantity": lambda: pf.Q_(v, ""),
        "energy": lambda: pf.Q_(v * 1000.0, "kWh/MWh"),
        "dict": lambda: {"nodim": v},
        "series": lambda: s,
        "intseries": lambda: s.astype(int) if v == int(v) else s,
        "pint": lambda: s.astype("pint[dimensionless]"),
        "dictseries": lambda: {"nodim": s},
    }[form]()
    on = rng.choice("*/")
    ctx.case(op=on, a=a.describe(), form=form, v=v)
    ctx.nontrivial(on, a.describe(), form, v)
    f = float(v) if on == "*" else 1 / float(v)
    got = OPS[on](A, x)
    obs.judge_equals(ctx, got, alg.scale(a, f), f"factor-{form}", mag=gen.mag(a) * max(1, abs(f)))
    ctx.saw("outcomes compared")
    ctx.saw("factor")


@scenario(quick=160, must=("outcomes compared", "children"))
def children(ctx):
    """A dictionary of children stands for the nested line."""
    rng = ctx.rng
    on, k, _ = rng.choice([x for x in PAIRS if x[0] in "+-"])
    idx, a, _ = lines(rng, k, k)
    names = rng.sample(gen.NAMES, rng.randint(1, 3))
    kids = {n: gen.line(rng, k, idx, rng.choice([0, 0, 1]), style="pos" if k == "all" else None) for n in names}
    if a.nested and rng.random() < 0.6:
        n0 = list(a.children)[0]
        kids[n0] = gen.line(rng, k, idx, 0, style="pos" if k == "all" else None)
    A = a.build(pf)
    K = {n: m.build(pf) for n, m in kids.items()}
    x = dict(K)
    if rng.random() < 0.4:
        n = rng.choice(list(x))
        if not kids[n].nested and k != "all":
            x[n] = getattr(x[n], obs.AVAIL[k][0])
    ctx.case(op=on, a=a.describe(), kids={n: m.describe() for n, m in kids.items()})
    ctx.nontrivial(on, a.describe(), str(sorted(kids)))
    want = outcome(lambda: OPS[on](A, pf.PfLine(K)))
    same(ctx, outcome(lambda: OPS[on](A, x)), want, "children", f"{k} {on} dictionary of children")
    ctx.saw("children")
