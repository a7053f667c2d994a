"""C28: equality and truth value. Lines and states are rebuilt in other ways from the same data
(must be equal) or from data with exactly one change - of a value, the index, a name, the
structure, the kind (must be unequal); both orders and `!=` are judged. Lines with all zeros,
or with one nonzero value at any depth and place, are judged on truth value.
"""
import copy

import gen
import numpy as np
import obs
import pandas as pd
import state
from core import Skip, scenario

import portfolyo as pf

RULE = "random lines and states x way of rebuilding or changing; distinct by object and change"


def judge(ctx, a, b, equal, what):
    key = "equal" if equal else "unequal"
    for x, y, o in [(a, b, "a, b"), (b, a, "b, a")]:
        e, n = x == y, x != y
        ctx.check(isinstance(e, (bool, np.bool_)) and isinstance(n, (bool, np.bool_)), "not-boolean", f"{e!r} {n!r}")
        ctx.check(bool(e) == equal, key, lambda: f"{what} ({o}): == gives {e}")
        ctx.check(bool(n) == (not equal), f"{key}:inverse", lambda: f"{what} ({o}): != gives {n}")
    ctx.saw("judged " + key)


def rebuild(rng, m):
    """Line with the same data, built in another way."""
    if m.nested:
        names = list(m.children)
        if rng.random() < 0.5:
            rng.shuffle(names)
        ch = {n: rebuild(rng, m.children[n]) for n in names}
        if rng.random() < 0.3:
            n = rng.choice(names)
            c = ch.pop(n)
            if ch:
                return pf.PfLine(ch).set_child(n, c)
            ch = {n: c}
        return pf.PfLine(ch)
    cols = {"vol": ["w", "q", "wq"], "pri": ["p"], "rev": ["r"], "all": ["wp", "qp", "wr", "qr", "wqpr", "wpr"]}[m.kind]
    if m.kind == "all" and np.abs(m.q).min() == 0:
        cols = ["wp", "qp"]
    cols = rng.choice(cols)
    i = m.idx.pd
    r = rng.random()
    if r < 0.5:
        s = {c: gen.dress(rng, c, getattr(m, c), i)[0] for c in rng.sample(cols, len(cols))}
        return pf.PfLine(s if rng.random() < 0.6 else pd.DataFrame(s))
    pfl = pf.PfLine({c: m.series(c, rng.random() < 0.5) for c in cols})
    f = rng.choice([lambda x: x * 1, lambda x: x + 0, lambda x: -(-x), lambda x: x.slice[:], lambda x: x.loc[:], lambda x: x.flatten(), lambda x: pf.PfLine(x.dataframe()), lambda x: pf.PfLine(x), lambda x: copy.copy(x), lambda x: copy.deepcopy(x)])
    return f(pfl)


def leaves(m, path=()):
    if not m.nested:
        yield path, m
        return
    for n, c in m.children.items():
        yield from leaves(c, path + (n,))


def replace(m, path, new):
    if not path:
        return new
    return gen.Nest({n: (replace(c, path[1:], new) if n == path[0] else c) for n, c in m.children.items()})


def change_value(rng, m, rel):
    """One value in one leaf."""
    path, x = rng.choice(list(leaves(m)))
    c = rng.choice({"vol": "wq", "pri": "p", "rev": "r", "all": "wp"}[m.kind])
    v = getattr(x, c).copy()
    k = rng.choice([0, len(v) - 1, rng.randrange(len(v))])
    d = max(abs(v[k]) * rel, rel if rel > 1e-6 else 0) * rng.choice([1, -1])
    if m.kind == "all" and v[k] + d == 0:
        d *= 2
    v[k] += d
    kw = {c: v}
    if m.kind == "all":
        kw[{"w": "p", "p": "w"}[c]] = getattr(x, {"w": "p", "p": "w"}[c])
    return replace(m, path, gen.Flat(m.kind, x.idx, **kw)), f"{c} of {path} at position {k} by {d}"


def on_index(m, idx):
    if m.nested:
        return gen.Nest({n: on_index(c, idx) for n, c in m.children.items()})
    cols = {"vol": "w", "pri": "p", "rev": "r", "all": "wp"}[m.kind]
    return gen.Flat(m.kind, idx, **{c: np.resize(getattr(m, c), idx.n) for c in cols})


def other_index(rng, idx):
    import cal
    import datetime as dt

    unit = "D" if cal.rank(idx.freq) <= 2 else idx.freq
    how = rng.choice(["shift", "longer", "tz", "sod", "freq", "year"])
    mv = lambda d, n: cal.next_date(d, unit, n)  # noqa
    if how == "shift":
        return gen.Idx(idx.freq, mv(idx.first, 1), mv(idx.last, 1), idx.sod, idx.tz), how
    if how == "longer":
        return gen.Idx(idx.freq, idx.first, mv(idx.last, 1), idx.sod, idx.tz), how
    if how == "tz":
        tz = rng.choice([z for z in gen.TZS if z != idx.tz])
        return gen.Idx(idx.freq, idx.first, idx.last, idx.sod, tz), how
    if how == "sod":
        sod = rng.choice([s for s in gen.SODS if s != idx.sod])
        return gen.Idx(idx.freq, idx.first, idx.last, sod, idx.tz), how
    if how == "year" and idx.first.day < 29 and idx.last.day < 29:
        return gen.Idx(idx.freq, cal.add_months(idx.first, 12), cal.add_months(idx.last, 12), idx.sod, idx.tz), how
    if how == "year":
        return gen.Idx(idx.freq, mv(idx.first, -2), mv(idx.last, -2), idx.sod, idx.tz), how
    # one period of another frequency with same start
    f = rng.choice([f for f in ["D", "MS", "QS", "YS"] if f != idx.freq])
    d = cal.start_date(idx.first, "YS")
    return gen.Idx(f, d, cal.next_date(d, f), idx.sod, idx.tz), how


def make(rng):
    idx = gen.index(rng, freqs=["h", "D", "D", "MS", "QS", "YS"])
    m = gen.line(rng, rng.choice(gen.KINDS), idx, rng.choice([0, 0, 1, 1, 2, 3]))
    return idx, m


@scenario(quick=120, must=["judged equal"])
def equal(ctx):
    rng = ctx.rng
    idx, m = make(rng)
    a = m.build(pf)
    ctx.case(line=m.describe())
    judge(ctx, a, a, True, "line and itself")
    how = rng.choice(["rebuild", "rebuild", "tiny"])
    if how == "rebuild":
        b = rebuild(rng, m)
    else:
        m2, what = change_value(rng, m, 1e-10)
        b = m2.build(pf)
    judge(ctx, a, b, True, how)
    ctx.nontrivial(m.describe(), how)


@scenario(quick=500, must=["judged unequal", "value changed", "index changed", "child changed", "structure changed", "kind changed", "compared with something else"])
def unequal(ctx):
    rng = ctx.rng
    idx, m = make(rng)
    how = rng.choice(["value", "value", "value", "index", "index", "child", "child", "structure", "kind", "else"])
    if how == "child" and not m.nested:
        m = gen.Nest({"A": m, "B": gen.line(rng, m.kind, idx, 0)})
    ctx.case(line=m.describe(), change=how)
    if how == "value":
        m2, what = change_value(rng, m, rng.choice([1e-4, 1e-2, 0.5, 2]))
        b = m2.build(pf)
    elif how == "index":
        i2, what = other_index(rng, idx)
        m = on_index(m, idx)
        if what == "freq":
            m = on_index(m, gen.Idx(rng.choice([f for f in ["D", "MS", "QS", "YS"] if f != i2.freq]), i2.first, i2.first.replace(year=i2.first.year + 1), idx.sod, idx.tz))
            i1 = m.idx
            import cal

            m = on_index(m, gen.Idx(i1.freq, i1.first, cal.next_date(i1.first, i1.freq), idx.sod, idx.tz))
        m2 = on_index(m, i2)
        b = m2.build(pf)
    elif how == "child":
        path = ()
        x = m
        while rng.random() < 0.5:
            sub = [n for n, c in x.children.items() if c.nested]
            if not sub:
                break
            n = rng.choice(sub)
            path, x = path + (n,), x.children[n]
        ch = dict(x.children)
        what = rng.choice(["rename", "drop", "add", "swap"])
        n = rng.choice(list(ch))
        if what == "drop" and len(ch) == 1:
            what = "add"
        if what == "swap" and len(ch) < 2:
            what = "rename"
        if what == "rename":
            new = rng.choice([z for z in gen.NAMES + [n.lower() + "_", n + " "] if z not in ch])
            ch = {(new if k == n else k): v for k, v in ch.items()}
        elif what == "drop":
            del ch[n]
        elif what == "add":
            new = rng.choice([z for z in gen.NAMES if z not in ch])
            ch[new] = gen.flat(rng, m.kind, idx, **({"style": "zeros"} if m.kind != "all" else {}))
        else:
            n2 = rng.choice([k for k in ch if k != n])
            ch[n], ch[n2] = ch[n2], ch[n]
            if m.kind == "all":
                raise Skip
            u, v = ch[n].agg(), ch[n2].agg()
            if all(gen.close(getattr(u, c), getattr(v, c), 1e-4) for c in m.cols()):
                raise Skip
        b = replace(m, path, gen.Nest(ch)).build(pf)
    elif how == "structure":
        a0 = m.build(pf)
        what = rng.choice(["nested in one child", "flattened", "one child deeper"])
        if what == "flattened" and m.nested:
            b = a0.flatten()
        elif what == "one child deeper" and m.nested:
            n = rng.choice(list(m.children))
            b = gen.Nest({k: (gen.Nest({"sub": c}) if k == n else c) for k, c in m.children.items()}).build(pf)
        else:
            what = "nested in one child"
            b = pf.PfLine({rng.choice(["A", "x"]): a0})
    elif how == "kind":
        what = rng.choice(["vol", "rev"])
        m = gen.line(rng, "all", idx, rng.choice([0, 1, 2]))
        c = m.build(pf)
        b = c.volume if what == "vol" else c.revenue
    else:
        b = rng.choice([None, 3, 0, 1.5, "text", {}, [], m.agg().series(m.cols()[0]), pf.Q_(3.0, "MW"), pf.PfLine])
        what = type(b).__name__
        a = m.build(pf)
        try:
            e = a == b
        except Exception as ex:
            ctx.fail("else:raises", f"comparing with {what} raises {type(ex).__name__}: {ex}")
        if not isinstance(b, pd.Series):
            ctx.check(e is False and (a != b) is True, "else", f"comparison with {what} gives {e}")
        ctx.saw("compared with something else")
        ctx.saw("judged unequal")
        ctx.nontrivial(m.describe(), how, what)
        return
    a = m.build(pf)
    judge(ctx, a, b, False, f"{how}: {what}")
    ctx.saw(f"{how} changed")
    ctx.nontrivial(m.describe(), how, what)


@scenario(quick=120, must=["judged equal", "judged unequal", "offtake changed", "price changed", "sourced changed"])
def states(ctx):
    rng = ctx.rng
    idx = gen.index(rng, freqs=["h", "D", "D", "MS", "QS", "YS"])
    m = state.random_state(rng, idx, sourced=True, depth=rng.choice([0, 1, 2]))
    a = m.build()
    how = rng.choice(["same", "offtake", "price", "sourced", "index", "line"])
    ctx.case(state=m.describe(), change=how)
    ctx.check(bool(a) is True, "state-truth", "state is false")
    judge(ctx, a, a, True, "state and itself")
    if how == "same":
        b = pf.PfState(rebuild(rng, m.o), rebuild(rng, m.p), rebuild(rng, m.s))
        judge(ctx, a, b, True, how)
    elif how == "line":
        judge(ctx, a, a.sourced, False, "state and line")
    elif how == "index":
        i2, what = other_index(rng, idx)
        if what == "freq":
            raise Skip
        b = state.St(on_index(m.o, i2), on_index(m.p, i2), on_index(m.s, i2)).build()
        judge(ctx, a, b, False, f"index: {what}")
    else:
        rel = rng.choice([1e-3, 0.1, 2])
        part = {"offtake": m.o, "price": m.p, "sourced": m.s}[how]
        new, what = change_value(rng, part, rel)
        b = state.St(new if how == "offtake" else m.o, new if how == "price" else m.p, new if how == "sourced" else m.s).build()
        judge(ctx, a, b, False, f"{how}: {what}")
        ctx.saw(f"{how} changed")
    ctx.nontrivial(m.describe(), how)


@scenario(quick=350, must=["true lines", "false lines", "nested", "children cancel"])
def truth(ctx):
    rng = ctx.rng
    idx, m = make(rng)
    zero = lambda x: gen.Nest({n: zero(c) for n, c in x.children.items()}) if x.nested else gen.Flat(x.kind, idx, **{c: np.zeros(idx.n) for c in {"vol": "w", "pri": "p", "rev": "r", "all": "wp"}[x.kind]})  # noqa
    z = zero(m)
    how = rng.choice(["zero", "one", "one", "cancel", "random"])
    ctx.case(line=m.describe(), how=how)
    if how == "zero":
        x, exp = z.build(pf), False
        if m.kind == "all" and rng.random() < 0.3:
            x = m.build(pf) * 0
    elif how == "one":
        path, leaf = rng.choice(list(leaves(z)))
        k = rng.choice([0, idx.n - 1, rng.randrange(idx.n)])
        val = rng.choice([1.0, -1.0, 1e-3, -1e-3, 1e6, 0.5])
        kw = {}
        for c in {"vol": "w", "pri": "p", "rev": "r", "all": "wp"}[m.kind]:
            v = np.zeros(idx.n)
            v[k] = val if c != "p" or m.kind == "pri" else rng.choice([0.0, 20.0, -3.0])
            kw[c] = v
        x, exp = replace(z, path, gen.Flat(m.kind, idx, **kw)).build(pf), True
    elif how == "cancel":
        one = gen.flat(rng, m.kind, idx, "nonzero")
        kw = {c: -getattr(one, c) for c in {"vol": "w", "pri": "p", "rev": "r", "all": "w"}[m.kind]}
        if m.kind == "all":
            kw["p"] = one.p
        x, exp = gen.Nest({"A": one, "B": gen.Flat(m.kind, idx, **kw)}).build(pf), True
        ctx.saw("children cancel")
    else:
        exp = any(np.abs(getattr(x, c)).max() > 1e-3 for _, x in leaves(m) for c in {"vol": "w", "pri": "p", "rev": "r", "all": "w"}[m.kind])
        if not exp:
            raise Skip
        x = m.build(pf)
    ctx.check(bool(x) is exp, "truth", lambda: f"{how}: {bool(x)}, expected {exp}")
    ctx.saw("true lines" if exp else "false lines")
    if obs.nested(x):
        ctx.saw("nested")
    ctx.nontrivial(m.describe(), how)
