"""C27: exports. Dataframes (column selection, child levels, with and without units), excel
files (read back cell by cell), clipboard text (captured) and text form (repr and print,
parsed) of random lines and states are compared with the values of the object itself and with
the reference model.
"""
import contextlib
import csv
import decimal
import io
import os
import re
import shutil
import tempfile

import gen
import numpy as np
import obs
import pandas as pd
import state
from core import Skip, scenario

import portfolyo as pf

RULE = "random lines and states x columns x child levels x form of export; distinct by object and arguments"
DECIMALS = {"w": 1, "q": 0, "p": 2, "r": 0}
AVAIL = obs.AVAIL


def walk(pfl, path=()):
    """All (path, line) in line, parents first."""
    yield path, pfl
    for n, c in obs.children(pfl).items():
        yield from walk(c, path + (n,))


def parts(o):
    """(path, line) of everything that is exported, with available child levels."""
    if isinstance(o, pf.PfLine):
        yield from walk(o)
        return
    for nm in ("offtakevolume", "pnl_cost", "sourced", "unsourced"):
        x = getattr(o, nm)
        yield from [((nm,) + p, y) for p, y in walk(x)] if nm != "pnl_cost" else [((nm,), x)]


def vals(line, c):
    return np.asarray(getattr(line, c).pint.to(gen.UNIT[c]).pint.magnitude, float)


def expected(o, cols, levels):
    """[(path, column, values)]"""
    out = []
    for path, x in parts(o):
        if levels >= 0 and len(path) > levels:
            continue
        for c in cols:
            if c in AVAIL[obs.kind(x)]:
                out.append((path, c, vals(x, c)))
    return out


def key_of(k):
    """Column key without padding."""
    k = [x or "" for x in k] if isinstance(k, tuple) else [k]
    while k and k[-1] == "":
        k.pop()
    return tuple(k)


def build(rng, big=False):
    freqs = ["h", "D", "D", "MS", "QS", "YS"] + (["15min"] if big else [])
    idx = gen.index(rng, freqs=freqs, size="s" if not big else rng.choice("sm"))
    if rng.random() < 0.25:
        m = state.random_state(rng, idx, depth=rng.choice([0, 1, 2]))
        return idx, m, m.build(), m.describe()
    m = gen.line(rng, rng.choice(gen.KINDS), idx, rng.choice([0, 0, 1, 1, 2, 3]), style=rng.choice([None, None, "zeros", "big", "small"]))
    return idx, m, m.build(pf), m.describe()


@scenario(quick=600, must=["columns compared", "levels limited", "states exported", "without units", "columns selected", "model compared"])
def dataframe(ctx):
    rng = ctx.rng
    idx, m, o, what = build(rng)
    isline = isinstance(o, pf.PfLine)
    levels = rng.choice([-1, -1, 0, 1, 2]) if isline else -1
    cols = rng.choice([None, "wqpr", "".join(rng.sample("wqpr", rng.randrange(1, 5)))])
    if cols is not None and rng.random() < 0.4:
        cols = list(cols)
    units = rng.random() < 0.5
    ctx.case(obj=what, cols=cols, levels=levels, units=units)
    kw = {}
    if levels != -1 or rng.random() < 0.3:
        kw["childlevels"] = levels
    if not isline:
        kw = {}
    df = o.dataframe(cols, has_units=units, **kw) if cols is not None else o.dataframe(has_units=units, **kw)
    exp = expected(o, cols or "wqpr", levels)
    if not exp:
        ctx.check(df.shape[1] == 0, "none-available", lambda: f"columns {list(df.columns)}")
        raise Skip
    obs.judge_index(ctx, df.index, "frame", idx)
    keys = [p + (c,) for p, c, v in exp]
    have = [key_of(k) for k in df.columns]
    ctx.check(sorted(have) == sorted(keys), "columns", lambda: f"{have}, expected {keys}")
    ctx.check(have == keys, "column-order", lambda: f"{have}, expected {keys}")
    for k, (p, c, v) in zip(range(len(keys)), exp):
        s = df.iloc[:, k]
        if units:
            ctx.check(str(s.dtype).startswith("pint") and obs.same_unit(s.pint.units, c), "unit", lambda: f"{keys[k]}: {s.dtype}")
            got = np.asarray(s.pint.magnitude, float)
        else:
            ctx.check(s.dtype == float, "plain-numbers", lambda: f"{keys[k]}: {s.dtype}")
            got = s.values
        ctx.check(np.array_equal(got, v, equal_nan=True), "values", lambda: f"{keys[k]}: {gen.worst(got, v)}")
        ctx.saw("columns compared")
    if isline:
        a = m.agg()
        for p, c, v in exp:
            if p == () and not (c == "p" and m.kind == "all"):
                e = getattr(a, c)
                ctx.check(gen.close(v, e, 1e-9, max(np.abs(e).max(), gen.mag(m) * 1e-4, 1e-9)), "model", lambda: f"{c}: {gen.worst(v, e)}")
                ctx.saw("model compared")
    if levels >= 0 and max(len(p) for p, _ in parts(o)) > levels:
        ctx.saw("levels limited")
    if not isline:
        ctx.saw("states exported")
    if not units:
        ctx.saw("without units")
    if cols is not None:
        ctx.saw("columns selected")
    ctx.nontrivial(what, str(cols), levels, units)


def unit_ok(txt, c):
    try:
        return obs.same_unit(pf.Unit(txt), c)
    except Exception:
        return False


def number(x):
    return np.nan if x in (None, "") else float(x)


def judge_table(ctx, o, idx, head, rows, key):
    """``head``: header tuple per column (names, padding and unit); ``rows``: (timestamp, values)."""
    exp = expected(o, "wqpr", -1)
    ctx.check(len(head) == len(exp), f"{key}:columns", lambda: f"{head}")
    got = {}
    for j, h in enumerate(head):
        got[key_of(h[:-1])] = (h[-1], j)
    for p, c, v in exp:
        k = p + (c,)
        ctx.check(k in got, f"{key}:header", lambda: f"no column {k}, have {list(got)}")
        u, j = got[k]
        ctx.check(unit_ok(u, c), f"{key}:unit", lambda: f"{k}: unit '{u}'")
        x = np.array([number(r[1][j]) for r in rows])
        ctx.check(gen.close(x, v, 1e-13), f"{key}:values", lambda: f"{k}: {gen.worst(x, v)}")
        ctx.saw("exported columns compared")
    wall = [pd.Timestamp(s, unit="s") for s in idx.left] if idx.tz is None else [pd.Timestamp(ts.isoformat()[:19]) for ts in idx.pd]
    ctx.check([r[0] for r in rows] == wall, f"{key}:timestamps", lambda: f"{rows[0][0]}..{rows[-1][0]} ({len(rows)}), expected {wall[0]}..{wall[-1]} ({len(wall)})")


@scenario(quick=150, must=["exported columns compared", "excel files", "states exported"])
def excel(ctx):
    import openpyxl

    rng = ctx.rng
    idx, m, o, what = build(rng)
    if any(not np.isfinite(v).all() for p, c, v in expected(o, "wqpr", -1)) and rng.random() < 0.8:
        raise Skip
    ctx.case(obj=what)
    d = tempfile.mkdtemp(prefix="vfc27")
    try:
        f = os.path.join(d, "x.xlsx")
        o.to_excel(f)
        ws = openpyxl.load_workbook(f).worksheets[0]
        grid = [[c.value for c in r] for r in ws.iter_rows()]
        for rg in ws.merged_cells.ranges:
            for r in range(rg.min_row, rg.max_row + 1):
                for c in range(rg.min_col, rg.max_col + 1):
                    grid[r - 1][c - 1] = ws.cell(rg.min_row, rg.min_col).value
    finally:
        shutil.rmtree(d)
    first = next(k for k, r in enumerate(grid) if isinstance(r[0], (pd.Timestamp, __import__("datetime").datetime)))
    nlev = max(len(p) for p, c, v in expected(o, "wqpr", -1)) + 2
    head = list(zip(*[r[1:] for r in grid[:nlev]]))
    rows = [(pd.Timestamp(r[0]).round("s"), r[1:]) for r in grid[first:]]
    if any(x == np.inf or x == "inf" or x == "-inf" for r in rows for x in r[1]):
        raise Skip
    judge_table(ctx, o, idx, head, rows, "excel")
    ctx.saw("excel files")
    if not isinstance(o, pf.PfLine):
        ctx.saw("states exported")
    ctx.nontrivial(what)


@scenario(quick=200, must=["exported columns compared", "clipboard texts", "states exported"])
def clipboard(ctx):
    import pandas.io.clipboard as pc

    rng = ctx.rng
    idx, m, o, what = build(rng)
    ctx.case(obj=what)
    texts = []
    old = pc.clipboard_set
    pc.clipboard_set = texts.append
    try:
        o.to_clipboard()
    finally:
        pc.clipboard_set = old
    ctx.check(len(texts) == 1, "clipboard:none", f"{len(texts)} texts")
    grid = list(csv.reader(io.StringIO(texts[0]), delimiter="\t"))
    nlev = max(len(p) for p, c, v in expected(o, "wqpr", -1)) + 2
    head = list(zip(*[r[1:] for r in grid[:nlev]]))
    rows = [(pd.Timestamp(r[0]), r[1:]) for r in grid[-idx.n :]]
    judge_table(ctx, o, idx, head, rows, "clipboard")
    ctx.saw("clipboard texts")
    if not isinstance(o, pf.PfLine):
        ctx.saw("states exported")
    ctx.nontrivial(what)


# ---- text


def shown(x, c):
    if np.isnan(x):
        return ""
    if np.isinf(x):
        return "-inf" if x < 0 else "inf"
    with decimal.localcontext() as dc:
        dc.prec = 400
        d = decimal.Decimal(float(x)).quantize(decimal.Decimal(1).scaleb(-DECIMALS[c]), rounding=decimal.ROUND_HALF_EVEN)
    return f"{d:,}".replace(",", " ")


def block(line, cols, n, tz):
    """Patterns for the rows that must be shown of this line."""
    i = line.index
    k = list(range(len(i)))
    if len(k) > n:
        k = k[: n // 2] + [None] + k[len(k) - (n - 1) // 2 :]
    v = {c: vals(line, c) for c in cols}
    for j in k:
        if j is None:
            yield re.compile(r"\.\.(\s+\.\.){%d}\s*" % len(cols)), "ellipsis"
            continue
        s = [shown(v[c][j], c) for c in cols]
        yield re.compile(re.escape(i[j].strftime("%Y-%m-%d %H:%M:%S %z").strip()) + "".join(r"\s+" + re.escape(x) if x else r"\s*" for x in s) + r"\s*"), f"{i[j]} {s}"


def tree(line, cols, n, tz, name, only=False):
    yield re.compile(re.escape(name.strip()) + r"\s*"), f"name '{name}'"
    if only:
        yield re.compile(r"\(only contributor.*"), "only contributor"
    else:
        yield from block(line, cols, n, tz)
    ch = obs.children(line)
    for k, (nm, c) in enumerate(ch.items()):
        yield from tree(c, cols, n, tz, nm, len(ch) == 1)


def judge_lines(ctx, got, exp, key):
    exp = list(exp)
    ctx.check(len(got) == len(exp), f"{key}:rows", lambda: f"{len(got)} lines, expected {len(exp)}: {got[:3]}..")
    for g, (pat, what) in zip(got, exp):
        ctx.check(pat.fullmatch(g), f"{key}:row", lambda: f"{g!r}, expected {what}")
        ctx.saw("text rows compared")


def head(ctx, txt, o, idx, key):
    lines = txt.split("\n")
    kinds = {"vol": "volume", "pri": "price", "rev": "revenue", "all": "complete"}
    what = f"PfLine object with {kinds[obs.kind(o)]} information" if isinstance(o, pf.PfLine) else "PfState object"
    ctx.check(what in lines[0], f"{key}:kind", lines[0])
    info = "\n".join(lines[:8])
    start, end = gen.stamp(idx.b[0], idx.tz), gen.stamp(idx.b[-1], idx.tz)
    for nm, x in [("Start", str(start)), ("End", str(end)), ("Timezone", str(idx.tz or "none")), ("Start-of-day", idx.sod.strftime("%H:%M:%S"))]:
        ctx.check(re.search(re.escape(nm) + r"\s*:\s*" + re.escape(x) + r"(\s|$)", info), f"{key}:{nm.lower()}", lambda: f"{nm} should be {x}: {info}")
    ctx.check(re.search(r"Freq\s*:\s*(" + re.escape(str(idx.pd.freq)) + "|" + re.escape(idx.pd.freqstr) + r")\s", info), f"{key}:freq", lambda: f"{idx.freq}: {info}")
    ctx.check(re.search(r"\b%d datapoints" % idx.n, info), f"{key}:count", lambda: f"{idx.n}: {info}")
    if isinstance(o, pf.PfLine) and obs.nested(o):
        ctx.check(all(f"'{n}'" in [x for x in lines if "Children" in x][0] for n in o), f"{key}:children", lambda: info)
    ctx.saw("headers compared")


@scenario(quick=450, must=["text rows compared", "headers compared", "trees", "only contributors", "states printed", "reprs", "colored", "shortened"])
def text(ctx):
    rng = ctx.rng
    idx, m, o, what = build(rng, True)
    if rng.random() < 0.3 and isinstance(o, pf.PfLine) and obs.kind(o) in ("vol", "pri", "rev"):
        v = gen.values(rng, idx.n) * 10.0 ** rng.choice([-3, 0, 2, 5, 8])
        v = np.round(v, rng.choice([0, 1, 2, 3]))  # values that are halfway
        v[rng.randrange(idx.n)] = rng.choice([0.25, 0.35, 2.5, 3.5, -0.04, 0.125, 999.95, 999999.5, -1234567.005])
        c = rng.choice({"vol": "wq", "pri": "p", "rev": "r"}[obs.kind(o)])
        if c == "p" and rng.random() < 0.3:
            v[rng.randrange(idx.n)] = np.nan
        o = pf.PfLine({c: pd.Series(v, idx.pd)})
        what = f"{c} special {idx!r}"
    isline = isinstance(o, pf.PfLine)
    how = rng.choice(["repr", "print", "print", "print"])
    n = rng.choice([None, 1, 2, 3, 4, 5, 6, 7, 12, 20, 50])
    flat = rng.random() < 0.3 and isline
    color = rng.random() < 0.5
    ctx.case(obj=what, how=how, n=n, flat=flat, color=color)
    if how == "repr":
        txt = repr(o)
        n, flat, color = (20, True, False) if isline else (5, False, False)
        ctx.saw("reprs")
    else:
        kw = {} if n is None else {"num_of_ts": n}
        n = n or 5
        if flat:
            kw["flatten"] = True
        if not color or rng.random() < 0.5:
            kw["color"] = color
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            o.print(**kw)
        txt = buf.getvalue()
    if color and not flat:
        ctx.check("\x1b[" in txt, "color:none", "no color")
        ctx.saw("colored")
    if not color:
        ctx.check("\x1b[" not in txt, "color:unwanted", "color")
    txt = re.sub(r"\x1b\[[0-9;]*m", "", txt)
    head(ctx, txt, o, idx, "text")
    lines = [x for x in txt.split("\n")]
    cols = AVAIL[obs.kind(o)] if isline else "wqpr"
    k = next((k for k, x in enumerate(lines) if x.split() == list(cols)), None)
    ctx.check(k is not None, "text:columns", lambda: f"no header with {cols}: {lines[:8]}")
    units = lines[k + 1].split()
    ctx.check(len(units) == len(cols) and all(unit_ok(u, c) for u, c in zip(units, cols)), "text:units", lambda: f"{units} for {cols}")
    body = [re.sub(r"^[\s─│├└●]+", "", x).rstrip() for x in lines[k + 2 :]]
    body = [x for x in body if x]
    if flat:
        judge_lines(ctx, body, block(o, cols, n, idx.tz), "flat")
    elif isline:
        judge_lines(ctx, body, tree(o, cols, n, idx.tz, "(this pfline)"), "tree")
        ctx.saw("trees")
        if any(len(obs.children(x)) == 1 for _, x in walk(o)):
            ctx.saw("only contributors")
    else:
        exp = list(tree(o.offtakevolume, "wq", n, idx.tz, "offtake")) + list(tree(o.pnl_cost, "wqpr", n, idx.tz, "pnl_cost"))
        judge_lines(ctx, body, exp, "state")
        ctx.saw("states printed")
    if idx.n > n:
        ctx.saw("shortened")
    ctx.nontrivial(what, how, n, flat, color)
