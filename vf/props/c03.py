"""C03: online monitor over histories of operations: every portfolio line a user can obtain
is consistent (one gapless standardized index; w, q, p, r in default units with q = w*t and
r = p*q; only the dimensions of its kind available; parts equal to the whole).

A pool of lines and states is driven through long random operation sequences; each object
returned by each public operation - and every child and every part of it - is judged.
"""
import cal
import gen
import hist
import numpy as np
import obs
import pandas as pd
from core import scenario

import portfolyo as pf

RULE = "random operation histories over pools of flat/nested lines of the 4 kinds and portfolio states, over random indices; non-trivial when at least 5 operations returned an object; distinct by the sequence of operations and the index"


def judge(ctx, W, res, name):
    for x in W.lines_in(res):
        obs.judge_line(ctx, x, f"after-{name}", mag=W.mag * 8)
    for s in W.states_in(res):
        for part in ("offtakevolume", "unsourcedprice", "sourced", "unsourced", "netposition", "pnl_cost"):
            obs.judge_line(ctx, getattr(s, part), f"state-after-{name}", mag=W.mag * 8)


@scenario(quick=320, thorough=4000, must=["portfolio lines judged", "absent dimension refused", "nested lines judged"])
def histories(ctx):
    W = hist.World(ctx.rng)
    ctx.case(index=repr(W.idx))
    for k in gen.KINDS:
        for x in W.pool[k]:
            obs.judge_line(ctx, x, "after-construction", mag=W.mag)
    judge(ctx, W, W.states[0], "construction")
    names, ok = [], 0
    for _ in range(ctx.rng.randrange(6, 16)):
        name, operands, fn = W.step()
        names.append(name)
        ctx.case(ops=names)
        ctx.saw("operations attempted")
        try:
            res = fn()
        except Exception:
            ctx.saw("operations refused")
            continue
        ok += 1
        ctx.saw(f"op {name}")
        judge(ctx, W, res, name)
        W.keep(res)
    if ok >= 5:
        ctx.nontrivial(tuple(names), W.idx.key())


# Selections that (together) look like a coarser index, or like one with another start.
WAYS = {
    "first of month": lambda i: i.day == 1,
    "first of quarter": lambda i: (i.month % 3 == 1) & (i.day == 1),
    "one month in three": lambda i: i.month % 3 == 1,
    "first of year": lambda i: (i.month == 1) & (i.day == 1),
    "start of day": lambda i: i.time == i[0].time(),
    "full hours": lambda i: i.minute == 0,
    "workdays": lambda i: i.weekday < 5,
    "every second": lambda i: np.arange(len(i)) % 2 == 0,
    "all but one": lambda i: np.arange(len(i)) != len(i) // 2,
    "all but first": lambda i: np.arange(len(i)) > 0,
    "last half": lambda i: np.arange(len(i)) >= len(i) // 2,
    "first half": lambda i: np.arange(len(i)) < (len(i) + 1) // 2,
    "all": lambda i: np.arange(len(i)) >= 0,
}


@scenario(quick=260, must=["portfolio lines judged", "selections refused", "selections returned", *WAYS])
def selections(ctx):
    """Selecting rows of longer lines in any way that pandas allows, and using what is returned."""
    rng = ctx.rng
    idx = gen.index(rng, freqs=["15min", "h", "D", "D", "D", "MS", "QS"], size=rng.choice("mlll"))
    if idx.n > 2200:
        idx = gen.Idx(idx.freq, idx.first, cal.next_date(idx.first, "D", 20), idx.sod, idx.tz)
    m = gen.line(rng, rng.choice(gen.KINDS), idx, rng.choice([0, 0, 1]), style="pos")
    pfl = m.build(pf)
    i = pfl.index
    names = []
    ctx.case(index=repr(idx), line=m.describe(), ways=names)
    for way in rng.sample(list(WAYS), 6):
        sel = np.asarray(WAYS[way](i))
        ctx.saw(way)
        if not sel.any():
            continue
        form = rng.choice(["mask", "index", "list", "series"])
        names.append((way, form))
        arg = {"mask": lambda: sel, "index": lambda: i[sel], "list": lambda: list(i[sel]), "series": lambda: pd.Series(sel, i)}[form]()
        try:
            res = pfl.loc[arg]
            used = rng.choice([lambda x: x, lambda x: x * 2, lambda x: x + x, lambda x: x.asfreq("YS") if len(x.index) > 400 else -x])(res)
        except Exception:
            ctx.saw("selections refused")
            continue
        ctx.saw("selections returned")
        for x in (res, used):
            obs.judge_line(ctx, x, f"selection-{way}", mag=gen.mag(m))
    ctx.nontrivial(idx.key(), m.describe(), *names)
