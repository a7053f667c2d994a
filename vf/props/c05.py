"""C05: nested portfolio lines. A model of the tree of children is updated alongside the
library through random sequences of setting, replacing, dropping and fetching children (also
with data of other spans, that shrink the line), and after every step the line, its totals,
its children, its flattened form and every earlier line are compared with the model.
Impossible operations must be refused and leave the line alone.
"""
import alg
import gen
import numpy as np
import obs
import pandas as pd
from core import scenario

import portfolyo as pf

RULE = "random nested line (depth 1-3) x sequence of 3-8 child operations with spans inside/overlapping/containing; distinct by (index, kind, operations, names)"


def look(ctx, pfl, m, key):
    obs.judge_equals(ctx, pfl, m, key)
    obs.judge_sum(ctx, pfl, key)
    names = list(m.children)
    ctx.check(sorted(pfl) == sorted(names), f"{key}:iter", lambda: f"{list(pfl)}, expected {names}")
    ctx.check(len(pfl) == len(names), f"{key}:len", lambda: f"len {len(pfl)}, expected {len(names)}")
    ctx.check(sorted(pfl.keys()) == sorted(names) and len(list(pfl.values())) == len(names), f"{key}:keys", "keys/values")
    for n in names:
        ctx.check(n in pfl, f"{key}:contains", f"{n} not in line")
        got = pfl[n]
        ctx.check(got == dict(pfl.items())[n], f"{key}:getitem", f"child {n} by index differs from items()")
        if n.isidentifier() and not hasattr(pf.core.pfline.classes.NestedPfLine, n):
            ctx.check(getattr(pfl, n) == got, f"{key}:getattr", f"child {n} by attribute differs")
            ctx.saw("children by attribute")
    ctx.check("no such" not in pfl, f"{key}:contains", "unknown name is in line")


def flat_of(ctx, pfl, m, key):
    f = pfl.flatten()
    obs.judge_equals(ctx, f, m.agg(), key + ":flatten")
    for c in m.cols():
        a, b = obs.arr(ctx, getattr(pfl, c), c), obs.arr(ctx, getattr(f, c), c)
        ctx.check(gen.close(a, b, 1e-9, max(obs.top(a), obs.top(b), 1e-12)) or c == "p", f"{key}:flatten-same", lambda: f"{c}: " + gen.worst(a, b))
    ctx.check(f.flatten() == f, f"{key}:flatten-flat", "flattening a flat line changes it")
    ctx.saw("flattened")


@scenario(quick=420, must=["set", "replaced", "dropped", "shrunk", "flattened", "earlier lines compared", "rejections demanded", "children by attribute"])
def tree_history(ctx):
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    kind = rng.choice(gen.KINDS)
    style = "nonzero"
    m = gen.line(rng, kind, idx, depth=rng.choice([1, 1, 2, 3]), style=style)
    # flat children's volumes must not cancel out (price of the total would be undefined)
    pfl = m.build(pf)
    look(ctx, pfl, m, "built")
    past = [(pfl, m, "built")]
    log = []
    ctx.case(index=repr(idx), kind=kind, start=m.describe(), ops=log)
    for _ in range(rng.randrange(3, 8)):
        op = rng.choice(["set", "set", "replace", "replace", "drop", "flatten", "child", "refuse", "refuse", "setraw"])
        names = list(m.children)
        if op in ("set", "replace", "setraw"):
            if op == "set" or (op == "setraw" and rng.random() < 0.5):
                free = [n for n in gen.NAMES if n not in names]
                nm = rng.choice(free)
            else:
                nm = rng.choice(names)
            sub = m.idx if rng.random() < 0.5 else gen.subspan(rng, m.idx, rng.choice(["inside", "left", "right", "contain"]))[0]
            c = gen.line(rng, kind, sub, depth=rng.choice([0, 0, 1]) if op != "setraw" else 0, style=style)
            log.append((op, nm, repr(sub)))
            exp = gen.common(m.idx, sub)
            arg = c.build(pf)
            if op == "setraw":
                cols = {"vol": ["w", "q", "wq"], "pri": ["p"], "rev": ["r"], "all": ["wp", "qr", "pr", "wr"]}[kind]
                arg = {k: gen.dress(rng, k, getattr(c, k), sub.pd)[0] for k in rng.choice(cols)}
                if rng.random() < 0.3:
                    arg = pd.DataFrame({k: c.series(k) for k in rng.choice(cols)})
            new = pfl.set_child(nm, arg)
            ch = {n: gen.crop(x, exp) for n, x in m.children.items()}
            ch[nm] = gen.crop(c, exp)
            m = gen.Nest(ch)
            pfl = new
            ctx.saw("replaced" if nm in names else "set")
            if exp.n < past[-1][1].idx.n:
                ctx.saw("shrunk")
            look(ctx, pfl, m, "set_child")
        elif op == "drop" and len(names) > 1:
            nm = rng.choice(names)
            log.append((op, nm))
            pfl = pfl.drop_child(nm)
            m = gen.Nest({n: x for n, x in m.children.items() if n != nm})
            ctx.saw("dropped")
            look(ctx, pfl, m, "drop_child")
        elif op == "flatten":
            log.append((op,))
            flat_of(ctx, pfl, m, "history")
        elif op == "child":
            nm = rng.choice(names)
            log.append((op, nm))
            obs.judge_equals(ctx, pfl[nm], m.children[nm], "child")
        elif op == "refuse":
            other = rng.choice([k for k in gen.KINDS if k != kind])
            alt = gen.index(rng, size="s")
            while (alt.freq, alt.tz, alt.sod) == (idx.freq, idx.tz, idx.sod):
                alt = gen.index(rng, size="s")
            dis, _ = gen.subspan(rng, m.idx, "disjoint")
            ok = gen.flat(rng, kind, m.idx, style).build(pf)
            why, fn = rng.choice([
                ("reserved", lambda: pfl.set_child(rng.choice("wqpr"), ok)),
                ("kind", lambda: pfl.set_child(rng.choice(names + ["new"]), gen.line(rng, other, m.idx, style=style).build(pf))),
                ("index", lambda: pfl.set_child(rng.choice(names + ["new"]), gen.line(rng, kind, alt, style=style).build(pf))),
                ("disjoint", lambda: pfl.set_child(rng.choice(names + ["new"]), gen.line(rng, kind, dis, style=style).build(pf))),
                ("no-line", lambda: pfl.set_child("new", rng.choice([None, 3.0, {}, object()]))),
                ("unknown-drop", lambda: pfl.drop_child("no such")),
                ("unknown-get", lambda: pfl["no such"]),
                ("unknown-attr", lambda: pfl.no_such),
                ("last", lambda: gen.Nest({"A": gen.flat(rng, kind, m.idx, style)}).build(pf).drop_child("A")),
            ])  # fmt: skip
            log.append((op, why))
            ctx.raises(f"refuse-{why}", fn, why)
            ctx.saw("refused " + why)
            look(ctx, pfl, m, "after-refusal")
        past.append((pfl, m, op))
    for p, mm, op in past[:-1]:
        obs.judge_equals(ctx, p, mm, f"earlier-line-changed-after-{op}")
        ctx.saw("earlier lines compared")
    ctx.nontrivial(idx.key(), kind, repr(log))


@scenario(quick=260, must=["aggregate columns compared", "zero totals"])
def totals(ctx):
    """Sums for children with cancelling, zero and very different values."""
    rng = ctx.rng
    idx = gen.index(rng, size="s")
    kind = rng.choice(gen.KINDS)
    k = rng.randrange(1, 5)
    ch = {}
    for j in range(k):
        d = rng.choice([0, 0, 1])
        ch[gen.NAMES[j]] = gen.line(rng, kind, idx, d, style=rng.choice(["mixed", "zeros", "big", "small", "ints"]) if kind != "all" else None)
    if rng.random() < 0.4:  # a child that cancels another one
        n = rng.choice(list(ch))
        ch["cancel"] = alg.scale(ch[n], -1)
        if len(ch) == 2:
            ctx.saw("zero totals")
    m = gen.Nest(ch)
    ctx.case(index=repr(idx), kind=kind, line=m.describe())
    pfl = m.build(pf)
    mg = gen.mag(m)
    obs.judge_equals(ctx, pfl, m, "totals", mag=mg)
    obs.judge_sum(ctx, pfl, "totals", mag=mg)
    obs.judge_line(ctx, pfl, "totals", mag=mg)
    f = pfl.flatten()
    obs.judge_equals(ctx, f, m.agg(), "totals:flatten", mag=mg)
    if kind == "all":
        for part, pk, c in (("volume", "vol", "q"), ("revenue", "rev", "r")):
            x = getattr(pfl, part)
            obs.judge_equals(ctx, x.flatten(), gen.Flat(pk, idx, **{c: getattr(m.agg(), c)}), f"totals:{part}", mag=mg)
    ctx.nontrivial(idx.key(), kind, tuple(ch), m.describe())
