"""C21: concatenation. Random lines and states are cut at random boundaries (by selection, or by
building each piece on its own), shuffled and concatenated; the result must have all periods and
values again. Pieces that do not fit together in exactly one respect must be refused.
"""
import cal
import gen
import numpy as np
import obs
import state
from core import Skip, scenario

import portfolyo as pf

RULE = "random lines/states x cuts x order x way of making pieces; one defect per refused set; distinct by index, structure, cuts"


def cuts_of(rng, idx, k):
    """Positions of period boundaries inside index at which pieces can be cut."""
    pos = [j for j in range(1, idx.n) if cal.rank(idx.freq) >= 2 or cal.to_wall(idx.b[j], idx.tz).time() == idx.sod]
    return sorted(rng.sample(pos, min(k, len(pos))))


def date(idx, pos):
    return cal.day_of(idx.b[pos], idx.sod, idx.tz)


def spans(idx, cuts):
    ends = [0] + cuts + [idx.n]
    return [gen.Idx(idx.freq, date(idx, a), date(idx, b), idx.sod, idx.tz) for a, b in zip(ends[:-1], ends[1:])]


def reorder(rng, m):
    """Same line, children in another order."""
    if not m.nested:
        return m
    n = list(m.children)
    rng.shuffle(n)
    return gen.Nest({k: reorder(rng, m.children[k]) for k in n})


def subject(rng, size="s", states=0.3):
    while True:
        idx = gen.index(rng, size=size)
        if cuts_of(rng, idx, 1) and idx.n < 3000:
            break
    if rng.random() < states:
        return idx, state.random_state(rng, idx, depth=2)
    d = rng.choice([0, 0, 1, 1, 2])
    return idx, gen.line(rng, rng.choice(["vol", "pri", "rev", "all", "all"]), idx, d)


def crop(m, i):
    return m.crop(i) if isinstance(m, state.St) else gen.crop(m, i)


def make(m):
    return m.build() if isinstance(m, state.St) else m.build(pf)


@scenario(quick=420, must=["lines restored", "states restored", "many pieces", "reordered children", "equal to original", "single-period pieces"])
def restore(ctx):
    rng = ctx.rng
    idx, m = subject(rng, rng.choice(["s", "s", "m"]))
    cuts = cuts_of(rng, idx, rng.choice([1, 1, 2, 2, 3, 6, 40]))
    own = rng.random() < 0.5
    ctx.case(obj=m.describe(), index=repr(idx), cuts=cuts, built_separately=own)
    o = make(m)
    parts = [crop(m, i) for i in spans(idx, cuts)]
    if min(p.idx.n for p in parts) == 1:
        ctx.saw("single-period pieces")
    if own:
        if not isinstance(m, state.St) and m.nested:
            parts = [reorder(rng, p) for p in parts]
            ctx.saw("reordered children")
        pieces = [make(p) for p in parts]
    else:
        pieces = [o.slice[gen.stamp(p.idx.b[0], idx.tz) : gen.stamp(p.idx.b[-1], idx.tz)] for p in parts]
    rng.shuffle(pieces)
    if rng.random() < 0.3:
        pieces = tuple(pieces)
    fps = [obs.fingerprint(p) for p in pieces]
    R = pf.concat(pieces)
    if isinstance(m, state.St):
        state.judge_state(ctx, R, m, "state")
        ctx.saw("states restored")
    else:
        obs.judge_equals(ctx, R, m, "line", mag=gen.mag(m) * 1e-3)
        obs.judge_line(ctx, R, "invariant", mag=gen.mag(m))
        ctx.saw("lines restored")
    ctx.check(R == o, "equal", "concatenated pieces are not equal to original")
    ctx.saw("equal to original")
    if len(pieces) > 2:
        ctx.saw("many pieces")
    ctx.check([obs.fingerprint(p) for p in pieces] == fps, "operands", "a piece was changed by concatenation")
    ctx.nontrivial(idx.key(), m.describe(), tuple(cuts), own)


WHY = ["gap", "gap", "overlap", "overlap", "duplicate", "kind", "freq", "tz", "sod", "structure", "names", "deep-structure", "deep-names", "mixture", "few", "mixture"]


@scenario(quick=420, must=["rejections demanded"] + ["refused " + w for w in set(WHY)])
def refused(ctx):
    rng = ctx.rng
    why = rng.choice(WHY)
    idx, m = subject(rng, "m" if why in ("gap", "overlap") else "s", states=0.25)
    st = isinstance(m, state.St)
    need = {"gap": 2}.get(why, 1)
    cuts = cuts_of(rng, idx, rng.choice([1, 2, 3]) if need == 1 else rng.choice([2, 3, 5]))
    if len(cuts) < need:
        raise Skip
    sp = spans(idx, cuts)
    k = rng.randrange(len(sp))
    P = lambda i: crop(m, i)  # noqa
    parts = [P(i) for i in sp]
    line = lambda **kw: gen.line(rng, kw.get("kind", m.kind), kw.get("idx", sp[k]), kw.get("depth", 0), style="pos")  # noqa
    if why == "gap":
        del parts[rng.randrange(1, len(parts) - 1)]
    elif why == "overlap":
        k = max(1, k)
        c = [j for j in range(1, idx.n) if idx.b[j] in sp[k - 1].b[:-1] and (cal.rank(idx.freq) >= 2 or cal.to_wall(idx.b[j], idx.tz).time() == idx.sod)]
        a = rng.choice([sp[k - 1].first] + [date(idx, j) for j in c])
        parts[k] = P(gen.Idx(idx.freq, a, sp[k].last, idx.sod, idx.tz))
    elif why == "duplicate":
        parts.append(parts[k])
    elif why in ("freq", "tz", "sod"):
        i = sp[k]
        if why == "freq":
            f = [f for f in cal.FREQS if cal.rank(f) < cal.rank(idx.freq)]
            if not f:
                raise Skip
            j = gen.Idx(rng.choice(f), i.first, i.last, idx.sod, idx.tz)
        elif why == "tz":
            j = gen.Idx(idx.freq, i.first, i.last, idx.sod, rng.choice([z for z in gen.TZS if z != idx.tz]))
        else:
            j = gen.Idx(idx.freq, i.first, i.last, rng.choice([s for s in gen.SODS if s != idx.sod]), idx.tz)
        if j.n > 10000:
            raise Skip
        if st:
            parts[k] = state.random_state(rng, j, depth=1)
        else:
            names = list(m.children) if m.nested else None
            parts[k] = gen.line(rng, m.kind, j, 0) if names is None else gen.Nest({n: gen.line(rng, m.kind, j, 0) for n in names})
    elif why == "few":
        if st:
            raise Skip
        parts = parts[:1] if rng.random() < 0.7 else []
    elif why == "mixture":
        if st:
            parts[k] = gen.line(rng, rng.choice(["vol", "pri", "rev", "all"]), sp[k])
        else:
            parts[k] = rng.choice([lambda: state.random_state(rng, sp[k]), lambda: 3.0, lambda: None, lambda: parts[k].agg().series("q" if m.kind in ("vol", "all") else "p" if m.kind == "pri" else "r")])()
    elif st:
        # one part of the state does not fit
        x = parts[k]
        o2 = gen.Nest({"only": gen.line(rng, "vol", sp[k], 0)}) if not m.o.nested else gen.line(rng, "vol", sp[k], 0)
        s2 = gen.Nest({"only": gen.line(rng, "all", sp[k], 0)}) if not m.s.nested else gen.line(rng, "all", sp[k], 0)
        parts[k] = rng.choice([lambda: state.St(o2, x.p, x.s), lambda: state.St(x.o, x.p, s2)])()
        why = "structure"
    elif why == "kind":
        kind = rng.choice([x for x in ("vol", "pri", "rev", "all") if x != m.kind])
        parts[k] = gen.line(rng, kind, sp[k], 0) if not m.nested else gen.Nest({n: gen.line(rng, kind, sp[k], 0) for n in m.children})
    elif why == "structure":
        parts[k] = parts[k].agg() if m.nested else gen.Nest({"only": parts[k]})
    elif why == "names":
        if not m.nested:
            raise Skip
        ch = dict(parts[k].children)
        n = rng.choice(list(ch))
        r = rng.random()
        if r < 0.4:
            ch["another"] = ch.pop(n)
        elif r < 0.7 or len(ch) == 1:
            ch["another"] = ch[n]
        else:
            del ch[n]
        parts[k] = gen.Nest(ch)
    else:
        deep = [n for n, c in m.children.items() if c.nested] if m.nested else []
        if why == "deep-names" and not deep or not m.nested:
            raise Skip
        ch = dict(parts[k].children)
        if why == "deep-names":
            n = rng.choice(deep)
            sub = dict(ch[n].children)
            sub["another"] = sub.pop(rng.choice(list(sub)))
            ch[n] = gen.Nest(sub)
        else:
            n = rng.choice(list(ch))
            ch[n] = ch[n].agg() if ch[n].nested else gen.Nest({"only": ch[n]})
        parts[k] = gen.Nest(ch)
    ctx.case(obj=m.describe(), index=repr(idx), cuts=cuts, why=why)
    pieces = [make(p) if hasattr(p, "describe") and hasattr(p, "idx") else p for p in parts]
    rng.shuffle(pieces)
    ctx.raises(f"refuse-{why}", lambda: pf.concat(pieces), f"{why}: {[str(getattr(p, 'idx', type(p).__name__)) for p in parts]}")
    ctx.saw("refused " + why)
    ctx.nontrivial(why, idx.key(), m.describe(), tuple(cuts))
