"""Random histories of public operations on a pool of portfolio lines and states."""
from __future__ import annotations

import datetime as dt

import cal
import gen
import numpy as np
import obs
import pandas as pd

import portfolyo as pf


class World:
    def __init__(self, rng, freqs=("15min", "h", "D", "D", "MS", "MS", "QS", "YS")):
        self.rng = rng
        self.idx = gen.index(rng, freqs=list(freqs), size=rng.choice("sm"))
        self.pool = {k: [] for k in gen.KINDS}
        self.states = []
        self.mag = 0.0
        for k in gen.KINDS:
            for _ in range(2):
                idx = self.idx if rng.random() < 0.75 else gen.subspan(rng, self.idx, rng.choice(["inside", "left", "right", "contain"]))[0]
                st = "nonzero" if k in ("vol", "pri") else None
                self.add(gen.line(rng, k, idx, style=st).build(pf), 8, 1e99)
        self.states.append(self.new_state())

    def add(self, x, size=6, cap=1e10):
        k = obs.kind(x)
        v = [np.asarray(getattr(x, c).pint.magnitude, float) for c in obs.AVAIL[k]]
        v += [np.asarray(getattr(y, c).pint.magnitude, float) for y in leaves(x) for c in obs.AVAIL[k]]
        v = np.concatenate(v)
        if not np.isfinite(v).all() or np.abs(v).max() > cap:
            return
        self.mag = max(self.mag, np.abs(v).max())
        q = self.pool[k]
        q.append(x)
        if len(q) > size:
            q.pop(self.rng.randrange(len(q)))

    def new_state(self):
        rng = self.rng
        o = gen.line(rng, "vol", self.idx, style=rng.choice(["pos", "nonzero"]))
        p = gen.line(rng, "pri", self.idx, depth=rng.choice([0, 0, 1]), style="pos")
        s = gen.line(rng, "all", self.idx, style="pos") if rng.random() < 0.7 else None
        return pf.PfState(-o.build(pf), p.build(pf), None if s is None else s.build(pf))

    # -- picking
    def line(self, *kinds):
        k = self.rng.choice(kinds or gen.KINDS)
        return self.rng.choice(self.pool[k])

    def same_kind(self):
        k = self.rng.choice(gen.KINDS)
        return self.rng.choice(self.pool[k]), self.rng.choice(self.pool[k])

    def factor(self, o):
        rng = self.rng
        f = rng.choice([2, -1, 0.5, 1.5, -3, 0.1])
        t = rng.choice(["float", "q", "series", "int"])
        if t == "int":
            return 2
        if t == "q":
            return pf.Q_(float(f), "")
        if t == "series":
            v = gen.values(rng, len(o.index), "nonzero")
            return pd.Series(v, o.index, dtype="pint[dimensionless]" if rng.random() < 0.5 else float)
        return float(f)

    def partial(self, o):
        """Slice bounds within the object, on day boundaries."""
        i = o.index
        n = len(i)
        sod = i[0].time()
        ok = [k for k in range(n) if i[k].time() == sod]
        a = self.rng.choice(ok)
        later = [k for k in ok if k > a] + [None]
        b = self.rng.choice(later)
        return i[a], (None if b is None else i[b])

    # -- operations
    def ops(self):
        r = self.rng
        W = self

        def neg():
            x = W.any()
            return [x], lambda: -x

        def scale():
            x = W.any()
            f = W.factor(x)
            return [x, f], r.choice([lambda: x * f, lambda: f * x if not isinstance(f, (pd.Series, pf.Q_)) else x * f, lambda: x / f])

        def add():
            a, b = W.same_kind()
            return [a, b], lambda: a + b

        def sub():
            a, b = W.same_kind()
            return [a, b], lambda: a - b

        def add0():
            a = W.any()
            return [a], r.choice([lambda: a + 0, lambda: 0 + a, lambda: a - 0, lambda: a + None])

        def sums():
            k = r.choice(gen.KINDS)
            xs = [r.choice(W.pool[k]) for _ in range(3)]
            return xs, lambda: sum(xs)

        def mul():
            v, p = W.line("vol"), W.line("pri")
            return [v, p], r.choice([lambda: v * p, lambda: p * v])

        def div():
            a, b = r.choice([("rev", "pri"), ("rev", "vol"), ("vol", "vol"), ("pri", "pri"), ("rev", "rev")])
            a, b = W.line(a), W.line(b)
            return [a, b], lambda: a / b

        def unite():
            a, b = r.sample(["vol", "pri", "rev"], 2)
            a, b = W.line(a), W.line(b)
            return [a, b], lambda: a | b

        def parts():
            a = W.line("all")
            return [a], r.choice([lambda: a.volume, lambda: a.price, lambda: a.revenue])

        def flatten():
            a = W.line()
            return [a], lambda: a.flatten()

        def asfreq():
            a = W.any()
            f = r.choice([x for x in cal.FREQS if abs(cal.rank(x) - cal.rank(W.idx.freq)) <= 2 and (cal.rank(x) > 0 or len(a.index) < 40)])
            return [a, f], lambda: a.asfreq(f)

        def slc():
            a = W.any()
            s, e = W.partial(a)
            return [a], lambda: a.slice[s:e]

        def loc():
            a = W.any()
            s, e = W.partial(a)
            if e is None:
                return [a], lambda: a.loc[s:]
            e1 = a.index[a.index.get_loc(e) - 1]
            return [a], lambda: a.loc[s:e1]

        def locmask():
            a = W.any()
            i = a.index
            f = r.choice([lambda: i.day == 1, lambda: i.month % 3 == 1, lambda: i.time == i[0].time(), lambda: i.minute == 0, lambda: (i.month == 1) & (i.day == 1), lambda: np.arange(len(i)) % 2 == 0])
            sel = np.asarray(f())
            if r.random() < 0.5:
                return [a], lambda: a.loc[sel]
            return [a], lambda: a.loc[i[sel]]

        def reindex():
            a = W.line("vol", "pri", "rev")
            i = W.idx.pd
            return [a, i], lambda: a.reindex(i)

        def setchild():
            a = W.nested_line()
            b = r.choice(W.pool[obs.kind(a)])
            nm = r.choice(list(a) + ["new", "A"])
            return [a, b], lambda: a.set_child(nm, b)

        def dropchild():
            a = W.nested_line()
            nm = r.choice(list(a))
            return [a], lambda: a.drop_child(nm)

        def child():
            a = W.nested_line()
            nm = r.choice(list(a))
            return [a], lambda: a[nm]

        def nest():
            a, b = W.same_kind()
            return [a, b], lambda: pf.PfLine({"one": a, "two": b})

        def rebuild():
            a = W.line()
            df = a.flatten().dataframe()
            return [a, df], lambda: pf.PfLine(df)

        def concat():
            a = W.any()
            s, e = W.partial(a)
            i = a.index
            if s == i[0] or (e is None and s == i[0]):
                return [a], lambda: -a
            x, y = a.slice[:s], a.slice[s:]
            xy = [x, y] if r.random() < 0.5 else [y, x]
            return [x, y], lambda: pf.concat(xy)

        def hedge():
            v, p = W.line("vol"), W.line("pri")
            how = r.choice(["vol", "val"])
            pk = r.choice([None, pf.germanpower_peakfn]) if cal.rank(W.idx.freq) < 2 else None
            f = r.choice(["MS", "QS"])
            return [v, p], lambda: v.hedge_with(p, how, pk, f)

        def inter():
            a, b = W.same_kind()
            return [a, b], lambda: pf.intersection(a, b)

        def look():
            a = W.any()
            return [a], r.choice([lambda: repr(a), lambda: a.dataframe(), lambda: a.dataframe(has_units=False), lambda: bool(a), lambda: a == a, lambda: a.index, lambda: a.start if isinstance(a, pf.PfLine) else a.index])

        def newstate():
            return [], W.new_state

        def stateparts():
            s = W.state()
            return [s], r.choice([lambda: s.unsourced, lambda: s.sourced, lambda: s.netposition, lambda: s.pnl_cost, lambda: s.offtake, lambda: s.unsourcedprice, lambda: s.sourcedfraction, lambda: s.unsourcedfraction])

        def stateadd():
            a, b = W.state(), W.state()
            return [a, b], r.choice([lambda: a + b, lambda: a - b])

        def stateset():
            s = W.state()
            v, p, c = W.line("vol"), W.line("pri"), W.line("all")
            return [s, v, p, c], r.choice([lambda: s.set_offtakevolume(v), lambda: s.set_unsourcedprice(p), lambda: s.set_sourced(c), lambda: s.add_sourced(c)])

        def statehedge():
            s = W.state()
            how = r.choice(["vol", "val"])
            return [s], r.choice([lambda: s.source_unsourced(how), lambda: s.hedge_of_unsourced(how), lambda: s.mtm_of_sourced()])

        return [neg, scale, add, add, sub, sub, add0, sums, mul, div, unite, parts, flatten, asfreq, slc, loc, locmask, reindex,
                setchild, dropchild, child, nest, rebuild, concat, hedge, inter, look, newstate, stateparts, stateparts,
                stateadd, stateset, statehedge]  # fmt: skip

    def any(self):
        return self.rng.choice(self.states) if self.rng.random() < 0.15 else self.line()

    def state(self):
        return self.rng.choice(self.states)

    def nested_line(self):
        c = [x for k in gen.KINDS for x in self.pool[k] if obs.nested(x)]
        if not c:
            x = self.line()
            return pf.PfLine({"A": x, "B": x})
        return self.rng.choice(c)

    def step(self):
        op = self.rng.choice(self.ops())
        operands, fn = op()
        return op.__name__, operands, fn

    def lines_in(self, res):
        if isinstance(res, pf.PfLine):
            yield res
        elif isinstance(res, (list, tuple)):
            for x in res:
                yield from self.lines_in(x)

    def states_in(self, res):
        if isinstance(res, pf.PfState):
            yield res

    def keep(self, res):
        for x in self.lines_in(res):
            i = x.index
            if i.freq != self.idx.pd.freq or obs.sod_of(i) != self.idx.sod:
                continue
            if len(i) < 1 or depth(x) > 3:
                continue
            self.add(x)
        for s in self.states_in(res):
            if s.index.freq != self.idx.pd.freq or len(s.index) != self.idx.n:
                continue
            v = np.concatenate([np.asarray(z.pint.magnitude, float) for z in (s.offtakevolume.q, s.unsourcedprice.p, s.sourced.q, s.sourced.r)])
            if not np.isfinite(v).all() or np.abs(v).max() > 1e10:
                continue
            self.mag = max(self.mag, np.abs(v).max())
            self.states.append(s)
            if len(self.states) > 4:
                self.states.pop(self.rng.randrange(len(self.states)))


def leaves(x):
    for c in obs.children(x).values():
        yield c
        yield from leaves(c)


def depth(x):
    ch = obs.children(x)
    return 0 if not ch else 1 + max(depth(c) for c in ch.values())
