"""Reference algebra on models (plain numpy): what operations on portfolio lines must give."""
from __future__ import annotations

import datetime as dt

import cal
import gen
import numpy as np
from gen import Flat, Nest


def add(a, b):
    """a + b for lines of one kind. None if they share no period."""
    idx = gen.common(a.idx, b.idx)
    if idx is None:
        return None
    a, b = gen.crop(a, idx), gen.crop(b, idx)
    if a.nested and b.nested:
        ch = {}
        for n in list(a.children) + [n for n in b.children if n not in a.children]:
            if n in a.children and n in b.children:
                ch[n] = add(a.children[n], b.children[n])
            else:
                ch[n] = (a if n in a.children else b).children[n]
        return Nest(ch)
    a, b = a.agg(), b.agg()
    if a.kind == "vol":
        return Flat("vol", idx, q=a.q + b.q)
    if a.kind == "pri":
        return Flat("pri", idx, p=a.p + b.p)
    if a.kind == "rev":
        return Flat("rev", idx, r=a.r + b.r)
    with np.errstate(all="ignore"):
        v = [np.where(x.q == 0, x.r, x.p * x.q) for x in (a, b)]
        p = (v[0] + v[1]) / (a.q + b.q)
    return Flat("all", idx, q=a.q + b.q, r=a.r + b.r, p=p)


def scale(a, f):
    if a.nested:
        return Nest({n: scale(c, f) for n, c in a.children.items()})
    if a.kind == "vol":
        return Flat("vol", a.idx, q=a.q * f)
    if a.kind == "pri":
        return Flat("pri", a.idx, p=a.p * f)
    if a.kind == "rev":
        return Flat("rev", a.idx, r=a.r * f)
    return Flat("all", a.idx, q=a.q * f, r=a.r * f, p=a.p.copy())


def sub(a, b):
    return add(a, scale(b, -1))


def two(a, b):
    """Flat parts of both in their shared periods, or None."""
    idx = gen.common(a.idx, b.idx)
    if idx is None:
        return None
    return idx, gen.crop(a.agg(), idx), gen.crop(b.agg(), idx)


def mul(a, b):
    t = two(a, b)
    if t is None:
        return None
    idx, a, b = t
    v, p = (a, b) if a.kind == "vol" else (b, a)
    return Flat("rev", idx, r=v.q * p.p)


def div(a, b):
    t = two(a, b)
    if t is None:
        return None
    idx, a, b = t
    with np.errstate(all="ignore"):
        if (a.kind, b.kind) == ("rev", "pri"):
            return Flat("vol", idx, q=a.r / b.p)
        if (a.kind, b.kind) == ("rev", "vol"):
            return Flat("pri", idx, p=a.r / b.q)
        if a.kind == b.kind and a.kind != "all":
            c = {"vol": "q", "pri": "p", "rev": "r"}[a.kind]
            return idx, getattr(a, c) / getattr(b, c)
    raise ValueError("no such division")


def unite(a, b):
    t = two(a, b)
    if t is None:
        return None
    idx, a, b = t
    q = next((x.q for x in (a, b) if x.kind == "vol"), None)
    p = next((x.p for x in (a, b) if x.kind == "pri"), None)
    r = next((x.r for x in (a, b) if x.kind == "rev"), None)
    with np.errstate(all="ignore"):
        if q is None:
            q = r / p
        if p is None:
            p = r / q
        if r is None:
            r = p * q
    return Flat("all", idx, q=q, p=p, r=r)


# ------------------------------------------------------------ frequency
def tiles(src: str, tgt: str) -> bool:
    """Every boundary of the longer frequency is one of the shorter."""
    a, b = sorted((src, tgt), key=cal.rank)
    if cal.rank(a) < 4 or cal.rank(a) == cal.rank(b) == 4 and src == tgt:
        return True
    if cal.rank(a) == cal.rank(b):
        return cal.anchor(a) % (3 if cal.rank(a) == 4 else 12) == cal.anchor(b) % (3 if cal.rank(a) == 4 else 12)
    return (cal.anchor(a) - cal.anchor(b)) % 3 == 0


def full_span(idx: gen.Idx, freq: str):
    """Index with the periods of ``freq`` that are completely covered; None if there are none."""
    if cal.rank(freq) < 2:
        return gen.Idx(freq, idx.first, idx.last, idx.sod, idx.tz)
    first = idx.first if idx.first == cal.start_date(idx.first, freq) else cal.next_date(cal.start_date(idx.first, freq), freq)
    last = cal.start_date(idx.last, freq)
    return gen.Idx(freq, first, last, idx.sod, idx.tz) if first < last else None


def regroup(idx, tgt):
    """For every period of the (longer) target: positions of source periods."""
    pos = {s: k for k, s in enumerate(idx.b)}
    return [slice(pos[a], pos[b]) for a, b in zip(tgt.b[:-1], tgt.b[1:])]


def contained(idx, tgt):
    """For every period of the (shorter) target: position of source period."""
    return np.array([cal.containing(idx.b, s) for s in tgt.left])


def down_sum(v, idx, tgt):
    return np.array([np.sum(v[g]) for g in regroup(idx, tgt)])


def down_avg(v, idx, tgt):
    h = idx.hours
    return np.array([np.sum(v[g] * h[g]) / np.sum(h[g]) for g in regroup(idx, tgt)])


def up_sum(v, idx, tgt):
    k = contained(idx, tgt)
    return v[k] * tgt.hours / idx.hours[k]


def up_avg(v, idx, tgt):
    return v[contained(idx, tgt)]


def asfreq(a, freq):
    """Model at other frequency; None if there is no complete period."""
    up = cal.rank(freq) < cal.rank(a.idx.freq)
    tgt = gen.Idx(freq, a.idx.first, a.idx.last, a.idx.sod, a.idx.tz) if up else full_span(a.idx, freq)
    if tgt is None:
        return None
    s, g = (up_sum, up_avg) if up else (down_sum, down_avg)

    def go(x):
        if x.nested:
            return Nest({n: go(c) for n, c in x.children.items()})
        if x.kind == "vol":
            return Flat("vol", tgt, q=s(x.q, a.idx, tgt))
        if x.kind == "pri":
            return Flat("pri", tgt, p=g(x.p, a.idx, tgt))
        if x.kind == "rev":
            return Flat("rev", tgt, r=s(x.r, a.idx, tgt))
        if up:
            return Flat("all", tgt, w=g(x.w, a.idx, tgt), p=g(x.p, a.idx, tgt), r=s(x.r, a.idx, tgt))
        return Flat("all", tgt, q=s(x.q, a.idx, tgt), r=s(x.r, a.idx, tgt))

    return go(a)


def longer(rng, freq):
    """Random longer frequency whose periods consist of whole periods of ``freq``."""
    c = [f for f in ("h", "D", "MS", "QS", "YS") if cal.rank(f) > cal.rank(freq)]
    if not c:
        return None
    f = rng.choice(c)
    if f in ("QS", "YS"):
        if cal.rank(freq) < 4:
            f += rng.choice(["", "", "-" + rng.choice(cal.MON)])
            if f == "QS" or f.startswith("QS-"):
                f = rng.choice(["QS", "QS-APR", "QS-JUL", "QS-OCT", "QS-FEB", "QS-MAR", f])
        else:
            a = cal.anchor(freq)
            f += "-" + cal.MON[(a - 1 + 3 * rng.randrange(4)) % 12] if f == "YS" else ""
    return f


def shorter(rng, freq, n=10**9, limit=9000):
    """Random shorter frequency that divides all periods of ``freq``; avoid huge results."""
    c = [f for f in ("15min", "h", "D", "MS", "QS") if cal.rank(f) < cal.rank(freq)]
    size = {"15min": 0.25, "h": 1, "D": 24, "MS": 730, "QS": 2190, "YS": 8760}
    c = [f for f in c if n * size[cal.base(freq)] / size[f] < limit]
    if not c:
        return None
    f = rng.choice(c)
    if f == "QS":
        a = (cal.anchor(freq) - 1) % 3
        f += "-" + cal.MON[a + 3 * rng.randrange(4)]
    return f
