"""Reference for conversion between timezones: positions of source values per target period."""
from __future__ import annotations

import cal
import gen


def agnostic(idx: gen.Idx):
    """(index, positions): wall-clock days of 24 hours."""
    out = gen.Idx(idx.freq, idx.first, idx.last, idx.sod, None)
    if cal.rank(idx.freq) >= 2:
        return out, list(range(idx.n))
    pos = {}
    for k, s in enumerate(idx.left):
        pos.setdefault(cal.to_sec(cal.to_wall(s, idx.tz), None), k)
    return out, [pos[s] if s in pos else pos[s - 3600] for s in out.left]


def aware(idx: gen.Idx, tz):
    """(index, positions): from agnostic to timezone."""
    out = gen.Idx(idx.freq, idx.first, idx.last, idx.sod, tz)
    if cal.rank(idx.freq) >= 2:
        return out, list(range(idx.n))
    pos = {s: k for k, s in enumerate(idx.left)}
    return out, [pos[cal.to_sec(cal.to_wall(s, tz), None)] for s in out.left]


def floating(idx: gen.Idx, tz):
    if idx.tz == tz:
        return idx, list(range(idx.n))
    a, p = agnostic(idx) if idx.tz is not None else (idx, list(range(idx.n)))
    if tz is None:
        return a, p
    b, q = aware(a, tz)
    return b, [p[k] for k in q]


def fixed(idx: gen.Idx, tz):
    """Same moments in other timezone: (may a frame have this?, is it standardized?)."""
    w = [cal.to_wall(s, tz) for s in idx.b]
    if cal.rank(idx.freq) < 2:
        ok = w[0].time() == w[-1].time() and w[0].minute == 0
        return True, ok
    same = len({x.time() for x in w[:-1]}) == 1
    starts = all(cal.start_date(x.date(), idx.freq) == x.date() for x in w[:-1])
    return same and starts, same and starts and w[0].minute == 0
