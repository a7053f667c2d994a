"""Seeded generators: hostile delivery-period indices, values, portfolio lines."""
from __future__ import annotations

import datetime as dt
import random

import numpy as np
import pandas as pd

import cal

TZS = [None, "Europe/Berlin", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "UTC", "Australia/Sydney", "Europe/London"]
SODS = [dt.time(0), dt.time(0), dt.time(6), dt.time(5), dt.time(9), dt.time(22)]
# first days near which something happens: DST, leap day, year/quarter ends
EVENTS = {
    "Europe/Berlin": [(2020, 3, 29), (2020, 10, 25), (2021, 3, 28), (2021, 10, 31), (2019, 3, 31), (2024, 3, 31), (2023, 10, 29)],
    "Europe/London": [(2020, 3, 29), (2020, 10, 25), (2021, 10, 31)],
    "America/New_York": [(2020, 3, 8), (2020, 11, 1), (2026, 11, 1), (2021, 3, 14), (2021, 11, 7)],
    "Australia/Sydney": [(2020, 4, 5), (2020, 10, 4), (2023, 10, 1), (2018, 4, 1)],
}
COMMON = [(2020, 2, 29), (2020, 2, 28), (2019, 12, 31), (2020, 12, 31), (2023, 3, 1), (2021, 7, 1), (2024, 2, 1), (2022, 9, 30)]


class Idx:
    """A standardized index: gapless delivery periods, left-bound."""

    def __init__(self, freq, first: dt.date, last: dt.date, sod=dt.time(0), tz=None):
        self.freq, self.first, self.last, self.sod, self.tz = freq, first, last, sod, tz
        self.b = cal.bounds(freq, first, last, sod, tz)
        assert len(self.b) >= 2, "empty index"
        self.n = len(self.b) - 1
        self.hours = np.array(cal.hours(self.b))

    @property
    def pd(self) -> pd.DatetimeIndex:
        return mk_index(self.b[:-1], self.tz, self.freq)

    @property
    def left(self):
        return self.b[:-1]

    def shift_span(self, first, last):
        return Idx(self.freq, first, last, self.sod, self.tz)

    def __repr__(self):
        return f"Idx({self.freq} {self.first}..{self.last} sod={self.sod.strftime('%H:%M')} tz={self.tz} n={self.n})"

    @property
    def dst(self) -> bool:
        return self.tz is not None and bool(np.any(np.array(cal.hours(cal.bounds("D", self.first, self.last, self.sod, self.tz))) != 24.0))

    def key(self):
        return (self.freq, str(self.first), str(self.last), str(self.sod), self.tz)


def mk_index(secs, tz, freq=None, name="ts_left") -> pd.DatetimeIndex:
    arr = np.array(secs, dtype="int64").astype("datetime64[s]").astype("datetime64[ns]")
    i = pd.DatetimeIndex(arr, name=name)
    if tz is not None:
        i = i.tz_localize("UTC").tz_convert(tz)
    if freq is not None:
        i.freq = freq
    return i


def secs(i: pd.DatetimeIndex) -> list[int]:
    """Moments of an index (see cal.py)."""
    i = i.tz_convert("UTC").tz_localize(None) if i.tz is not None else i
    a = i.values.astype("datetime64[ns]").astype("int64")
    return [int(x) // 10**9 if int(x) % 10**9 == 0 else int(x) / 10**9 for x in a]


def sec(ts: pd.Timestamp):
    v = ts.tz_convert("UTC").tz_localize(None) if ts.tz is not None else ts
    v = v.as_unit("ns").value
    return v // 10**9 if v % 10**9 == 0 else v / 10**9


def stamp(s: int, tz) -> pd.Timestamp:
    ts = pd.Timestamp(s, unit="s")
    return ts if tz is None else ts.tz_localize("UTC").tz_convert(tz)


# Zones with same offset in winter, but (possibly) not in summer.
TWINS = {
    "Europe/Berlin": ["Africa/Lagos", "Africa/Tunis"],
    "Europe/London": ["UTC", None, "Africa/Abidjan"],
    "UTC": ["Europe/London", "Europe/Lisbon", None],
    None: ["UTC", "Europe/London", "Europe/Berlin"],
    "America/New_York": ["America/Panama", "America/Jamaica"],
    "Australia/Sydney": ["Australia/Brisbane", "Pacific/Guam"],
    "Asia/Kolkata": ["Asia/Colombo"],
}

HOME = None


def settle(key: str):
    """Set the surroundings of a group of cases: part of its indices start on the same day, in
    timezones that (at times) have the same offset, and with the same length, so that they have
    moments, dates or lengths in common (while differing in timezone, frequency, values, ..) and
    anything that the library wrongly remembers between calls is noticed."""
    global HOME
    r = random.Random(key)
    HOME = (r.choice([dt.date(*r.choice(COMMON)), dt.date(r.randrange(2019, 2026), r.choice([1, 3, 4, 10, 12]), 1)]), r.choice([dt.time(0), r.choice(SODS)]), [(z := r.choice(list(TWINS)))] + r.sample(TWINS[z], 1), r.random())


def anchor_date(rng: random.Random, tz) -> dt.date:
    r = rng.random()
    if tz in EVENTS and r < 0.6:
        d = dt.date(*rng.choice(EVENTS[tz]))
    elif r < 0.85:
        d = dt.date(*rng.choice(COMMON))
    else:
        d = dt.date(2015, 1, 1) + dt.timedelta(days=rng.randrange(5000))
    return d


def index(rng: random.Random, freqs=None, tz="?", sod="?", size="s", full=None) -> Idx:
    """Random index.  ``size``: 's' (few periods), 'm', 'l'.  ``full``: frequency whose
    period boundaries both ends must be on."""
    home = HOME is not None and rng.random() < 0.25
    if tz == "?":
        tz = rng.choice(HOME[2]) if home and rng.random() < 0.7 else rng.choice(TZS)
    free_sod = sod == "?"
    sod = rng.choice(SODS) if free_sod else sod
    freq = rng.choice(freqs or cal.FREQS)
    d = anchor_date(rng, tz)
    lr = rng
    if home:
        d = HOME[0]
        lr = random.Random(f"{HOME[3]} {freq} {size}")
        sod = HOME[1] if free_sod else sod
    b = cal.base(freq)
    if b in ("15min", "h"):
        days = {"s": lr.choice([1, 1, 2, 2, 3]), "m": lr.choice([1, 2, 3, 5, 8]), "l": lr.choice([3, 10, 33, 65])}[size]
        if b == "15min":
            days = min(days, 12)
        lead = 0 if home else rng.randrange(days)
        first = d - dt.timedelta(days=lead)
        last = first + dt.timedelta(days=days)
    elif b == "D":
        days = {"s": lr.choice([1, 2, 3, 7]), "m": lr.choice([3, 10, 31, 40, 62]), "l": lr.choice([31, 62, 100, 370])}[size]
        first = d - dt.timedelta(days=0 if home else rng.randrange(days))
        last = first + dt.timedelta(days=days)
    else:
        k = {"s": lr.choice([1, 2, 3, 4]), "m": lr.choice([2, 5, 8, 13]), "l": lr.choice([8, 15, 25])}[size]
        if b == "YS":
            k = max(1, min(k, 6) - lr.randrange(2))
        first = cal.next_date(cal.start_date(d, freq), freq, 0 if home else -rng.randrange(k))
        last = cal.next_date(first, freq, k)
    if full is not None:
        first = cal.start_date(first, full)
        l2 = cal.start_date(last, full)
        last = l2 if l2 >= last and l2 > first else cal.next_date(l2, full)
    return Idx(freq, first, last, sod, tz)


def sibling(rng: random.Random, idx: Idx):
    """Another index that has several things (moments, wall-clock times, length, frequency, ...)
    in common with ``idx``, but not all; and what that is."""
    what = rng.choice(["twin zone", "twin zone", "other zone", "longer", "later", "other start-of-day", "copy", "same moments"])
    first, last, sod, tz = idx.first, idx.last, idx.sod, idx.tz
    unit = idx.freq if cal.rank(idx.freq) >= 2 else "D"
    if what == "twin zone":
        tz = rng.choice(TWINS.get(tz, [t for t in TZS if t != tz]))
    elif what == "other zone":
        tz = rng.choice([t for t in TZS if t != tz])
    elif what == "same moments":
        z = rng.choice([t for t in TZS + ["Asia/Tokyo"] if t and t != tz])
        if tz is None or cal.rank(idx.freq) >= 2:
            return idx, "copy"
        a, b = cal.to_wall(idx.b[0], z), cal.to_wall(idx.b[-1], z)
        if a.time() != b.time() or a.minute:
            return idx, "copy"
        return Idx(idx.freq, a.date(), b.date(), a.time(), z), what
    elif what == "longer":
        last = cal.next_date(last, unit, rng.choice([1, 2]))
    elif what == "later":
        k = rng.choice([1, 2, 3])
        first, last = cal.next_date(first, unit, k), cal.next_date(last, unit, k)
    elif what == "other start-of-day":
        sod = rng.choice([x for x in SODS if x != sod])
    return Idx(idx.freq, first, last, sod, tz), what


def subspan(rng: random.Random, idx: Idx, mode=None):
    """Another index of same frequency etc., with some relation to ``idx``."""
    mode = mode or rng.choice(["same", "inside", "left", "right", "disjoint", "contain"])
    unit = "D" if cal.rank(idx.freq) <= 2 else idx.freq
    days = []
    d = idx.first
    while d <= idx.last:
        days.append(d)
        d = cal.next_date(d, unit)
    n = len(days) - 1
    if mode == "same":
        return idx, "same"
    if mode == "inside" and n >= 2:
        k = rng.randrange(1, n)
        s = rng.randrange(0, n - k + 1)
        return idx.shift_span(days[s], days[s + k]), mode
    k = rng.randrange(1, 4)
    if mode == "left" and n >= 2:
        s = rng.randrange(1, n)
        return idx.shift_span(cal.next_date(days[0], unit, -k), days[s]), mode
    if mode == "right" and n >= 2:
        s = rng.randrange(1, n)
        return idx.shift_span(days[s], cal.next_date(days[-1], unit, k)), mode
    if mode == "disjoint":
        gap = rng.randrange(0, 3)
        a = cal.next_date(days[-1], unit, gap)
        if rng.random() < 0.5:
            return idx.shift_span(a, cal.next_date(a, unit, k)), mode
        z = cal.next_date(days[0], unit, -gap)
        return idx.shift_span(cal.next_date(z, unit, -k), z), mode
    return idx.shift_span(cal.next_date(days[0], unit, -k), cal.next_date(days[-1], unit, rng.randrange(0, 3))), "contain"


def values(rng: random.Random, n: int, style=None) -> np.ndarray:
    r = np.random.default_rng(rng.getrandbits(48))
    style = style or rng.choice(["pos", "pos", "mixed", "mixed", "ints", "const", "big", "small", "zeros", "spiky"])
    if style == "pos":
        return r.uniform(1, 100, n)
    if style == "mixed":
        return r.uniform(-80, 120, n)
    if style == "ints":
        return r.integers(-20, 50, n).astype(float)
    if style == "const":
        return np.full(n, float(r.integers(1, 200)))
    if style == "big":
        return r.uniform(1e4, 1e7, n)
    if style == "small":
        return r.uniform(0.001, 0.1, n)
    if style == "zeros":
        v = r.uniform(-50, 100, n)
        v[r.random(n) < 0.3] = 0.0
        return v
    if style == "spiky":
        v = r.uniform(1, 2, n)
        v[r.random(n) < 0.2] *= 1000
        return v
    if style == "nonzero":
        v = r.uniform(1, 100, n)
        return np.where(r.random(n) < 0.3, -v, v)
    raise ValueError(style)


UNIT = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur"}
KINDS = ["vol", "pri", "rev", "all"]
COLS = {"vol": "wq", "pri": "p", "rev": "r", "all": "wqpr"}


class Flat:
    """Reference model of a flat portfolio line: arrays in default units."""

    def __init__(self, kind, idx: Idx, **arr):
        self.kind, self.idx = kind, idx
        h = idx.hours
        for k in "wqpr":
            setattr(self, k, None)
        if kind in ("vol", "all"):
            self.q = arr["q"] if "q" in arr else arr["w"] * h
            self.w = arr["w"] if "w" in arr else arr["q"] / h
        if kind in ("pri", "all") and "p" in arr:
            self.p = arr["p"]
        if kind in ("rev", "all") and "r" in arr:
            self.r = arr["r"]
        if kind == "all":
            if self.r is None:
                self.r = self.p * self.q
            if self.p is None:
                with np.errstate(all="ignore"):
                    self.p = self.r / self.q

    nested = False

    def cols(self):
        return COLS[self.kind]

    def agg(self):
        return self

    def series(self, col, pint=False):
        v = getattr(self, col)
        return pd.Series(v.copy(), self.idx.pd, dtype=f"pint[{UNIT[col]}]" if pint else float, name=col)

    def build(self, pf, via=None):
        via = via or {"vol": "w", "pri": "p", "rev": "r", "all": "wp"}[self.kind]
        return pf.PfLine({c: self.series(c) for c in via})

    def describe(self):
        return f"{self.kind} flat {self.idx}"

    def depth(self):
        return 0


class Nest:
    """Reference model of a nested portfolio line."""

    nested = True

    def __init__(self, children: dict):
        self.children = children
        first = next(iter(children.values()))
        self.kind, self.idx = first.kind, first.idx

    def agg(self) -> Flat:
        parts = [c.agg() for c in self.children.values()]
        if self.kind == "vol":
            return Flat("vol", self.idx, q=sum(p.q for p in parts))
        if self.kind == "pri":
            return Flat("pri", self.idx, p=sum(p.p for p in parts))
        if self.kind == "rev":
            return Flat("rev", self.idx, r=sum(p.r for p in parts))
        return Flat("all", self.idx, q=sum(p.q for p in parts), r=sum(p.r for p in parts))

    def build(self, pf):
        return pf.PfLine({n: c.build(pf) for n, c in self.children.items()})

    def describe(self):
        return f"{self.kind} nested({', '.join(n + ':' + ('nest' if c.nested else 'flat') for n, c in self.children.items())}) {self.idx}"

    def depth(self):
        return 1 + max(c.depth() for c in self.children.values())

    def cols(self):
        return COLS[self.kind]


NAMES = ["A", "B", "C", "solar", "wind", "B2B", "x y", "Zürich", "a", "z9", "p1", "items2"]


def flat(rng, kind, idx, style=None, pstyle=None) -> Flat:
    v = lambda st=None: values(rng, idx.n, st)  # noqa
    if kind == "vol":
        return Flat("vol", idx, **{rng.choice("wq"): v(style)})
    if kind == "pri":
        return Flat("pri", idx, p=v(style))
    if kind == "rev":
        return Flat("rev", idx, r=v(style))
    w = v(style or rng.choice(["pos", "nonzero", "const", "big", "spiky"]))
    return Flat("all", idx, w=w, p=v(pstyle or rng.choice(["pos", "mixed", "const"])))


def line(rng, kind, idx, depth=None, names=None, style=None):
    """Random line (reference model); depth 0 = flat."""
    if depth is None:
        depth = rng.choice([0, 0, 1, 1, 2])
    if depth == 0:
        return flat(rng, kind, idx, style)
    k = rng.randrange(1, 4)
    names = names or rng.sample(NAMES, k)
    ch = {}
    for j, nm in enumerate(names):
        d = depth - 1 if j == 0 else rng.randrange(0, depth)
        ch[nm] = line(rng, kind, idx, d, style=style)
    return Nest(ch)


# ------------------------------------------------------------------ comparing
def mags(s, unit) -> np.ndarray:
    """Magnitudes of a (pint or float) series in the given unit; the pint unit must fit."""
    if hasattr(s, "pint"):
        s = s.astype(f"pint[{unit}]").pint.magnitude if not hasattr(s, "columns") else s
    a = np.asarray(s, dtype=float)
    return a


def close(a, b, rtol=1e-9, scale=None) -> bool:
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    ok = ~na
    a, b = a[ok], b[ok]
    ia, ib = np.isinf(a), np.isinf(b)
    if (ia != ib).any() or (np.sign(a[ia]) != np.sign(b[ib])).any():
        return False
    a, b = a[~ia], b[~ib]
    if not len(a):
        return True
    sc = scale if scale is not None else max(np.abs(a).max(), np.abs(b).max(), 1e-12)
    return bool((np.abs(a - b) <= rtol * np.maximum(sc, np.maximum(np.abs(a), np.abs(b)))).all())


def worst(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return f"lengths {a.shape} vs {b.shape}"
    with np.errstate(all="ignore"):
        d = np.abs(a - b)
        d[np.isnan(a) != np.isnan(b)] = np.inf
    if not len(d):
        return "empty"
    k = int(np.nanargmax(np.where(np.isnan(d), -1, d)))
    return f"position {k}/{len(a)}: got {a[k]!r}, expected {b[k]!r}"


# Independent table: 1 <unit> = factor x default unit of that dimension.
FACTORS = {
    "w": {"MW": 1, "kW": 1e-3, "W": 1e-6, "GW": 1e3, "TW": 1e6, "J/s": 1e-6, "kWh/h": 1e-3, "MWh/h": 1, "MJ/s": 1},
    "q": {"MWh": 1, "kWh": 1e-3, "Wh": 1e-6, "GWh": 1e3, "TWh": 1e6, "J": 1 / 3.6e9, "kJ": 1 / 3.6e6, "MJ": 1 / 3.6e3, "GJ": 1 / 3.6, "TJ": 1e3 / 3.6, "toe": 11.63, "tce": 6.978, "MW*h": 1, "kW*h": 1e-3},
    "p": {"Eur/MWh": 1, "Eur/kWh": 1e3, "ctEur/kWh": 10, "ct/kWh": 10, "Eur/GJ": 3.6, "kEur/GWh": 1, "MEur/TWh": 1, "€/MWh": 1, "kEur/MWh": 1e3, "Eur/TJ": 3.6e-3, "ctEur/MWh": 1e-2},
    "r": {"Eur": 1, "ctEur": 1e-2, "kEur": 1e3, "MEur": 1e6, "€": 1, "cent": 1e-2, "Eur/MWh*GWh": 1e3, "euro": 1},
    "duration": {"h": 1, "min": 1 / 60, "s": 1 / 3600, "hour": 1},
}  # fmt: skip


def dress(rng, col, vals, i, form=None):
    """Series (or other representation) that means the given default-unit values."""
    import portfolyo as pf

    forms = ["float", "pint", "unit", "unit", "objects"]
    if np.all(vals == np.round(vals)) and np.abs(vals).max() < 2**53:
        forms += ["int", "int", "pintint"]
    form = form or rng.choice(forms)
    if form == "float":
        return pd.Series(vals.copy(), i), form
    if form == "int":
        return pd.Series(vals.astype("int64"), i), form
    if form == "pint":
        return pd.Series(vals.copy(), i, dtype=f"pint[{UNIT[col]}]"), form
    if form == "pintint":
        return pd.Series(vals.astype("int64"), i).astype(f"pint[{UNIT[col]}]"), form
    u = rng.choice(list(FACTORS[col]))
    v = vals / FACTORS[col][u]
    if form == "unit":
        return pd.Series(v, i).astype(f"pint[{u}]"), f"pint[{u}]"
    if form == "objects":
        return pd.Series([pf.Q_(float(x), u) for x in v], i), f"objects[{u}]"
    raise ValueError(form)


def crop(model, idx):
    """Reference: part of a model on a sub-index (all periods of ``idx`` must be in model)."""
    if model.nested:
        return Nest({n: crop(c, idx) for n, c in model.children.items()})
    pos = {s: k for k, s in enumerate(model.idx.left)}
    sel = [pos[s] for s in idx.left]
    kw = {c: getattr(model, c)[sel].copy() for c in "wqpr" if getattr(model, c) is not None}
    return Flat(model.kind, idx, **kw)


def common(*idxs):
    """Reference: intersection of indices of same freq/tz/sod; None if empty."""
    first, last = max(i.first for i in idxs), min(i.last for i in idxs)
    return idxs[0].shift_span(first, last) if first < last else None


def mag(*models):
    """Largest magnitude in a model (incl. children)."""
    m = 0.0
    for x in models:
        for c in x.cols():
            a = np.abs(getattr(x.agg(), c))
            a = a[np.isfinite(a)]
            m = max(m, a.max() if len(a) else 0.0)
        if x.nested:
            m = max(m, mag(*x.children.values()))
    return m
