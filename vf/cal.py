"""Reference calendar: delivery periods computed with the standard library only.

Nothing here uses pandas offsets, pytz or the library under test.  A moment is an integer
number of seconds: POSIX seconds for a zone-aware calendar, and 'wall clock seconds' (as
if UTC) for a zone-agnostic one.
"""
from __future__ import annotations

import bisect
import calendar
import datetime as dt
from functools import lru_cache
from zoneinfo import ZoneInfo

UTC = dt.timezone.utc
EPOCH = dt.datetime(1970, 1, 1)
MON = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"]
FREQS = ["15min", "h", "D", "MS", "QS", "YS"]
STEP = {"15min": 900, "h": 3600}


def base(freq: str) -> str:
    return freq.split("-")[0]


def anchor(freq: str) -> int:
    """Anchor month (1..12) of a quarterly or yearly frequency."""
    return MON.index(freq.split("-")[1]) + 1 if "-" in freq else 1


def rank(freq: str) -> int:
    return FREQS.index(base(freq))


@lru_cache(maxsize=None)
def zone(tz):
    return ZoneInfo(tz)


def to_sec(wall: dt.datetime, tz, fold: int = 0) -> int:
    """Wall clock -> moment."""
    if tz is None:
        return int((wall - EPOCH).total_seconds())
    return int(wall.replace(tzinfo=zone(tz), fold=fold).timestamp())


def to_wall(sec: int, tz) -> dt.datetime:
    """Moment -> wall clock (naive datetime)."""
    if tz is None:
        return EPOCH + dt.timedelta(seconds=sec)
    return dt.datetime.fromtimestamp(sec, zone(tz)).replace(tzinfo=None)


def add_months(d: dt.date, n: int) -> dt.date:
    m = d.year * 12 + d.month - 1 + n
    return dt.date(m // 12, m % 12 + 1, d.day)


def start_date(d: dt.date, freq: str) -> dt.date:
    """First day of the day/month/quarter/year period in which day ``d`` falls."""
    b = base(freq)
    if b == "D":
        return d
    if b == "MS":
        return d.replace(day=1)
    a = anchor(freq)
    n = 3 if b == "QS" else 12
    back = (d.month - a) % n
    return add_months(d.replace(day=1), -back)


def next_date(d: dt.date, freq: str, n: int = 1) -> dt.date:
    b = base(freq)
    if b == "D":
        return d + dt.timedelta(days=n)
    return add_months(d, n * {"MS": 1, "QS": 3, "YS": 12}[b])


def at(d: dt.date, sod: dt.time, tz) -> int:
    """Moment at which delivery day ``d`` starts."""
    return to_sec(dt.datetime.combine(d, sod), tz)


def bounds(freq: str, first: dt.date, last: dt.date, sod: dt.time, tz) -> list[int]:
    """All period boundaries from day ``first`` (incl) to day ``last`` (incl, right bound
    of the final period).  Both must be boundaries of the frequency."""
    if base(freq) in STEP:
        return list(range(at(first, sod, tz), at(last, sod, tz) + 1, STEP[freq]))
    res, d = [], first
    while d <= last:
        res.append(at(d, sod, tz))
        d = next_date(d, freq)
    return res


def day_of(sec: int, sod: dt.time, tz) -> dt.date:
    """Delivery day in which moment falls (days run from start-of-day to start-of-day)."""
    w = to_wall(sec, tz)
    d = w.date()
    if sec < at(d, sod, tz):
        d -= dt.timedelta(days=1)
    return d


def floor(sec: int, freq: str, sod: dt.time, tz, n: int = 0) -> int:
    """Start of the period containing the moment, ``n`` periods later."""
    b = base(freq)
    if b in STEP:
        step = STEP[b]
        # periods start at full (quarter)hours of the wall clock
        w = to_wall(sec, tz)
        past = (w.minute * 60 + w.second) % step
        return sec - past + n * step
    d = start_date(day_of(sec, sod, tz), freq)
    return at(next_date(d, freq, n), sod, tz)


def ceil(sec: int, freq: str, sod: dt.time, tz, n: int = 0) -> int:
    f = floor(sec, freq, sod, tz)
    return floor(sec, freq, sod, tz, n if f == sec else n + 1)


def hours(bs: list[int]) -> list[float]:
    return [(b - a) / 3600 for a, b in zip(bs[:-1], bs[1:])]


def group(src: list[int], freq: str, sod: dt.time, tz):
    """Map source periods (boundaries ``src``) to the target periods fully covered by them.

    Returns (boundaries of target periods [start, ...], list of lists with source positions).
    Only periods that are completely covered are returned.
    """
    out_b, out_g = [], []
    pos = {s: k for k, s in enumerate(src)}
    t = ceil(src[0], freq, sod, tz)
    while True:
        t2 = floor(t, freq, sod, tz, 1)
        if t2 > src[-1]:
            break
        assert t in pos and t2 in pos, "source does not tile target"
        out_b.append((t, t2))
        out_g.append(list(range(pos[t], pos[t2])))
        t = t2
    return out_b, out_g


def containing(src: list[int], moment: int) -> int:
    """Position of source period containing the moment."""
    return bisect.bisect_right(src, moment) - 1


def is_leap(y):
    return calendar.isleap(y)
