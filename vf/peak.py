"""Random definitions of peak periods, and which periods are peak (reference)."""
import datetime as dt

import cal
import numpy as np


def definition(rng, quarters=None):
    """(arguments for factory, left minute, right minute, set of days)."""
    q = rng.random() < 0.4 if quarters is None else quarters
    st = 15 if q else 60
    steps = 24 * 60 // st
    r = rng.random()
    if r < 0.15:
        a, b = 0, steps
    elif r < 0.3:
        a, b = 0, rng.randrange(1, steps)
    elif r < 0.45:
        a, b = rng.randrange(1, steps), steps
    elif r < 0.7:  # near DST change
        a = rng.randrange(0, 4 * 60 // st)
        b = rng.randrange(a + 1, 5 * 60 // st)
    else:
        a = rng.randrange(steps)
        b = rng.randrange(a + 1, steps + 1)
    days = rng.choice([None, [1, 2, 3, 4, 5], [6, 7], [7], list(range(1, 8)), rng.sample(range(1, 8), rng.randrange(1, 7))])
    if a == 0 and b == steps and days is not None and len(days) == 7:
        days = [1, 2, 3, 4, 5, 6]
    t = lambda m: dt.time(m // 60 % 24, m % 60)  # noqa
    left, right = t(a * st), t(b * st)
    kw = {}
    if not (a == 0 and rng.random() < 0.5):
        kw["peak_left"] = left
    if not (b == steps and rng.random() < 0.5):
        kw["peak_right"] = right
    if days is not None:
        kw["isoweekdays"] = days
    return kw, a * st, b * st, set(days or [1, 2, 3, 4, 5])


def form_days(rng, kw):
    if "isoweekdays" not in kw:
        return kw
    d = kw["isoweekdays"]
    return {**kw, "isoweekdays": rng.choice([d, tuple(d), set(d), (x for x in list(d)), np.array(d), {x: 1 for x in d}])}


def is_peak(secs, tz, a, b, days):
    res = np.zeros(len(secs), bool)
    for k, s in enumerate(secs):
        w = cal.to_wall(s, tz)
        m = w.hour * 60 + w.minute
        res[k] = w.isoweekday() in days and a <= m < b
    return res


def longest(a, b):
    if a == 0 and b == 1440:
        return "D"
    return "h" if a % 60 == 0 and b % 60 == 0 else "15min"
