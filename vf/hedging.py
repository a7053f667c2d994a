"""Reference hedge, and random curves to hedge."""
import alg
import cal
import gen
import numpy as np
import peak
from core import Skip

import portfolyo as pf
from portfolyo import tools


def reference(idx, w, p, how, freq, pk):
    """(index, w, p, groups) of hedge. None if no complete product."""
    tgt = alg.full_span(idx, freq)
    if tgt is None:
        return None
    src = gen.Idx(idx.freq, tgt.first, tgt.last, idx.sod, idx.tz)
    a = idx.left.index(src.left[0])
    w, p = w[a : a + src.n], p[a : a + src.n]
    t = src.hours
    W, P, groups = np.empty(src.n), np.empty(src.n), []
    sels = [np.arange(g.start, g.stop) for g in (alg.regroup(src, tgt) if src.freq != freq else [slice(k, k + 1) for k in range(src.n)])]
    if pk is not None:
        m = peak.is_peak(src.left, src.tz, *pk)
        sels = [s[x] for s in sels for x in (m[s], ~m[s]) if x.any()]
    for s in sels:
        P[s] = np.sum(p[s] * t[s]) / np.sum(t[s])
        if how == "vol":
            W[s] = np.sum(w[s] * t[s]) / np.sum(t[s])
        else:
            den = np.sum(p[s] * t[s])
            if abs(den) < 1e-3 * np.sum(np.abs(p[s] * t[s])):
                raise Skip
            W[s] = np.sum(w[s] * p[s] * t[s]) / den
        groups.append(s)
    return src, w, p, W, P, groups


def curves(rng, freq=None):
    prod = freq or rng.choice(["D", "MS", "MS", "MS", "QS", "YS"])
    src = rng.choice([f for f in ("15min", "h", "h", "D") if not (prod == "D" and f == "D" and rng.random() < 0.7)])
    if prod == "D":
        idx = gen.index(rng, freqs=[src], size="s" if src != "D" else "m")
    elif prod == "MS":
        idx = gen.index(rng, freqs=[src], size="s", full="MS")
        if rng.random() < 0.4:
            idx = gen.Idx(src, idx.first, cal.next_date(idx.last, "MS"), idx.sod, idx.tz)
    else:
        while True:
            idx = gen.index(rng, freqs=["D" if prod == "YS" and rng.random() < 0.8 else src], size="s", full=prod)
            if idx.n < 10000:
                break
    return prod, idx


def ragged(rng, idx):
    """Lengthen or shorten by some days on both sides."""
    d = lambda: rng.choice([0, 0, 0, 1, 2, 5, 13, -1, -3])  # noqa
    f, la = cal.next_date(idx.first, "D", -d()), cal.next_date(idx.last, "D", d())
    if f >= la:
        return idx
    return idx.shift_span(f, la)


def a_peak(rng, idx, prod):
    """Peak function that is possible for the index, or None."""
    if idx.freq == "D" or prod == "D" or rng.random() < 0.35:
        return None, None, ""
    if rng.random() < 0.3:
        return pf.germanpower_peakfn, (480, 1200, {1, 2, 3, 4, 5}), "german"
    while True:
        kw, a, b, days = peak.definition(rng, quarters=None if idx.freq == "15min" else False)
        if b - a >= 60 or len(days) > 1:
            return tools.peakfn.factory(**kw), (a, b, days), str(kw)


def prices(rng, n):
    v = gen.values(rng, n, rng.choice(["pos", "pos", "spiky", "const", "mixed"]))
    return v
