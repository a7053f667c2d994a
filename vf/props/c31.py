"""C31: frequencies. Which are accepted, how they compare (shortest, longest, up- or downsampling,
long/short enough), what must be added to get to the next period, which one a duration belongs to
and which one is recognised in timestamps without frequency, against the calendar model: the
length and position of the actual delivery periods.
"""
import cal
import gen
import pandas as pd
from core import Skip, scenario

import alg
import portfolyo as pf

RULE = "random sets of (aliases of) frequencies x random indices; distinct by frequencies and index"
tf = pf.tools.freq

ALIASES = {
    "15min": ["15min", "15T", "0.25h", pd.offsets.Minute(15)],
    "h": ["h", "1h", "H", pd.offsets.Hour(1)],
    "D": ["D", "1D", "d", pd.offsets.Day(1)],
    "MS": ["MS", "1MS", pd.offsets.MonthBegin(1)],
    "QS": ["QS", "QS-JAN", "1QS", pd.offsets.QuarterBegin(startingMonth=1)],
    "YS": ["YS", "YS-JAN", "1YS", "AS", pd.offsets.YearBegin(month=1)],
}
BAD = ["2h", "30min", "5min", "min", "s", "ms", "2D", "7D", "W", "W-MON", "B", "ME", "QE", "YE", "2MS", "2QS", "2YS", "3MS", "12MS", "SMS", "BMS", "BQS", "BYS", "-1h", "-1D", "45min", "24h", "60s", "QE-FEB", "cbh", "bh", "SME", "W-SUN", "-1MS", "0D", "16min", "-15min", "150min", "4QS"]


def all_freqs():
    return ["15min", "h", "D", "MS"] + ["QS-" + m for m in cal.MON] + ["YS-" + m for m in cal.MON] + ["QS", "YS"]


def form(rng, f):
    """The frequency, in one of the ways to write it."""
    if f in ALIASES and rng.random() < 0.5:
        return rng.choice(ALIASES[f])
    if rng.random() < 0.3:
        return pd.tseries.frequencies.to_offset(f)
    return f


@scenario(quick=120, must=("accepted", "rejected"))
def valid(ctx):
    """Only the six allowed lengths, with multiple one (15 for minutes), are accepted - by the
    function, and when data with that frequency is offered."""
    rng = ctx.rng
    bad = rng.random() < 0.5
    if bad:
        f = rng.choice(BAD)
        ctx.case(freq=f)
        try:
            off = pd.tseries.frequencies.to_offset(f)
        except ValueError:
            off = None
        ctx.raises("bad-accepted", lambda: pf.assert_freq_valid(f), f"frequency {f}")
        if off is not None:
            ctx.raises("bad-offset", lambda: tf.to_offset(f), f"frequency {f}")
            if off.n > 0:
                i = pd.date_range("2024-01-01", periods=96, freq=off)
                ctx.raises("bad-line", lambda: pf.PfLine(pd.Series(1.0, i, dtype="pint[MW]")), f"line with frequency {f}")
        ctx.saw("rejected")
    else:
        f = rng.choice(all_freqs())
        x = form(rng, f)
        ctx.case(freq=repr(x))
        ctx.check(pf.assert_freq_valid(x) is None, "good-refused", f"{x!r}")
        i = gen.index(rng, freqs=[f], size="s")
        pfl = pf.PfLine(pd.Series(1.0, i.pd, dtype="pint[MW]"))
        ctx.check(pfl.index.freq == pd.tseries.frequencies.to_offset(f), "good-line", lambda: f"{f}: {pfl.index.freq}")
        ctx.saw("accepted")
    ctx.nontrivial(str(f))


@scenario(quick=400, must=("compared",))
def order(ctx):
    """Comparisons agree with the actual periods."""
    rng = ctx.rng
    fs = [rng.choice(all_freqs()) for _ in range(rng.choice([1, 2, 3, 5]))]
    xs = [form(rng, f) for f in fs]
    ctx.case(freqs=[repr(x) for x in xs])
    ranks = [cal.rank(f) for f in fs]
    for fn, best in ((tf.shortest, min(ranks)), (tf.longest, max(ranks))):
        got = fn(*xs)
        ok = [x for x, r in zip(xs, ranks) if r == best]
        ctx.check(any(got is x or got == x for x in ok), "extreme", lambda: f"{fn.__name__}{tuple(xs)} gives {got!r}, should be one of {ok}")
    (a, xa, ra), (b, xb, rb) = [(fs[k], xs[k], ranks[k]) for k in (0, -1)]
    # Up- or downsampling.
    if a != b and ra == rb:
        pass  # same length, different start: judged with asfreq
    elif alg.tiles(a, b):
        got = tf.up_or_down(xa, xb)
        want = (ra > rb) - (ra < rb)
        ctx.check(got == want, "updown", lambda: f"up_or_down({xa!r}, {xb!r}) gives {got}, should be {want}")
        ctx.check(tf.up_or_down(xb, xa) == -got, "updown:antisymmetric", lambda: f"{xa!r} {xb!r}")
    else:
        ctx.raises("updown:impossible", lambda: tf.up_or_down(xa, xb), f"up_or_down({xa!r}, {xb!r})")
    # Assertions.
    for strict in (False, True):
        for fn, ok in (
            (tf.assert_freq_sufficiently_long, ra > rb or (ra == rb and not strict)),
            (tf.assert_freq_sufficiently_short, ra < rb or (ra == rb and not strict)),
        ):
            judge_assertion(ctx, lambda: fn(xa, xb, strict), ok, f"{fn.__name__}({xa!r}, {xb!r}, {strict})")
    judge_assertion(ctx, lambda: tf.assert_freq_equally_long(xa, xb), ra == rb, f"assert_freq_equally_long({xa!r}, {xb!r})")
    ctx.saw("compared")
    ctx.nontrivial(*fs)


def judge_assertion(ctx, fn, ok, what):
    try:
        fn()
        got = True
    except AssertionError:
        got = False
    ctx.check(got == ok, "assertion", lambda: f"{what} {'passes' if got else 'fails'}, should {'pass' if ok else 'fail'}")


@scenario(quick=300, must=("steps judged", "durations judged", "recognised"))
def periods(ctx):
    """Step to next period, frequency of a duration, and frequency of timestamps."""
    rng = ctx.rng
    f = rng.choice(all_freqs())
    idx = gen.index(rng, freqs=[f], size=rng.choice("sm"))
    i = idx.pd
    ctx.case(idx=str(idx))
    step = tf.to_offset(form(rng, f))
    ks = range(idx.n) if idx.n < 40 else sorted(rng.sample(range(idx.n), 40))
    for k in ks:
        got = i[k] + step
        ctx.check(gen.sec(got) == idx.b[k + 1], "step", lambda: f"{i[k]} + step gives {got}")
        ctx.saw("steps judged")
        d = pd.Timedelta(seconds=idx.b[k + 1] - idx.b[k])
        got = tf.from_tdelta(d)
        ctx.check(got == cal.base(f), "duration", lambda: f"{d} belongs to period of {f}; from_tdelta gives {got}")
        ctx.saw("durations judged")
    # Recognising.
    bare = pd.DatetimeIndex(list(i), name=i.name) if rng.random() < 0.5 else i._with_freq(None)
    ctx.check(bare.freq is None, "harness", "index has frequency")
    keep = bare.copy(deep=True)
    got = tf.guess_to_index(bare)
    ctx.check(bare.freq is None and bare.equals(keep), "guess:changed", "index passed to guess_to_index is changed")
    ctx.check(list(got.asi8) == list(i.asi8) and str(got.tz) == str(i.tz) and got.name == i.name, "guess:values", lambda: f"{bare} became {got}")
    judge_guess(ctx, got, idx, must=idx.n >= 3)
    fr = pd.Series(range(idx.n), bare)
    if rng.random() < 0.5:
        fr = pd.DataFrame({"a": fr})
    g2 = tf.guess_to_frame(fr)
    ctx.check(fr.index.freq is None, "guess:changed", "frame passed to guess_to_frame is changed")
    ctx.check(g2.index.freq == got.freq and g2.reset_index(drop=True).equals(fr.reset_index(drop=True)), "guess:frame", lambda: f"{g2}")
    s3 = tf.set_to_frame(fr, form(rng, f))
    ctx.check(fr.index.freq is None and s3.index.freq == i.freq, "set", lambda: f"{s3.index.freq}")
    wrong = rng.choice([x for x in cal.FREQS if cal.base(x) != cal.base(f)])
    if idx.n >= 2:
        ctx.raises("set:wrong", lambda: tf.set_to_frame(fr, wrong), f"frequency {wrong} for {idx}")
    # With a gap there is no frequency (of which the timestamps are consecutive periods).
    if idx.n >= 5:
        k = rng.randrange(1, idx.n - 1)
        gap = bare.delete(k)
        g = tf.guess_to_index(gap)
        if g.freq is not None:
            ok = all(gap[j] + tf.to_offset(g.freq) == gap[j + 1] for j in range(len(gap) - 1))
            ctx.check(ok, "guess:gap", lambda: f"{gap} got frequency {g.freq}")
    ctx.nontrivial(f, idx.n, idx.tz)


def judge_guess(ctx, got, idx, must):
    if got.freq is None:
        ctx.check(not must, "guess:none", lambda: f"frequency of {got} is not recognised")
        return
    s = got.freq.freqstr
    ctx.check(cal.base(s) == cal.base(idx.freq) and alg.tiles(s, idx.freq), "guess:wrong", lambda: f"frequency of {idx} recognised as {s}")
    ctx.saw("recognised")
