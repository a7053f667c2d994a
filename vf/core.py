"""Check runner: deterministic scenario workloads, oracles, evidence, replays.

A property module registers *scenarios*.  A scenario is a function ``fn(ctx)`` that
generates one case (from ``ctx.rng`` and ``ctx.i``), drives the real library with it, and
lets an oracle judge what was observed.  It reports a violation with ``ctx.fail``.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

import gen

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, "evidence")


class Violation(Exception):
    def __init__(self, key: str, msg: str):
        super().__init__(f"{key}: {msg}")
        self.key, self.msg = key, msg


class Skip(Exception):
    """Case turned out to be outside the property's domain."""


class Ctx:
    """Handed to a scenario. Collects what the oracle saw."""

    def __init__(self, prop, scen, i, n, seed, tier):
        self.prop, self.scen, self.i, self.n, self.tier = prop, scen, i, n, tier
        self.rng = random.Random(f"{seed}|{prop}|{scen}|{i}")
        self.counts: Counter = Counter()
        self.desc: dict = {}
        self.sig = None

    # -- what was observed
    def saw(self, what: str, n: int = 1):
        self.counts[what] += int(n)

    def case(self, **desc):
        """Describe the case (used for replays, samples and distinctness)."""
        self.desc.update(desc)

    def nontrivial(self, *sig):
        """Mark case as non-trivial; ``sig`` identifies it for distinctness."""
        self.sig = repr((self.scen,) + sig)

    # -- verdicts
    def fail(self, key: str, msg: str):
        raise Violation(key, msg)

    def check(self, cond, key: str, msg=""):
        self.counts["assertions judged"] += 1
        if not cond:
            raise Violation(key, msg() if callable(msg) else str(msg))

    def raises(self, key: str, fn, msg=""):
        """``fn`` must be rejected with an error."""
        self.counts["rejections demanded"] += 1
        try:
            res = fn()
        except Exception as e:  # noqa
            if isinstance(e, (MemoryError, RecursionError, NameError)):
                raise
            if not any("portfolyo" in fr.filename for fr in traceback.extract_tb(e.__traceback__)):
                self.counts[f"refused without a library frame: {key} {type(e).__name__}"] += 1
            return e
        raise Violation(key, f"{msg() if callable(msg) else msg}; was accepted and returned {short(res)}")


def short(o, n=400):
    try:
        s = repr(o)
    except Exception as e:  # noqa
        s = f"<unprintable {type(o).__name__}: {e!r}>"
    return s if len(s) <= n else s[:n] + "..."


class Scenario:
    def __init__(self, fn, quick, thorough, must):
        self.fn, self.name = fn, fn.__name__
        self.n = {"quick": quick, "thorough": thorough}
        self.must = must  # counters that must be > 0 for the run to count


_REG: list[Scenario] = []


def scenario(quick: int, thorough: int = None, must=()):
    def deco(fn):
        _REG.append(Scenario(fn, quick, thorough if thorough is not None else quick * 12, tuple(must)))
        return fn

    return deco


def load(prop: str):
    _REG.clear()
    mod = importlib.import_module(f"props.{prop.lower()}")
    return mod, list(_REG)


# ---------------------------------------------------------------- running
_STATE = {}
CASE_LIMIT_S = 150  # a case normally takes well under a second


def _alarm(signum, frame):
    raise Violation("no-answer", f"library call did not finish within {CASE_LIMIT_S} s")


def chunk_size(n):
    return max(1, min(40, n // 24 or 1))


def _run_case(prop, sc, i, seed, tier):
    ctx = Ctx(prop, sc.name, i, sc.n[tier], seed, tier)
    gen.settle(f"{prop}/{sc.name}/{seed}/{i // chunk_size(sc.n[tier])}")
    viol = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sc.fn(ctx)
            signal.alarm(0)
    except Skip:
        ctx.counts["skipped: outside domain"] += 1
        ctx.sig = None
    except Violation as v:
        viol = {"key": v.key, "msg": v.msg}
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:  # the library refused or crashed where a result was due
        tb = traceback.format_exc().strip().splitlines()
        where = ""
        for fr in reversed(traceback.extract_tb(e.__traceback__)):
            if "portfolyo" in fr.filename:
                where = f"{os.path.basename(fr.filename)}:{fr.name}"
                break
        viol = {
            "key": f"{sc.name}:exception:{type(e).__name__}:{where}",
            "msg": f"unexpected {type(e).__name__}: {str(e)[:300]} | " + " | ".join(tb[-7:]),
        }
    finally:
        signal.alarm(0)
    return ctx, viol


def _worker(task):
    prop, scn, lo, hi, seed, tier, deadline, only = task
    scs = _STATE["scs"]
    sc = next(s for s in scs if s.name == scn)
    out = {"scen": scn, "done": 0, "counts": Counter(), "sigs": set(), "samples": [], "viols": [], "late": 0}
    for i in range(lo, hi):
        if time.time() > deadline:
            out["late"] += hi - i
            break
        ctx, viol = _run_case(prop, sc, i, seed, tier)
        out["done"] += 1
        out["counts"].update(ctx.counts)
        if ctx.sig is not None:
            out["sigs"].add(hashlib.md5(ctx.sig.encode()).hexdigest()[:12])
            if len(out["samples"]) < 1:
                out["samples"].append({"scenario": scn, "i": i, **_jsonable(ctx.desc)})
        if viol is not None:
            viol.update(scenario=scn, lo=lo, i=i, seed=seed, tier=tier, case=_jsonable(ctx.desc))
            out["viols"].append(viol)
            if len(out["viols"]) >= 25:
                break
    return out


def _jsonable(o):
    return json.loads(json.dumps(o, default=lambda x: short(x, 300)))


def _init(prop):
    # The library must not be able to disturb the verdict line.
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = open(os.devnull, "w")
    if "scs" not in _STATE:
        _STATE["mod"], _STATE["scs"] = load(prop)


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == prop]


def main(argv):
    prop = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    only = None
    replay = None
    for a in argv[1:]:
        if a.startswith("--only="):
            only = a[7:]
        elif a.startswith("--replay="):
            replay = a[9:]
        elif a in ("quick", "thorough"):
            tier = a
        elif a.startswith("--seed="):
            seed = int(a[7:])
    if replay:
        return do_replay(prop, replay)
    t0 = time.time()
    budget = {"quick": 330.0, "thorough": 840.0}[tier]
    budget = float(os.environ.get("VF_BUDGET", budget))
    deadline = t0 + budget
    mod, scs = load(prop)
    _STATE["mod"], _STATE["scs"] = mod, scs
    if only:
        scs = [s for s in scs if s.name == only]
    tasks = []
    for s in scs:
        n = s.n[tier]
        chunk = chunk_size(n)
        for lo in range(0, n, chunk):
            tasks.append((prop, s.name, lo, min(n, lo + chunk), seed, tier, deadline, only))
    random.Random(seed).shuffle(tasks)
    nproc = int(os.environ.get("VF_PROCS", min(8, os.cpu_count() or 1)))
    counts, sigs, samples, viols, done, late = Counter(), set(), {}, [], Counter(), 0
    per = {s.name: Counter() for s in scs}
    # (Each chunk of cases runs in a process of its own, so that what it observes cannot depend
    # on which chunks happened to run before.)
    with mp.get_context("fork").Pool(nproc, initializer=_init, initargs=(prop,), maxtasksperchild=1) as pool:
        for out in pool.imap_unordered(_worker, tasks):
            done[out["scen"]] += out["done"]
            late += out["late"]
            counts.update(out["counts"])
            per[out["scen"]].update(out["counts"])
            sigs |= out["sigs"]
            samples.setdefault(out["scen"], []).extend(out["samples"])
            viols.extend(out["viols"])
            if len(viols) > 400:
                pool.terminate()
                break
    viols.sort(key=lambda v: (v["scenario"], v["i"]))
    # -- split into listed and unlisted violations
    known = known_findings(prop)
    hit, fresh = {}, []
    for v in viols:
        for k in known:
            if v["key"] == k["key"]:
                hit.setdefault(k["key"], []).append(v)
                break
        else:
            fresh.append(v)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['key']}: {k['what']}")
    # -- evidence
    starved = []
    for s in scs:
        for m in s.must:
            if per[s.name][m] == 0 and not any(v["scenario"] == s.name for v in viols):
                starved.append(f"{s.name}: {m}")
    cov = {
        "evaluations": int(sum(done.values())),
        "distinct_nontrivial": len(sigs),
        "rule": getattr(mod, "RULE", ""),
        "samples": [x for n in samples for x in samples[n][:2]][:16],
        "per_scenario": {s.name: {"cases": done[s.name], "observed": dict(sorted(per[s.name].items()))} for s in scs},
        "cases_cut_by_time_limit": late,
        "known_findings_seen": {k: len(v) for k, v in hit.items()},
        "explanation": (mod.__doc__ or "").strip(),
    }
    if getattr(mod, "EXHAUSTIVE", False) and not late:
        cov["exhaustive"] = True
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", [])
        + ["pandas, numpy, pint and the tz database behave as documented"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    for fn in os.listdir(rdir):
        if fn.startswith(prop + "-"):
            os.remove(os.path.join(rdir, fn))
    if fresh:
        seen = {}
        for v in fresh:
            seen.setdefault(v["key"], v)
        for j, (key, v) in enumerate(list(seen.items())[:12]):
            path = os.path.join(rdir, f"{prop}-{j}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            nkey = sum(1 for x in fresh if x["key"] == key)
            print(f"  [{v['scenario']} #{v['i']}] x{nkey} {key}: {v['msg'][:1500]}")
            print(f"      case: {json.dumps(v['case'])[:600]}")
            print(f"VIOLATION property={prop} replay=evidence/replays/{prop}-{j}.json")
        return 1
    print(
        f"{prop} {tier} seed={seed}: held on {cov['evaluations']} cases"
        f" ({cov['distinct_nontrivial']} distinct non-trivial), "
        f"{counts['assertions judged']} assertions judged, {ev['wall_s']} s"
    )
    if starved:
        print(f"check error: the oracle never observed: {starved}")
        return 2
    return 0


def do_replay(prop, path):
    p = path if os.path.exists(path) else os.path.join(VERIF, path)
    with open(p) as f:
        v = json.load(f)
    mod, scs = load(prop)
    sc = next(s for s in scs if s.name == v["scenario"])
    ctx, viol = _run_case(prop, sc, v["i"], v["seed"], v["tier"])
    if not viol:  # maybe it needs the history: all cases of the chunk, in order
        for i in range(v.get("lo", v["i"]), v["i"] + 1):
            ctx, viol = _run_case(prop, sc, i, v["seed"], v["tier"])
        print(f"only after cases {v.get('lo')}..{v['i'] - 1} in the same process:")
    print(json.dumps(_jsonable(ctx.desc), indent=1))
    if viol:
        print(f"{viol['key']}: {viol['msg']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("did not reproduce")
    return 0
