"""Scenario runner, violation recorder and evidence writer.

A property module defines
    PROPERTY = "P01"
    LEVEL, RULE
    SCENARIOS = [Scenario(name, fn, quick_n, thorough_n), ...]
Each fn(ctx) drives the real code once, with every random choice taken from
ctx.rng, and reports what its monitors saw through ctx.  Cases are independent
and reproducible from (seed, property, scenario, index): that triple is what a
replay file holds.
"""
import hashlib
import json
import math
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
from multiprocessing import get_context

from .env import REPO, VERIF, np

LINES_MAX = 12
# development aid: planted-bug sweeps keep their evidence out of /verif
OUT = os.environ.get("VERIF_EVIDENCE_DIR", VERIF)
CASE_CPU_S = 60
CASE_MEMORY = 6 << 30


class Scenario:
    def __init__(self, name, fn, quick, thorough, batch=None, cpu_s=CASE_CPU_S):
        self.name, self.fn = name, fn
        self.cpu_s = cpu_s
        self.n = {"quick": quick, "thorough": thorough}
        self.batch = batch


class Skip(Exception):
    """The generated case is outside the property's domain."""


class Inconclusive(Exception):
    """The machinery could not decide (never a verdict about the code)."""


class Hang(BaseException):
    """A single case used up its CPU allowance."""


def _on_prof(*_):
    raise Hang()


def _int_hash(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)[:80]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, np.ndarray):
        if x.size > 240:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:24], depth + 1)}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        x = x.item()
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return repr(x)[:120]


class Ctx:
    def __init__(self, prop, scenario, index, seed, tier):
        self.prop, self.scenario, self.index = prop, scenario, index
        self.seed, self.tier = seed, tier
        self.rng = np.random.default_rng(_int_hash(seed, prop, scenario, index))
        # the code under test may itself draw from the global generator
        np.random.seed(_int_hash(seed, prop, scenario, index, "g") % (2 ** 32))
        self.case = {}
        self.violations = []       # (mech, detail)
        self.events = Counter()
        self.keys = set()
        self.margins = {}

    # -- verdicts -----------------------------------------------------------
    def fail(self, mech, **detail):
        self.violations.append((mech, jsonable(detail)))

    def check(self, cond, mech, **detail):
        self.events["checks"] += 1
        if not bool(cond):
            self.fail(mech, **detail)
            return False
        return True

    def close(self, got, want, mech, rtol=1e-7, atol=1e-9, scale=None, **detail):
        """|got-want| <= atol + rtol*max(|want|, scale) elementwise, NaN fails."""
        self.events["checks"] += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError) as e:
            self.fail(mech, reason=f"not numeric: {e}", got=got, want=want, **detail)
            return False
        if g.shape != w.shape:
            try:
                g, w = np.broadcast_arrays(g, w)
            except ValueError:
                self.fail(mech, reason="shape", got=list(g.shape),
                          want=list(w.shape), **detail)
                return False
        if g.size == 0:
            return True
        ref = np.abs(w) if scale is None else np.maximum(np.abs(w), scale)
        tol = atol + rtol * ref
        with np.errstate(all="ignore"):
            d = np.abs(g - w)
            bad = ~(d <= tol)
            # equal infinities agree
            bad &= ~((g == w) & np.isinf(g))
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(bad, np.nan_to_num(
                d / tol, nan=1e300, posinf=1e300), -1))), d.shape)
            self.fail(mech, at=list(map(int, i)), got_at=g[i], want_at=w[i],
                      tol=np.broadcast_to(tol, d.shape)[i],
                      n_bad=int(bad.sum()), n=int(bad.size), **detail)
            return False
        return True

    def raises(self, fn, mech, **detail):
        """The call has to be refused, by whatever exception."""
        self.events["checks"] += 1
        try:
            r = fn()
        except Exception:                                    # noqa: BLE001
            return True
        self.fail(mech, returned=r, **detail)
        return False

    # -- observation --------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += int(n)

    def key(self, *parts):
        self.keys.add("|".join(map(str, parts)))


def _is_product_crash(tb, *ignore):
    """True when the exception surfaced inside the code under test (or a library
    it called) rather than in the harness itself."""
    names = []
    while tb is not None:
        if tb.tb_frame.f_code not in ignore:
            names.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    root = os.path.abspath(REPO) + os.sep
    last_verif = max((i for i, n in enumerate(names)
                      if os.path.abspath(n).startswith(VERIF + os.sep)), default=-1)
    return any(os.path.abspath(n).startswith(root) for n in names[last_verif + 1:])


def run_case(module, scenario, index, seed, tier):
    ctx = Ctx(module.PROPERTY, scenario.name, index, seed, tier)
    status, err = "ok", None
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, scenario.cpu_s)
    try:
        scenario.fn(ctx)
    except Hang:
        tb = sys.exc_info()[2]
        text = "".join(traceback.format_tb(tb))[-3000:]
        if _is_product_crash(tb, _on_prof.__code__):
            ctx.fail("hang", cpu_s=scenario.cpu_s, traceback=text)
        else:
            status, err = "inconclusive", "case ran out of cpu time in the harness\n" + text
        _HUNG[scenario.name] = _HUNG.get(scenario.name, 0) + 1
    except Skip as e:
        status = "skip"
        ctx.events[f"skip:{e}"] += 1
    except Inconclusive as e:
        status, err = "inconclusive", str(e)
    except Exception as e:                                   # noqa: BLE001
        tb = sys.exc_info()[2]
        text = "".join(traceback.format_exception(type(e), e, tb))[-3000:]
        if _is_product_crash(tb):
            where = [f for f in traceback.extract_tb(tb)
                     if os.path.abspath(f.filename).startswith(
                         os.path.abspath(REPO) + os.sep)][-1]
            ctx.fail(f"crash:{type(e).__name__}", error=str(e)[:300],
                     where=f"{os.path.relpath(where.filename, REPO)}:{where.name}",
                     traceback=text)
        elif isinstance(e, (AttributeError, ImportError, NameError, OSError,
                            MemoryError)):
            # could be an interface that moved: no verdict
            status, err = "harness-error", text
        else:
            # the oracle could not digest what the code returned (wrong type,
            # shape or keys)
            ctx.fail(f"malformed-result:{type(e).__name__}", error=str(e)[:300],
                     traceback=text)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return dict(scenario=scenario.name, index=index, status=status, err=err,
                case=jsonable(ctx.case), violations=ctx.violations,
                events=dict(ctx.events), keys=sorted(ctx.keys))


_HUNG = {}
_MOD = None
_TIER = None
_SEED = None


def _init(mod, tier, seed):
    global _MOD, _TIER, _SEED
    _MOD, _TIER, _SEED = mod, tier, seed
    # a case whose memory runs away ends in a MemoryError of its own
    resource.setrlimit(resource.RLIMIT_AS, (CASE_MEMORY, CASE_MEMORY))


def _work(job):
    name, idxs = job
    sc = next(s for s in _MOD.SCENARIOS if s.name == name)
    out = []
    for i in idxs:
        if _HUNG.get(name, 0) >= 1:
            break
        out.append(run_case(_MOD, sc, i, _SEED, _TIER))
    return out


def load_findings(prop):
    """Known findings: `known: property=<id> finding=<key> <text>` lines."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        parts = line[len("known:"):].split()
        kv = dict(p.split("=", 1) for p in parts[:2])
        if kv.get("property") == prop:
            out[kv["finding"]] = " ".join(parts[2:])
    return out


def main(module, argv):
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    replay = None
    scen_filter = None
    it = iter(argv)
    for a in it:
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = next(it)
        elif a == "--scenario":
            scen_filter = next(it)
        elif a == "--seed":
            seed = int(next(it))
    prop = module.PROPERTY
    t0 = time.time()
    if replay:
        r = json.load(open(replay))
        sc = next(s for s in module.SCENARIOS if s.name == r["scenario"])
        res = run_case(module, sc, r["index"], r["seed"], r["tier"])
        print(json.dumps(res, indent=1)[:8000])
        known = load_findings(prop)
        return 1 if any(m not in known for m, _ in res["violations"]) else 0

    jobs = []
    for s in module.SCENARIOS:
        if scen_filter and s.name != scen_filter:
            continue
        n = s.n[tier]
        b = s.batch or max(1, min(25, math.ceil(n / 16)))
        jobs += [(s.name, list(range(i, min(i + b, n)))) for i in range(0, n, b)]
    # interleave the scenarios so that a slow one does not come last
    jobs.sort(key=lambda j: _int_hash(seed, *j))
    nproc = int(os.environ.get("VERIF_JOBS") or min(8, os.cpu_count() or 1))
    results, broken = [], False
    if nproc == 1:
        _init(module, tier, seed)
        for j in jobs:
            results += _work(j)
    else:
        pool = ProcessPoolExecutor(nproc, get_context("fork"), _init, (module, tier, seed))
        try:
            for f in as_completed([pool.submit(_work, j) for j in jobs]):
                results += f.result()
        except BrokenProcessPool:
            broken = True
        finally:
            pool.shutdown(wait=True, cancel_futures=True)
    results.sort(key=lambda r: (r["scenario"], r["index"]))

    if hasattr(module, "finish"):
        # offline monitor over the whole recorded history of the run
        extra = module.finish(results) or []
        results += extra

    events, keys = Counter(), set()
    per = {}
    errors, viols = [], []
    n_eval = 0
    for r in results:
        p = per.setdefault(r["scenario"], Counter())
        p[r["status"]] += 1
        if r["status"] == "ok":
            n_eval += 1
        if r["status"] in ("harness-error", "inconclusive"):
            errors.append(r)
        events.update(r["events"])
        keys.update(f"{r['scenario']}|{k}" for k in r["keys"])
        viols += [(m, d, r) for m, d in r["violations"]]

    known = load_findings(prop)
    new, listed = {}, {}
    for m, d, r in viols:
        (listed if m in known else new).setdefault(m, []).append((d, r))

    samples, seen = [], set()
    for r in results:
        if r["status"] == "ok" and r["keys"] and r["scenario"] not in seen:
            seen.add(r["scenario"])
            samples.append(dict(scenario=r["scenario"], index=r["index"],
                                case=r["case"], observed=r["events"],
                                classes=r["keys"][:12]))
    if not samples and results:
        samples = [dict(scenario=results[0]["scenario"], case=results[0]["case"])]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=getattr(module, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=n_eval,
            distinct_nontrivial=len(keys),
            rule=module.RULE,
            samples=samples[:12],
            monitor_events=dict(sorted(events.items())),
            scenarios={k: dict(v) for k, v in sorted(per.items())},
            classes_seen=sorted(keys)[:400],
        ),
        wall_s=round(time.time() - t0, 2),
        violations=sum(len(v) for v in new.values()),
        known_findings_seen={k: len(v) for k, v in listed.items()},
        assumptions=getattr(module, "ASSUMPTIONS", []),
    )
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for k in sorted(listed):
        print(f"KNOWN-FINDING: property={prop} {k}: {known[k]}"
              f" (seen {len(listed[k])}x)")
    rc = 0
    if new:
        rc = 1
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        for n, (m, lst) in enumerate(sorted(new.items())):
            if n >= LINES_MAX:
                print(f"... and {len(new) - LINES_MAX} more kinds of violation")
                break
            d, r = lst[0]
            tag = hashlib.sha1(f"{m}|{r['scenario']}|{r['index']}".encode()).hexdigest()[:8]
            path = os.path.join(OUT, "replays", f"{prop}-{tag}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, scenario=r["scenario"], index=r["index"],
                               seed=seed, tier=tier, mechanism=m, detail=d,
                               case=r["case"]), f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            brief = json.dumps({k: v for k, v in d.items() if k != "traceback"})
            print(f"  {r['scenario']}#{r['index']} {m} (x{len(lst)}) {brief[:600]}")
    if errors and not new:
        print(f"INCONCLUSIVE property={prop}: {len(errors)} cases undecided")
        for r in errors[:3]:
            print(f"  {r['scenario']}#{r['index']} {r['status']}\n{r['err']}")
        rc = 2
    if broken and not new:
        print(f"INCONCLUSIVE property={prop}: a worker process died")
        rc = 2
    starved = [s.name for s in module.SCENARIOS
               if (not scen_filter or s.name == scen_filter)
               and per.get(s.name, Counter()).get("ok", 0) == 0]
    if not new and (n_eval == 0 or starved or not events.get("checks")):
        print(f"INCONCLUSIVE property={prop}: nothing observed in {starved or 'any scenario'}")
        rc = rc or 2
    print(f"{prop} {tier} seed={seed}: {n_eval} cases, {events.get('checks', 0)} checks, "
          f"{len(keys)} classes, {sum(len(v) for v in new.values())} new violations, "
          f"{evidence['wall_s']} s")
    return rc
