"""Runner: Hypothesis facets in parallel shards, shrinking, replay, evidence."""

import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback
import resource

from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken on this case."""


class Runaway(Exception):
    """The code under test used far more evaluations than it can need."""


class LongRun(Exception):
    """A case used up its evaluation budget where that proves nothing: no verdict on it."""


class HarnessTimeout(BaseException):
    """One case hit the wall-clock guard: no verdict."""


class Hang(BaseException):
    """One call into rkstiff burned CPU_GUARD seconds of processor time (cases take milliseconds)."""


CPU_GUARD = 60


class Facet:
    """One executable check: a generator of JSON cases and an oracle.

    check(case) returns (nontrivial, labels); it raises Violation on a breach.
    """

    def __init__(self, name, strategy, check, quick=1500, thorough=None, shards=2, rule=""):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.shards, self.rule = quick, shards, rule
        self.thorough = quick * 25 if thorough is None else thorough


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(case):
    return hashlib.sha256(canon(case).encode()).digest()[:10]


def through_rkstiff(exc):
    tb = exc.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(env.RKDIR):
            return True
        tb = tb.tb_next
    return False


def judge(facet, case):
    """Run one case. Returns (nontrivial, labels) or raises Violation."""
    try:
        return facet.check(case)
    except Violation:
        raise
    except (HarnessTimeout, KeyboardInterrupt):
        raise
    except LongRun:
        return False, ["long run"]
    except Hang as e:
        raise Violation("the call into rkstiff did not return within %d s of processor time" % CPU_GUARD) from e
    except Exception as e:  # pylint: disable=broad-except
        if isinstance(e, Runaway) or through_rkstiff(e):
            where = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(
                "unexpected %s: %s (at %s:%d)" % (type(e).__name__, e, os.path.basename(where.filename), where.lineno)
            ) from e
        if isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)):
            # never happens on results of the documented shape and type
            where = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(
                "the result cannot be interpreted: %s: %s (at %s:%d)" % (type(e).__name__, e, os.path.basename(where.filename), where.lineno)
            ) from e
        raise


def judge_guarded(facet, case):
    """judge() under the processor-time guard, for the main process."""
    signal.signal(signal.SIGPROF, _cpu_alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_GUARD)
    try:
        return judge(facet, case)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def load(prop):
    return importlib.import_module("vf.props." + prop.lower())


class _Found(Exception):
    pass


def _alarm(_s, _f):
    raise HarnessTimeout("case exceeded the wall-clock guard")


def _cpu_alarm(_s, frame):
    f = frame
    while f is not None:
        if os.path.realpath(f.f_code.co_filename).startswith(env.RKDIR):
            raise Hang()
        f = f.f_back
    raise HarnessTimeout("case exceeded the processor-time guard outside rkstiff")


def run_shard(prop, fname, shard, n, seed, stop, t_end, case_guard, shrink_s):
    """Worker: drive one facet with Hypothesis. Returns a plain dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    facet = {f.name: f for f in load(prop).FACETS}[fname]
    out = dict(facet=fname, shard=shard, evaluations=0, nontrivial=[], labels={}, samples=[], budget=False, error=None, slowest=0.0)
    seen = set()
    best = {}
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _cpu_alarm)
    t_begin = time.monotonic()

    def body(case):
        now = time.monotonic()
        if best:
            if now > best["t"] + shrink_s:
                return
        elif stop.is_set():
            return
        elif now > t_end:
            out["budget"] = True
            return
        signal.alarm(case_guard)
        signal.setitimer(signal.ITIMER_PROF, CPU_GUARD)
        cpu = time.process_time()
        try:
            nontrivial, labels = judge(facet, case)
            cpu = time.process_time() - cpu
            if cpu > out["slowest"]:
                out["slowest"] = round(cpu, 2)
                if cpu > float(os.environ.get("VERIF_SLOW") or 1e9):
                    print("slow: %.1f s %s %s" % (cpu, fname, canon(case)[:1500]), flush=True)
        except Violation as v:
            size = len(canon(case))
            if not best:
                stop.set()
                hung = isinstance(v.__cause__, Hang)  # too slow to shrink
                best.update(t=now - shrink_s if hung else now, size=size, case=case, msg=str(v), first=case)
            elif size <= best["size"]:
                best.update(size=size, case=case, msg=str(v))
            raise _Found() from None
        except HarnessTimeout as e:
            out["error"] = "case guard: %s: %s" % (e, canon(case)[:2000])
            stop.set()
            raise
        finally:
            signal.alarm(0)
            signal.setitimer(signal.ITIMER_PROF, 0)
        if best:
            return
        out["evaluations"] += 1
        for lab in labels:
            out["labels"][lab] = out["labels"].get(lab, 0) + 1
        if nontrivial:
            d = digest(case)
            if d not in seen:
                seen.add(d)
                if len(out["samples"]) < 2 and out["evaluations"] > 5:
                    out["samples"].append(case)

    test = given(facet.strategy)(body)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    h = hashlib.sha256(("%s/%s/%d/%d" % (prop, fname, shard, seed)).encode()).digest()
    test = hypothesis.seed(int.from_bytes(h[:6], "big"))(test)
    try:
        test()
    except BaseException as e:  # pylint: disable=broad-except
        if not best and out["error"] is None:
            out["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
            stop.set()
    from . import cmp

    out["worst"] = cmp.STAT["max"]
    out["nontrivial"] = [d.hex() for d in seen]
    out["wall"] = time.monotonic() - t_begin
    if best:
        out["violation"] = dict(case=best["case"], msg=best["msg"], first=best["first"])
        out["error"] = None
    return out


def _entry(conn, args, stop):
    try:
        conn.send(run_shard(*args[:5], stop, *args[5:]))
    except BaseException:  # pylint: disable=broad-except
        conn.send(dict(facet=args[1], shard=args[2], error=traceback.format_exc()[-4000:]))
    conn.close()


def run_all(tasks, jobs, hard_end):
    """Run every task in its own forked process, `jobs` at a time."""
    ctx = mp.get_context("fork")
    stop = ctx.Event()
    queue, live, results = list(tasks), [], []
    while queue or live:
        while queue and len(live) < jobs:
            args = queue.pop(0)
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_entry, args=(w, args, stop), daemon=True)
            p.start()
            w.close()
            live.append((p, r, args))
        mp.connection.wait([r for _, r, _ in live], timeout=1.0)
        for item in list(live):
            p, r, args = item
            if r.poll():
                try:
                    results.append(r.recv())
                except EOFError:
                    results.append(dict(facet=args[1], shard=args[2], error="worker died (exit %s)" % p.exitcode))
                p.join()
                live.remove(item)
        if time.monotonic() > hard_end:
            for p, r, args in live:
                p.kill()
                results.append(dict(facet=args[1], shard=args[2], error="hard wall-clock limit"))
            break
    return results


def write_replay(prop, facet, case, msg, seed):
    d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, facet))
    with open(path, "w") as f:
        json.dump(dict(property=prop, facet=facet, message=msg, seed=seed, case=case), f, indent=1)
    return path


def known_findings(prop):
    """Entries 'known: property=<id> facet=<f> case=<json> :: <what fails>' of KNOWN_FINDINGS.txt."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for line in open(path) if os.path.exists(path) else ():
        if line.startswith("known: property=%s " % prop):
            head, what = line.strip().split(" :: ", 1)
            _, _, f, case = head.split(" ", 3)
            out.append(dict(facet=f[len("facet="):], case=json.loads(case[len("case="):]), what=what))
    return out


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    ap.add_argument("--facet")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = load(prop)
    facets = {f.name: f for f in mod.FACETS}
    if a.replay:
        rec = json.load(open(a.replay))
        try:
            judge_guarded(facets[rec["facet"]], rec["case"])
        except Violation as v:
            print("replay %s/%s: %s" % (prop, rec["facet"], v))
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("replay %s/%s: the property holds on this case" % (prop, rec["facet"]))
        return 0
    t0 = time.monotonic()
    budget = 420 if a.tier == "quick" else 3000
    t_end = t0 + budget
    findings, errors = [], []
    # 1. plain regression cases (shrunk past failures), no Hypothesis involved
    regress = 0
    rpath = os.path.join(VERIF, "regress", prop + ".jsonl")
    if os.path.exists(rpath) and not a.facet:
        for line in open(rpath):
            if not line.strip():
                continue
            rec = json.loads(line)
            regress += 1
            try:
                judge_guarded(facets[rec["facet"]], rec["case"])
            except Violation as v:
                findings.append((rec["facet"], rec["case"], str(v)))
                if isinstance(v.__cause__, Hang):
                    break
    # known findings: print what the committed file lists, and nothing else
    for rec in known_findings(prop):
        try:
            judge_guarded(facets[rec["facet"]], rec["case"])
            print("%s: the listed finding no longer fails: %s" % (prop, rec["what"]))
        except Violation:
            print("KNOWN-FINDING: property=%s %s" % (prop, rec["what"]))
    # 2. generated search
    tasks = []
    for f in mod.FACETS:
        if a.facet and f.name != a.facet:
            continue
        n = f.quick if a.tier == "quick" else f.thorough
        if n == 0:
            continue
        n = max(1, int(n * a.scale))
        shards = f.shards if a.tier == "quick" else max(f.shards, 8)
        shards = max(1, min(shards, n))
        for s in range(shards):
            tasks.append((prop, f.name, s, -(-n // shards), seed, t_end, 240, 20 if a.tier == "quick" else 60))
    results = []
    if not findings:
        tasks.sort(key=lambda t: -t[3])
        results = run_all(tasks, a.jobs, t0 + budget + 300)
    distinct, labels, per, samples = {}, {}, {}, []
    evaluations = 0
    budget_hit = False
    for r in sorted(results, key=lambda r: (r["facet"], r["shard"])):
        if r.get("violation"):
            findings.append((r["facet"], r["violation"]["case"], r["violation"]["msg"]))
        if r.get("error"):
            errors.append("%s/%s: %s" % (r["facet"], r["shard"], r["error"]))
        evaluations += r.get("evaluations", 0)
        budget_hit |= bool(r.get("budget"))
        p = per.setdefault(r["facet"], dict(evaluations=0, distinct_nontrivial=0, labels={}))
        p["evaluations"] += r.get("evaluations", 0)
        p["worst_error_over_tolerance"] = max(p.get("worst_error_over_tolerance", 0.0), r.get("worst", 0.0))
        p["slowest_case_cpu_s"] = max(p.get("slowest_case_cpu_s", 0.0), r.get("slowest", 0.0))
        distinct.setdefault(r["facet"], set()).update(r.get("nontrivial", []))
        for k, v in r.get("labels", {}).items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        if r.get("samples") and r["shard"] == 0:
            samples.append(dict(facet=r["facet"], case=r["samples"][-1]))
    for k, v in distinct.items():
        per[k]["distinct_nontrivial"] = len(v)
    ndist = sum(len(v) for v in distinct.values())
    rule = mod.RULE + " Facets: " + " | ".join("%s: %s" % (f.name, f.rule) for f in mod.FACETS if f.rule)
    ev = dict(
        property=prop,
        tier=a.tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=evaluations + regress,
            distinct_nontrivial=ndist,
            rule=rule,
            samples=samples,
            facets=per,
            regression_cases=regress,
            time_budget_hit=budget_hit,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.monotonic() - t0, 2),
        violations=len(findings),
    )
    edir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if findings:
        reported = set()
        for facet, case, msg in sorted(findings, key=lambda x: len(canon(x[1]))):
            if facet in reported:
                continue
            reported.add(facet)
            path = write_replay(prop, facet, case, msg, seed)
            print("%s [%s]: %s" % (prop, facet, msg))
            print("  case: %s" % canon(case)[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS ERROR %s %s" % (prop, e), file=sys.stderr)
        return 2
    if ndist < 2 and not a.facet:
        print("HARNESS ERROR %s: no non-trivial cases" % prop, file=sys.stderr)
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (prop, evaluations + regress, ndist, ev["wall_s"]))
    return 0
