"""Driver shared by all checks.

A check is a list of Sub objects: a hypothesis strategy of JSON-serialisable
cases and a function that runs one case against the code under test and raises
Violation when the oracle disagrees.  The driver shards the generated search
over worker processes, shrinks failures with hypothesis, writes the minimal case
as a replay file, and writes the evidence file.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# Cases take milliseconds.  One that takes this long does not terminate.
HANG_SECONDS = 120
SLOW_SECONDS = 5
MEMORY_MB = 3000
# Examples per hypothesis run: hypothesis gets slower as it remembers more of them.
CHUNK = 300


class Violation(Exception):
    """The code under test disagrees with the oracle."""


class Rec:
    """What one worker covered of one sub-check."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.distinct = set()
        self.labels = collections.Counter()
        self.samples = []
        self._case = None

    def begin(self, case):
        self.evaluations += 1
        self._case = case
        self._counted = False

    def label(self, name):
        self.labels[name] += 1

    def nontriv(self, sample=None):
        """This case is non-trivial by the sub-check's rule."""
        if self._counted:
            return
        self._counted = True
        self.nontrivial += 1
        digest = hashlib.md5(json.dumps(self._case, sort_keys=True).encode("utf8", "surrogatepass")).hexdigest()[:16]
        if digest not in self.distinct:
            self.distinct.add(digest)
            if len(self.distinct) in (2, 30, 150, 600):
                self.samples.append(sample if sample is not None else self._case)


class Sub:
    def __init__(self, name, strategy, run, quick, thorough, rule):
        self.name = name
        self.strategy = strategy      # callable returning a strategy
        self.run = run                # run(case, rec)
        self.quick = quick            # cases per worker
        self.thorough = thorough
        self.rule = rule


class Probe:
    """A deterministic regression or known-finding input."""

    def __init__(self, name, run, finding=None):
        self.name = name
        self.run = run                # run() -> None when the property holds, else message
        self.finding = finding        # id in known-findings.json or None


def eq(what, got, want, **context):
    if got != want:
        msg = "%s: got %r, expected %r" % (what, got, want)
        if context:
            msg += " | " + ", ".join("%s=%r" % kv for kv in context.items())
        raise Violation(msg)


def ensure(cond, what, **context):
    if not cond:
        msg = what
        if context:
            msg += " | " + ", ".join("%s=%r" % kv for kv in context.items())
        raise Violation(msg)


def from_code_under_test(exc):
    """Whether an exception was raised by the project's code (and not by the harness)."""
    from vlib.env import in_repo
    tb = exc.__traceback__
    frames = []
    while tb:
        frames.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    last_harness = max([i for i, f in enumerate(frames) if os.path.abspath(f).startswith(VERIF)], default=-1)
    last_repo = max([i for i, f in enumerate(frames) if in_repo(f)], default=-1)
    return last_repo > last_harness


def run_case(sub, case, rec):
    rec.begin(case)
    t0 = time.time()
    try:
        sub.run(case, rec)
        if time.time() - t0 > SLOW_SECONDS:
            rec.label("slower than %d s" % SLOW_SECONDS)
            if os.environ.get("VERIF_SLOW"):
                with open(os.environ["VERIF_SLOW"], "a") as fd:
                    fd.write("%.1f %s %s\n" % (time.time() - t0, sub.name, json.dumps(case)))
    except Violation:
        raise
    except KeyboardInterrupt:
        raise
    except MemoryError as e:
        raise Violation("memory exhausted (%s MB allowed)" % MEMORY_MB) from e
    except BaseException as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if from_code_under_test(e):
            raise Violation("unexpected %s in the code under test: %s\n%s" % (
                type(e).__name__, e, traceback.format_exc(limit=-4))) from e
        # The oracle could not read what the code under test returned.
        raise Violation("the result cannot be judged, %s: %s\n%s" % (
            type(e).__name__, e, traceback.format_exc(limit=-4))) from e


def worker(prop, tier, seed, index, out):
    import resource
    import signal
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 40 if tier == "quick" else 120

    mod = importlib.import_module("vlib.checks." + prop)
    result = {"subs": {}, "violations": [], "errors": []}
    cap = float(os.environ.get("VERIF_CAP", "420" if tier == "quick" else "3000"))
    t_begin = time.time()
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_MB << 20, MEMORY_MB << 20))
    current = {}

    def on_alarm(signum, frame):
        # The code under test swallows exceptions in places, so report from here.
        where = "".join(traceback.format_stack(frame)[-4:])
        result["violations"].append({
            "sub": current["sub"].name, "case": current["case"],
            "message": "no result within %d s:\n%s" % (HANG_SECONDS, where)})
        r = current["rec"]
        result["subs"][current["sub"].name] = {
            "evaluations": r.evaluations, "nontrivial": r.nontrivial, "distinct": sorted(r.distinct),
            "labels": dict(r.labels), "samples": r.samples, "seconds": 0, "skipped_after_cap": 0}
        with open(out, "w") as fd:
            json.dump(result, fd)
        os._exit(0)

    signal.signal(signal.SIGALRM, on_alarm)

    for nth, sub in enumerate(mod.SUBS):
        rec = Rec()
        t_end = t_begin + cap * (nth + 1) / len(mod.SUBS)
        n = max(1, int((sub.quick if tier == "quick" else sub.thorough) * scale))
        last = {}
        capped = [0]

        def body(case):
            current.update(sub=sub, case=case, rec=rec)
            signal.alarm(HANG_SECONDS)
            try:
                run_case(sub, case, rec)
            except Violation as v:
                last["case"] = case
                last["message"] = str(v)
                raise
            finally:
                signal.alarm(0)

        t0 = time.time()
        done = 0
        strategy = sub.strategy()
        while done < n and not last:
            if time.time() > t_end:
                capped[0] = n - done
                break
            chunk = min(CHUNK, n - done)
            test = settings(
                max_examples=chunk, deadline=None, database=None, derandomize=False,
                report_multiple_bugs=False, print_blob=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck))(given(strategy)(body))
            text = "%d/%d/%s/%d" % (seed, index, sub.name, done)
            test = hypothesis.seed(int(hashlib.md5(text.encode()).hexdigest()[:12], 16))(test)
            done += chunk
            try:
                test()
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                if last:
                    result["violations"].append({"sub": sub.name, "case": last["case"], "message": last["message"]})
                else:
                    result["errors"].append("%s: %s" % (sub.name, traceback.format_exc()))
                break
        result["subs"][sub.name] = {
            "evaluations": rec.evaluations, "nontrivial": rec.nontrivial,
            "distinct": sorted(rec.distinct), "labels": dict(rec.labels),
            "samples": rec.samples, "seconds": round(time.time() - t0, 2), "skipped_after_cap": capped[0],
        }
        if result["violations"]:
            break
    with open(out, "w") as fd:
        json.dump(result, fd)


def load_findings():
    with open(os.path.join(VERIF, "known-findings.json")) as fd:
        return json.load(fd)


def short(obj, limit=700):
    text = json.dumps(obj, ensure_ascii=True, sort_keys=True)
    if len(text) <= limit:
        return obj
    return text[:limit] + "..."


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", choices=["quick", "thorough", "replay", "worker"])
    ap.add_argument("rest", nargs="*")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    args = ap.parse_args(argv)
    prop = args.property
    seed = int(os.environ.get("VERIF_SEED", "1"))

    if args.tier == "worker":
        tier, index, out = args.rest
        worker(prop, tier, seed, int(index), out)
        return 0

    if args.tier == "replay":
        with open(args.rest[0]) as fd:
            data = json.load(fd)
        mod = importlib.import_module("vlib.checks." + prop)
        if "probe" in data:
            msg = [p for p in mod.PROBES if p.name == data["probe"]][0].run()
            if msg:
                print("VIOLATION property=%s replay=%s" % (prop, args.rest[0]))
                print("  " + msg)
                return 1
            print("ok")
            return 0
        sub = [s for s in mod.SUBS if s.name == data["sub"]][0]
        for _ in range(20):
            try:
                run_case(sub, data["case"], Rec())
            except Violation as v:
                print("VIOLATION property=%s replay=%s" % (prop, args.rest[0]))
                print("  " + str(v))
                return 1
        print("ok")
        return 0

    t0 = time.time()
    tier = args.tier
    # Import here once: a tree that does not even import is an error of the tree
    # that the build and the tests report; it is not a verdict on the property.
    mod = importlib.import_module("vlib.checks." + prop)
    violations = []
    errors = []
    known = []

    findings = {f["id"]: f for f in load_findings()["findings"]}
    for probe in getattr(mod, "PROBES", []):
        try:
            msg = probe.run()
        except Violation as v:
            msg = str(v)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            msg = "unexpected %s: %s" % (type(e).__name__, e)
        if msg:
            entry = findings.get(probe.finding) if probe.finding else None
            if entry and entry["property"] == prop:
                known.append("%s (%s)" % (entry["what"], msg))
            else:
                violations.append({"probe": probe.name, "message": msg})

    merged = {}
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        procs = []
        for i in range(args.workers):
            out = os.path.join(tmp, "w%d.json" % i)
            env = dict(os.environ, PYTHONHASHSEED=str(i), VERIF_SEED=str(seed), PYTHONDONTWRITEBYTECODE="1",
                       VERIF_TMP=tmp)
            err = open(os.path.join(tmp, "w%d.err" % i), "w")
            p = subprocess.Popen(
                [sys.executable, os.path.join(VERIF, "check.py"), prop, "worker", tier, str(i), out],
                stdout=err, stderr=err, stdin=subprocess.DEVNULL, env=env, cwd=tmp)
            procs.append((i, p, out, err))
        pending = list(procs)
        while pending:
            time.sleep(0.05)
            for item in list(pending):
                i, p, out, err = item
                if p.poll() is None:
                    continue
                pending.remove(item)
                err.close()
                if p.returncode != 0 or not os.path.exists(out):
                    with open(os.path.join(tmp, "w%d.err" % i)) as fd:
                        errors.append("worker %d exit %s: %s" % (i, p.returncode, fd.read()[-3000:]))
                    continue
                with open(out) as fd:
                    res = json.load(fd)
                errors += res["errors"]
                for v in res["violations"]:
                    violations.append(v)
                for name, s in res["subs"].items():
                    m = merged.setdefault(name, {"evaluations": 0, "nontrivial": 0, "distinct": set(),
                                                 "labels": collections.Counter(), "samples": [], "skipped": 0})
                    m["evaluations"] += s["evaluations"]
                    m["nontrivial"] += s["nontrivial"]
                    m["distinct"] |= set(s["distinct"])
                    m["labels"].update(s["labels"])
                    m["skipped"] += s["skipped_after_cap"]
                    m["samples"] += s["samples"][-1:]
                if res["violations"] and tier == "quick":
                    for _, q, _, _ in pending:
                        q.kill()
                    for _, q, _, e in pending:
                        q.wait()
                        e.close()
                    pending = []
                    break

    # The smallest failing case of each sub-check is the one reported.
    best = {}
    for v in violations:
        key = v.get("sub") or "probe:" + v["probe"]
        size = len(json.dumps(v.get("case", "")))
        if key not in best or size < best[key][0]:
            best[key] = (size, v)

    rules = "; ".join("[%s] %s" % (s.name, s.rule) for s in mod.SUBS)
    samples = []
    for s in mod.SUBS:
        for c in merged.get(s.name, {}).get("samples", [])[:4]:
            samples.append({"sub": s.name, "case": short(c)})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(m["evaluations"] for m in merged.values()),
            "distinct_nontrivial": sum(len(m["distinct"]) for m in merged.values()),
            "rule": rules,
            "samples": samples,
            "per_sub": {n: {"evaluations": m["evaluations"], "nontrivial": m["nontrivial"],
                            "distinct_nontrivial": len(m["distinct"]),
                            "classes": dict(m["labels"].most_common(60)),
                            "skipped_after_time_cap": m["skipped"]} for n, m in merged.items()},
            "probes": [p.name for p in getattr(mod, "PROBES", [])],
            "workers": args.workers,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(best),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fd:
        json.dump(evidence, fd, indent=1)

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for key, (_, v) in sorted(best.items()):
        digest = hashlib.md5(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, digest))
        with open(path, "w") as fd:
            json.dump(dict(v, property=prop), fd, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  [%s] %s" % (key, v["message"]))
        print("  case: %s" % json.dumps(v.get("case"), ensure_ascii=True)[:2000])
    for e in errors[:5]:
        print("ERROR: " + e, file=sys.stderr)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %d error(s), %.1fs" % (
        prop, tier, seed, evidence["coverage"]["evaluations"], evidence["coverage"]["distinct_nontrivial"],
        len(best), len(errors), evidence["wall_s"]))
    if best:
        return 1
    if errors:
        return 3
    return 0
