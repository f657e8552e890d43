"""The machinery shared by all checks: sharding, generation, counting, shrinking,
replay files, evidence files and exit codes.

A property module defines ``SUBS``, a list of ``Sub``: a Hypothesis strategy that makes a
plain JSON-able *case*, and a function ``check(case, ctx)`` that drives the real code with the
case and raises if the property is broken.  Every random choice is made by Hypothesis, seeded
from VERIF_SEED, so that a run is a pure function of the code and the seed.
"""
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures import as_completed
from concurrent.futures.process import BrokenProcessPool

from hypothesis import HealthCheck
from hypothesis import Phase
from hypothesis import given
from hypothesis import reject
from hypothesis import seed as hseed
from hypothesis import settings
from hypothesis.errors import UnsatisfiedAssumption

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = max(1, min(8, os.cpu_count() or 1, int(os.environ.get("VERIF_WORKERS", "8"))))


class HarnessError(Exception):
    """An error of the check itself: neither a pass nor a violation."""


class Discard(Exception):
    """The case is outside of the domain of the property."""


class Sub(object):
    """One way of exercising a property.

    quick, thorough : number of cases to generate per run (over all shards).
    """
    def __init__(self, name, strategy, check, quick=400, thorough=8000, shards=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.shards = shards


class Ctx(object):
    """Collects what a case exercised."""
    def __init__(self):
        self.labels = []
        self.is_nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def jsonable(case):
    text = json.dumps(case)
    return json.loads(text)


@contextlib.contextmanager
def quiet():
    """Silence the prints of the code under test."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


CASE_CPU_S = 40.0


class DoesNotTerminate(BaseException):
    """A case that takes milliseconds on correct code burnt CASE_CPU_S seconds of CPU time."""


def _on_timer(signum, frame):
    raise DoesNotTerminate("the case did not end within %s s of CPU time" % CASE_CPU_S)


@contextlib.contextmanager
def cpu_limit():
    old = signal.signal(signal.SIGPROF, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0.0)
        signal.signal(signal.SIGPROF, old)


def run_case(sub, case):
    """Run one case; returns (status, ctx, error text)."""
    ctx = Ctx()
    try:
        with quiet(), cpu_limit():
            sub.check(jsonable(case), ctx)
    except Discard:
        return "discard", ctx, None
    except UnsatisfiedAssumption:
        return "discard", ctx, None
    except (KeyboardInterrupt, SystemExit, MemoryError, HarnessError):
        raise
    except BaseException as e:
        return "fail", ctx, "".join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
    return "ok", ctx, None


class _Failed(Exception):
    pass


def _run_shard(job):
    """One Hypothesis run of one sub-check (executed in a forked worker)."""
    sub, seed, examples, t_end, shrink_s = job
    stats = {"sub": sub.name, "evaluations": 0, "discarded": 0, "skipped": 0,
             "labels": {}, "nontrivial": [], "distinct": [], "samples": [], "failure": None,
             "error": None}
    seen = set()
    nontrivial = set()
    fail = {"case": None, "size": None, "text": None, "at": None}

    def body(case):
        now = time.time()
        if fail["at"] is None and now > t_end:
            stats["skipped"] += 1
            return
        if fail["at"] is not None and now > fail["at"] + shrink_s:
            return  # stop shrinking
        note_case(sub, case)
        status, ctx, text = run_case(sub, case)
        if status == "fail":
            size = len(json.dumps(case))
            if fail["at"] is None:
                fail["at"] = now
                stats["evaluations"] += 1
            if fail["size"] is None or size <= fail["size"]:
                fail.update(case=jsonable(case), size=size, text=text)
            raise _Failed(sub.name)
        if fail["at"] is not None:
            return
        if status == "discard":
            stats["discarded"] += 1
            reject()
        stats["evaluations"] += 1
        key = digest(case)[:16]
        for lab in set(ctx.labels):
            stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
        seen.add(key)
        if ctx.is_nontrivial and key not in nontrivial:
            nontrivial.add(key)
            if len(stats["samples"]) < 2 and len(nontrivial) in (3, 20):
                stats["samples"].append({"sub": sub.name, "case": jsonable(case)})

    test = settings(max_examples=examples, deadline=None, database=None, derandomize=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink), print_blob=False)(
        hseed(seed)(given(sub.strategy)(body)))
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            test()
    except _Failed:
        pass
    except BaseException as e:  # Flaky and the like: the failure was recorded by body()
        if fail["at"] is None:
            stats["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-15:])
    if fail["at"] is not None:
        stats["failure"] = {"sub": sub.name, "case": fail["case"], "text": fail["text"]}
    stats["nontrivial"] = sorted(nontrivial)
    stats["distinct"] = sorted(seen)
    return stats


_JOBS = []
_SCRATCH = []


def note_case(sub, case):
    """Leave the current case behind, in case native code takes the process down."""
    if _SCRATCH:
        with open(os.path.join(_SCRATCH[0], "%d.json" % os.getpid()), "w") as f:
            json.dump({"sub": sub.name, "case": case}, f)


CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE)


def crashing_case(subs):
    """A case, left behind by a worker, that takes down a fresh process as well."""
    mp = multiprocessing.get_context("fork")
    for name in sorted(os.listdir(_SCRATCH[0])):
        try:
            with open(os.path.join(_SCRATCH[0], name)) as f:
                rec = json.load(f)
        except ValueError:
            continue
        proc = mp.Process(target=run_case, args=(subs[rec["sub"]], rec["case"]))
        proc.start()
        proc.join(120)
        if proc.is_alive():
            proc.kill()
            proc.join()
        elif -(proc.exitcode or 0) in CRASHES:
            return {"sub": rec["sub"], "case": rec["case"],
                    "text": "the process was ended by signal %d" % -proc.exitcode}
    return None


def _work(index):
    try:
        return _run_shard(_JOBS[index])
    except BaseException as e:
        return {"error": "".join(traceback.format_exception(type(e), e, e.__traceback__)),
                "sub": _JOBS[index][0].name}


def write_replay(pid, failure):
    folder = os.path.join(ROOT, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "%s-%s-%s.json" % (pid, failure["sub"], digest(failure["case"])[:10]))
    with open(path, "w") as f:
        json.dump({"property": pid, "sub": failure["sub"], "case": failure["case"],
                   "error": failure["text"], "replay_cmd": "./check %s --replay %s" % (pid, path)}, f, indent=1)
    return path


def load_corpus(pid):
    folder = os.path.join(ROOT, "corpus", pid)
    out = []
    if os.path.isdir(folder):
        for name in sorted(os.listdir(folder)):
            if name.endswith(".json"):
                with open(os.path.join(folder, name)) as f:
                    out.append((name, json.load(f)))
    return out


def known_findings(pid):
    """The findings recorded for a property: {digest of the case: description}."""
    path = os.path.join(ROOT, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid):
                    rest = line.strip().split(" ", 2)[2]
                    case, _, text = rest.partition(" ")
                    out[case.replace("case=", "")] = text
    return out


def main(pid, mod, argv):
    start = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    subs = {s.name: s for s in mod.SUBS}

    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        with open(path) as f:
            rec = json.load(f)
        status, _, text = run_case(subs[rec["sub"]], rec["case"])
        print(status)
        if text:
            print(text)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0

    budget = float(os.environ.get("VERIF_BUDGET_S", 300.0 if tier == "quick" else 3000.0))
    t_end = start + budget
    shrink_s = 30.0 if tier == "quick" else 120.0
    scale = float(os.environ.get("VERIF_SCALE", "1"))

    failures = []
    corpus_n = 0
    known = known_findings(pid)
    announced = []

    # saved inputs first
    for name, rec in load_corpus(pid):
        status, _, text = run_case(subs[rec["sub"]], rec["case"])
        corpus_n += 1
        if status == "fail":
            if digest(rec["case"])[:16] in known:
                announced.append("KNOWN-FINDING: property=%s %s" % (pid, known[digest(rec["case"])[:16]]))
                continue
            failures.append({"sub": rec["sub"], "case": rec["case"], "text": text})

    results = []
    if not failures:
        del _JOBS[:]
        only = os.environ.get("VERIF_SUB")
        for sub in mod.SUBS:
            if only and sub.name != only:
                continue
            total = int((sub.quick if tier == "quick" else sub.thorough) * scale)
            shards = sub.shards or (WORKERS if tier == "quick" else 2 * WORKERS)
            shards = max(1, min(shards, total))
            each = -(-total // shards)
            for s in range(shards):
                key = "%s/%s/%d/%d/%s" % (pid, sub.name, seed, s, tier)
                sd = int(hashlib.sha1(key.encode()).hexdigest()[:12], 16)
                _JOBS.append((sub, sd, each, t_end, shrink_s))
        order = list(range(len(_JOBS)))
        _SCRATCH[:] = [tempfile.mkdtemp(prefix="verif-")]
        mp = multiprocessing.get_context("fork")
        pool = ProcessPoolExecutor(WORKERS, mp_context=mp)
        try:
            futures = [pool.submit(_work, i) for i in order]
            for future in as_completed(futures):
                try:
                    res = future.result()
                except BrokenProcessPool:
                    crash = crashing_case(subs)
                    if crash is None:
                        raise HarnessError("a worker process died")
                    res = {"sub": crash["sub"], "failure": crash}
                results.append(res)
                if res.get("failure"):
                    break
        finally:
            procs = list((pool._processes or {}).values())
            pool.shutdown(wait=False, cancel_futures=True)
            for proc in procs:
                proc.kill()
            shutil.rmtree(_SCRATCH.pop(), ignore_errors=True)

    errors = [r["error"] for r in results if r.get("error")]
    for r in results:
        if r.get("failure"):
            failures.append(r["failure"])

    results.sort(key=lambda r: r["sub"])
    evaluations = corpus_n + sum(r.get("evaluations", 0) for r in results)
    nontrivial = set()
    distinct = set()
    labels = {}
    per_sub = {}
    samples = []
    for r in results:
        nontrivial.update(r["sub"] + k for k in r.get("nontrivial", []))
        distinct.update(r["sub"] + k for k in r.get("distinct", []))
        for k, v in r.get("labels", {}).items():
            kk = r["sub"] + ":" + k
            labels[kk] = labels.get(kk, 0) + v
        d = per_sub.setdefault(r["sub"], {"evaluations": 0, "discarded": 0, "skipped_time_budget": 0})
        d["evaluations"] += r.get("evaluations", 0)
        d["discarded"] += r.get("discarded", 0)
        d["skipped_time_budget"] += r.get("skipped", 0)
    taken = {}
    for r in results:
        for smp in r.get("samples", []):
            if taken.get(r["sub"], 0) < 2 and len(json.dumps(smp)) < 6000:
                taken[r["sub"]] = taken.get(r["sub"], 0) + 1
                samples.append(smp)
    if not samples:
        for f in failures[:1]:
            samples.append({"sub": f["sub"], "case": f["case"]})

    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "distinct": len(distinct),
            "rule": mod.RULE,
            "samples": samples,
            "per_sub_check": per_sub,
            "labels": dict(sorted(labels.items())),
            "replayed_corpus": corpus_n,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - start, 3),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for line in announced:
        print(line)
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (pid, evaluations, len(nontrivial), time.time() - start))
    if failures:
        failures.sort(key=lambda f: len(json.dumps(f["case"])))
        f = failures[0]
        path = write_replay(pid, f)
        sys.stdout.write(f["text"][-3000:] + "\n")
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print(errors[0])
        raise HarnessError("a worker failed")
    if not results:
        raise HarnessError("nothing was run")
    return 0
