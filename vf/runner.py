"""
Check runner: python -m vf ID [--tier quick|thorough] [--seed N] [--case I] [--replay F]

Each check is a module vf/checks/<id>.py with:
  TITLE, RULE (evidence text), QUICK, THOROUGH (numbers of cases),
  case(rec, rng, i)                  one generated execution, observed by its oracle
  fixed(rec)           (optional)    deterministic cases, run once
  TECHNIQUE, LEVEL
A check's verdict depends only on seed and tier, never on time.
"""
import argparse
import collections
import faulthandler
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import tempfile
import time
import traceback

from . import paths
from .gen import rng_for

CPU_LIMIT = 90          # seconds of CPU for one case (typical: milliseconds)
MEM_LIMIT = 3 << 30
MAX_REPORTED = 5


class Hang(BaseException):
    pass


class Violation(Exception):
    pass


class Recorder(object):
    """What one worker observed."""
    def __init__(self, check, tier, seed):
        self.check, self.tier, self.seed = check, tier, seed
        self.evals = 0
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.cur = None
        self.errors = []

    # used by checks
    def eval(self, n=1):
        self.evals += n

    def event(self, name, n=1):
        self.events[name] += n

    def nontrivial(self, *key):
        h = hashlib.md5(repr(key).encode("utf-8", "replace")).digest()[:8]
        self.distinct.add(h)

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:600])

    def fail(self, what, **detail):
        raise Violation(json.dumps({"what": what, "detail": {
            k: (v if isinstance(v, (int, float, bool, type(None), list, dict)) else
                str(v)) for k, v in detail.items()}}, default=str))

    def require(self, cond, what, **detail):
        if not cond:
            self.fail(what, **detail)

    def merge_into(self, t):
        t["evals"] += self.evals
        t["events"].update(self.events)
        t["distinct"] |= self.distinct
        t["samples"] += self.samples
        t["violations"] += self.violations
        t["known"].update(self.known)
        t["errors"] += self.errors


def _in_code_under_test(tb):
    """Whether the exception came out of the library (or code it called)."""
    repo = os.path.abspath(paths.REPO) + os.sep
    while tb is not None:
        f = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if f.startswith(repo) and not f.startswith(os.path.join(repo, "test")):
            return True
        tb = tb.tb_next
    return False


def _one(rec, fn, label):
    def on_alarm(signum, frame):
        raise Hang()

    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    rec.cur = label
    try:
        fn()
    except Violation as e:
        d = json.loads(str(e))
        rec.violations.append({"case": label, "what": d["what"], "detail": d["detail"]})
    except Hang:
        rec.violations.append({"case": label, "what": "an operation did not finish",
                               "detail": {"cpu_s": CPU_LIMIT}})
    except Exception as e:
        tb = traceback.format_exc()
        if _in_code_under_test(e.__traceback__):
            rec.violations.append({
                "case": label, "what": "unexpected %s" % type(e).__name__,
                "detail": {"error": str(e)[:300], "traceback": tb[-1800:]}})
        elif isinstance(e, (OSError, MemoryError)):
            rec.errors.append("case %s: %s" % (label, tb))
        else:
            # The oracles run without errors on well-formed observations.
            rec.violations.append({
                "case": label, "what": "observation has no meaning (%s)"
                                       % type(e).__name__,
                "detail": {"error": str(e)[:300], "traceback": tb[-1800:]}})
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _chdir_scratch():
    d = tempfile.mkdtemp(prefix="vf-")
    os.chdir(d)
    return d


def _worker(mod, check, tier, seed, w, nworkers, ncases, stop_at, conn, only):
    import shutil
    sys.setrecursionlimit(6000)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    faulthandler.disable()
    rec = Recorder(check, tier, seed)
    d = _chdir_scratch()
    try:
        if (w == 0 and only is None) or only == "fixed":
            if hasattr(mod, "fixed"):
                _one(rec, lambda: mod.fixed(rec), "fixed")
        skipped = 0
        if only is None or only != "fixed":
            it = range(w, ncases, nworkers) if only is None else [only]
            for i in it:
                if time.time() > stop_at or len(rec.violations) >= MAX_REPORTED:
                    skipped += 1
                    continue
                rng = rng_for(seed, check, i)
                _one(rec, lambda: mod.case(rec, rng, i), i)
        rec.events["cases_not_started(time cap)"] += skipped
        conn.send(rec)
    finally:
        conn.close()
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)


def load_known(check):
    out = []
    if os.path.exists(paths.KNOWN):
        for line in open(paths.KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("property=%s " % check):
                out.append(line)
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--case", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("--cases", type=int, default=None)
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.case = r["seed"], str(r["case"])
    only = None
    if a.case is not None:
        only = a.case if a.case == "fixed" else int(a.case)

    check = a.check
    mod = importlib.import_module("vf.checks.%s" % check)
    ncases = a.cases or (mod.QUICK if a.tier == "quick" else mod.THOROUGH)
    cap = 300 if a.tier == "quick" else 780
    t0 = time.time()
    nworkers = a.workers or min(8, os.cpu_count() or 1)
    if only is not None:
        nworkers = 1
    ctx = multiprocessing.get_context("fork")
    procs = []
    for w in range(nworkers):
        parent, child = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(mod, check, a.tier, a.seed, w, nworkers,
                                              ncases, t0 + cap, child, only))
        p.start()
        child.close()
        procs.append((p, parent))

    tot = {"evals": 0, "events": collections.Counter(), "distinct": set(),
           "samples": [], "violations": [], "known": {}, "errors": []}
    for w, (p, conn) in enumerate(procs):
        try:
            conn.recv().merge_into(tot)
        except EOFError:
            p.join()
            tot["violations"].append({
                "case": "worker-%d" % w,
                "what": "the process running the library ended (exit code %s)"
                        % p.exitcode, "detail": {}})
        p.join()

    # The run itself must have happened and observed something.
    if only is None and not tot["violations"]:
        if tot["evals"] == 0 or not tot["distinct"]:
            tot["errors"].append("nothing was observed")

    listed = {}
    for line in load_known(check):
        if "key=" in line:
            listed[line.split("key=", 1)[1].split()[0]] = line
    for key, what in sorted(tot["known"].items()):
        if key not in listed:
            tot["violations"].append({"case": "fixed", "what": "%s: %s" % (key, what),
                                      "detail": {}})

    seen = {}
    for v in tot["violations"]:
        seen.setdefault(v["what"], v)
    reported = list(seen.values())[:MAX_REPORTED]

    for key, line in sorted(listed.items()):
        if key in tot["known"]:
            print("KNOWN-FINDING: %s [%s]" % (line, tot["known"][key]))

    os.makedirs(paths.EVIDENCE, exist_ok=True)
    samples = tot["samples"][:8] or ["(none)"]
    ev = {
        "property": check, "tier": a.tier, "seed": a.seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": tot["evals"],
            "distinct_nontrivial": len(tot["distinct"]),
            "rule": mod.RULE,
            "samples": samples,
            "events_observed": dict(sorted(tot["events"].items())),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(tot["violations"]),
    }
    with open(os.path.join(paths.EVIDENCE, "%s.json" % check), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)

    print("%s %s: %d cases, %d observations, %d distinct non-trivial, %.1fs" % (
        check, a.tier, ncases if only is None else 1, tot["evals"],
        len(tot["distinct"]), time.time() - t0))
    for k, v in sorted(tot["events"].items()):
        print("   %-46s %d" % (k, v))

    if reported:
        os.makedirs(paths.REPLAYS, exist_ok=True)
        for n, v in enumerate(reported):
            path = os.path.join(paths.REPLAYS, "%s-%s.json" % (
                check, hashlib.md5(json.dumps(v, sort_keys=True, default=str)
                                   .encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump({"property": check, "seed": a.seed, "tier": a.tier,
                           "case": v["case"], "what": v["what"],
                           "detail": v["detail"]}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (check, path))
            print("   %s" % v["what"])
            for k, d in v["detail"].items():
                print("      %s: %s" % (k, d))
        return 1
    if tot["errors"]:
        print("HARNESS ERROR (%d)" % len(tot["errors"]))
        for e in tot["errors"][:3]:
            print(e)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
