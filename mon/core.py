"""
Common driver of all checks.

A check module (mon/checks/cNN.py) provides

  ID, LEVEL, RULE, ASSUMPTIONS
  plan(tier) -> dict(cases=N, seconds=S)      bound of the run
  gen(rng, i, tier) -> scenario               a JSON-able description of one case
  execute(scenario, mon)                      runs the real code and judges it
  REQUIRE = {counter: minimum}                monitors that must have been reached
  (optional) enumerate_cases(tier) -> iterable of scenarios run before the random ones

`mon` is a Monitor: mon.count(name) counts observed events, mon.seen(key) marks a distinct
non-trivial behaviour, mon.fail(kind, text) raises Violation. A violation's `kind` names the
mechanism, and known findings are matched on (property, kind).

Verdicts: exit 0 held; exit 1 + VIOLATION line; exit 2 inconclusive / harness error.
"""
import argparse
import asyncio
import faulthandler
import gc
import hashlib
import importlib
import json
import logging
import os
import random
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)


def _stub_dtls():
    """pydtls cannot be loaded with this interpreter's OpenSSL; the module under test only needs do_patch()."""
    import types

    mod = types.ModuleType("dtls")
    mod.do_patch = lambda: None
    sys.modules["dtls"] = mod


_stub_dtls()


class Violation(Exception):
    def __init__(self, kind, text, details=None):
        super().__init__(text)
        self.kind = kind
        self.text = text
        self.details = details


class Inconclusive(Exception):
    pass


class CaseHang(BaseException):
    """Raised by the CPU-time limit of a single case (cases take milliseconds; the limit is CPU, not wall time)"""


CASE_CPU_LIMIT = 90


def _on_prof(_sig, _frame):
    raise CaseHang()


class Monitor:
    """Collects what was observed in one run of a check"""

    def __init__(self, pid):
        self.pid = pid
        self.counters = {}
        self.keys = set()
        self.findings = {}
        self.trace = []
        self.keep_trace = True
        self.known = {}
        self.first = None  # a violation raised where the code under test may swallow it

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, *key):
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def log(self, *event):
        if self.keep_trace and len(self.trace) < 4000:
            self.trace.append(event)

    def fail(self, kind, text, details=None):
        """Report a violation. Returns only if it is a listed known finding."""
        if kind in self.known:
            self.findings[kind] = self.known[kind]
            return
        violation = Violation(kind, text, details)
        if self.first is None:
            self.first = violation
        raise violation

    def check(self, cond, kind, text, details=None):
        if not cond:
            self.fail(kind, text, details)


def is_repo_frame(filename):
    return os.path.realpath(filename).startswith(os.path.realpath(REPO) + os.sep)


def raised_by_repo(error):
    """True if the innermost frame that is ours or the repository's belongs to the repository"""
    tb = error.__traceback__
    verdict = False
    here = os.path.realpath(os.path.dirname(os.path.abspath(__file__)))
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(here + os.sep):
            verdict = False
        elif is_repo_frame(fn):
            verdict = True
        tb = tb.tb_next
    return verdict


def describe(error):
    return "".join(traceback.format_exception(type(error), error, error.__traceback__))[-3000:]


def load_known(pid):
    """known-findings.txt: 'finding: property=<id> kind=<kind> <what fails>' (suppressing) and 'fixed: ...' (not)."""
    known = {}
    path = os.path.join(ROOT, "known-findings.txt")
    if not os.path.exists(path):
        return known
    with open(path) as fd:
        for line in fd:
            if not line.startswith("finding:"):
                continue
            parts = line.split(None, 3)
            prop = parts[1].split("=", 1)[1]
            kind = parts[2].split("=", 1)[1]
            if prop == pid:
                known[kind] = parts[3].strip()
    return known


def jsonable(obj):
    if isinstance(obj, (bytes, bytearray)):
        return bytes(obj).hex()
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in (sorted(obj, key=repr) if isinstance(obj, (set, frozenset)) else obj)]
    if isinstance(obj, (str, bool, float, type(None))):
        return obj
    if isinstance(obj, int):
        return int(obj)
    return repr(obj)


def sample_of(sc, limit=700):
    text = json.dumps(jsonable(sc))
    return text if len(text) <= limit else text[:limit] + "...(%d chars)" % len(text)


def run_case(mod, sc, mon):
    """Execute one scenario. Raises Violation, Inconclusive, or a harness error."""
    limit = getattr(mod, "CASE_CPU_LIMIT", CASE_CPU_LIMIT)
    signal.setitimer(signal.ITIMER_PROF, limit, 5)
    mon.first = None
    try:
        mod.execute(sc, mon)
        if mon.first:
            raise mon.first
    except CaseHang:
        signal.setitimer(signal.ITIMER_PROF, 0)
        mon.fail("hang", "the code under test did not finish within %d s of CPU time on one small case" % limit)
    except (Violation, Inconclusive):
        raise
    except MemoryError:
        raise
    except (Exception, asyncio.CancelledError) as error:  # pylint: disable=broad-except
        if mon.first:
            raise mon.first
        if type(error).__name__ in ("SimDeadlock", "SimLivelock"):
            mon.fail("hang", "the code under test never finished: %s" % error, describe(error))
            return
        if raised_by_repo(error):
            mon.fail("unexpected-exception", "the code under test raised %r unexpectedly" % (error,), describe(error))
            return
        if isinstance(error, (TypeError, ValueError, LookupError, ArithmeticError)) and "argument" not in str(error):
            # The oracle was handed something it can make nothing of (never on a tree where the
            # property holds). A vanished name or a changed signature is not among these: inconclusive
            mon.fail("unjudgeable", "what was observed makes no sense to the oracle: %r" % (error,), describe(error))
            return
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


class Job:
    """The cases of one run, or a share of them"""

    def __init__(self, mod, mon, pid, seed, tier, cases, budget, start, args):
        self.mod, self.mon, self.pid, self.seed, self.tier = mod, mon, pid, seed, tier
        self.cases, self.budget, self.start, self.args = cases, budget, start, args
        self.survey = {}
        self.evaluations = 0

    def one(self, sc):
        self.mon.trace = []
        self.evaluations += 1
        try:
            run_case(self.mod, sc, self.mon)
        except Violation as v:
            if not self.args.survey:
                raise
            key = (v.kind, "".join(c for c in v.text if not c.isdigit())[:25])
            count, text = self.survey.get(key, (0, None))
            self.survey[key] = (count + 1, text or "%s\n   %s" % (v.text[:700], (str(v.details)[-1200:] if v.details and self.args.verbose else "")))

    def run(self, share, of):
        """Every of-th case, from share. Returns a dict with everything observed"""
        mod, mon = self.mod, self.mon
        result = dict(samples=[], enumerated=0, truncated=False, violation=None, error=None, inconclusive=None, at=None, sc=None)
        sc = None
        position = None
        try:
            enum = getattr(mod, "enumerate_cases", None)
            if enum:
                for number, sc in enumerate(enum(self.tier)):
                    if number % of != share:
                        continue
                    position = (0, number)
                    self.one(sc)
                    result["enumerated"] += 1
                    if number in (0, 6):
                        result["samples"].append((position, sample_of(sc)))
            for i in range(share, self.cases, of):
                if time.monotonic() - self.start > self.budget:
                    result["truncated"] = True
                    break
                rng = random.Random("%s/%s/%d" % (self.pid, self.seed, i))
                sc = None
                position = (1, i)
                sc = mod.gen(rng, i, self.tier)
                if i in (0, 3, 10):
                    result["samples"].append((position, sample_of(sc)))
                self.one(sc)
                if i % 200 < of:
                    gc.collect()
        except Violation as v:
            result["violation"] = (v.kind, v.text, v.details if isinstance(v.details, (str, type(None))) else jsonable(v.details))
        except Inconclusive as error:
            result["inconclusive"] = str(error)
        except Exception:  # pylint: disable=broad-except
            result["error"] = "%s\nHARNESS ERROR in %s on scenario: %s" % (traceback.format_exc(), self.pid, sample_of(sc, 4000))
        if result["violation"]:
            import pickle

            result["sc"] = pickle.dumps(sc)
            result["trace"] = jsonable(mon.trace[-300:])
        result.update(at=position, evaluations=self.evaluations, counters=mon.counters, keys=mon.keys, findings=mon.findings, survey=self.survey)
        return result


CHILDREN = []


def fork_jobs(job, workers):
    """Run the shares of a job in processes of their own"""
    import pickle

    pipes = []
    for share in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                signal.alarm(0)
                CHILDREN.clear()
                blob = pickle.dumps(job.run(share, workers))
                with os.fdopen(w, "wb") as fd:
                    fd.write(blob)
                code = 0
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        CHILDREN.append(pid)
        pipes.append((pid, r))
    results = []
    import selectors

    sel = selectors.DefaultSelector()
    data = {}
    for pid, r in pipes:
        sel.register(r, selectors.EVENT_READ, pid)
        data[pid] = b""
    stopping = False
    while sel.get_map():
        for key, _mask in sel.select():
            chunk = os.read(key.fd, 1 << 20)
            if chunk:
                data[key.data] += chunk
                continue
            sel.unregister(key.fd)
            os.close(key.fd)
            os.waitpid(key.data, 0)
            CHILDREN.remove(key.data)
            try:
                result = pickle.loads(data[key.data])
            except Exception:  # pylint: disable=broad-except
                result = None if stopping else dict(error="a worker ended without a result", violation=None, inconclusive=None)
            if result is not None:
                results.append(result)
            if result and (result["violation"] or result["error"]) and not job.args.survey and not stopping:
                stopping = True  # the others need not go on
                for pid in list(CHILDREN):
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
    return results


def merge(results, mon):
    import pickle

    evaluations = enumerated = 0
    samples, survey = [], {}
    truncated, violation, sc = False, None, None
    best = None
    for r in results:
        if r["error"] and not any(x["violation"] for x in results):
            say(r["error"])
            raise Inconclusive("harness error")
        if r["error"]:
            continue
        if r["inconclusive"] and not any(x["violation"] for x in results):
            raise Inconclusive(r["inconclusive"])
        evaluations += r["evaluations"]
        enumerated += r["enumerated"]
        truncated = truncated or r["truncated"]
        samples.extend(r["samples"])
        if r["counters"] is not mon.counters:
            for name, n in r["counters"].items():
                mon.count(name, n)
            mon.keys |= r["keys"]
            mon.findings.update(r["findings"])
        for key, (n, text) in r["survey"].items():
            survey[key] = (survey.get(key, (0, None))[0] + n, text)
        if r["violation"] and (best is None or r["at"] < best["at"]):
            best = r
    if best:
        violation = Violation(*best["violation"])
        sc = pickle.loads(best["sc"])
        mon.trace = best["trace"]
    return evaluations, enumerated, [s for _at, s in sorted(samples)][:5], truncated, violation, sc, survey


OUT = sys.stdout


def say(*args):
    """Verdicts go to the real stdout, whatever the code under test prints is dropped"""
    print(*args, file=OUT, flush=True)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--survey", action="store_true", help="development: list all violations instead of stopping")
    args = ap.parse_args(argv)
    pid = args.id.upper()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    logging.basicConfig(level=logging.DEBUG if args.verbose else logging.CRITICAL + 1)
    if not args.verbose:
        logging.disable(logging.CRITICAL)
    faulthandler.enable()
    if not args.verbose:
        sys.stdout = open(os.devnull, "w")
    limit = 1700 if tier == "thorough" else 800

    def on_alarm(_sig, _frame):
        faulthandler.dump_traceback()
        for pid in CHILDREN:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        say("INCONCLUSIVE: watchdog after %d s" % limit)
        os._exit(2)

    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGPROF, _on_prof)
    signal.alarm(limit)

    start = time.monotonic()
    try:
        import pyzwave
        import pyzwave.commandclass  # pyzwave.message cannot be the first submodule imported
        import pyzwave.application  # noqa: F401

        gc.freeze()
        if not is_repo_frame(pyzwave.__file__):
            say("INCONCLUSIVE: pyzwave imported from %s" % pyzwave.__file__)
            return 2
        mod = importlib.import_module("checks." + pid.lower())
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        say("INCONCLUSIVE: could not import the code under test")
        return 2

    mon = Monitor(pid)
    mon.known = load_known(pid)
    mon.tier = tier
    mon.seed = seed

    if args.replay:
        with open(args.replay) as fd:
            data = json.load(fd)
        import pickle
        import base64

        sc = pickle.loads(base64.b64decode(data["scenario_pickle"]))
        try:
            run_case(mod, sc, mon)
        except Violation as v:
            say("replayed:", v.kind, v.text)
            say(v.details or "")
            for event in mon.trace[-60:]:
                say("  ", event)
            say("VIOLATION property=%s replay=%s" % (pid, args.replay))
            return 1
        say("replay: property held")
        return 0

    plan = mod.plan(tier)
    cases = max(1, int(plan["cases"] * args.scale))
    workers = plan.get("workers") or max(1, min(8, len(os.sched_getaffinity(0))))
    if args.workers:
        workers = args.workers
    enum = getattr(mod, "enumerate_cases", None)
    job = Job(mod, mon, pid, seed, tier, cases, plan["seconds"], start, args)
    if workers == 1:
        results = [job.run(0, 1)]
    else:
        results = fork_jobs(job, workers)
    try:
        merged = merge(results, mon)
    except Inconclusive as error:
        say("INCONCLUSIVE: %s" % error)
        return 2
    evaluations, enumerated, samples, truncated, violation, sc, survey = merged

    if args.survey:
        say("SURVEY: %d evaluations" % evaluations, mon.counters)
        for key, (n, text) in sorted(survey.items(), key=lambda x: -x[1][0])[:12]:
            say("%6d  [%s] %s" % (n, key[0], text))
        return 3
    wall = time.monotonic() - start
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(mon.keys),
            "rule": mod.RULE,
            "samples": samples or ["(none)"],
            "observed": dict(sorted(mon.counters.items())),
            "stopped_by_time_budget": truncated,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": 1 if violation else 0,
    }
    if enum:
        evidence["coverage"]["enumerated_cases"] = enumerated
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fd:
        json.dump(evidence, fd, indent=1)

    for kind, text in sorted(mon.findings.items()):
        say("KNOWN-FINDING: property=%s kind=%s %s" % (pid, kind, text))

    if violation:
        import base64
        import pickle

        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        blob = pickle.dumps(sc)
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, hashlib.sha1(blob).hexdigest()[:12]))
        with open(path, "w") as fd:
            json.dump({"property": pid, "seed": seed, "tier": tier, "kind": violation.kind, "text": violation.text,
                       "details": violation.details if isinstance(violation.details, str) else jsonable(violation.details),
                       "scenario": jsonable(sc), "trace": jsonable(mon.trace[-300:]),
                       "scenario_pickle": base64.b64encode(blob).decode()}, fd, indent=1)
        say("%s: [%s] %s" % (pid, violation.kind, violation.text))
        if violation.details:
            say(str(violation.details)[-2500:])
        say("VIOLATION property=%s replay=%s" % (pid, path))
        return 1

    # A slow machine sees less in the time it has
    share = min(1.0, evaluations / cases) if truncated else 1.0
    lacking = {k: (mon.counters.get(k, 0), n) for k, n in getattr(mod, "REQUIRE", {}).items()
               if mon.counters.get(k, 0) < max(1, n * min(1.0, args.scale) * share)}
    if lacking:
        say("INCONCLUSIVE: monitors not reached often enough: %s" % lacking)
        return 2
    say("%s held on %d cases (%d distinct non-trivial) in %.1fs: %s" % (
        pid, evaluations, len(mon.keys), wall, json.dumps(dict(sorted(mon.counters.items())))))
    return 0
