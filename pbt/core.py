"""Property / sub-check registry and the Hypothesis driver used by every worker process.

A *sub-check* is a pair (strategy, run): the strategy draws a plain JSON-able case, run(case) rebuilds
everything from that case, drives the real code and raises Violation when the oracle disagrees.
Because a case is plain data it can be counted, sampled, shrunk and written out as a replay file.
"""
import hashlib
import importlib
import json
import os
import time
import traceback
import zlib
from collections import Counter


class Violation(AssertionError):
    """The code under test disagrees with the oracle."""


class HarnessError(RuntimeError):
    """The check itself is broken: never reported as a violation."""


class Sub(object):
    def __init__(self, name, strategy, run, quick, thorough, doc=""):
        self.name, self.strategy, self.run = name, strategy, run
        self.n = {"quick": quick, "thorough": thorough}
        self.doc = doc


class Prop(object):
    def __init__(self, pid, rule, subs, assumptions=()):
        self.id, self.rule, self.subs, self.assumptions = pid, rule, subs, list(assumptions)

    def sub(self, name):
        for s in self.subs:
            if s.name == name:
                return s
        raise HarnessError("no sub-check %s in %s" % (name, self.id))


def load(pid):
    return importlib.import_module("props." + pid.lower()).PROP


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = ["%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]
    return "%s: %s [%s]" % (type(exc).__name__, exc, " < ".join(reversed(where)))


SHRINK_S = float(os.environ.get("VERIF_SHRINK_S", "40"))


class SubRunner(object):
    """Runs one sub-check in this process and keeps its own statistics."""

    def __init__(self, prop, sub, n, seed):
        self.prop, self.sub, self.n, self.seed = prop, sub, n, seed
        self.evals = 0
        self.nontrivial = set()
        self.trivial = set()
        self.labels = Counter()
        self.samples = []
        self.failing = {}
        self.best = None
        self.t_fail = None
        self.error = None

    def one(self, case):
        h = case_hash(case)
        if self.t_fail is not None and time.time() - self.t_fail > SHRINK_S and h not in self.failing:
            return  # shrink budget used up: stop looking for smaller failures
        self.evals += 1
        try:
            info = self.sub.run(case) or {}
        except HarnessError:
            raise
        except Exception as exc:  # includes Violation; any escape from valid input is a violation
            if type(exc).__module__.startswith("hypothesis"):
                raise
            if self.t_fail is None:
                self.t_fail = time.time()
            self.failing[h] = describe(exc)
            key = len(canon(case))
            if self.best is None or key <= self.best[0]:
                self.best = (key, json.loads(canon(case)), describe(exc))
            raise
        if info.get("nontrivial", True):
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 3:
                    self.samples.append(json.loads(canon(case)))
        else:
            self.trivial.add(h)
        for lab in info.get("labels", []):
            self.labels[lab] += 1

    def go(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        test = given(self.sub.strategy())(lambda case: self.one(case))
        test = settings(
            max_examples=self.n,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            verbosity=hypothesis.Verbosity.quiet,
        )(test)
        test = hypothesis.seed(self.seed)(test)
        try:
            test()
        except HarnessError as exc:
            self.error = "HarnessError: %s" % exc
        except BaseException as exc:
            if self.best is None:
                self.error = describe(exc)
        if self.evals == 0 and self.error is None:
            self.error = "no case generated"
        return self


def worker(pid, tier, seed, index, nworkers, out, only=None):
    t0 = time.time()
    prop = load(pid)
    res = {"subs": {}, "violations": [], "errors": [], "rule": prop.rule, "assumptions": prop.assumptions}
    budget = float(os.environ.get("VERIF_BUDGET_S", "780" if tier == "quick" else "100000"))
    for k, sub in enumerate(prop.subs):
        if only and sub.name not in only:
            continue
        total = sub.n[tier]
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        total = max(1, int(total * scale))
        n = total // nworkers + (1 if index < total % nworkers else 0)
        if n == 0:
            continue
        if time.time() - t0 > budget:
            res["errors"].append("time budget used up before sub-check %s" % sub.name)
            break
        t1 = time.time()
        sr = SubRunner(prop, sub, n, (seed * 7919 + index * 104729 + zlib.crc32(sub.name.encode())) % (2**31)).go()
        res["subs"][sub.name] = {
            "evals": sr.evals,
            "nontrivial": sorted(sr.nontrivial),
            "trivial": len(sr.trivial),
            "labels": dict(sr.labels),
            "samples": sr.samples,
            "wall": time.time() - t1,
        }
        if sr.error:
            res["errors"].append("%s: %s" % (sub.name, sr.error))
        if sr.best:
            res["violations"].append({"sub": sub.name, "case": sr.best[1], "message": sr.best[2]})
            break
    with open(out, "w") as f:
        json.dump(res, f)
