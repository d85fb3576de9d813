"""Shared machinery of every check: seeds, budgets, evidence, verdicts, known findings, replay."""
import collections
import hashlib
import json
import logging
import os
import random
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MLV_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

MAX_REPORTED = int(os.environ.get("MLV_MAX", "5"))


class StopCheck(Exception):
    pass


def load_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                out[d["mechanism"]] = d["what"]
    return out


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:500]


def raised_by_repo(e):
    """Did the exception come out of the code under test (rather than out of the harness itself)?"""
    tb = e.__traceback__
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(root):
            return True
        tb = tb.tb_next
    return False


class Check:
    """One run of one property's check."""

    def __init__(self, pid, rule, level="exploration"):
        self.pid, self.rule, self.level = pid, rule, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.counts = collections.Counter()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.known = load_findings(pid)
        self.assumptions = []
        self.sets = collections.defaultdict(set)
        self.only = None
        self.errors = []
        if "--replay" in sys.argv:
            d = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            self.seed = d["seed"]
            self.tier = d["tier"]
            self.only = (d["section"], d["index"])

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    def rng(self, section, i):
        return random.Random("%s|%s|%s|%s" % (self.pid, self.seed, section, i))

    def run(self, section, n, fn, watchdog=None):
        """Run fn(rng, i) for n cases. A Python error in the harness is an error of the check, not a verdict."""
        limit = watchdog if watchdog is not None else self.pick(600, 3000)
        idx = range(n)
        if self.only:
            if self.only[0] != section:
                return
            idx = [self.only[1]]
        for i in idx:
            if self.elapsed() > limit:
                self.counts["watchdog_stop_" + section] += 1
                break
            self.section, self.index = section, i
            try:
                fn(self.rng(section, i), i)
            except StopCheck:
                raise
            except Exception as e:
                if raised_by_repo(e):
                    self.bad("unexpected-exception:" + type(e).__name__,
                             "the code under test raised on a supported call",
                             {"traceback": traceback.format_exc()})
                    continue
                self.errors.append("%s[%s]: %s" % (section, i, traceback.format_exc()))
                if len(self.errors) > 3:
                    raise StopCheck()

    def case(self, key, sample=None, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            h = hashlib.md5(repr(key).encode()).hexdigest()[:16]
            if h not in self.distinct:
                self.distinct.add(h)
                if sample is not None and len(self.samples) < 6 and (len(self.distinct) % 37 == 1):
                    self.samples.append(jsonable(sample))

    def seen(self, group, value):
        self.sets[group].add(str(value))

    def bad(self, mechanism, what, detail):
        """A violation. Known mechanisms are printed as known findings, everything else is reported."""
        if mechanism in self.known:
            if mechanism not in self.known_hit:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, mechanism, self.known[mechanism]), file=sys.__stdout__)
            self.known_hit[mechanism] = self.known_hit.get(mechanism, 0) + 1
            return
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations)))
        rec = {"property": self.pid, "seed": self.seed, "tier": self.tier,
               "section": getattr(self, "section", None), "index": getattr(self, "index", None),
               "mechanism": mechanism, "what": what, "detail": jsonable(detail)}
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=repr)
        self.violations.append(rec)
        print("--- %s: %s\n%s" % (mechanism, what, json.dumps({k: v for k, v in rec["detail"].items() if k != "tables" and k != "fields"}
                                                   if isinstance(rec["detail"], dict) else rec["detail"], default=repr)[:4000]), file=sys.__stdout__)
        print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(path, VERIF)), file=sys.__stdout__)
        sys.__stdout__.flush()
        if len(self.violations) >= MAX_REPORTED:
            raise StopCheck()

    def finish(self, need=()):
        """need: [(counter name, minimum)] - below it the run is inconclusive (exit 2)."""
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples or ["(no sample)"],
               "events": dict(sorted(self.counts.items())),
               "seen": {k: (sorted(v) if len(v) <= 60 else len(v)) for k, v in sorted(self.sets.items())},
               "known_findings_hit": self.known_hit}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        print("%s %s seed=%s: %d cases, %d distinct, %d violations, %.1fs %s" % (
            self.pid, self.tier, self.seed, self.evaluations, len(self.distinct), len(self.violations),
            time.time() - self.t0, dict(self.counts) if len(self.counts) < 40 else ""))
        sys.stdout.flush()
        if self.errors:
            print("CHECK ERROR\n" + "\n".join(self.errors[:3]))
            sys.stdout.flush()
        if self.violations:
            os._exit(1)
        if self.errors:
            os._exit(3)
        if not self.only:
            for name, least in need:
                got = self.evaluations if name == "evaluations" else self.counts[name]
                if got < least:
                    print("INCONCLUSIVE: %s observed %d times, expected at least %d" % (name, got, least))
                    sys.stdout.flush()
                    os._exit(2)
        sys.stdout.flush()
        os._exit(0)


def main(check, body, need=()):
    try:
        body(check)
    except StopCheck:
        pass
    except Exception:
        check.errors.append(traceback.format_exc())
    check.finish(need)
