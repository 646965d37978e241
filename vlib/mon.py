"""Verdicts: what a check observed, violations, known findings, evidence."""
import concurrent.futures, hashlib, json, os, re, sys, time, traceback
from . import build
from .build import HarnessError

FINDINGS = os.path.join(build.VERIF, "known-findings.txt")


def known_keys(pid):
    """Keys of the open (not repaired) findings of a property: lines 'open: property=<id> key=<key> <text>'"""
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"open:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


class Check:
    MAXV = 8

    def __init__(self, pid, tier, seed, rule):
        self.pid, self.tier, self.seed, self.rule = pid, tier, seed, rule
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.keys = set()
        self.counts = {}
        self.known = known_keys(pid)
        self.hit = {}
        self.notes = []
        self.budget = 780 if tier == "thorough" else 420

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self):
        return self.budget - (time.time() - self.t0)

    def rng(self, *tag):
        import random
        return random.Random("%s/%s/%s" % (self.pid, self.seed, "/".join(map(str, tag))))

    def seen(self, what, n=1):
        """counter of observed events, reported in the evidence"""
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, key=None, sample=None):
        """one evaluation of the oracle; key identifies the distinct non-trivial situation"""
        self.evals += 1
        if key is not None:
            k = hashlib.blake2b(str(key).encode(), digest_size=8).digest()
            if k not in self.distinct:
                self.distinct.add(k)
                if sample is not None and len(self.samples) < 24:
                    self.samples.append(str(sample)[:300])

    def violation(self, key, what, replay=None):
        """key: stable name of the failing site (matched against known findings)"""
        self.evals += 1
        if key in self.known:
            self.hit[key] = what
            return
        if key in self.keys or len(self.violations) >= self.MAXV:
            self.seen("violations (further)")
            return
        self.keys.add(key)
        d = os.path.join(build.VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:60]))
        json.dump(dict(property=self.pid, key=key, what=what, seed=self.seed, tier=self.tier,
                       rerun="VERIF_SEED=%s VERIF_TIER=%s python3 /verif/check.py %s" % (self.seed, self.tier, self.pid), data=replay),
                  open(p, "w"), indent=1, default=str)
        self.violations.append((key, what, p))
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("  " + key + ": " + str(what)[:1500])
        sys.stdout.flush()

    def finish(self, assumptions=()):
        for k in sorted(self.hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        if not self.violations:
            need = 1
            if self.evals < need or not self.distinct:
                raise HarnessError("the monitors observed nothing")
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule, samples=self.samples,
                   observed=self.counts)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  wall_s=round(time.time() - self.t0, 1), assumptions=list(assumptions),
                  violations=len(self.violations))
        if self.hit:
            ev["known_findings"] = {k: self.known[k] for k in self.hit}
        d = os.path.join(build.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, self.pid + ".json.tmp%d" % os.getpid())
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(d, self.pid + ".json"))
        print("%s %s: %d evaluations, %d distinct, %.0f s, %s" % (
            self.pid, "VIOLATED" if self.violations else "held", self.evals, len(self.distinct), time.time() - self.t0,
            json.dumps(self.counts)))
        return 1 if self.violations else 0


def pmap(f, items, n=8):
    """Parallel map keeping order; exceptions propagate."""
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, items))
