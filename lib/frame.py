"""Common frame of every check: seeds, tiers, counters, violations matched
against the known findings, evidence and replay artifacts."""
import hashlib
import json
import os
import random
import re
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
MAX_REPORTED = 5


class Enough(Exception):
    """Raised to end a run early: enough violations were collected."""


def known_findings(pid):
    """Lines 'finding: property=<id> key=<key> <what fails>'; 'fixed:' lines
    only document repairs and suppress nothing."""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as handle:
        for line in handle:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def jsonable(value):
    if isinstance(value, bytes):
        if len(value) > 4096:
            return {"bytes": value[:4096].decode("latin-1"), "length": len(value), "sha256": hashlib.sha256(value).hexdigest()}
        return value.decode("latin-1")
    if isinstance(value, dict):
        return {(k.decode("latin-1") if isinstance(k, bytes) else str(k)): jsonable(v) for k, v in value.items()}
    if isinstance(value, (list, tuple, set)):
        return [jsonable(v) for v in value]
    if isinstance(value, (int, float, str, bool)) or value is None:
        return value
    return repr(value)


class Ctx:
    def __init__(self, pid, tier, seed, level, rule, assumptions=()):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.inconclusive = []
        self.violations = {}
        self.known_hit = {}
        self.known = known_findings(pid)
        self.started = time.time()
        # when the first violation was found
        self.broken = None
        self.first_stuck = None
        self.lock_finish = threading.Lock()
        self.quick = tier == "quick"

    # volume -------------------------------------------------------------
    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.started

    def late(self):
        """True once the soft time budget of the tier was used."""
        return self.elapsed() > (420 if self.quick else 780) or self.found_long_ago()

    def found_long_ago(self):
        return self.broken is not None and time.time() - self.broken > (60 if self.quick else 200)

    def watch(self):
        """A broken tree can make every step wait: the verdict is given some
        time after the first violation, whatever is still going on, and no
        run outlasts its budget."""
        def loop():
            while True:
                time.sleep(1)
                over = self.elapsed() > 840 and self.quick
                if (self.broken is not None and time.time() - self.broken > (100 if self.quick else 400)) or over:
                    if self.lock_finish.acquire(blocking=False):
                        break
                    return
            print("%s: ended after %.0f s%s" % (self.pid, self.elapsed(), ", the rest is not awaited" if self.violations else ": it takes too long here"), flush=True)
            try:
                import server
                server.abandon()
            except Exception:
                traceback.print_exc()
            code = 3
            try:
                code = self._finish()
            except Exception:
                traceback.print_exc()
            sys.stdout.flush()
            os._exit(1 if self.violations else (code or 3))
        threading.Thread(target=loop, daemon=True).start()

    # observation --------------------------------------------------------
    def case(self, key=None, nontrivial=True, n=1):
        self.evaluations += n
        if nontrivial and key is not None:
            self.distinct.add(hashlib.sha1(repr(key).encode()).digest()[:10])

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def top(self, name, value):
        self.counters[name] = max(self.counters.get(name, 0), value)

    def sample(self, value, limit=6):
        if len(self.samples) < limit:
            text = json.dumps(jsonable(value))
            self.samples.append(text if len(text) < 1500 else text[:1500] + "...")

    def unsure(self, text):
        self.inconclusive.append(text)
        print("INCONCLUSIVE %s: %s" % (self.pid, text[:500]), flush=True)

    def stuck(self, text, **artifact):
        """An answer did not come within the (long) time of its client. Once it
        may be the machine that rested; again, well after, it is a verdict."""
        now = time.monotonic()
        if self.first_stuck is None or now - self.first_stuck < 9:
            self.first_stuck = self.first_stuck or now
            self.unsure(text)
        else:
            self.violation("stuck:%s" % re.sub(r"b?'.*?'|\d+", "N", text)[:40], text, **artifact)

    # verdicts -----------------------------------------------------------
    def violation(self, key, message, **artifact):
        """key: stable identity of the failing behaviour (no seeds, no
        addresses), message: one line."""
        key = re.sub(r"\s+", "_", key)
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit[key] = 0
                print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key]), flush=True)
            self.known_hit[key] += 1
            return
        if key in self.violations:
            self.violations[key] += 1
            return
        self.violations[key] = 1
        self.broken = self.broken or time.time()
        folder = os.path.join(VERIF, "build", "replay")
        os.makedirs(folder, exist_ok=True)
        name = "%s-%s.json" % (self.pid, hashlib.sha1(key.encode()).hexdigest()[:10])
        path = os.path.join(folder, name)
        with open(path, "w") as handle:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "key": key, "message": message,
                       "artifact": jsonable(artifact)}, handle, indent=1)
        print("%s [%s] %s" % (self.pid, key, message[:1500]), flush=True)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        if len(self.violations) >= MAX_REPORTED:
            raise Enough()

    def finish(self):
        if not self.lock_finish.acquire(blocking=False):
            # the watch is giving the verdict
            time.sleep(60)
        return self._finish()

    def _finish(self):
        coverage = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": self.samples or ["none"],
            "observed": self.counters,
            "inconclusive": len(self.inconclusive),
            "inconclusive_samples": self.inconclusive[:5],
            "known_findings_observed": self.known_hit,
        }
        evidence = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": coverage, "assumptions": self.assumptions,
            "wall_s": round(self.elapsed(), 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as handle:
            json.dump(evidence, handle, indent=1)
        os.rename(path + ".tmp", path)
        print("%s %s seed=%s: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1f s" % (
            self.pid, self.tier, self.seed, self.evaluations, len(self.distinct), len(self.violations),
            len(self.inconclusive), self.elapsed()), flush=True)
        print(json.dumps(self.counters), flush=True)
        if self.violations:
            return 1
        if not self.evaluations or not self.distinct:
            print("nothing was observed: no verdict")
            return 2
        return 0
