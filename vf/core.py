"""Check runner: counters, verdicts, evidence, replay files, known findings."""
import hashlib
import json
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
MAX_VIOLATIONS = 5
CURRENT = []


class Stop(Exception):
    """Enough violations were seen."""


class Inconclusive(Exception):
    pass


class Violated(Exception):
    """Raised by a monitor that cannot go on: counts as a violation."""


def brief(value, limit=600):
    text = value if isinstance(value, str) else repr(value)
    return text if len(text) <= limit else text[: limit // 2] + " ...[%d chars]... " % len(text) + text[-limit // 2:]


class Check:
    def __init__(self, pid, level, rule):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.scale = 1        # of the quick tier, for checks that are cheap
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.monotonic()
        self.evaluations = 0
        self.seen = set()
        self.counters = {}
        self.samples = []
        self.sample_kinds = {}
        self.violations = []
        self.findings = []
        self.assumptions = []
        self.exhaustive = None
        self.known = load_known(pid)
        self.requirements = {}

    # -- sizes -------------------------------------------------------------
    deep = 1.0

    def n(self, quick, thorough=None):
        most = thorough if thorough is not None else quick * 20
        return int(most * self.deep) if self.thorough else max(quick, min(most, int(quick * self.scale)))

    def sub_rng(self, *name):
        return random.Random("%s/%d/%s" % (self.pid, self.seed, "/".join(map(str, name))))

    # -- observations --------------------------------------------------------
    def case(self, kind, key=None, sample=None):
        """One judged case. `key` identifies it for distinctness (None: trivial, not counted as distinct)."""
        self.patience()
        self.evaluations += 1
        self.count("cases:" + kind)
        if key is not None:
            h = hashlib.blake2b(repr((kind, key)).encode("utf-8", "backslashreplace"), digest_size=8).digest()
            self.seen.add(h)
        if sample is not None and self.sample_kinds.get(kind, 0) < 2 and len(self.samples) < 40:
            self.sample_kinds[kind] = self.sample_kinds.get(kind, 0) + 1
            self.samples.append({"kind": kind, "case": brief(sample)})

    def patience(self):
        """Once something is wrong, do not go on for long: wrong code can be slow code."""
        if self.violations and time.monotonic() - self.first > 60:
            raise Stop

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def require(self, name, minimum=1):
        """The run is inconclusive unless counter `name` reached about `minimum`; a third is enough, because random walks
        take other turns when the code under test takes other (equally right) ones."""
        minimum = max(1, minimum // 3)
        self.requirements[name] = max(minimum, self.requirements.get(name, 0))

    # -- verdicts ------------------------------------------------------------
    def fail(self, message, mechanism=None, **detail):
        for k in self.known:
            if mechanism is not None and k["mechanism"] == mechanism:
                if mechanism not in self.findings:
                    self.findings.append(mechanism)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return
        self.patience()
        if not self.violations:
            self.first = time.monotonic()
        self.violations.append({"message": message, "mechanism": mechanism,
                                "detail": {k: brief(v, 4000) for k, v in detail.items()}})
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Stop

    def check(self, ok, message, mechanism=None, **detail):
        if not ok:
            self.fail(message, mechanism, **detail)
        return ok

    # -- output --------------------------------------------------------------
    def coverage(self):
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.seen),
            "rule": self.rule,
            "samples": self.samples or ["(none)"],
            "observed": dict(sorted(self.counters.items())),
            "minimum": {k: [self.counters.get(k, 0), v] for k, v in sorted(self.requirements.items())},
        }
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        return cov

    def write_evidence(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": self.coverage(), "assumptions": self.assumptions,
            "wall_s": round(time.monotonic() - self.t0, 3), "violations": len(self.violations),
        }
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")
        os.replace(path + ".tmp", path)

    def write_replay(self):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "repo": REPO,
                       "rerun": "VERIF_TIER=%s VERIF_SEED=%d bash bin/check %s" % (self.tier, self.seed, self.pid),
                       "violations": self.violations}, f, indent=1, default=repr)
            f.write("\n")
        return path


def load_known(pid):
    """Open findings: lines 'open: property=<id> mechanism=<name> <what fails>' of known_findings.txt."""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("open: property=%s " % pid):
                    rest = line.split(None, 2)[2]
                    mech, what = rest.split(None, 1)
                    out.append({"mechanism": mech.split("=", 1)[1], "what": what})
    except FileNotFoundError:
        pass
    return out


def psion_frames(exc):
    """True if the exception was raised from (or through) psion code."""
    root = os.path.join(REPO, "src", "psion") + os.sep
    while exc is not None:
        if any(os.path.abspath(f.filename).startswith(root) for f in traceback.extract_tb(exc.__traceback__)):
            return True
        exc = exc.__cause__ or exc.__context__
    return False


def run(pid, module):
    c = Check(pid, getattr(module, "LEVEL", "exploration"), module.RULE)
    c.deep = float(os.environ.get("VF_DEEP") or getattr(module, "DEEP", 1))   # thorough-tier multiplier
    c.scale = float(os.environ.get("VF_SCALE") or getattr(module, "SCALE", 1))
    code = 0
    CURRENT.append(c)
    try:
        module.run(c)
    except Stop:
        pass
    except Inconclusive as exc:
        print("INCONCLUSIVE property=%s %s" % (pid, exc))
        code = 2
    except Violated as exc:
        c.violations.append({"message": str(exc), "mechanism": None, "detail": {"traceback": traceback.format_exc()[-3000:]}})
    except Exception as exc:  # an exception nobody expected
        traceback.print_exc()
        if psion_frames(exc):
            # Every operation of a workload whose failure is legitimate is wrapped; here success was required.
            c.violations.append({"message": "unexpected exception where success was required: %r" % exc,
                                 "mechanism": None, "detail": {"traceback": traceback.format_exc()[-6000:]}})
        elif isinstance(exc, (AttributeError, TypeError, LookupError, ValueError)) and not isinstance(exc, UnicodeError) \
                and not traceback.extract_tb(exc.__traceback__)[-1].filename.endswith(("random.py", "threading.py", "vf/core.py")):
            # The workload only goes on with results it has a right to: a result of another kind (None, another type, a
            # member missing) ends up here. (Machine trouble - OSError, MemoryError, time-outs - does not.)
            c.violations.append({"message": "the library gave a result of another kind than documented: %r" % exc,
                                 "mechanism": None, "detail": {"traceback": traceback.format_exc()[-6000:]}})
        else:
            print("INCONCLUSIVE property=%s harness error %r" % (pid, exc))
            code = 2
    if not c.violations and code == 0:
        for name, minimum in sorted(c.requirements.items()):
            if c.counters.get(name, 0) < minimum:
                print("INCONCLUSIVE property=%s monitor %r observed %d < %d" % (pid, name, c.counters.get(name, 0), minimum))
                code = 2
    return report(c, code)


def report(c, code):
    pid = c.pid
    c.write_evidence()
    if c.violations:
        path = c.write_replay()
        for v in c.violations:
            print("  " + brief(v["message"]))
            for k, val in v["detail"].items():
                print("      %s: %s" % (k, brief(val, 300)))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if code == 0:
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (
            pid, c.tier, c.seed, c.evaluations, len(c.seen), time.monotonic() - c.t0))
    return code
