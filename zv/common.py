"""Shared plumbing of the checks: findings, evidence, known findings."""
import json, os, sys, time, traceback
from . import prog
from .prog import CheckError, AnchorMissing, VERIF

KNOWN = os.path.join(VERIF, "known_findings.txt")
EVID = os.environ.get("ZV_EVID") or os.path.join(VERIF, "evidence")


class Report:
    """What one check analysed and what it found."""

    def __init__(self, pid):
        self.pid = pid
        self.viol = []          # (key, text)
        self.keys = set()
        self.stats = {}
        self.notes = []
        self.obligations = 0
        self.discharged = 0
        self.rule = ""
        self.trusted = []
        self.level = "proof"
        self.samples = []
        self.undecided = []

    def violation(self, key, text):
        if key not in self.keys:
            self.keys.add(key)
            self.viol.append((key, text))

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def fail(self, key, text):
        self.obligations += 1
        self.violation(key, text)

    def obligation(self, cond, key, text):
        if cond:
            self.ok()
        else:
            self.fail(key, text)
        return cond

    def floor(self, what, got, least):
        """a rule that matches nothing must not pass vacuously"""
        self.stats[what] = got
        if got < least:
            self.undecided.append("%s: only %d found, at least %d were confirmed by hand; the analysis "
                                  "does not see what the property is anchored on" % (what, got, least))


_cache = {}


def program(features=True):
    if features not in _cache:
        _cache[features] = prog.extract(features)
    return _cache[features]


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                rest = ln[len("finding: property=%s " % pid):]
                key, _, text = rest.partition(" | ")
                out[key.strip()] = text.strip()
    return out


def run_check(pid, fn, tier):
    t0 = time.time()
    rep = Report(pid)
    try:
        fn(rep, tier)
    except AnchorMissing as e:
        # renamed or restructured: no verdict
        print("no verdict from %s: %s" % (pid, e))
        rep.undecided.append("anchor missing: %s" % e)
    except CheckError:
        raise
    except Exception:
        # an analysis that breaks down has no verdict
        tb = traceback.format_exc()
        print("no verdict from %s: %s" % (pid, tb))
        rep.undecided.append("analysis failed: " + tb)
    known = known_findings(pid)
    new = [(k, t) for k, t in rep.viol if k not in known]
    for k, t in rep.viol:
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k] or t))
    os.makedirs(EVID, exist_ok=True)
    trusted = ["rustc nightly front end and MIR construction (optimisations off)",
               "zv driver and analysis code"] + rep.trusted
    if rep.level == "proof":
        cov = {"obligations": rep.obligations, "discharged": rep.discharged,
               "checker_cmd": "python3 /verif/zv/run.py %s" % pid,
               "trusted_base": trusted, "rule": rep.rule, "analysed": rep.stats,
               "known_findings": len(rep.viol) - len(new), "undecided": rep.undecided[:40],
               "notes": rep.notes, "samples": rep.samples[:40]}
    else:
        cov = {"explanation": rep.rule, "analysed": rep.stats, "obligations": rep.obligations,
               "discharged": rep.discharged, "trusted_base": trusted, "notes": rep.notes,
               "undecided": rep.undecided[:40],
               "known_findings": len(rep.viol) - len(new), "samples": rep.samples[:40]}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": rep.level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": len(new),
          "findings": [{"key": k, "what": t} for k, t in new]}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        rp = os.path.join(EVID, pid + ".replay.txt")
        with open(rp, "w") as f:
            f.write("property %s\nrule: %s\nre-run: python3 %s/zv/run.py %s\n\n" % (pid, rep.rule, VERIF, pid))
            for k, t in new:
                f.write("- [%s] %s\n" % (k, t))
        for k, t in new[:20]:
            print("  %s: [%s] %s" % (pid, k, t))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s holds: %d obligations, %s (%.1fs)" % (pid, rep.obligations,
          ", ".join("%s=%s" % kv for kv in list(rep.stats.items())[:8]), time.time() - t0))
    return 0
