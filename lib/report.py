"""Obligation bookkeeping, known findings, evidence and exit status shared by every check."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known(prop):
    """known: property=<id> key=<key> :: <what fails>   ->  {key: text}"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN, encoding="utf8"):
            ln = ln.strip()
            if ln.startswith("known: property=%s key=" % prop):
                k, _, txt = ln[len("known: property=%s key=" % prop):].partition(" :: ")
                out[k.strip()] = txt.strip()
    return out


class Report:
    def __init__(self, prop, tier, rule, level, floor=0.4):
        self.prop, self.tier, self.rule, self.level, self.floor = prop, tier, rule, level, floor
        self.t0 = time.time()
        self.held, self.bad, self.und = [], [], []
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self.minimum = 1

    def ok(self, key, what=""):
        self.held.append((key, what))

    def violation(self, key, msg, where=""):
        if not any(k == key for k, _, _ in self.bad):
            self.bad.append((key, msg, where))

    def undecided(self, key, why):
        self.und.append((key, str(why)[:400]))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, s):
        self.notes.append(s)

    def finish(self):
        known = load_known(self.prop)
        new = [b for b in self.bad if b[0] not in known]
        old = [b for b in self.bad if b[0] in known]
        decided = len(self.held) + len(self.bad)
        total = decided + len(self.und)
        vac = None
        if decided < self.minimum or (total and decided < self.floor * total):
            vac = ("analysis-lost-its-subject", "only %d of %d obligations could be decided (needs %d and %d%%); "
                   "first undecided: %s" % (decided, total, self.minimum, self.floor * 100, self.und[:3]), "")
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for k, msg, where in old:
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, known[k] or msg, k))
        viol = new + ([vac] if vac else [])
        rows = []
        for n, (k, msg, where) in enumerate(viol):
            rp = os.path.join("evidence", "replay", "%s-%d.json" % (self.prop, n))
            with open(os.path.join(VERIF, rp), "w") as f:
                json.dump({"property": self.prop, "key": k, "message": msg, "construct": where, "rule": self.rule,
                           "rerun": "python3 /verif/check.py %s --tier %s" % (self.prop, self.tier)}, f, indent=1,
                          ensure_ascii=False)
            rows.append({"key": k, "message": msg, "construct": where, "replay": rp})
            if n < 25:
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
                print("  key: %s\n  at:  %s\n  why: %s" % (k, where, msg))
        cov = {"explanation": self.rule, "obligations": total, "held": len(self.held), "violated_known": len(old),
               "violated_new": len(viol), "undecided": len(self.und)}
        cov.update(self.counts)
        cov["held_obligations"] = [("%s: %s" % (k, w)) if w else k for k, w in self.held][:600]
        cov["undecided_obligations"] = ["%s: %s" % u for u in self.und][:200]
        cov["known_findings"] = [k for k, _, _ in old]
        cov["notes"] = self.notes[:60]
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(viol), "assumptions": self.assumptions}
        if rows:
            ev["coverage"]["violation_rows"] = rows
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        print("%s: %d obligations, %d held, %d known findings, %d new violations, %d undecided (%.1fs)" % (
            self.prop, total, len(self.held), len(old), len(viol), len(self.und), time.time() - self.t0))
        return 1 if viol else 0
