"""Collects the obligations of one check, compares violations with the known findings, writes the evidence file."""
import os, json, time, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")

class Broken(Exception):
    """the analysis lost an anchor it needs (not a verdict)"""

def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if not ln.startswith("finding:"): continue
            d = {}
            rest = ln[len("finding:"):].strip()
            for k in ("property=", "key="):
                if not rest.startswith(k): break
                v, _, rest = rest[len(k):].partition(" ")
                d[k[:-1]] = v; rest = rest.strip()
            if d.get("property") == pid: out[d["key"]] = rest
    return out

class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.t = time.time()
        self.kinds = {}          # rule -> number of obligations
        self.units = {}          # what was analysed: name -> detail
        self.viol = []           # (key, where, message)
        self.samples = []
        self.seen = set()
        self.trusted = []; self.assume = []
        self.rule = []           # rules applied, in words
        self.level = "proof"
        self.notes = {}
    def rules(self, *r): self.rule.extend(r)
    def trust(self, *r):
        for x in r:
            if x not in self.trusted: self.trusted.append(x)
    def unit(self, name, detail=None):
        self.units[name] = detail
    def count(self, rule, n=1):
        self.kinds[rule] = self.kinds.get(rule, 0) + n
    def check(self, rule, ok, where, msg, key=None):
        """one obligation"""
        self.count(rule)
        if not ok: self.violate(rule, where, msg, key, counted=True)
        elif len([s for s in self.samples if s["rule"] == rule]) < 2:
            self.samples.append({"rule": rule, "where": where, "decided": "holds"})
        return ok
    def violate(self, rule, where, msg, key=None, counted=False):
        if not counted: self.count(rule)
        k = "%s:%s" % (rule, key if key is not None else where)
        k = k.replace(" ", "_")
        if k in self.seen: return
        self.seen.add(k)
        self.viol.append((k, where, msg))
    def need(self, n, what, floor):
        """instance floor: fewer instances than confirmed by hand means the analysis no longer sees its anchors"""
        if n < floor: raise Broken("%s: %d found, at least %d expected" % (what, n, floor))
    def finish(self):
        kn = known(self.pid)
        new = []; old = []
        for k, w, m in self.viol:
            (old if k in kn else new).append((k, w, m))
        obl = sum(self.kinds.values())
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": self.level,
              "coverage": {"obligations": obl, "discharged": obl - len(self.viol),
                           "by_rule": self.kinds, "analysed": self.units, "rules": self.rule,
                           "samples": self.samples[:24],
                           "checker_cmd": "python3-vt /verif/check.py %s" % self.pid,
                           "trusted_base": self.trusted or ["the checker itself"]},
              "assumptions": self.assume,
              "wall_s": round(time.time() - self.t, 2), "violations": len(new)}
        if self.level == "other":
            ev["coverage"]["explanation"] = "; ".join(self.rule) or "see rules"
        if self.notes: ev["coverage"]["notes"] = self.notes
        if old: ev["coverage"]["known_findings"] = [{"key": k, "where": w, "what": m} for k, w, m in old]
        if new: ev["coverage"]["violating"] = [{"key": k, "where": w, "what": m} for k, w, m in new]
        d = os.path.join(ROOT, "evidence"); os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.tmp" % self.pid)
        with open(tmp, "w") as f: json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, self.pid + ".json"))
        for k, w, m in old:
            print("KNOWN-FINDING: property=%s %s: %s [%s]" % (self.pid, w, m, k))
        if new:
            rp = os.path.join(d, self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for k, w, m in new: f.write("%s\n  key: %s\n  %s\n" % (w, k, m))
            for k, w, m in new[:40]: print("%s: %s\n    [%s]" % (w, m, k))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s: %d obligations over %d units hold (%.1f s)" % (self.pid, obl, len(self.units), time.time() - self.t))
        return 0
