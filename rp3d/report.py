"""Obligations, violations, known findings, evidence."""
import json, os, sys, time, hashlib, re
from .extract import VERIF

class Report:
    def __init__(self, pid, tier, seed, rule):
        self.pid = pid; self.tier = tier; self.seed = seed; self.rule = rule
        self.t0 = time.time(); self.obl = []; self.viol = []; self.counts = {}; self.notes = []; self.configs = set()
        self.fns = set()
    def note(self, s): self.notes.append(s)
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def analysed(self, fn): self.fns.add(fn.f if hasattr(fn, "f") else fn)
    def ok(self, what): self.obl.append((what, True))
    def check(self, cond, what, where="", detail="", ident=None):
        """one obligation; a violation is identified (for known findings) by ident (default: what)"""
        self.obl.append((what, bool(cond)))
        if not cond: self.viol.append({"id": ident or what, "what": what, "where": where, "detail": detail})
        return bool(cond)
    def bad(self, what, where="", detail="", ident=None): return self.check(False, what, where, detail, ident)
    def need(self, n, minimum, what):
        """an instance count below what was confirmed by hand means that the analysis lost its anchors"""
        if n < minimum and not self.viol:
            from .model import AnalysisBroken
            raise AnalysisBroken("%s: only %d instances of %s (expected at least %d)" % (self.pid, n, what, minimum))

def known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"): continue
            d = json.loads(line)
            if d.get("status") == "finding" and d["property"] == pid: out[d["id"]] = d
    return out

def finish(rep, prog_info):
    kf = known(rep.pid)
    new = [v for v in rep.viol if v["id"] not in kf]
    seen = {}
    for v in rep.viol: 
        if v["id"] in kf: seen.setdefault(v["id"], v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples = []
    st = max(1, len(rep.obl) // 12)
    for w, okk in rep.obl[::st][:14]: samples.append({"obligation": w, "holds": okk})
    cov = {
        "explanation": rep.rule,
        "obligations_decided": len(rep.obl), "obligations_holding": sum(1 for o in rep.obl if o[1]),
        "distinct_obligations": len({o[0] for o in rep.obl}),
        "functions_analysed": len(rep.fns), "functions_sample": sorted(rep.fns)[:20],
        "counts": rep.counts, "samples": samples, "program": prog_info, "notes": rep.notes[:40],
        "known_findings_seen": sorted(seen),
    }
    ev = {"property": rep.pid, "tier": rep.tier, "seed": rep.seed, "level": "other", "coverage": cov,
          "wall_s": round(time.time() - rep.t0, 3),
          "assumptions": ["clang 18's parse of /repo with the flags of the build is the program the build compiles",
                          "user call-backs and the user's allocator/logger are outside the analysed program"],
          "violations": [dict(v) for v in new]}
    with open(os.path.join(VERIF, "evidence", rep.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    for i, v in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (rep.pid, kf[i].get("what", v["what"]), v["where"]))
    if new:
        rp = os.path.join(VERIF, "evidence", rep.pid + ".violations.txt")
        with open(rp, "w") as f:
            for v in new: f.write("%s\n  at %s\n  %s\n" % (v["what"], v["where"], v["detail"]))
        for v in new[:40]:
            print("  %s\n      at %s%s" % (v["what"], v["where"], ("\n      " + v["detail"][:600]) if v["detail"] else ""))
        print("VIOLATION property=%s replay=%s" % (rep.pid, rp))
        return 1
    print("OK property=%s obligations=%d functions=%d %s wall=%.1fs" % (rep.pid, len(rep.obl), len(rep.fns), " ".join("%s=%s" % kv for kv in sorted(rep.counts.items())), time.time() - rep.t0))
    return 0
