"""fills the tables of DESIGN.md from the catalogue, the known findings and the planted bugs"""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(here + "/tool/DESIGN.tmpl.md").read()
kf = [json.loads(l) for l in open(here + "/known_findings.jsonl") if l.strip()]
d = "".join("* %s %s — %s\n" % (k["property"], k.get("commit", ""), re.sub(r"^fixed: property=\S+ \S+ ", "", k["what"])) for k in kf if k["status"] == "fixed")
man = json.load(open(here + "/MANIFEST.json")); ids = [c["property"] for c in man["checks"]]
s = "Each is caught by the check of the property named in its id. What each needs to show itself is in its `meta.json`.\n\n| bug | breaks | needs |\n|----|----|----|\n"
for n in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, n)))
    s += "| %s (%s) | %s | %s |\n" % (n, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"))
na = "".join("* %s: %s\n" % (x["property"], x["reason"]) for x in man["not_applicable"])
for k, v in (("@@DEFECTS@@", d), ("@@SEEDS@@", s), ("@@NA_MORE@@", "\n" + na)): t = t.replace(k, v.rstrip("\n"))
t = t.replace("@@NBCLAIMED@@", str(len(ids)))
missing = [i for i in ids if "| %s |" % i not in t]
if missing: print("no row for", missing)
open(here + "/DESIGN.md", "w").write(t)
