"""Writes DESIGN.md: tools/design_head.md, a section per property (tools/oracles.json, registry.py, properties.jsonl),
the planted bugs (seeded/*/meta.json, tools/caught.json), tools/design_tail.md."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from registry import CHECKS
T = os.path.join(ROOT, "tools")
out = [open(T + "/design_head.md").read().rstrip(), "", "## Property by property", "",
       "*Oracle*: what the result is compared with. *Bounds*: the arbitrary (\"any\") parts are symbolic variables, decided for all values; "
       "shapes (numbers of pages, widths, lengths) are run through one by one, one job each. Functions encoded, queries and solver time are in "
       "`evidence/<id>.json`.", ""]
oracle = json.load(open(T + "/oracles.json"))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
for p in props:
    i = p["id"]; c = CHECKS[i]
    nq = sum(len(j.get("quick", [])) for j in c["jobs"]); nt = sum(len(j.get("thorough", [])) for j in c["jobs"])
    out += ["### %s %s" % (i, p["title"]), "- *Oracle*: %s" % oracle[i],
            "- *Harnesses* (`harness/src/%s.rs`; %d quick jobs%s): %s" % (i.lower(), nq, ", %d more in thorough" % nt if nt else "",
                ", ".join(dict.fromkeys("`%s`" % j["h"] for j in c["jobs"]))),
            "- *Bounds*: %s" % c["bounds"]]
    if c.get("outside"): out.append("- *Outside*: %s" % c["outside"])
    out += ["- *Why not by tests*: %s" % p["why_tests_cant"], ""]
out += ["## Planted bugs", "", "Each is in `seeded/<id>/` and passes the repository's stable tests.", "",
        "| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(T + "/caught.json"))
S = ROOT + "/seeded"
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open("%s/%s/meta.json" % (S, d)))
    out.append("| %s: %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["property"], m["needs"], caught.get(d, "?")))
out += ["", open(T + "/design_tail.md").read().rstrip(), ""]
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
