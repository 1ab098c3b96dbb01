"""Writes MANIFEST.json from properties.jsonl, registry.py and tools/not_applicable.json."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
hooks = na.pop("_hook_commits", [])
NOTE = ("Path-exploring symbolic execution of the LLVM IR that rustc emits for the real crate, regenerated on every run; "
        "every feasible path within the bounds is followed and Z3 decides each branch, panic and assertion for all values of the symbolic inputs. "
        "Nothing is claimed outside the bounds: %s%s Trusts: rustc's IR, symex/ (checked per run by replaying sampled paths in a native build), Z3.")
checks, nas = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="bounded symbolic execution of rustc LLVM IR, deciding with the Z3 SMT solver",
                           level="model_checking",
                           level_note=NOTE % (c["bounds"], (" Not covered: %s." % c["outside"]) if c.get("outside") else ".")))
    else:
        nas.append(dict(property=i, reason=na.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 run.py --setup",
         hooks=dict(guard="--cfg pq2_verif", enable="RUSTFLAGS='--cfg pq2_verif' (set by run.py when it builds the IR and the native replay binary)", source_commits=hooks),
         checks=checks, not_applicable=nas,
         notes="Machinery: symex/ (executor), harness/ (harness crate), run.py (runner), registry.py (jobs and bounds). See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "claimed;", [x["property"] for x in nas])
