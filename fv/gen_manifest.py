"""Writes /verif/MANIFEST.json from properties.jsonl, registry.py and na.py (development time; the result is committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from fv.registry import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
na = json.load(open(os.path.join(V, "fv", "not_applicable.json")))
checks = []
for i in ids:
    if i not in PROPS: assert i in na, i; continue
    p = PROPS[i]
    checks.append({"property": i, "quick_cmd": "python3-vt -m fv.check %s --tier quick" % i, "thorough_cmd": "python3-vt -m fv.check %s --tier thorough" % i,
      "technique": p.get("technique", "contract-based deductive verification: weakest-precondition style obligations over the LLVM IR of the real templates, discharged by z3 and cvc5"),
      "level": p["level"], "level_note": p["note"] + "; trusted: clang front end and the listed IR passes, the verifier itself, the listed contracts on the C++ run time and math library, no exceptions"})
for i in PROPS: assert i in ids, i
m = {"version": 1, "setup_cmd": "python3-vt -m fv.setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": na[i]} for i in ids if i not in PROPS],
     "hooks": {"guard": "FERN_VERIFY", "enable": "no hooks were needed: the specifications instantiate the unmodified code", "source_commits": []},
     "notes": "See DESIGN.md. fix: commits in /repo are recorded in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(m["not_applicable"]), "not applicable")
