"""Writes MANIFEST.json: claimed checks below, the rest as not built."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

GEN = "Generated-input search, not a proof: "
C = {}
def c(pid, technique, note):
    C[pid] = (technique, note)

exec(open(os.path.join(here, "tools", "claims.py")).read())

checks = []
na = []
for p in props:
    i = p["id"]
    if i in C:
        t, n = C[i]
        if i not in ("C18", "C19", "C21", "C22", "C27"):
            n += " The thorough tier adds coverage-guided search (libFuzzer on the choice tape) with the same oracle."
        checks.append({"property": i, "quick_cmd": f"./run.sh check {i}", "thorough_cmd": f"./run.sh check {i} thorough",
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "the check for it is not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "Checks rebuild from /repo's working tree. Recorded and repaired defects: known_findings.txt. No hooks are needed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
