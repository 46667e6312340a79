"""python3 -m engine.mkmanifest > MANIFEST.json"""
import json, sys
from .props import P, NOT_APPLICABLE, HOOKS, NOTES
from .properties_src import L

checks, na = [], []
for x in L:
    i = x["id"]
    if i in P:
        c = P[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i}",
                           technique=c.get("technique", "contract obligations on the real functions, discharged by Kani/CBMC for all inputs"),
                           level=c.get("level", "proof"),
                           level_note=c.get("note", "All inputs: every verification condition is generated from the current source and discharged. ")
                           + " Assumes: " + "; ".join(c.get("assumptions", [])) + "."))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
print(json.dumps(dict(version=1, setup_cmd="sh setup.sh", hooks=HOOKS, checks=checks, not_applicable=na, notes=NOTES), indent=1))
