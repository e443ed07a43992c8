#!/usr/bin/env python3
"""writes MANIFEST.json from checks/props.py and the not-applicable reasons below"""
import sys, os, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + "/engine", HERE + "/checks"]
from props import PROPS
NA = {
    "C34": "the library is built without exceptions and tests no allocation result; the behaviour after a failed allocation is left to "
           "operator new, so there is no source construct to decide beyond the absence of a check",
}
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": p.get("technique", "abstract interpretation of the compiled IR of every operation (dataflow over a shape/"
                                          "segment domain with linear-arithmetic sizes), from abstract pre-states of every size"),
                       "level": p.get("level", "other"),
                       "level_note": p.get("note", "Sound for every pre-state size in the cases listed as discharged; cases marked 'up to a "
                                           "bound' drop paths with more loop iterations than the bound; an alarm is raised only on an exactly "
                                           "known path, other deviations are counted as undecided. Trusts clang 18's front end and inliner, the "
                                           "interpreter in engine/, and element operations that do not throw.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q engine checks", "checks": checks, "not_applicable": na},
          open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable:", [x["property"] for x in na])
