"""writes /verif/MANIFEST.json from the registry of checks and properties.jsonl"""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import REGISTRY

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
TECH = {
    "C37": "stateless model checking of the real code under a controlled scheduler: exhaustive enumeration of the preemption points "
    "of each computation (1 preemption; thorough also 2), against the values of the computations alone",
    "C40": "exhaustive enumeration of the crash points of the real code and of the settings of the process: the process is compared before and after each",
    "C38": "exhaustive enumeration of the crash points (an interruption at each line executed, an exception at each call of user functions) "
    "of the real computations, then comparison of the objects and later results with those of new objects",
}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in REGISTRY:
        checks.append(
            dict(
                property=i,
                quick_cmd=f"/verif/run.sh {i} quick",
                thorough_cmd=f"/verif/run.sh {i} thorough",
                technique=TECH.get(i) or "bounded-exhaustive explicit-state model checking of the real objects (deviation-bounded "
                "mutation walks / all operation sequences up to a depth / full finite products) against an "
                "independent reference model",
                level="model_checking",
                level_note="every state within the bounds in the evidence file is visited on the implementation; "
                "values outside the alphabets are not covered",
            )
        )
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
