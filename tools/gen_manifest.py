#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from config import PROPS
from na import NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in PROPS:
        c = PROPS[p]
        checks.append(dict(property=p, quick_cmd="/verif/check %s --tier quick" % p, thorough_cmd="/verif/check %s --tier thorough" % p,
                           technique="deterministic simulation with fault injection: " + c.get("technique", "seeded search over programs, schedules and faults against an executable reference model"),
                           level=c.get("level", "exploration"), level_note=c.get("note", "seeded exploration; every violation is replayed exactly from a minimised trace; not exhaustive")))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")) for p in props if p not in PROPS]
m = dict(version=1, setup_cmd="/verif/check build", checks=checks, not_applicable=na, notes="No hooks in /repo: the seams are the compiler instrumentation calls, the pthread and allocation symbols and link-time wrapped system calls, all taken over in the simulation binaries only.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
