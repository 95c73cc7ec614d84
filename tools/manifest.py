#!/usr/bin/env python3
"""regenerates MANIFEST.json from properties.jsonl and tools/checks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    cfg = ", ".join(c["configs"])
    checks.append(dict(property=p["id"], quick_cmd="python3 tools/run_check.py %s quick" % p["id"], thorough_cmd="python3 tools/run_check.py %s thorough" % p["id"],
        technique=c.get("technique", "randomised workloads on the real code under ASan/UBSan%s, judged by a reference-model monitor" % ("/Valgrind" if "vg" in c["configs"] else "")),
        level="exploration", level_note="every generated execution is judged by an independent oracle and by the sanitizers (configurations: %s); nothing is claimed for inputs that were not generated" % cfg))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
