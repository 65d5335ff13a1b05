#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present in bin/checks."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    f = V + "/bin/checks/%s.py" % i
    if not os.path.exists(f):
        na.append({"property": i, "reason": NA.get(i, "not built yet: work in progress, no check is claimed for it so far")}); continue
    doc = open(f).read().split('"""')[1].strip().replace("\n", " ")
    checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
        "technique": "TLA+ specification checked with TLC, bound to the code by trace validation and replay of specification-generated cases: " + doc,
        "level": "model_checking",
        "level_note": "The specification is checked exhaustively within the stated constants; the code is bound to it by validating every recorded step of generated executions, so the verdict on the code covers the executions that were run."})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks are needed: every observation uses the library's public interface", "source_commits": []},
     "notes": "Checks rebuild the library from /repo's working tree with clang++ (ASan/UBSan) into /verif/build, record ndjson traces and validate them with TLC against spec/*.tla. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
