#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per harness in props/."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
T = json.load(open(os.path.join(R, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "props", i + ".cpp")):
        t = T.get(i, ["property-based testing against an independent oracle", ""])
        checks.append({"property": i, "quick_cmd": "./run %s --tier quick" % i, "thorough_cmd": "./run %s --tier thorough" % i,
                       "technique": t[0], "level": "exploration",
                       "level_note": ("Searches generated cases, proves nothing beyond them. " + t[1] + " Trusts clang's sanitizers and the harness's oracle.").replace("  ", " ")})
    else:
        na.append({"property": i, "reason": "harness not written yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Every check builds /repo/src with the repository's own source list (clang, ASan+UBSan) in /verif/build. No hooks are needed in /repo."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
