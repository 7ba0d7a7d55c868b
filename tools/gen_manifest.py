#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist under checks/ (metadata below)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "manifest_data.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".cpp")) and i in DATA:
        t, level, note = DATA[i]
        checks.append({"property": i, "quick_cmd": "./run.sh " + i.lower(), "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i.lower(),
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 lib/build.py --self-test", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "HXHIM_VERIF", "enable": "lib/build.py compiles /repo's sources with -DHXHIM_VERIF=1 (no hook is present in /repo: everything is interposed at link time)", "source_commits": []},
     "notes": "Every check compiles /repo's working tree (content-hashed object cache under build/, not committed) and explores the real code; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")
