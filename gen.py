#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, subprocess
import props
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for i, p in sorted(list(props.PROPS.items()) + list(getattr(props, "NA", {}).items())):
        p["files"] = list(dict.fromkeys(p["files"]))
        assert len(p["title"]) <= 80, i
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": p.get("hook")}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 build.py",
     "hooks": {"guard": "KITER_SIM", "enable": "no hook was needed: the checks compile /repo's sources with -DKITER_SIM, which they do not use; every seam is at the C library boundary", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "technique": props.TECH, "level": p["level"], "level_note": p["note"]} for i, p in sorted(props.PROPS.items())],
     "not_applicable": [{"property": i, "reason": p["reason"]} for i, p in sorted(getattr(props, "NA", {}).items())],
     "notes": "known findings: known-findings.txt; design: DESIGN.md; properties.jsonl and this file are written by gen.py from props.py"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

d = open(V + "/design_head.md").read() + "## The properties, one by one\n\n"
for i, p in sorted(props.PROPS.items()):
    d += "### %s %s\n\n%s\n\n*How it is decided.* %s\n\n*Why tests cannot.* %s\n\n*Level.* %s. %s Quick: up to %d runs.\n\n" % (i, p["title"], p["statement"], p["design"], p["why"], p["level"], p["note"], p["quick"])
for i, p in sorted(getattr(props, "NA", {}).items()):
    d += "### %s %s (not claimed)\n\n%s\n\n%s\n\n" % (i, p["title"], p["statement"], p["reason"])
d += open(V + "/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(d)
