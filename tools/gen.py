#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from dst/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "dst"))
import props as P
from not_applicable import NA

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P.PROPS.values(), key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None))
        if p["state"]:
            d["anchors"]["state"] = p["state"]
        f.write(json.dumps(d) + "\n")
    for n in NA:
        f.write(json.dumps(n["prop"]) + "\n")
man = dict(version=1, setup_cmd="python3 dst/build.py --mirror-only",
           hooks=dict(guard="CYCLUS_DST (unused: every seam already exists or is interposed from outside)",
                      enable="nothing to enable; the checks compile /repo's sources unchanged", source_commits=[]),
           checks=[], not_applicable=[dict(property=n["prop"]["id"], reason=n["reason"]) for n in NA],
           notes="Every check rebuilds the world it needs from /repo's working tree; see DESIGN.md.")
for p in sorted(P.PROPS.values(), key=lambda p: p["id"]):
    man["checks"].append(dict(
        property=p["id"], quick_cmd="python3 dst/check.py %s --tier quick" % p["id"],
        thorough_cmd="python3 dst/check.py %s --tier thorough" % p["id"],
        technique="deterministic simulation with fault injection (seeded search, exact replay)",
        level="exploration", level_note=p["note"], evidence_file="evidence/%s.json" % p["id"]))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
