"""Rewrites properties.jsonl and MANIFEST.json from tools/props.py and the rule modules present."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
import props
checks, na, lines = [], [], []
for p in props.PROPS:
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]], "observe_at": list(p["observe"])}}))
    assert len(p["title"]) <= 80, p["title"]
    for f in p["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif os.path.exists(os.path.join(V, "sa/rules/%s.py" % p["id"].lower())):
        checks.append({"property": p["id"], "quick_cmd": "python3 sa/run.py " + p["id"],
                       "thorough_cmd": "python3 sa/run.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other",
                       "level_note": props.NOTE + (p["note"] or "")})
    else:
        print("no module for", p["id"])
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "bash extractor/build.sh && python3 sa/facts.py", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they read /repo's current sources through a clang libTooling extractor and decide the "
                    "obligations in sa/rules. No hooks in /repo."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
