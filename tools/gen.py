import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, checks, na = [], [], []
DONE = set(open(root + "/tools/done.txt").read().split())
for p in P:
    if p["claimed"] and p["id"] not in DONE: continue
    out.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
        anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None)), ensure_ascii=False))
    assert len(p["title"]) <= 80, p["title"]
    if p["claimed"]:
        checks.append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
            technique=p["technique"], level="other", level_note=p["note"] + " Trusted: the analyzer (abstract semantics, library models) and the assumptions listed in DESIGN.md."))
    else:
        na.append(dict(property=p["id"], reason=p["reason"]))
open(root + "/properties.jsonl", "w").write("\n".join(out) + "\n")
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="All checks are static: analyzer/ is an abstract interpreter over go/ssa, rebuilt from source and run on /repo's working tree each time."), open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
go = "package main\n\n// generated by tools/gen.py\n\nvar explain = map[string]string{\n"
for p in P:
    if p["claimed"]: go += "\t%s: %s,\n" % (json.dumps(p["id"]), json.dumps(p["technique"] + ". " + p["note"], ensure_ascii=False))
open(root + "/analyzer/explain.go", "w").write(go + "}\n")
