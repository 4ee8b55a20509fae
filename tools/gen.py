#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json from one table, so that they stay in step
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the type-checked SSA"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note))
NA = []
exec(open(os.path.join(here, "tools", "props_table.py")).read())
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"]}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "sh setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "sh run.sh %s quick" % p["id"],
                 "thorough_cmd": "sh run.sh %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in P if p["technique"]],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA]}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
