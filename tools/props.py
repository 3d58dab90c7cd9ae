#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  tools/props.py  rewrites both."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note=None, na=None, observe=None, hook=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, note=note, na=na, observe=observe, hook=hook, tech=tech))

exec(open(os.path.join(here, "tools", "props_data.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = p["hook"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": a}) + "\n")

TECH = "deterministic simulation with fault injection (seeded search, executable reference model)"
man = {"version": 1, "setup_cmd": "./setup.sh",
  "hooks": {"guard": "none in /repo: a standard-library overlay (go build -overlay, /verif/sim/overlay) compiled into the simulator binary only",
            "enable": "./build.sh builds /repo's working tree into .build/joesim with the overlay", "source_commits": []},
  "checks": [], "not_applicable": [],
  "notes": "fix: commits in /repo are listed in known-findings.txt. Replay a violation with ./replay FILE."}
for p in P:
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]}); continue
    man["checks"].append({"property": p["id"], "quick_cmd": "./check %s" % p["id"],
        "thorough_cmd": "./check %s -tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["tech"] or TECH, "level": "exploration", "level_note": p["note"]})
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(man["checks"]), "claimed")
