#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run it to regenerate both."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext,
                  why=why, files=files, mech=mech, tech=tech, note=note, observe=list(observe)))


exec(open(os.path.join(HERE, "tools", "properties.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"],
                              mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              hook_needed=None))
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

manifest = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=[dict(property=p["id"],
                 quick_cmd="bash run.sh %s quick" % p["id"],
                 thorough_cmd="bash run.sh %s thorough" % p["id"],
                 technique=p["tech"], level="exploration", level_note=p["note"]) for p in P],
    not_applicable=[],
    notes="No hooks in /repo: every check drives the public API. 'bash run.sh --replay FILE' replays a violation. See DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties")
