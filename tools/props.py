#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks

L = "lib/libloong/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=list(observe), state=list(state)))


exec(open(os.path.join(HERE, "tools", "proplist.py")).read())

NA = []
exec(open(os.path.join(HERE, "tools", "not_applicable.py")).read())

ids = set()
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        if p["id"] not in checks.CHECKS and p["id"] not in [n[0] for n in NA]:
            continue
        assert p["id"] not in ids, p["id"]
        ids.add(p["id"])
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        d = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [dict(name=n, where=w) for n, w in p["mech"]]},
        }
        if p["state"]:
            d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        d["anchors"]["hook_needed"] = None
        f.write(json.dumps(d) + "\n")

man = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [],
    "not_applicable": [dict(property=i, reason=r) for i, r in NA],
    "notes": "Every check builds the library from /repo's working tree (VERIF_REPO overrides) and decides its property by generated-case search with shrinking; see DESIGN.md.",
}
byid = {p["id"]: p for p in P}
for cid in sorted(checks.CHECKS):
    p = byid[cid]
    man["checks"].append({
        "property": cid,
        "quick_cmd": "python3 run.py %s --tier quick" % cid,
        "thorough_cmd": "python3 run.py %s --tier thorough" % cid,
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    })
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
missing = [p["id"] for p in P if p["id"] not in ids]
print(len(ids), "properties,", len(man["checks"]), "checks; drafted only:", " ".join(missing))
try:
    import jsonschema
    S = "/root/.vp/"
    jsonschema.validate(man, json.load(open(S + "MANIFEST.schema.json")))
    sch = json.load(open(S + "PROPERTIES.schema.json"))
    for l in open(os.path.join(HERE, "properties.jsonl")):
        jsonschema.validate(json.loads(l), sch)
    print("schemas ok")
except ImportError:
    pass
