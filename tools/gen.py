"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: verification conditions generated from the Clang AST of /repo's current sources, discharged function by function by z3 (cvc5 as fallback)"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, level="proof", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level, state=state))


NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=None, level=None, state=None))
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
           "technique": TECH, "level": p["level"], "level_note": p["note"]} for p in P if p["level"]]
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": NA}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
