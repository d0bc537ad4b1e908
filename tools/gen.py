#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json, harness/props.json from meta.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import meta
root = os.path.dirname(here)
NA = getattr(meta, "NA", [])
with open(root + "/properties.jsonl", "w") as f:
    for p in meta.P + NA:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]
json.dump([{"property": p["id"], "areas": p["areas"], "match": p["match"], "bounds": p["bounds"], "assumptions": p["assume"], "outside": p["outside"]} for p in meta.P],
          open(root + "/harness/props.json", "w"), indent=1, ensure_ascii=False)
m = {"version": 1, "setup_cmd": "./build.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "bounded symbolic execution of the real code's Go SSA, SMT solvers (z3, cvc5) decide every assertion",
        "level": p["level"], "level_note": p["note"] or ("Holds for all values within: " + p["bounds"] + ". Outside: " + p["outside"] + ".")} for p in meta.P],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(meta.P), "properties")
with open(root + "/DESIGN.md", "w") as f:
    f.write(open(root + "/DESIGN.head.md").read())
    f.write("## Properties\n\nFor every property: the harnesses (functions of `harness/<area>` whose name matches) drive only exported API of the\n"
            "real code; the oracle is the assertion in the harness, written from the statement. All inputs named are symbolic, so the verdict covers\n"
            "every value within the bound, which is what sampling tests cannot do.\n\n")
    for p in meta.P:
        f.write(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n- harnesses: {', '.join(p['areas'])} `{p['match']}`\n- quantifier: {p['text']}\n"
                f"- bounds: {p['bounds']}\n- assumptions: {'; '.join(p['assume'])}\n- outside: {p['outside']}\n- beyond tests because: {p['why']}\n\n")
    for p in NA:
        f.write(f"### {p['id']} {p['title']} (not applicable)\n\n{p['statement']}\n\nReason: {p['reason']}\n\n")
    if os.path.exists(root + "/DESIGN.tail.md"):
        f.write(open(root + "/DESIGN.tail.md").read())
