#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))
import props                        # noqa: E402
from registry import CHECKS         # noqa: E402

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in sorted(props.PROPS + props.NA, key=lambda p: p["id"]):
        for fn in p["files"]:
            assert os.path.exists(os.path.join("/repo", fn)), (p["id"], fn)
        for _, w in p["mech"]:
            assert os.path.exists(os.path.join("/repo", w)), (p["id"], w)
        a = {"files": list(dict.fromkeys(p["files"])), "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p.get("state"):
            a["state"] = [{"name": n, "meaning": w} for n, w in p["state"]]
        if p.get("observe"):
            a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
claimed = {p["id"] for p in props.PROPS}
assert claimed == set(CHECKS), claimed ^ set(CHECKS)
man = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
               for p in sorted(props.PROPS, key=lambda p: p["id"])],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in sorted(props.NA, key=lambda p: p["id"])],
    "notes": "Every check compiles what it needs from /repo's working tree into a temporary directory and decides from "
             "the IR, the object code or the compiler's verdict; nothing of milo is executed. Repairs made to /repo and "
             "recorded findings: known_findings.txt.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")

# DESIGN.md: the tables between the markers
def table():
    out = {"PROPS": "", "NA": "", "FIXES": "", "SEEDS": ""}
    for p in sorted(props.PROPS, key=lambda p: p["id"]):
        out["PROPS"] += "### %s %s\n\n%s\n\n*Decided by* %s. %s\n\n*Reaches what the tests cannot:* %s. Quantifier: %s.\n\n" % (
            p["id"], p["title"], p["statement"], p["technique"], p["note"], p["why"], p["text"])
    for p in sorted(props.NA, key=lambda p: p["id"]):
        out["NA"] += "* **%s %s** %s\n" % (p["id"], p["title"], p["reason"])
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        if line.startswith(("fixed:", "known:")):
            out["FIXES"] += "* " + line.strip().replace("property=", "") + "\n"
    res = {}
    rp = os.path.join(VERIF, "meta", "seed_results.json")
    if os.path.exists(rp):
        res = json.load(open(rp))
    out["SEEDS"] += "| id | property | caught by | breaks |\n|---|---|---|---|\n"
    d = os.path.join(VERIF, "seeded")
    for i in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, i, "meta.json")))
        out["SEEDS"] += "| %s | %s | %s | %s; needs %s |\n" % (i, m["property"], res.get(i, "?"), m["what_it_breaks"], m["needs"])
    return out


src = open(os.path.join(HERE, "design.in.md")).read()
for k, v in table().items():
    src = src.replace("@%s@" % k, v.strip() or "None.")
open(os.path.join(VERIF, "DESIGN.md"), "w").write(src)
