#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and checks.json: run `python3 meta.py` after editing."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []

def prop(id, title, statement, over, quant, why, files, mech, level, note, functions, assumptions=(), trusted=(), technique="",
         explanation="", observe=(), **cfg):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, level=level,
                  note=note, functions=functions, assumptions=list(assumptions), trusted=list(trusted), technique=technique,
                  explanation=explanation, observe=list(observe), cfg=cfg))

STUB = dict(kani_z=["-Z", "stubbing"])
DED = "contracts discharged by a deductive verifier (Kani/CBMC, SAT+SMT back ends) on the compiled functions of /repo"
exec(open(f"{H}/meta_props.py").read())

with open(f"{H}/properties.jsonl", "w") as f:
    for p in P + NA:
        if "reason" in p and "statement" not in p:
            continue
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
json.dump({
    "version": 1, "setup_cmd": "bash setup.sh",
    "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick",
                "thorough_cmd": f"python3 run.py {p['id']} thorough",
                "technique": p["technique"] or DED, "level": p["level"], "level_note": p["note"]} for p in P],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "No hooks: every contract is stated on public items of /repo. Repairs of genuine defects are the fix: commits listed in known-findings.txt."},
    open(f"{H}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
json.dump({p["id"]: dict(p["cfg"], functions=p["functions"], assumptions=p["assumptions"], trusted=p["trusted"], level=p["level"],
                         explanation=p["explanation"]) for p in P}, open(f"{H}/checks.json", "w"), indent=1, ensure_ascii=False)
print(len(P), "claimed,", len(NA), "not applicable")
