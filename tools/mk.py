#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CG = "crates/revmc-codegen/src/"
RT = "crates/revmc-runtime/src/"
DIFF_TECH = "differential runtime monitor: compiled code and interpreter in lock step over a recording host"
DIFF_NOTE = ("Held on every execution explored (counts in the evidence file). Trusts revm's interpreter as reference, "
             "the toolchain's LLVM, and a stand-in for the C++ glue of the LLVM crate.")
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, tech=DIFF_TECH, note=DIFF_NOTE,
         level="exploration"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                   why_tests_cant=why, anchors=a),
              dict(property=id, quick_cmd=f"bash run.sh check {id}", thorough_cmd=f"bash run.sh thorough {id}",
                   technique=tech, level=level, level_note=note)))

exec(open(os.path.join(HERE, "tools", "props.py")).read())

ids = [p["id"] for p, _ in P]
assert len(set(ids)) == len(ids)
for p, _ in P:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _ in P: f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "bash run.sh build", "checks": [c for _, c in P], "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks in /repo. Every check rebuilds the harness (and with it /repo's crates, feature llvm) from the "
              "working tree into /verif/target. Same run: VERIF_SEED. Replays: bash run.sh replay <file>."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(P), "properties")
