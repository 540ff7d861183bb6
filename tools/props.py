#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, text, why, files, mech, note="", over=("inputs",), claimed=True, reason="", observe=(), state=(), level="proof"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
                  _claimed=claimed, _note=note, _reason=reason, _level=level))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

TRUST = ("Proof over the LLVM IR that clang 18 -O1 generates from /repo's current sources on every run; trusts clang, the VC generator in vcgen/ "
         "(IR semantics, memory model, models of the C/C++ runtime), z3 and cvc5. ")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks = []
for p in P:
    if not p["_claimed"]:
        NA.append(dict(property=p["id"], reason=p["_reason"]))
        continue
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"python3-vt vcgen/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3-vt vcgen/check.py {i}",
                       evidence_file=f"evidence/{i}.json", technique="contracts on the real functions; VC generation over their LLVM IR, SMT (z3/cvc5)",
                       level=p["_level"], level_note=TRUST + p["_note"]))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3' && clang++-18 --version >/dev/null", checks=checks, not_applicable=NA),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed,", len(NA), "not applicable")
