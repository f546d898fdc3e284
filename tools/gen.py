"""Write properties.jsonl and MANIFEST.json from props.py."""

import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props  # noqa: E402

V = os.path.dirname(HERE)
na = dict(props.NA)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(props.P, key=lambda p: p["id"]):
        anchors = dict(files=p["files"], mechanism=p["mech"])
        if p["state"]:
            anchors["state"] = p["state"]
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=anchors)) + "\n")
checks = []
for p in sorted(props.P, key=lambda p: p["id"]):
    if p["id"] in na:
        continue
    assert os.path.exists(os.path.join(V, "harness", p["id"].lower() + ".py")), p["id"]
    checks.append(dict(
        property=p["id"],
        quick_cmd="python3-vt check.py --property %s --tier quick" % p["id"],
        thorough_cmd="python3-vt check.py --property %s --tier thorough" % p["id"],
        technique="symbolic execution of the edk2toollib source (AST-instrumented), claims decided by z3 per path class, counterexamples replayed on the unmodified code",
        level="model_checking",
        level_note="Bounded: " + p["note"] + ". Bounds per case are in the evidence file.",
    ))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, sys; sys.path.insert(0, \".\"); import sx.engine'", checks=checks,
         not_applicable=[dict(property=k, reason=r) for k, r in sorted(na.items())],
         notes="No hooks in /repo: the checks instrument the source they read from /repo/edk2toollib at import time.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
