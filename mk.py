#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from propdefs.py and props.py."""
import json, os
from propdefs import DEFS, NA, NOTES
from props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in DEFS:
        f.write(json.dumps(dict(id=d["id"], title=d["title"], statement=d["statement"], quantifier=d["quantifier"], why_tests_cant=d["why"], anchors=d["anchors"])) + "\n")
checks = []
for d in DEFS:
    p = d["id"]
    if p not in PROPS: continue
    checks.append(dict(property=p, quick_cmd="python3-vt check.py %s --tier quick" % p, thorough_cmd="python3-vt check.py %s --tier thorough" % p,
        evidence_file="evidence/%s.json" % p, technique=d.get("technique", "contract-based deductive verification of the compiled C++ (function contracts over LLVM IR, verification conditions discharged by z3/cvc5)"),
        level=PROPS[p].get("level", "proof"), level_note=d["note"]))
m = dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()], notes=NOTES)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
ids = {d["id"] for d in DEFS}
assert set(PROPS) | set(NA) == ids and not (set(PROPS) & set(NA)), (set(PROPS), set(NA), ids)
