#!/usr/bin/env python3
"""MANIFEST.json from checks.json and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
C = json.load(open(H + "/checks.json"))
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = C.pop("_not_applicable", {})
checks = []
for i in ids:
    if i in C:
        c = C[i]
        checks.append(dict(property=i, quick_cmd="python3-vt run.py check %s --tier quick" % i, thorough_cmd="python3-vt run.py check %s --tier thorough" % i,
                           technique=c.get("technique", "contract-based deductive verification of the real code (VC generation over its LLVM IR, SMT back ends)"),
                           level=c.get("level", "proof"), level_note=c["note"]))
na = [dict(property=i, reason=NA.get(i, "no check built yet")) for i in ids if i not in C]
json.dump(dict(version=1, setup_cmd="python3-vt run.py setup", checks=checks, not_applicable=na,
               notes="The verifier is /verif/engine; contracts are in /verif/contracts; /verif/harness holds the translation unit and native replay drivers. No hooks in /repo."),
          open(H + "/MANIFEST.json", "w"), indent=1)
