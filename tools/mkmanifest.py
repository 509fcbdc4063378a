#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(root + "/checks.json"))
na = json.load(open(root + "/tools/not_applicable.json"))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    c = checks.get(p["id"])
    if c:
        lvl = c.get("level") or "proof"
        note = c.get("level_note") or ("All obligations of the listed functions are discharged for all inputs. " if lvl == "proof" else "")
        if c.get("bounded"):
            note += " Bounded stand-in (concrete runs of the real code, not proved): " + "; ".join(c["bounded"]) + "."
        if c.get("unverified"):
            note += " Outside the proof: " + "; ".join(c["unverified"]) + "."
        note += " Trusts govc, go/ssa, the solvers, and the extern contracts listed in the evidence."
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": "contract-based deductive verification (govc over go/ssa, z3/cvc5)" + (" with a labelled bounded stand-in" if c.get("bounded") else ""),
            "level": lvl, "level_note": note.strip()})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": na.get(p["id"], "check not built yet")})
m["notes"] = "Contracts: /verif/contracts. Verifier: /verif/govc (built from source by every check). Findings: /verif/known_findings.json."
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
