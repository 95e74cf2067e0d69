#!/usr/bin/env python3
"""writes MANIFEST.json from checks.json, properties.jsonl and tools/na.json"""
import json
V = "/verif"
cfg = json.load(open(V + "/checks.json"))
na = json.load(open(V + "/tools/na.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
tech = "contract-based deductive verification: Verus contracts, loop invariants and lemmas on functions extracted mechanically from /repo's source on every run"
checks = []
for p in props:
    if p in cfg:
        c = cfg[p]
        checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p}",
            technique=tech + c.get("technique_extra", ""), level=c.get("level", "proof"),
            level_note=c.get("note", "Every obligation of the functions named in the evidence is discharged by Verus/Z3 for all inputs. ") + " Trusted: Verus, Z3, rustc, the extraction rules in DESIGN.md section 3, and the items listed as trusted_base in the evidence. A bounded search of the compiled code runs beside the proof to supply failing inputs; it is never counted as proof."))
man = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
    not_applicable=[dict(property=p, reason=na.get(p, "no contract proof has been completed for this property yet")) for p in props if p not in cfg],
    notes="No hooks: the extraction reads private items directly. Fix commits in /repo are listed in known_findings.txt.")
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in man["not_applicable"]])
