#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties with a check."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
src = "".join(open(os.path.join(V, "harness/zzverif", f)).read() for f in sorted(os.listdir(os.path.join(V, "harness/zzverif"))))
claimed = set(re.findall(r'reg\(\s*"(C\d\d)"', src)) | set(re.findall(r'//verif:claims (C\d\d)', src))
TECH = {
 "C01": "property-based testing: generated attacked federations, returned chains judged by an independent JWT verifier",
 "C02": "property-based testing against an independent reference resolver",
 "C03": "property-based testing against an independent constraint evaluator, both directions",
 "C04": "stateful property-based testing on a virtual clock, history invariants over served and cached statements",
 "C05": "stateful property-based testing, differential against a cold-cache resolution",
 "C06": "property-based testing against a reference policy evaluator",
 "C07": "property-based testing: algebraic laws of policy merging and a reference merge",
 "C08": "structure-aware mutation fuzzing of everything served, crash oracle",
 "C09": "property-based testing: metamorphic relations over unknown and critical policy operators",
 "C10": "property-based testing and mutation fuzzing against an independent JOSE verifier",
 "C11": "property-based testing: single-fault variations of an authorised trust mark against a reference predicate",
 "C12": "property-based testing: issue/decode round trip judged by an independent verifier",
 "C13": "property-based testing: generated federations with foreign trust marks against a reference attribution",
 "C14": "property-based testing against a reference walk, with generated delays and the race detector",
 "C15": "property-based testing against a reference claim extraction",
 "C16": "property-based testing: decode/encode round trip over generated documents",
 "C17": "property-based testing: codec round trips and an integer reference for time checks",
 "C18": "stateful property-based testing on a virtual clock against a model of the configuration and its trust marks",
 "C19": "property-based testing: generated authorization and token flows judged by an independent OP",
 "C20": "property-based testing against reference sort and filter predicates",
 "C21": "property-based testing: generated remote answers and faults, request and answer fidelity",
 "C22": "stateful model-based testing of both cache backends (in-process redis protocol server) on a virtual clock",
 "C24": "concurrency testing: generated concurrent questions and uses with generated delays, differential against separate use, race detector",
 "C25": "fault injection driven by generated histories: failing, losing and damaging cache backends, differential against no cache",
 "C26": "property-based testing: differential against the local resolver, and a generated scripted resolver as the oracle",
 "C23": "fault injection driven by generated histories: failing fetch, then recovery",
}
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": [], "not_applicable": [],
     "notes": "See DESIGN.md. Every check builds the harness with /repo's working tree through a build overlay."}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
            "level_note": "Generated-input search against an explicit oracle: no violation among the generated cases (counts in the "
                          "evidence file); not a proof. Trusts the harness' own JOSE code, mock network and reference models.",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed:", sorted(claimed))
