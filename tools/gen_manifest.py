#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check sources present (harness/src/bin)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {  # the deciding method, per property
 "F01": "property-based testing against big-integer arithmetic",
 "F02": "property-based round-trip and differential testing against big integers",
 "F03": "property-based testing of defining equations",
 "C01": "property-based testing against a chord-and-tangent reference model",
 "C02": "property-based testing against a double-and-add reference model and metamorphic relations",
 "C03": "property-based testing against a reference sum over points of known logarithm",
 "C04": "property-based testing against a reference group sum",
 "C05": "property-based testing against the published definition of the companion scalar",
 "C06": "property-based testing against an independent try-and-increment model",
 "P01": "property-based testing against Horner evaluation; round trips",
 "P02": "property-based testing against schoolbook polynomials",
 "P03": "property-based testing of the division identity against pencil-and-paper division",
 "S01": "property-based round trips; mutation of encodings judged by a reference decoder",
 "S02": "property-based round trips of generated proofs and keys; byte-mutation fuzzing judged by the verifier",
 "H01": "property-based testing against an independent big-integer Rescue",
 "T01": "stateful (history-based) property testing: metamorphic relations over transcripts",
 "T02": "stateful differential testing of generated histories, in circuit against native",
 "T03": "metamorphic property testing: message mutation against recomputed challenges",
 "G01": "property-based testing against a reference gate semantics, with cell mutation",
 "G02": "property-based testing of selection and degree (finite differences) over generated rows and circuits",
 "G03": "property-based differential testing, in circuit against native evaluation",
 "K01": "property-based testing of generated circuits against direct field evaluation",
 "K02": "property-based testing of generated circuits against boolean semantics, with adversarial witnesses",
 "K03": "property-based testing of curve circuits against the reference group law",
 "K04": "property-based testing of integer circuits against big-integer arithmetic",
 "W01": "property-based testing against a union-find model of the copies",
 "B01": "differential and metamorphic property testing of builds, against a reference commitment",
 "Z01": "property-based testing: generated circuits proved and verified in every configuration",
 "Z02": "metamorphic property testing: altered inputs, keys and circuits must be rejected",
 "Z03": "mutation-based property testing of proofs, including algebraically crafted forgeries",
 "Z04": "fault injection into witnesses: generated corruptions must never be accepted",
 "Z05": "stateful property testing of accumulation chains against a genuineness model",
 "Z06": "property-based testing of completeness and mutation-based testing of binding",
 "Z07": "property-based testing against a reference Pedersen commitment",
 "Z08": "structure-aware fuzzing of proofs against a no-panic oracle",
 "R01": "property-based differential testing of recursion circuits against the native transcript and identity",
 "L01": "property-based testing: generated tables and lookups proved and verified",
 "L02": "mutation-based property testing of lookup proofs; false lookups",
 "L03": "property-based testing against a reference table model",
}
NOTE = {"R01": "Held on every generated case. Public inputs and openings are compared with independently computed values as the circuit's own generators and copies produce them; the pending identity is read off the constraints. The circuit's inner-product argument is unfinished upstream (dummy commitments) and not claimed."}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness/src/bin/%s.rs" % i.lower())):
        checks.append({
            "property": i,
            "quick_cmd": "./run.sh %s" % i,
            "thorough_cmd": "./run.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": T[i],
            "level": "exploration",
            "level_note": NOTE.get(i, "Held on every generated case; the oracle is independent of the code under test, and the evidence states the number of cases, of non-trivial ones and their classes. Nothing is claimed beyond what was generated. Trusts the harness's models (refs.rs), num-bigint and the compiler."),
        })
    else:
        na.append({"property": i, "reason": "The technique applies; the check is not written yet."})
m = {
 "version": 1,
 "setup_cmd": "./run.sh build",
 "checks": checks,
 "not_applicable": na,
 "notes": "See DESIGN.md. known_findings.txt lists repaired defects (fixed:) and recorded ones (known:).",
}
hook = os.path.join(V, "hooks.json")
if os.path.exists(hook):
    m["hooks"] = json.load(open(hook))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
