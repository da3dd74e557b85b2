#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties that have a check in the harness."""
import json, os, sys
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"C01":"property-based testing: generated operand pairs/triples against a reference polynomial model, plus algebraic laws",
"C02":"property-based testing: generated operand pairs against a reference polynomial model, plus inverse laws",
"C03":"property-based testing: generated operand pairs against a reference polynomial model, plus ring laws",
"C04":"property-based testing: generated bases and exponents against repeated model products",
"C05":"property-based testing: generated expressions against the model's formal derivative, plus calculus laws",
"C06":"property-based testing: generated substitutions against model composition, and evaluation afterwards",
"C07":"property-based testing: generated substitution maps (cycles, overlaps), repeated calls, against simultaneous model composition",
"C08":"property-based testing: raw generated expressions; value preservation, canonical form, idempotence, confluence",
"C09":"stateful property-based testing: operation histories with shared storage; deep snapshots of every live value",
"C10":"property-based testing: generated expressions and blocks against model indexing, transposition, stacking",
"C11":"property-based testing: generated expressions against model variables and degree",
"C12":"property-based testing: generated expressions and variable lists against model coefficients and reconstruction",
"C13":"property-based testing: generated comparisons and constraint lists against model sides, direction and order",
"C14":"property-based testing: generated constraints, factors and substitutions; zero-set comparison and point evaluation",
"C15":"property-based testing: generated linear constraints; returned matrices against model coefficients and point evaluation",
"C16":"property-based testing: generated constraint pairs; counterexample search and exact interval decision",
"C17":"stateful property-based testing: creation/registration histories over several environments against a model",
"C18":"property-based testing: generated ill-formed requests must be rejected; well-formedness predicate as reference",
"C19":"property-based testing: round trip of the printed form through an independent parser",
"C20":"property-based testing: generated values across representations (round trips and differential operations)",
"C21":"model-based property testing: generated operation chains interpreted in library and model side by side",
"C23":"concurrent property-based testing: generated operations on shared values in several goroutines under the race detector, compared with the same calls made alone",
"C24":"stateful property-based testing: generated operations repeated, reordered, interleaved with near-equal ones and run in a fresh process; results compared",
"C25":"property-based testing: generated rejected requests; the data and text of the typed error compared with the request",
"C26":"property-based testing: generated operands and caller-written matrix types for the exported templates against the reference model",
"C22":"property-based testing: generated slices, lists and polynomials against naive specifications",
}
NOTE=("Random exploration with a fixed seed: no violation among the generated cases, nothing more. Trusts the reference model in "
"harness/model.go, which reads only the exported data fields of the library's types. Domain: finite coefficients, variables "
"identified by distinct ids, sizes and degrees as bounded in DESIGN.md; floating-point results compared with relative tolerance 1e-9.")
built=sys.argv[1:]
props=[json.loads(l)["id"] for l in open(os.path.join(ROOT,"properties.jsonl"))]
m={"version":1,"setup_cmd":"./setup","checks":[],"not_applicable":[]}
for p in props:
    if p in built:
        m["checks"].append({"property":p,"quick_cmd":f"./check {p} quick","thorough_cmd":f"./check {p} thorough",
          "evidence_file":f"evidence/{p}.json","technique":T[p],"level":"exploration","level_note":NOTE})
    else:
        m["not_applicable"].append({"property":p,"reason":"check not built yet"})
m["notes"]="No hooks in /repo: the checks use the public API only. KNOWN_FINDINGS.json lists the defects repaired by fix: commits and any recorded ones."
json.dump(m,open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1); open(os.path.join(ROOT,"MANIFEST.json"),"a").write("\n")
