#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "property-based testing: generated type definitions compiled with serde and schemars; every serialized value is validated against the serialize schema",
 "C02": "property-based testing: generated type definitions compiled with serde and schemars; differential between serde_json's deserialization and the deserialize schema on mutated documents",
 "C03": "property-based testing: generated type definitions compiled with serde and schemars; single structural faults planted in documents, serde_json as the oracle",
 "C10": "property-based testing: generated schemas, visit-count and order invariant against an independent subschema list",
 "C11": "property-based testing: differential against reference models plus metamorphic meaning check with an independent JSON Schema evaluator",
 "C04": "property-based testing: generated type graphs x stock settings, invariant over the produced schema plus meta-schema validation",
 "C05": "property-based testing: differential between the four dialects' schemas on generated type graphs and documents",
 "C06": "property-based testing: generated type graphs, names and definitions paths; every reference resolved by an independent JSON-pointer reader",
 "C07": "model-based stateful property testing: generated histories of generator operations against a reference model of name assignment",
 "C08": "property-based testing: metamorphic relation between inlined and referenced schemas on generated type graphs and documents",
 "C09": "stateful property testing: generated histories and production routes compared against a fresh generator, with recording transforms",
 "C12": "property-based testing: generated values over the serde data model; the inferred schema is evaluated on the value's own JSON",
 "C19": "property-based testing: generated compositions of the built-in types compiled and run; differential against serde and an independent model of each JSON form, on values and mutated documents",
 "C14": "property-based testing: metamorphic relation between generated definitions and the same definitions with types swapped for transparently equivalent ones",
 "C15": "property-based testing: metamorphic relation between generated definitions and the same definitions with attributes respelled (serde/schemars, split, reordered, overridden, unset, doc forms)",
 "C16": "property-based testing: generated types with validation attributes in schemars, validator and garde syntax; each field's schema against a direct evaluation of the stated constraints, on generated values near the bounds",
 "C17": "property-based testing: generated types with and without metadata attributes and doc comments; a reference model applies the metadata to the plain schema and must give the decorated one exactly",
 "C21": "property-based testing: generated generic type definitions in hostile surroundings, compiled and instantiated; differential against hand-monomorphised copies, and a model of which instances must share ids, names and definitions",
 "C18": "property-based testing: generated items with valid attribute lists and single-fault mutations of them, compiled; the compiler's diagnostics per item are the observation",
 "C20": "property-based testing: differential between builds of the same generated types under generated feature sets, plus an order model from declarations and serde's output",
 "C13": "model-based stateful property testing: operation histories on a Schema against a plain JSON value, and round trips through every conversion",
}
NOTE = {
 "C01": "Explores generated type definitions (280 modules per quick run) and values only; trusts serde's derive and serde_json as the definition of the JSON form.",
 "C02": "Explores generated type definitions and documents only; documents serde reads outside the documented representation are excluded (DESIGN.md lists them).",
 "C03": "Explores generated type definitions and single faults only; faults that JSON Schema cannot express or schemars documents as unchecked are excluded (DESIGN.md).",
 "C10": "Explores generated schemas only; trusts the harness's own list of schema-valued keywords.",
 "C11": "Explores generated schemas and documents only; trusts the harness's evaluator and one-page reference models of each transform.",
 "C04": "Explores generated types and graphs only; trusts the harness's per-dialect keyword lists and the jsonschema crate's meta-schema validation.",
 "C05": "Explores generated types and documents only; a disagreement counts when the jsonschema crate confirms the harness's evaluator.",
 "C06": "Explores generated graphs of up to 12 types only.",
 "C07": "Explores generated histories only; trusts the harness's name-assignment model and per-type marks.",
 "C08": "Explores generated types and documents only.",
 "C09": "Explores generated histories only.",
 "C12": "Explores generated values only; trusts serde_json's own output as the value's JSON.",
 "C19": "Explores generated compositions, values and single-point mutations only; trusts serde_json and, for wrong documents, only those serde also rejects.",
 "C14": "Explores generated definitions and rewrites only; equality is structural up to definition names, or by documents where plain newtypes or NonZero occur.",
 "C15": "Explores generated definitions and respellings only; schemas are compared exactly.",
 "C16": "Explores generated types, attributes and values only; formats are compared as keywords, not evaluated.",
 "C17": "Explores generated items and metadata only; items are located by variant name, property name or position; /** */ comments of several lines are not generated.",
 "C21": "Explores generated definitions, instances and surroundings only; a definition that fails to compile is a violation.",
 "C18": "Explores generated items and single faults only; trusts rustc's diagnostics for places, and the harness's table of which faults are faults.",
 "C20": "Explores generated types and seven feature sets per run only; the no-std build covers the modules that need no std type.",
 "C13": "Explores generated values and histories only; trusts serde_json's Value.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks = [{"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"env VERIF_TIER=thorough ./run.sh {p}", "technique": T[p], "level": "exploration", "level_note": NOTE[p]} for p in props if p in T]
na = [{"property": p, "reason": "check not built yet"} for p in props if p not in T]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check uses only the public API. VERIF_TIER selects quick or thorough; ./run.sh --replay FILE re-runs a saved failure."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
