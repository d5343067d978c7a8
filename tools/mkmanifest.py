#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
trace = ("TLA+ specification checked exhaustively with TLC; every transition of its state graph and seeded random "
         "histories replayed on the real code; recorded executions validated by TLC with the property as invariant")
defs = ("TLA+ specification of the seal definition interface; its whole (boundary and seeded) domain enumerated by TLC, "
        "called on the real code, and the recorded results validated by TLC")
notes = {
    "C15": "Each recorded stream is repeated with all blocks cloned / strict-encoded / JSON-encoded and compared. CBOR is not covered: dependencies cannot read back what they write.",
    "C16": "Each recorded evaluation is repeated alone in a fresh process; ledgers of several clients with different delivery orders are compared and must equal the canonical function of the accepted operations.",
    "C05": "One known finding (a foreign genesis under the same codex is accepted), reported and let pass; see known-findings.txt.",
    "C20": "The model has a ledger of witnesses with reorganisations around several clients (MCWorld.tla). One known finding (one published witness, two protocols), reported and let pass; see known-findings.txt.",
}
m = dict(version=1, setup_cmd="cd harness && cargo build --release --offline --locked",
         checks=[], not_applicable=[dict(property="C19", reason="A cryptographic hardness claim about computationally bounded adversaries: no state machine decides it. C14 covers what the code contributes (the token is the specified truncation of a commitment to the whole definition).")],
         notes="TLA+ / TLC. See DESIGN.md. No hooks in /repo are needed: the public API exposes the whole abstract state.")
for p in props:
    i = p["id"]
    if i == "C19":
        continue
    m["checks"].append(dict(
        property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
        technique=defs if i in ("C13", "C14") else trace, level="model_checking",
        level_note=("Exhaustive on the model within the catalogue's bounds; on the code, every observed execution (all model transitions within the bounds, plus random histories). "
                    "Trusts the harness' abstraction of concrete blocks and the pinned dependencies. " + notes.get(i, "")).strip()))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
