#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines() if l.strip()]

TECH = {
    "C01": "property-based testing against a reference model of the token endpoint (proptest, near-miss generators)",
    "C02": "property-based testing against a reference model of the PIN rules",
    "C03": "property-based testing against a reference model; stated refusal reasons checked against the input",
    "C04": "property-based testing against a reference model of offer creation",
    "C05": "property-based testing against a reference resolver",
    "C06": "property-based round trip through an independent URL parser",
    "C07": "property-based testing with a key-id grammar and an independent DID parser",
    "C08": "property-based testing over a virtual clock against a nonce model",
    "C09": "property-based testing with near-miss audiences and issuers against a reference model",
    "C10": "property-based testing of proof types, header types and algorithms against a reference table",
    "C11": "property-based testing over a virtual clock against a validity-window model",
    "C12": "property-based testing against an independent key extraction from the DID document",
    "C13": "property-based round trip: recovered bytes against the bytes that were encoded, and real Ed25519-style equality",
    "C14": "property-based testing against a reference acceptance condition; stated refusal reasons checked against the input",
    "C15": "property-based round trip of the wire form",
    "C16": "property-based testing of the wire form under a virtual clock",
    "C17": "property-based testing of the wire form against the registered error codes",
    "C18": "property-based testing of error reports against a table of documented codes",
    "C19": "property-based round trip and mutation of JSON documents against a reference schema",
    "C20": "property-based round trip and mutation of compact proofs against a reference decoder",
    "C21": "structured fuzzing of every entry point in child processes",
    "C22": "stateful property-based testing: histories over several sessions against fresh-process, reordered and concurrent runs",
    "C23": "stateful property-based testing of the whole flow with single tampering",
    "C24": "property-based round-trip and metamorphic testing (stored and re-read values against the originals)",
    "C25": "property-based testing against a reference table of validation rules, and differential testing of validation against the calls",
}
TECH["C13"] = "property-based round trip: the recovered message and signature against the bytes that were encoded"
NOTE = "Held on every generated case of the run (counts, labels and samples in the evidence file); no claim beyond the generated cases. "
LN = {}
DEFAULT = "Trusts the harness's own encoders and reference model, and proptest's generators."
CLOCK = "Trusts the harness's own encoders, reference model and the virtual clock (checked at start-up)."
for p in ("C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C21", "C22", "C23", "C24", "C25"):
    LN[p] = CLOCK
KNOWN = {}
for l in (root / "known_findings.txt").read_text().splitlines():
    if l.startswith("known: "):
        _, i, p, rest = l.split(" ", 3)
        KNOWN.setdefault(p.removeprefix("property="), []).append(i.removeprefix("id="))
NOT = {}
built = set((root / "tools/built.txt").read_text().split()) if (root / "tools/built.txt").exists() else {p["id"] for p in props}
checks = []
for p in props:
    i = p["id"]
    if i in NOT or i not in built:
        continue
    note = NOTE + LN.get(i, DEFAULT)
    if i in KNOWN:
        note += " Known findings excepted by exact signature: " + ", ".join(KNOWN[i]) + "."
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "technique": TECH[i], "level": "exploration", "level_note": note})
na = [{"property": p["id"], "reason": NOT.get(p["id"], "the check is not built yet")} for p in props
      if p["id"] not in {c["property"] for c in checks}]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use the public API of the crate and replace the wall clock at link time."}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
