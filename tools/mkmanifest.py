#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "property-based testing: round trip against a reference wire encoder, generated and swept transactions",
 "C02": "structure-aware fuzzing (every truncation, grafted counts and lengths, byte edits) against a reference parser",
 "C03": "property-based testing against a reference id and sums",
 "C04": "property-based testing: differential against a reference implementation of the digest specification",
 "C05": "property-based testing with metamorphic mutations, judged by an independent script interpreter",
 "C06": "model-based testing of signing histories, judged by an independent script interpreter",
 "C07": "property-based testing: round trip and differential against a reference push encoder",
 "C08": "structure-aware fuzzing: differential against a reference tokeniser",
 "C09": "property-based testing: round trip and reference assembler; exhaustive opcode table",
 "C10": "property-based testing and exhaustive near-miss enumeration against reference templates",
 "C11": "property-based testing: metamorphic agreement of all constructors with a reference script",
 "C12": "property-based testing: reference Base58Check, exhaustive single edits of addresses",
 "C13": "property-based testing: reference validator, exhaustive single edits, differential with the parser",
 "C14": "property-based testing: round trip, reference decoder, exhaustive single-character damage",
 "C15": "property-based testing: reference scripts and decode-back through the wire form",
 "C16": "stateful model-based testing against a reference BIP32 derivation and script model",
 "C17": "structure-aware fuzzing: reference Electrum parser and metamorphic equivalence with adding keys one by one",
 "C18": "property-based testing: reference merkle tree and metamorphic coinbase replacement, every tree size in range",
 "C19": "property-based testing: reference merkle tree, every position, generated tampering",
 "C20": "property-based testing: reference layout and an independent header parser",
 "C21": "property-based testing: independent parse of assembled coinbases against a field model",
 "C22": "property-based testing: exact big-integer and rational oracle, sweep over all exponents",
 "C23": "property-based testing: exact big-rational oracle and display model",
 "C24": "property-based testing: reference compact-size codec, sweeps around every boundary",
 "C25": "property-based testing: differential against independently written SHA-256 and RIPEMD-160, every length in range",
 "C26": "property-based testing: round trip, reference CFB, damage injection",
 "C27": "stateful testing of call histories with invariants over all data handed in and out",
 "C28": "concurrent histories under the race detector, compared with sequential execution",
 "C29": "property-based testing of algebraic laws against reference functions",
 "C30": "stateful model-based testing of building histories",
 "C31": "stateful model-based testing of edits with memory-independence invariants",
 "C32": "property-based testing against a reference encoding",
 "C33": "property-based testing over growing inputs with bounds on processor time and allocation",
 "C34": "long generated call histories with invariants over live memory, goroutines, descriptors and output",
}
NOTE = {
 "C05": "Trusts bsvd's script interpreter and curve arithmetic.",
 "C06": "Trusts bsvd's script interpreter and curve arithmetic.",
 "C16": "Trusts bsvd's curve arithmetic; the derivation itself is re-implemented.",
 "C17": "Trusts bsvd's curve arithmetic; the derivation itself is re-implemented.",
 "C28": "Finds data races on the schedules that occur, with Go's race detector.",
 "C26": "Trusts Go's crypto/aes.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [{
  "property": i,
  "quick_cmd": "./check.sh " + i,
  "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
  "evidence_file": "evidence/%s.json" % i,
  "technique": TECH[i],
  "level": "exploration",
  "level_note": ("Held on every case generated (counts in the evidence file); a search, not a proof. The oracle is written independently of libsv. " + NOTE.get(i, "")).strip(),
 } for i in ids],
 "not_applicable": [],
 "notes": "No hooks: the checks use libsv's exported interface only. ./check.sh ID runs one check, ./check.sh replay FILE re-runs a saved case. VERIF_SEED and VERIF_TIER are honoured.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
