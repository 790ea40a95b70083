#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after adding a property)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, lib

NOTES = {
    "C34": "Calls, literals and images of numbers are executed by Miri for machines of 32 and 64 bits and both orders of bytes; outcomes are judged by the specification, and undefined behaviour is reported. Miri's execution is trusted; unsettled rules of aliasing are not checked.",
    "C19": "Which bounds every type meets is read from the compiler's diagnostics; sizes, alignments and bytes are measured on the library. Judged by Quint's own evaluator throughout.",
    "C33": "Uses of the macros are compiled and run in scopes that contain items of other names, among them every name that the library's source uses; verdicts and outcomes are judged by Quint's own evaluator.",
    "C22": "Literals are compiled and run against the library; which ones are refused is read from the compiler's diagnostics. Judged by Quint's own evaluator throughout.",
    "C25": "The same calls on five builds of the library, each judged by the specification, and their outcomes compared job by job.",
    "C28": "The Quint state machine is simulated; its traces are replayed on the library with the whole state compared after every step, and histories recorded from the library, also from concurrent threads, are checked to be behaviours of the machine.",
    "C31": "Some nine thousand one-line functions are compiled against the library; which ones are refused is read from the compiler's diagnostics. Judged by Quint's own evaluator throughout.",
    "C29": "Schemas and values are also put through a JSON schema validator; schema, value and verdict are judged by Quint.",
    "C32": "The library is compiled with many choices of features (thorough: all 512) together with declarations that use what it should offer.",
    "C30": "The bank's invariant is proved inductive by Apalache for all amounts of 64 and 128 bits; behaviours of the ledger, which keeps the bank by calls of the library, are replayed on the library.",
}
DEFAULT = ("Conformance of recorded calls of the library to the acceptance relation of the Quint specification; exhaustive for 16-bit operands where a call has one or two of them in a byte's range, "
           "boundary-directed and random beyond. Trusts the specification, and the translation of it to Rust as far as it is not compared with Quint's evaluator in the run.")
ids = [json.loads(l)["id"] for l in open(os.path.join(lib.VERIF, "properties.jsonl"))]
claimed = [i for i in ids if i in checks.PLANS or hasattr(checks, "decide_" + i)]
LEFT = {}
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "Quint specification; " + checks.TECHNIQUE.get(i, "trace conformance of generated calls to its acceptance relation"),
        "level": "exploration",
        "level_note": NOTES.get(i, DEFAULT),
    } for i in claimed],
    "not_applicable": [{"property": i, "reason": LEFT.get(i, "no machinery yet")} for i in ids if i not in claimed],
    "notes": "No hooks: everything is observable through the public API. Repairs of genuine defects are the commits of /repo that start with fix:, listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(lib.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed;", [x["property"] for x in m["not_applicable"]])
