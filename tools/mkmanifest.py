#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules the analyser has."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C34": "Statistical and computational indistinguishability of the generator's output is a statement about the operating system's random source, not about this source text; the structural part (every byte comes from crypto/rand and nothing else) is C20.",
 "C35": "Running time is decided by the compiler, the hardware and by math/big and the curve library, whose variable-time code is outside the repository; no sound static argument over this source bounds it (and math/big makes the claim false in general).",
 "C36": "The primitives live in dependencies outside the repository; their correctness quantifies over 256-bit arithmetic and compression functions that no static rule in reach decides. They are modelled as trusted functions.",
}
NOTE = ("Decides the stated terms for all inputs by value numbering over gated SSA of the current source; an undecided obligation fails. "
        "Trusts go/types and go/ssa, the analyser's normaliser and loop summaries, and the models of standard-library, Base58 and secp256k1 functions. ")
out = subprocess.run([root + "/bin/bipscheck", "-list"], check=True, capture_output=True, text=True).stdout
checks = []
for l in out.splitlines():
    i, lev, tech, note = l.split("\t")
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
      "evidence_file": f"evidence/{i}.json", "technique": "static analysis: " + tech, "level": lev, "level_note": note or NOTE.strip()})
have = {c["property"] for c in checks}
na = []
for l in open(root + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i not in have:
        na.append({"property": i, "reason": NA.get(i, "The check for this property is not built yet.")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks: the analyser reads /repo's source as it is. All checks are one Go program (analyzer/) built from committed sources and vendored or cached modules."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
