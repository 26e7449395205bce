"""Writes levels.json and MANIFEST.json from one table."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
RULE = "a case is a deterministic function of its parameters (tree shape, sizes, names, push splits, damage, seed and index); it is non-trivial when it reached the comparison with the oracle on non-degenerate data (the case function returns a non-zero fingerprint), and distinct by that fingerprint"
ASSUME = [
    "Verus, its encoding and Z3 are right; Verus' own library contracts for Vec, Option, Result, slices, iterators are right",
    "the functions and axioms listed under trusted_base behave as their assumed contracts say",
    "the rewrites listed under coverage.rewrites keep the behaviour of the rewritten expressions (each is a fixed, local, textual rule applied to /repo's source on every run; anything the rules do not match makes the function undecided, not proved)",
    "memory allocation does not fail",
    "in-crate machine arithmetic is checked as machine arithmetic (overflow is an obligation), none is treated as mathematical",
]
PROOF = "contract-based deductive verification with Verus of the real functions, contracts spliced into /repo's source on every run; executable contract run on the real crate as bounded stand-in for the rest and as witness search"
BOUND = "executable contract (oracle with an independent codec and model) run on the real crate, bounded; Verus obligations on the functions in reach"
T = {}
exec(open(os.path.join(V, "tools", "levels_table.py")).read())
lv = {"_assumptions": ASSUME}
checks = []
for k in sorted(T):
    level, note = T[k]
    lv[k] = {"level": level, "note": note, "rule": RULE}
    checks.append({
        "property": k,
        "quick_cmd": "python3 check.py %s" % k,
        "thorough_cmd": "python3 check.py %s --tier thorough" % k,
        "technique": PROOF if level == "proof" else BOUND,
        "level": level,
        "level_note": note,
    })
json.dump(lv, open(os.path.join(V, "levels.json"), "w"), indent=1)
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: contracts are spliced into a scratch copy of the source, the executable contracts use the public API", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "See DESIGN.md. Genuine defects repaired with fix: commits and the one recorded are in known-findings.txt.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
