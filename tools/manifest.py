"""Writes MANIFEST.json from properties.jsonl and the registered scenarios."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/checks"]
import core
for f in sorted(os.listdir(V + "/checks")):
    if f.startswith("p_") and f.endswith(".py"):
        importlib.import_module(f[:-3])
NOTE = ("The solver decides every claim for all values within the bounds listed in the evidence (concrete data, seed and list "
        "lengths; all addresses, owners, balances, contents, flags and arguments symbolic) on the LLVM IR compiled from /repo's "
        "current tree. Trusts: x86-64 release IR for the deployed build, the runtime/system-program model in "
        "harness/common/rt.rs, collision-free off-curve PDAs, balances up to 2^56 per account, default rent. Sample models of "
        "the paths, and every reported counterexample, are replayed on the natively compiled program and must agree.")
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in core.REG:
        checks.append({
            "property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "symbolic execution of the compiled program's LLVM IR, claims decided by SMT (z3)",
            "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3-vt engine/build.py replay", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Checks rebuild the IR from /repo's working tree; build products are cached in .work by source hash."}
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
