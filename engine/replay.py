"""Run a recorded counterexample again on the current tree."""
import json, sys
import build
from concrete import run_native
d = json.load(open(sys.argv[1]))
exe = build.build_replay(print)
print(d["what"])
for k, sp in enumerate(d["steps"]):
    res, acc, err = run_native(exe, sp)
    print("step %d: native result %r (recorded %r)" % (k, res, d["native"][k]["result"]))
    if sp.startswith("kern"):
        print("  output %s (recorded %s)" % (acc, d["native"][k].get("out")))
        continue
    names = {v: n for n, v in d["accounts"].items()}
    before = {l.split()[4]: l.split() for l in sp.splitlines() if l.startswith("account ")}
    for a in acc:
        n = names.get(hex(int.from_bytes(bytes.fromhex(a[0]), "little")), a[0][:12])
        b = before[a[0]]
        print("  %-14s owner %s -> %s  lamports %s -> %d  data %s -> %s" % (
            n, b[5][:8], a[1][:8], b[6], a[2], b[7][:80], a[3][:80]))
