import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/checks"]
import core
import importlib
for f in sorted(os.listdir(V + "/checks")):
    if f.startswith("p_") and f.endswith(".py"):
        importlib.import_module(f[:-3])
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
try:
    rc = core.main(prop, tier, sys.argv[3] if len(sys.argv) > 3 else None)
except core.build.BuildError as e:
    print("build failed:\n%s" % e)
    rc = 2
sys.exit(rc)
