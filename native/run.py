"""Development helper: python3-vt native/run.py c02 [part] [seed]"""
import importlib, os, sys, time, traceback
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.environ.get("VERIF_REPO_SRC", "/repo/src"), "/opt/venv/lib/python3.12/site-packages"]
sys.dont_write_bytecode = True
from native.common import Ctx
m = importlib.import_module("native." + sys.argv[1])
for name in ([sys.argv[2]] if len(sys.argv) > 2 and sys.argv[2] != "-" else m.PARTS):
    for seed in (sys.argv[3:] or ["1"]):
        c = Ctx(sys.argv[1].upper(), name, "quick", int(seed), 60)
        t = time.time()
        try:
            m.PARTS[name](c)
        except Exception:
            traceback.print_exc()
        print(name, "seed", seed, "runs", c.runs, "distinct", len(c.distinct), f"{time.time() - t:.1f}s", "known", c.known, c.notes)
        for v in c.violations:
            print("   VIOLATED", v["label"], "|", v["info"][:700], "|", v["case"][:400])
