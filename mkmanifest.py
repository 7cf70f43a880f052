"""Write MANIFEST.json from specs/meta.py (development helper)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs.meta import META
checks = []
for i in range(1, 20):
    p = f"C{i:02d}"
    m = META.get(p, {})
    proof = os.path.exists(f"specs/{p.lower()}.py")
    checks.append(dict(property=p, quick_cmd=f"python3-vt check.py {p}", thorough_cmd=f"python3-vt check.py {p} --tier thorough",
                       technique="contract-based deductive verification: contracts on the real Python source, own VC generator (pyvc), z3/cvc5; "
                                 "run-time contract checks (bounded) for what is outside its reach" if proof else
                                 "bounded run-time checking of the functions' contracts on the real code (stand-in, not proved)",
                       level=m.get("level", "proof" if proof else "exploration"),
                       level_note=m.get("note", "see evidence and DESIGN.md")))
json.dump(dict(version=1,
               setup_cmd="python3-vt -c 'import z3, cvc5, sys; sys.path[:0]=[\"/repo/src\", \"/opt/venv/lib/python3.12/site-packages\"]; import v8serialize'",
               checks=checks, not_applicable=[]), open("MANIFEST.json", "w"), indent=1)
