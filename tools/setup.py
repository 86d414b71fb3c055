import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS
need = {}
for p in PROPS.values():
    for r in p["runs"]:
        if "quick" in r.get("tiers", ("quick", "thorough")):
            need.setdefault(r.get("flavor", "asan"), set()).add(r["harness"])
for fl, hs in sorted(need.items()):
    B.build(fl, sorted(hs))
print("setup done")
