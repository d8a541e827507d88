#!/usr/bin/env python3
"""replay.py CEX.json : re-run a stored counterexample against the real build."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
v = json.load(open(sys.argv[1])); d = vlib.build()
for w in ("asan", "rel"):
    r = vlib.native(d, w, v["entry"], [i[2] for i in v["inputs"]], v["params"])
    print(f"== {w}: rc={r['rc']} digest={r['digest']}\n{r['err'][-3000:]}")
ok, desc = vlib.confirm(d, v, v["params"]); print("reproduced:", ok, desc); sys.exit(1 if ok else 0)
