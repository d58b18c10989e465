import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from mon import gen
i, s = gen.literals()
ri, rs = gen.rust_literals("/repo/src")
json.dump({"ints": sorted(i), "strs": sorted(s), "rust_ints": sorted(ri), "rust_strs": sorted(rs)}, open(gen._BASE, "w"), indent=0)
