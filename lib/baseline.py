"""development: write rules/functions.json, the functions of the reference tree (run on the unchanged tree only)."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from core import *
d = compile_all()
progs = {c: Prog(c, d[c]) for c in d}
out = {}
for c, p in progs.items():
    for (tu, n), f in sorted(p.fns.items()):
        e = out.setdefault(tu, {}).setdefault(n, [1 if f.local else 0, [t for _, t in f.params], f.rt, sorted(f.raw_callees()), []])
        e[4].append(c)
with open(os.path.join(VERIF, "rules", "functions.json"), "w") as f:
    json.dump(out, f, separators=(",", ":"), sort_keys=True)
    f.write("\n")
norm = {c: {tu: {n: h[:12] for n, h in sorted(NORM[c][tu].items()) if (tu, n) in progs[c].fns} for tu in sorted(NORM[c])} for c in sorted(NORM)}
for tu in norm["fo"]:                      # only what differs is kept for the second configuration
    for n in list(norm["fo"][tu]):
        if norm["ho"].get(tu, {}).get(n) == norm["fo"][tu][n]:
            norm["ho"][tu][n] = ""
with open(os.path.join(VERIF, "rules", "norm.json"), "w") as f:
    json.dump(norm, f, separators=(",", ":"), sort_keys=True)
    f.write("\n")
