"""development: run the rules of some properties on a cached model.  dev.py [-r REPO] [--fresh] IDS..."""
import sys, os, pickle, time, traceback
if "-r" in sys.argv:
    j = sys.argv.index("-r"); os.environ["VERIF_REPO"] = sys.argv[j+1]; del sys.argv[j:j+2]
sys.path.insert(0, "/verif/lib"); sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
import core
from engine import *
import check
def cached():
    p = "/tmp/w/data.pickle"
    if core.REPO == "/repo" and os.path.exists(p) and "--fresh" not in sys.argv:
        d, nm = pickle.load(open(p, "rb"))
        core.NORM.update(nm)
    else:
        d = compile_all()
        if core.REPO == "/repo": pickle.dump((d, core.NORM), open(p, "wb"))
    return Model({c: Prog(c, d[c]) for c in d})
if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    if not ids:
        ids = sorted(f[:-3] for f in os.listdir("/verif/rules") if f[0] in "P" and f.endswith(".py"))
    M = cached()
    for i in ids:
        t = time.time()
        try:
            m, k, t0 = check.run(i, "quick", M)
            check.finish(i, "quick", m, k, t0, "/tmp/w/ev")
            if "-v" in sys.argv:
                for r in k.reports.values(): print(r.rule, "\n ", r.where, r.text, "\n   ", r.detail.replace("\n", "\n    "))
        except Broken as e:
            print(i, "BROKEN", e)
