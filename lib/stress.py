"""development: evaluate the contracts on behaviour-preserving rewrites of the IR and (with --prune) drop the clauses that depend on how the code is written.
stress.py [--prune] [-sNAME...] IDS"""
import sys, os, json, re, collections
os.environ["VERIF_NOFILTER"] = "1"
sys.path.insert(0, "/verif/lib"); sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
import core
from engine import *
import check
PASSES = {"none": "none", "swap": "swap", "rotate": "loop(loop-rotate)", "mergereturn": "mergereturn", "lowerswitch": "lowerswitch", "thread": "jump-threading",
          "simplifycfg": "simplifycfg", "cache": "cache", "sink": "sink"}
args = sys.argv[1:]
prune = "--prune" in args
sel = [a[2:] for a in args if a.startswith("-s")]
ids = [a for a in args if not a.startswith("-")]
if not ids:
    ids = sorted(f[:-5] for f in os.listdir("/verif/rules/contracts"))
bad = collections.defaultdict(lambda: collections.defaultdict(set))     # pid -> (fn, at) -> clauses
import multiprocessing as mp


def one(a):
    name, pid = a
    k = Checker(pid, M, "quick")
    k.contracts()
    try:
        k.flush()
    except Broken as e:
        return (pid, None, str(e), 0, 0)
    return (pid, [(r.rule, r.text) for r in k.reports.values()], None, len(k.lost), k.counts["obligations"])


for name, p in PASSES.items():
    if sel and name not in sel:
        continue
    os.environ.pop("EIR_STRESS", None)
    if name != "none":
        os.environ["EIR_STRESS"] = p
    d = compile_all()
    M = Model({c: Prog(c, d[c]) for c in d})
    tot = 0
    for pid in ids:
        pid, reps, err, lost, obl = one((name, pid))
        if err:
            print(name, pid, "BROKEN", err[:200])
            continue
        for rule, text in reps:
            m = re.match(r"contract (\S+): at `(.*)`$", rule)
            if m:
                bad[pid][(m.group(1), m.group(2))].add(text[len("reached without: "):])
            else:
                bad[pid][rule].add("")
        tot += len(reps)
        print("%s %s: %d alarms, %d lost, %d obligations" % (name, pid, len(reps), lost, obl), flush=True)
    print("==", name, tot, flush=True)
with open("/tmp/w/stress.json", "w") as f:
    json.dump({p: [[list(k) if isinstance(k, tuple) else k, sorted(v)] for k, v in d.items()] for p, d in bad.items()}, f, indent=0)
def selfeq(c):
    """a comparison of two values that read the same says nothing"""
    return any(re.match(r"(.+) (==|!=|<|>=) \\1$", l.strip()) for l in c.split(" || "))


if prune:
    for pid in ids:
        d = bad.get(pid, {})
        path = os.path.join(VERIF, "rules", "contracts", pid + ".json")
        rows = json.load(open(path))
        out, n = [], 0
        for r in rows:
            if "at" in r:
                b = d.get((r["fn"], r["at"]), ())
                keep = [c for c in r["need"] if c not in b and not selfeq(c)]
                n += len(r["need"]) - len(keep)
                if not keep:
                    continue
                r["need"] = keep
            else:
                nm = "contract %s: the loop up to %s covers every index" % (r["fn"], r["loop"]) if "loop" in r else \
                    "contract %s: the traversal along ->%s starts at %s" % (r["fn"], r["list"], " or ".join(r["init"]))
                if nm in d:
                    n += 1
                    continue
            out.append(r)
        with open(path, "w") as f:
            f.write("[\n" + ",\n".join(json.dumps(r) for r in out) + "\n]\n")
        print(pid, "dropped", n, "clauses")
