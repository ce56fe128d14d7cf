#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property by static analysis of /repo's working tree."""
import sys, os, json, time, importlib.util, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.setrecursionlimit(20000)
from engine import *


def load_rules(pid):
    p = os.path.join(HERE, "rules", pid + ".py")
    spec = importlib.util.spec_from_file_location("rules_" + pid, p)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(HERE, "rules"))
    spec.loader.exec_module(m)
    return m


def known_findings(pid):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                res.append(l[len("known: property=%s " % pid):])
    return res


def run(pid, tier, model=None, t0=None):
    t0 = t0 or time.time()
    m = load_rules(pid)
    cfgs = getattr(m, "CONFIGS", ("fo", "ho"))
    if model is None:
        model = Model(load(cfgs))
    k = Checker(pid, model, tier)
    m.check(k)
    try:
        k.flush()
    except Broken:
        if not k.reports:
            raise
    return m, k, t0


def finish(pid, tier, m, k, t0, evdir):
    known = known_findings(pid)
    bad, kn = [], []
    for r in k.reports.values():
        line = "%s | %s | %s" % (r.rule, r.where.split(" ")[0].split(":")[0] + " " + r.where.split(" ")[-1], r.text)
        (kn if any(x in line for x in known) else bad).append((r, line))
    os.makedirs(evdir, exist_ok=True)
    cov = {
        "explanation": "Static analysis of the SSA form of every translation unit of the working tree (LLVM IR after clang -O0 and scalar promotion, "
                       "both the first-order and the higher-order configuration). " + (m.__doc__ or "").strip() +
                       " The verdict covers the structural clauses listed, on every path of the functions analysed; it is not a run of the program.",
        "configurations": k.cfgs(),
        "units": sum(len(p.tus) for p in k.model.progs.values()),
        "functions_in_model": sum(len(p.fns) for p in k.model.progs.values()),
        "functions_analysed": len(k.counts["functions"]),
        "rules": k.counts["rules"],
        "sites": k.counts["sites"],
        "path_states": k.counts["paths"],
        "obligations": k.counts["obligations"],
        "not_decided": k.lost[:40],
        "samples": k.samples,
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": ["clang's IR of the working tree with the flags of Makefile.vars is the program",
                          "the rule tables in /verif/rules name the anchor functions of the reference tree; functions new since then are inlined into their callers"]
          + list(getattr(m, "ASSUMPTIONS", [])) + k.notes,
          "violations": len(bad)}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r, line in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, line))
    for l in k.lost[:10]:
        print("NOTE not decided: " + l)
    print("%s: %d rules, %d functions, %d sites, %d obligations, %d path states, %.1fs" %
          (pid, k.counts["rules"], len(k.counts["functions"]), k.counts["sites"], k.counts["obligations"], k.counts["paths"], time.time() - t0))
    if bad:
        rp = os.path.join(evdir, pid + ".violation.txt")
        with open(rp, "w") as f:
            for r, line in bad:
                f.write("%s\n  at %s\n  %s\n  %s\n\n" % (r.rule, r.where, r.text, r.detail.replace("\n", "\n  ")))
        for r, line in bad[:20]:
            print("  %s\n    at %s\n    %s" % (r.rule, r.where, r.text))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        m, k, t0 = run(pid, tier)
        if k.counts["obligations"] == 0:
            raise Broken("no obligation was generated")
        rc = finish(pid, tier, m, k, t0, os.path.join(HERE, "evidence"))
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        sys.exit(2)
    sys.exit(rc)


if __name__ == "__main__":
    main()
