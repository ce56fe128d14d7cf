"""development: mutate the IR of functions and list the mutants the rules of a property do not notice.
mutate.py PROP FUNC...   (functions: all the ones the rules of PROP analyse when none is given)"""
import os
os.environ["VERIF_NOFILTER"] = "1"      # rules are judged without the help of the normal forms
import sys, os, multiprocessing as mp
sys.path.insert(0, "/verif/lib"); sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
from dev import cached
from engine import *
import check, engine


def ptype(f, i, m):
    g = f.prog.resolve(f, i.callee())
    return g.params[m][1] if g is not None and m < len(g.params) else m


def mutants(f):
    """[(text, line, apply(f) -> None)]"""
    out = []
    for b, blk in enumerate(f.blocks):
        for n, i in enumerate(blk):
            if i.op == "br":
                def neg(f, b=b, n=n):
                    i = f.blocks[b][n]
                    f.blocks[b][n] = I(i.id, i.line, "br", (i.x[0], i.x[2], i.x[1]), i.src)
                def swapphi(f, b=b, n=n, which=1):
                    i = f.blocks[b][n]
                    t, o = (i.x[1], i.x[2]) if which == 1 else (i.x[2], i.x[1])
                    f.blocks[b][n] = I(i.id, i.line, "jmp", (t,), i.src)
                    if t != o:
                        f.blocks[o] = [I(j.id, j.line, "phi", ([[v, p] for v, p in j.x[0] if p != b],), j.src) if j.op == "phi" else j for j in f.blocks[o]]
                e = show(f.expr(i.x[0]), f)[:80]
                out.append(("always %s" % e, i.line, lambda f, g=swapphi: g(f, which=1)))
                out.append(("never %s" % e, i.line, lambda f, g=swapphi: g(f, which=2)))
            elif i.op == "call" and i.callee() and not f.prog.call_noret(f, i):
                for m, a in enumerate(i.args()):
                    e = f.expr(a)
                    for m2, a2 in enumerate(i.args()):
                        if m2 > m and f.expr(a2) != e and ptype(f, i, m) == ptype(f, i, m2):
                            def swp(f, b=b, n=n, m=m, m2=m2):
                                i = f.blocks[b][n]
                                l = list(i.x[1]); l[m], l[m2] = l[m2], l[m]
                                f.blocks[b][n] = I(i.id, i.line, "call", (i.x[0], l) + tuple(i.x[2:]), i.src)
                            out.append(("swap args %d,%d of %s" % (m, m2, show(("call", i.callee(), tuple(f.expr(x) for x in i.args()), 0), f)[:80]), i.line, swp))
                    if e[0] == "c":
                        def cst(f, b=b, n=n, m=m, c=(1 - e[1] if e[1] in (0, 1) else e[1] + 1)):
                            i = f.blocks[b][n]
                            l = list(i.x[1]); l[m] = "#%d" % c
                            f.blocks[b][n] = I(i.id, i.line, "call", (i.x[0], l) + tuple(i.x[2:]), i.src)
                        out.append(("arg %d of %s changed" % (m, show(("call", i.callee(), tuple(f.expr(x) for x in i.args()), 0), f)[:80]), i.line, cst))
                used = False
                for b2, n2, j in f.instrs():
                    if i.id >= 0 and ("%%%d" % i.id) in json.dumps(j.x):
                        used = True
                if not used and i.callee() not in ("fprintf", "printf", "fflush", "PStackFree", "fputs", "fputc", "putc", "PQueueFree", "DStrFree", "SizeFreeReal"):
                    def drop(f, b=b, n=n):
                        del f.blocks[b][n]
                    out.append(("drop %s" % show(("call", i.callee(), tuple(f.expr(a) for a in i.args()), 0), f)[:80], i.line, drop))
            elif i.op == "store":
                def drop(f, b=b, n=n):
                    del f.blocks[b][n]
                out.append(("drop %s = %s" % (show(("ld", f.expr(i.x[1])), f)[:40], show(f.expr(i.x[0]), f)[:40]), i.line, drop))
            elif i.op == "cmp":
                P = {"slt": "sle", "sle": "slt", "sgt": "sge", "sge": "sgt", "ult": "ule", "ule": "ult", "ugt": "uge", "uge": "ugt", "eq": None, "ne": None}
                q = P.get(i.x[0])
                if q:
                    def off(f, b=b, n=n, q=q):
                        i = f.blocks[b][n]
                        f.blocks[b][n] = I(i.id, i.line, "cmp", (q,) + tuple(i.x[1:]), i.src)
                    out.append(("%s for %s" % (q, show(f.expr("%%%d" % i.id), f)[:60]), i.line, off))
            elif i.op == "ret" and i.x[0] is not None:
                e = f.expr(i.x[0])
                if e[0] == "c" or f.rt in ("_Bool", "bool"):
                    pass
            elif i.op == "phi":
                pass
            if i.op == "phi":
                for m, (v, p) in enumerate(i.x[0]):
                    e = f.expr(v)
                    if e[0] == "c" and e[1] in (0, 1) and f.names.get(i.id) not in ("i",):
                        def flip(f, b=b, n=n, m=m, c=1 - e[1]):
                            i = f.blocks[b][n]
                            inc = [list(x) for x in i.x[0]]
                            inc[m][0] = "#%d" % c
                            f.blocks[b][n] = I(i.id, i.line, "phi", (inc,), i.src)
                        out.append(("%s := %d (was %d)" % (show(("phi", i.id), f), 1 - e[1], e[1]), (f.blocks[p][-1].line if f.blocks[p] else 0), flip))
    return out


MODEL = None
RULES = None


def attempt(a):
    cfg_fn, idx = a
    tu, name = cfg_fn
    txt = None
    for c, p in MODEL.progs.items():
        f = p.fns.get((tu, name))
        if f is None:
            continue
        ms = mutants(f)
        if idx >= len(ms):
            continue
        txt = ms[idx]
        ms[idx][2](f)
        f._reset()
        for k in [k for k in p.views if k[0] == name or name in k[2] or True]:
            if uses(k, name):
                del p.views[k]
        break
    k = Checker(PROP, MODEL, "quick")
    k.path_filter = name
    r = None
    try:
        RULES.check(k)
        k.tasks = [t for t in k.tasks if t[1] == name or name in t[4]]
        res = [engine._task((k, t)) for t in k.tasks]
        if k.reports or any(x[5] for x in res if not isinstance(x, str)):
            r = "caught"
    except Broken as e:
        pass
    except Exception as e:
        r = "exc %r" % e
    return (cfg_fn, txt[0], txt[1], r)


def uses(k, name):
    return k[0] == name or name in k[2]


def main():
    global MODEL, RULES, PROP
    PROP = sys.argv[1]
    MODEL = cached()
    MODEL.progs = {c: p for c, p in MODEL.progs.items()}
    RULES = check.load_rules(PROP)
    k = Checker(PROP, MODEL, "quick")
    RULES.check(k)
    names = sys.argv[2:]
    if not names:
        names = []
        for t in k.tasks:
            for n in [t[1]] + list(t[4]):
                if n not in names:
                    names.append(n)
    p0 = MODEL.progs["ho"]
    todo = []
    for n in names:
        tus = {t[5] for t in k.tasks if t[1] == n and t[5]}
        f = p0.fn(n, tus.pop() if tus else None)
        if f is None:
            print("no function", n); continue
        p1 = MODEL.progs["fo"]
        f1 = p1.fns.get((f.tu, f.name), f)
        for j in range(len(mutants(f1))):
            todo.append(((f.tu, f.name), j))
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        res = pool.map(attempt, todo, chunksize=1)
    byf = {}
    for (fn, txt, line, r) in res:
        byf.setdefault(fn, []).append((line, txt, r))
    for fn, l in byf.items():
        surv = [x for x in l if x[2] is None]
        print("== %s %s: %d mutants, %d survive%s" % (fn[0], fn[1], len(l), len(surv), "".join(" " + x[2] for x in l if x[2] and x[2].startswith("exc"))))
        for line, txt, r in sorted(surv):
            print("   %5d  %s" % (line, txt))


if __name__ == "__main__":
    main()
