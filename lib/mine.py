"""development aid: print every call/store/return of a function with the facts that hold on all paths to it."""
import os
os.environ["VERIF_NOFILTER"] = "1"      # rules are judged without the help of the normal forms
import sys, os, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from facts import *


def dev_load():
    p = "/tmp/w/data.pickle"
    if os.path.exists(p) and "--fresh" not in sys.argv:
        d = pickle.load(open(p, "rb"))
    else:
        d = compile_all()
        pickle.dump(d, open(p, "wb"))
    return {c: Prog(c, d[c]) for c in d}


def must_facts(fn):
    """block -> set of facts on entry (intersection over paths)."""
    n = len(fn.blocks)
    IN = [None] * n
    IN[0] = frozenset()
    work = [0]
    while work:
        b = work.pop(0)
        cur = set(IN[b])
        for i in fn.blocks[b]:
            if i.id >= 0:
                cur = {f for f in cur if i.id not in deps(f[0])}
            if i.op == "store":
                tg = {x for x in ([fn.expr(i.x[1])[2]] if fn.expr(i.x[1])[0] == "fld" else [])}
                cur = {f for f in cur if not (memfields(f[0]) & tg)}
        if any(fn.prog.call_noret(fn, i) for i in fn.blocks[b]):
            continue
        if not fn.blocks[b]:
            continue
        t = fn.blocks[b][-1]
        outs = []
        if t.op == "br":
            e = fn.expr(t.x[0])
            outs = [(t.x[1], expand(e, TRUE)), (t.x[2], expand(e, FALSE))]
        elif t.op == "jmp":
            outs = [(t.x[0], [])]
        elif t.op == "switch":
            e = fn.expr(t.x[0])
            per = {}
            for c, d in t.x[2]:
                per.setdefault(d, []).append(("eq", c))
            outs = [(d, [(e, r[0])] if len(r) == 1 else []) for d, r in per.items()]
            outs.append((t.x[1], [canon(e, ("ne", c)) for c, _ in t.x[2]] if t.x[1] not in per else []))
        for d, fl in outs:
            ids = {i.id for i in fn.blocks[d] if i.op == "phi"}
            o = frozenset(f for f in (cur | set(fl)) if not (deps(f[0]) & ids))
            nw = o if IN[d] is None else (IN[d] & o)
            if nw != IN[d]:
                IN[d] = nw
                work.append(d)
    return IN


def sh(f, fn):
    k, (p, c) = f
    if p == "ne" and c == 0:
        return show(k, fn)
    if p == "eq" and c == 0:
        return "!" + show(k, fn)
    return "%s %s %d" % (show(k, fn), {"eq": "==", "ne": "!=", "le": "<=", "ge": ">="}[p], c)


if __name__ == "__main__":
    P = dev_load()
    cfg = "ho"
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if args[0] in P:
        cfg = args.pop(0)
    prog = P[cfg]
    inl = set(args[1:])
    f = prog.fn(args[0])
    f = prog.inline(f, lambda h: h.name in inl)
    IN = must_facts(f)
    for b, blk in enumerate(f.blocks):
        if not blk or IN[b] is None:
            continue
        first = True
        for i in blk:
            if i.op in ("call", "store", "ret", "phi"):
                if first:
                    print("B%d  {%s}" % (b, "; ".join(sorted(sh(x, f) for x in IN[b]))))
                    first = False
                if i.op == "call":
                    print("    %4d  %%%d = %s" % (i.line, i.id, show(("call", i.callee() or ("*", f.expr(i.x[0])), tuple(f.expr(a) for a in i.args()), 0), f)))
                elif i.op == "store":
                    print("    %4d  %s = %s" % (i.line, show(("ld", f.expr(i.x[1])), f), show(f.expr(i.x[0]), f)))
                elif i.op == "phi":
                    print("    %4d  %s = phi %s" % (i.line, show(("phi", i.id), f), ", ".join("B%d:%s" % (pb, show(f.expr(v), f)) for v, pb in i.x[0])))
                else:
                    print("    %4d  return %s" % (i.line, show(f.expr(i.x[0]), f) if i.x[0] is not None else ""))
