"""Contracts: for each effect (call, store, return) of a function the complete condition under which it happens, in terms of what the code tests.

A contract clause lists the prime implicants of the disjunction of all path conditions of an effect in the reference tree (so the order in which a conjunction
is tested, early exits, flags and extracted helpers do not matter), together with what the effect is applied to; `must` clauses list the conditions under which
a return may be reached without the effect.  `contract.py gen PROP` regenerates rules/contracts/PROP.json from rules/PROP.py's SCOPE; every clause is verified
by the path engine before it is written.  The check only evaluates the committed clauses."""
import os
os.environ["VERIF_NOFILTER"] = "1"      # rules are judged without the help of the normal forms
import sys, os, json, re
from engine import *

NOISE_CALL = set("""fprintf printf fflush fputs fputc putc puts fwrite perror SizeMallocReal SizeFreeReal SecureMalloc SecureRealloc free malloc
PStackAlloc PStackFree PQueueAlloc PQueueFree DStrAlloc DStrFree MemIsLow sprintf snprintf strlen strcmp memset memcpy
GetSecTime GetTotalCPUTime time getrusage TempFileCleanup PDArrayFree PDArrayAlloc PDIntArrayAlloc PTreeFree StackFree NumTreeFree
PStackReset VERBOUT VERBOUTARG VERBOUTARG2 llvm.memcpy.p0.p0.i64 llvm.memset.p0.i64 llvm.va_start.p0 llvm.va_end.p0 llvm.stacksave.p0 llvm.stackrestore.p0
PQueueReset DStrReset ClausePrint EqnPrint TermPrint __assert_fail""".split())
NO_MUST = re.compile(r"(Alloc|Free|FreeReal|CellFree)$|Alloc[A-Z]|^TermTopCopy|^SizeMalloc|^SizeFree|Stats|^TermTopFree")
NOISE_KEY = re.compile(r"OutputLevel|Verbose|stderr|TimeIsUp")


def text(e, vars=None, d=0):
    """pattern text of e; phis become _ (or a variable when listed in vars)."""
    if d > 7:
        return "_"
    t = e[0]
    T = lambda x: text(x, vars, d + 1)
    if t == "a":
        return "arg%d" % e[1]
    if t == "c":
        return str(e[1])
    if t == "s":
        if re.search(r"[^\x20-\x7e]|\|\||&&| / | , |:=|\\|\"", e[1]) or len(e[1]) > 60:
            return "_"
        return json.dumps(e[1])
    if t == "g":
        return "&@" + e[1] if re.match(r"\w+$", e[1]) else "_"
    if vars is not None and e in vars:
        return "$p%d" % vars[e]
    if t == "ld":
        a = e[1]
        if a[0] == "g":
            return "@" + a[1] if re.match(r"\w+$", a[1]) else "_"
        if a[0] == "fld":
            b = T(a[1])
            f = a[2].split(".")[-1]
            if not re.match(r"\w+$", f):
                return "_"
            if a[1][0] in ("fld", "g", "ix") and b.startswith("&"):
                return b[1:] + "." + f
            return (b if re.match(r"[\w$@]", b) else "(" + b + ")") + "->" + f
        if a[0] == "ix":
            if a[1][0] == "ix":
                return "_"
            b, x = T(a[1]), T(a[2])
            if b.startswith("&"):
                b = b[1:]
            return (b if re.match(r"[\w$@]", b) else "(" + b + ")") + "[" + x + "]"
        if a[0] == "al":
            return "out(%s,%s)" % tuple(a[2].split("|")[0].split(".")) if a[2] else "_"
        b = T(a)
        return "_" if b == "_" else "*" + b
    if t == "fld":
        b = text(("ld", e), vars, d)
        return "_" if b == "_" else "&" + b
    if t == "ix":
        b = text(("ld", e), vars, d)
        return "_" if b == "_" else "&" + b
    if t == "call":
        if not isinstance(e[1], str) or not re.match(r"\w+$", e[1]):
            return "_"
        a = [T(x) for x in e[2]]
        if a and all(x == "_" for x in a):
            return e[1] + "(...)"
        return e[1] + "(" + ",".join(a) + ")"
    if t == "bin":
        o = {"and": "&", "or": "|", "add": "+", "sub": "-", "mul": "*", "shl": "<<", "ashr": ">>", "lshr": ">>", "srem": "%", "urem": "%"}.get(e[1])
        if o is None:
            return "_"
        a, b = T(e[2]), T(e[3])
        if a == "_" and b == "_":
            return "_"
        if b.startswith("-") or b.startswith("&") or b.startswith("*"):
            b = "(" + b + ")" if not re.match(r"-\d+$", b) else b
        if re.match(r"-\d+$", b) and o == "+":
            return "(%s + %s)" % (a, b)
        return "(%s %s %s)" % (a, o, b)
    return "_"


def trivial(s):
    """carries a pattern no information?"""
    return not re.search(r"[A-Za-z]", re.sub(r"\$p\d+", "", s))


def factvar(key, rel):
    """(variable, sign) of a fact: eq/ne and le/ge are complements."""
    p, c = rel
    if p == "eq":
        return (key, ("eq", c)), True
    if p == "ne":
        return (key, ("eq", c)), False
    if p == "le":
        return (key, ("le", c)), True
    return (key, ("le", c - 1)), False


def consensus(terms, cap=400):
    """prime implicants of a DNF (terms: frozensets of (var, sign))."""
    ts = set(terms)

    def absorb(ts):
        l = sorted(ts, key=len)
        out = []
        for t in l:
            if not any(o <= t for o in out):
                out.append(t)
        return set(out)
    ts = absorb(ts)
    while True:
        new = set()
        l = list(ts)
        for i in range(len(l)):
            for j in range(i):
                a, b = l[i], l[j]
                opp = [v for v, s in a if (v, not s) in b]
                if len(opp) != 1:
                    continue
                v = opp[0]
                c = frozenset(x for x in a | b if x[0] != v)
                if not any(t <= c for t in ts) and not any(t <= c for t in new):
                    new.add(c)
        if not new:
            return ts
        ts = absorb(ts | new)
        if len(ts) > cap:
            return None


class Collect(PathMachine):
    """Records the conditions tested on the way to each instance of an effect."""
    copy = False

    def __init__(self, fn, at, events, branches, vars):
        super().__init__(fn, at, [], "mine")
        self.evs = events                  # {name: Event}
        self.branches = branches
        self.rec = []                      # (instr, args, return value, state)
        self.vars = vars

    def relevant(self, i):
        if any(ev.prefn(self.fn, i) for ev in self.evs.values()):
            return True
        return super().relevant(i)

    def factrel(self, key):
        return False

    def edge(self, q, facts, cx):
        if cx.block not in self.branches:
            return q
        if self.iter:
            # tests that end the loop may as well stand in its head
            body = self.loopsof.get(self.fn.inner(cx.block), ())
            if body and any(x not in body for x in self.fn.succs(cx.block)):
                return q
        tag = (cx.block,) if self.iter else ()
        new = set(q)
        for k, r in facts:
            k2 = cx.ex.rdeep(k, cx.env)
            for k3, r3 in ([(k, r)] if k2 == k else expand(k2, r)):
                if k3[0] != "c":
                    new = {t for t in new if t[2] != k3 or not implies(r3, neg(t[0]))}
                    new.add((r3, (), k3) + tag)
        return frozenset(new)

    def step(self, q, i, cx):
        if isinstance(self.at, Event) and self.at.pre(i):
            e = self.at.match(i, cx, {})
            if e is not None:
                self.note(q, i, cx, e, None)
        if i.id >= 0 and q:
            q = self._drop(q, {i.id})
        if i.op == "store" and q:
            tg = cx.fn.expr(i.x[1])
            if tg[0] in ("fld", "g", "al"):
                ld = ("ld", tg)
                q = frozenset(t for t in q if t[2] is None or not has_load(t[2], ld))
        if i.op == "call" and q:
            q = outkill(q, i, cx)
        if i.op == "ret" and not isinstance(self.at, Event):
            if self.iter:
                return q
            e = cx.ex.rdeep(cx.fn.expr(i.x[0]), cx.env) if i.x[0] is not None else ("c", 0)
            for val, fl in retcases(e, cx, cx.fn):
                if fl and any(cx.ex.decide(k, r, cx.facts) is False for k, r in fl):
                    continue
                q2 = set(q)
                for k, r in fl:
                    k2 = cx.ex.rdeep(k, cx.env)
                    for k3, r3 in expand(k2, r):
                        q2.add((r3, (), k3))
                self.note(frozenset(q2), i, cx, {}, (val, e))
            return q
        for nm, ev in self.evs.items():
            if ev.pre(i) and ev.match(i, cx, {}) is not None:
                q = q | {(nm, (), None) + ((cx.block,) if self.iter else ())}
        return q

    def trans(self, q, src, dst, cx):
        if (src, dst) not in self.back:
            return q
        body = self.loopsof[dst]
        self.note(frozenset(t for t in q if t[3] in body), self.fn.blocks[src][-1], cx, {"loop": dst}, None)
        return frozenset(t for t in q if t[3] not in body)

    def note(self, q, i, cx, env, ret):
        self.rec.append((i, env, ret, q))


def relbranches(ex, f, blocks, depth=99):
    """branches that decide whether / how one of the blocks is reached, including those that set the flags they test."""
    n = len(f.blocks)
    ipd = ex._ipd
    cd = {}                                # block -> controlling branches
    for b in range(n):
        if not f.blocks[b] or f.blocks[b][-1].op not in ("br", "switch"):
            continue
        stop = ipd.get(b)
        for s in f.succs(b):
            x = s
            seen = set()
            while x != stop and x is not None and x != n and x not in seen:
                seen.add(x)
                cd.setdefault(x, set()).add(b)
                x = ipd.get(x)
    out = set()
    todo = [(x, 0) for x in blocks]
    seen = set(blocks)
    while todo:
        x, dp = todo.pop(0)
        if dp >= depth:
            continue
        for b in cd.get(x, ()):
            if b not in out:
                out.add(b)
                if b not in seen:
                    seen.add(b); todo.append((b, dp + 1))
                r = set()
                ex._phiroots(f.blocks[b][-1].x[0], r, set())
                for p in r:
                    if p in f.defs and f.defs[p][2].op == "phi":
                        pb = f.defs[p][0]
                        for v, src in f.defs[p][2].x[0]:
                            if src not in seen:
                                seen.add(src); todo.append((src, dp + 1))
                            if f.blocks[src][-1].op in ("br", "switch"):
                                out.add(src)
    return out


def patfacts(q, vars):
    """frozenset of (var, sign) with text keys; uninformative facts are dropped."""
    out = set()
    for t in q:
        if t[2] is None:
            continue
        rel, _, key = t[:3]
        if "ophi'" in repr(key):
            continue
        if key[0] in ("eq2", "lt"):
            a, b = text(key[1], vars), text(key[2], vars)
            if key[0] == "lt":
                # loop conditions on counters are checked elsewhere
                if a in ("_",) or b in ("_",) or a.startswith("$p") or b.startswith("$p"):
                    continue
            if a == "_" or b == "_" or trivial(a + b) and not (a.startswith("$p") and b.startswith("$p")):
                if trivial(a + b):
                    continue
            if a == b:
                continue                   # the same text for two values
            if a > b and key[0] == "eq2":
                a, b = b, a
            s = "%s %s %s" % (a, "==" if key[0] == "eq2" else "<", b)
            if NOISE_KEY.search(s):
                continue
            if a.startswith("-") or b.startswith("*") and False:
                continue
            out.add(((s, "b"), rel == TRUE))
            continue
        s = text(key, vars)
        if trivial(s) and not re.match(r"\$p\d+$", s):
            continue
        if re.match(r"\$p\d+$", s) or NOISE_KEY.search(s):
            continue
        v, sg = factvar(s, rel)
        out.add((v, sg))
    return frozenset(out)


def lit(x):
    (key, rel), sg = x
    if rel == "b":
        if sg:
            return key
        m = re.match(r"(.*) (==|<) (.*)$", key)
        return "%s %s %s" % (m.group(1), {"==": "!=", "<": ">="}[m.group(2)], m.group(3))
    p, c = rel
    if p == "eq":
        return "%s %s %d" % (key, "==" if sg else "!=", c)
    return "%s <= %d" % (key, c) if sg else "%s >= %d" % (key, c + 1)


def dnf(sets, cap=24):
    """text alternatives (list of lists of literals) for the union of the fact sets, or None when too large."""
    if any(not s for s in sets):
        return []
    # drop tautological switch noise: keep as is
    ps = consensus(sets)
    if ps is None:
        return None
    if any(not s for s in ps):
        return []
    if len(ps) > cap:
        return None
    return [sorted(lit(x) for x in s) for s in sorted(ps, key=lambda s: (len(s), sorted(map(str, s))))]


def cnf(sets, cap=120):
    """prime implicates of the union of the fact sets: list of frozensets of literals ([] = no condition)."""
    if any(not s for s in sets):
        return []
    clean = set()
    for s in sets:
        vs = {}
        for v, sg in s:
            vs.setdefault(v, set()).add(sg)
        clean.add(frozenset((v, sg) for v, sg in s if len(vs[v]) == 1))
    if any(not s for s in clean):
        return []
    ps = consensus(clean)
    if ps is None or any(not s for s in ps):
        ps = clean if ps is None else ps
        if any(not s for s in ps):
            return []
    cl = {frozenset()}
    for t in sorted(ps, key=len):
        nw = set()
        for c in cl:
            if c & t:
                nw.add(c)
                continue
            for x in t:
                if (x[0], not x[1]) in c:
                    continue
                nw.add(c | {x})
        out = []
        for c in sorted(nw, key=len):
            if not any(o <= c for o in out):
                out.append(c)
        cl = set(out)
        if len(cl) > 3000:
            # too large: keep the literals every term shares
            com = frozenset.intersection(*[frozenset(t) for t in ps])
            return [frozenset([x]) for x in com]
    cl = sorted(cl, key=lambda c: (len(c), sorted(map(str, c))))
    cl = [c for c in cl if len(c) <= 6]
    return cl[:cap]


def common(sets):
    c = None
    for s in sets:
        c = set(s) if c is None else c & s
    return sorted(lit(x) for x in (c or ()))


import signal


class Timeout(Broken):
    pass


def _alarm(*a):
    raise Timeout("time")


class budget:
    """what takes too long is left out"""

    def __init__(self, t):
        self.t = t

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.t)

    def __exit__(self, t, v, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return t is not None and issubclass(t, Broken)


class Miner:
    def __init__(self, model, cfg, fn, inline, tu, limit=6000):
        self.model, self.cfg, self.fn, self.inline, self.tu, self.limit = model, cfg, fn, inline, tu, limit
        self.prog = model.progs[cfg]
        self.f = model.view(cfg, fn, inline, tu)

    def collect(self, at, events=(), depth=99):
        """conditions on the way to the effect; when there are too many, only the innermost ones."""
        for d in (99, 3, 2, 1):
            if d > depth:
                continue
            try:
                return self._collect(at, events, d)
            except Timeout:
                raise
            except Broken:
                if d == 1:
                    raise

    def _collect(self, at, events, depth):
        f = self.f
        eff = ("ret", None) if at == "ret" else ("iter", None) if at == "iter" else Event(at, self.prog)
        evs = {nm: Event(e, self.prog) for nm, e in events}
        m = Collect(f, eff, evs, set(), None)
        ex = Explorer(f, m, relevant=m.relevant, limit=self.limit)
        if getattr(ex, "_ipd", None) is None:
            ex._relevant_branches()
        blocks = set()
        for b, ii, i in f.instrs():
            if at == "ret" and i.op == "ret" and not evs:
                blocks.add(b)
                if i.x[0] is not None:
                    r = set()
                    ex._phiroots(i.x[0], r, set())
                    for p in r:
                        if f.defs[p][2].op == "phi":
                            for v, src in f.defs[p][2].x[0]:
                                blocks.add(src)
                                if f.blocks[src][-1].op in ("br", "switch"):
                                    m.branches.add(src)
            elif isinstance(eff, Event) and eff.prefn(f, i):
                blocks.add(b)
            if "ev" in evs and evs["ev"].prefn(f, i):
                blocks.add(b)
        m.branches |= relbranches(ex, f, blocks, depth)
        ex.run()
        return m.rec


def effects(f, want):
    """[(kind, name)] of the calls and stores of f selected by want (callee / field names, or '*')."""
    out = []
    for b, ii, i in f.instrs():
        if i.op == "call":
            c = i.callee()
            if c and re.match(r"\w+$", c) and (c in want or ("*" in want and c not in NOISE_CALL)) and ("-" + c) not in want:
                k = ("call", c)
                if k not in out:
                    out.append(k)
        elif i.op == "store":
            a = f.expr(i.x[1])
            n = None
            if a[0] == "fld":
                n = a[2].split(".")[-1]
                if not re.match(r"[A-Za-z_]\w*$", n):
                    n = None
            elif a[0] == "g" and re.match(r"\w+$", a[1]):
                n = "@" + a[1]
            elif a[0] == "ix":
                n = "[]"
            elif a[0] in ("a", "phi", "call", "ld"):
                n = "*"
            if n and (n in want or ("*" in want or "*=" in want)) and ("-" + n) not in want:
                k = ("store", n)
                if k not in out:
                    out.append(k)
    return out


def guards(sets, cap=24):
    """short clauses for a list of fact sets."""
    return [c for c in cnf(sets) if len(c) <= 5][:cap]


def cltext(c):
    return " || ".join(sorted(lit(x) for x in c))


def mine(model, cfg, fn, want, inline=(), tu=None, rets=True, must=True, limit=6000):
    """[(at, [clause])] of fn."""
    M = Miner(model, cfg, fn, inline, tu, limit)
    f = M.f
    res = []
    def one(kind, name):
        if kind == "call":
            nargs = max(len(i.args()) for _, _, i in f.calls(name))
            at = "%s(%s)" % (name, ",".join("$a%d" % j for j in range(nargs)))
            if any(len(i.args()) != nargs for _, _, i in f.calls(name)):
                at = "%s(...)" % name
                nargs = 0
        elif name[0] == "@":
            at = "%s := $v" % name
        elif name == "[]":
            at = "$b[$i] := $v"
        elif name == "*":
            at = "*$b := $v"
        else:
            at = "$b->%s := $v" % name

        def inst(ap, keep=True):
            a2 = {}
            for nm, t in ap:
                if not keep:
                    t = re.sub(r"\$p\d+", "_", t)
                a2[nm] = "_" if trivial(t) and not re.match(r"-?\d+$|\$p\d+$", t) else t
            if kind == "call":
                if not nargs:
                    return "%s(...)" % name
                ev = "%s(%s)" % (name, ",".join(a2.get("a%d" % j, "_") for j in range(nargs)))
                return "%s(...)" % name if re.match(r"\w+\((_,)*_\)$", ev) else ev
            if name[0] == "@":
                return "%s := %s" % (name, a2.get("v", "_"))
            if name == "[]":
                b = a2.get("b", "_")
                b = b[1:] if b.startswith("&") else b
                return "%s[%s] := %s" % (b if re.match(r"[\w$@]", b) else "(" + b + ")", a2.get("i", "_"), a2.get("v", "_"))
            if name == "*":
                b = a2.get("b", "_")
                return "*%s := %s" % (b if re.match(r"[\w$]+$", b) else "(" + b + ")", a2.get("v", "_"))
            return "%s := %s" % (lhs(a2.get("b", "_"), name), a2.get("v", "_"))
        full = {}
        for depth in (99, 1):
            try:
                rec = M.collect(at, (), depth)
            except Timeout:
                raise
            except Broken:
                continue
            groups = {}                    # argument patterns -> [fact sets]
            for i, env, ret, q in rec:
                # phis, and different values that read the same, get names of their own
                tx = {}
                for nm, e in env.items():
                    for x in subexprs(e):
                        if x[0] == "call":
                            tx.setdefault(text(x), set()).add(x)
                ph = {}
                for nm, e in sorted(env.items()):
                    for x in subexprs(e):
                        if x not in ph and (x[0] == "phi" or x[0] == "ld" and x[1][0] == "al" or x[0] == "call" and len(tx[text(x)]) > 1):
                            ph[x] = len(ph)
                ap = tuple((nm, text(e, ph)) for nm, e in sorted(env.items()))
                full.setdefault(tuple((nm, text(e)) for nm, e in sorted(env.items())), 0)
                groups.setdefault(ap, []).append(patfacts(q, ph))
            for ap, sets in sorted(groups.items()):
                for c in guards(sets):
                    res.append((inst(ap), cltext(c)))
        E0 = Event(at, M.prog)
        eb = {b for b, ii, i in f.instrs() if E0.prefn(f, i)}
        for x in away(f, eb, M):
            res.append((at, "~" + lit(x)))
        cl = clause([["$%s is %s" % (nm, t) for nm, t in ap if not trivial(t) or re.match(r"-?\d+$", t)] for ap in sorted(full)])
        if cl:
            res.append((at, cl))
        if not must or kind == "call" and NO_MUST.search(name):
            return
        for ev in sorted({inst(ap, False) for ap in full}):
            E = Event(ev, M.prog)
            blocks = [b for b, ii, i in f.instrs() if E.prefn(f, i)]
            heads = {f.inner(b) for b in blocks}
            if None in heads or not blocks:
                for depth in (99, 1):
                    try:
                        rec2 = M.collect("ret", (("ev", ev),), depth)
                    except Timeout:
                        raise
                    except Broken:
                        continue
                    no = [patfacts(q, None) for i, env, ret, q in rec2 if not any(t[0] == "ev" for t in q)]
                    if rec2 and not no:
                        res.append(("ret", "+" + ev))
                        break
                    vals2 = {}
                    for i, env, ret, q in rec2:
                        if ret is not None and ret[0] is not None and f.rt != "void":
                            vals2.setdefault(ret[0], []).append((any(t[0] == "ev" for t in q), q))
                    if 1 < len(vals2) <= 6:
                        for c, l in sorted(vals2.items()):
                            non = [patfacts(q, None) for has, q in l if not has]
                            if not non:
                                res.append(("ret == %d" % c, "+" + ev))
                            elif len(non) < len(l):
                                for x in guards(non, 10):
                                    res.append(("ret == %d" % c, "+" + ev + " || " + cltext(x)))
                            else:
                                res.append(("ret == %d" % c, "-" + ev))
                    if len(no) == len(rec2):
                        break
                    for c in guards(no, 12):
                        res.append(("ret", "+" + ev + " || " + cltext(c)))
            for h in sorted(x for x in heads if x is not None):
                X = driver(f, h, [b for b in blocks if f.inner(b) == h], name)
                excl = ""
                if X is None and len(f.loops()[0]) > 1:
                    ys = [every(f, h2) for h2 in f.loops()[0] if h2 != h]
                    if None in ys or len(ys) > 5:
                        continue
                    ys = sorted({y for y in ys if y.split("(")[0] != ev.split("(")[0]})
                    if not ys:
                        continue
                    excl = "".join(" || +" + y for y in ys)
                for depth in (99, 1):
                    try:
                        rec2 = M.collect("iter", (("ev", ev),) + ((("x", X),) if X else ()), depth)
                    except Timeout:
                        raise
                    except Broken:
                        continue
                    rec2 = [r for r in rec2 if X is None or any(t[0] == "x" for t in r[3])]
                    if excl:
                        rec2 = [r for r in rec2 if r[1].get("loop") == h]
                    no = [patfacts(q, None) for i, env, ret, q in rec2 if not any(t[0] == "ev" for t in q)]
                    pre = ("-" + X + " || " if X else "") + "+" + ev + excl
                    if rec2 and not no:
                        res.append(("iter", pre))
                        break
                    if len(no) == len(rec2):
                        break
                    for c in guards(no, 12):
                        res.append(("iter", pre + " || " + cltext(c)))
    for kind, name in effects(f, want):
        with budget(60):
            one(kind, name)

    def returns():
        vals = None
        for depth in (99, 1):
            try:
                rec = M.collect("ret", (), depth)
            except Timeout:
                raise
            except Broken:
                continue
            groups = {}
            for i, env, ret, q in rec:
                val, e = ret
                ph = {}
                for x in subexprs(e):
                    if x[0] == "phi" and x not in ph:
                        ph[x] = len(ph)
                if val is not None:
                    a = "ret == %d" % val
                    ph = None
                else:
                    a = "ret is " + text(e, ph)
                groups.setdefault(a, []).append(patfacts(q, ph))
            vals = vals or sorted(groups)
            for a, sets in sorted(groups.items()):
                if a.startswith("ret is "):
                    # a value compared with another one that may be returned in its place
                    r = a[7:]
                    sets = [frozenset(x for x in s if not (x[0][1] == "b" and (x[0][0].startswith(r + " == ") or x[0][0].endswith(" == " + r)))) for s in sets]
                for c in guards(sets):
                    res.append((a, cltext(c)))
            if len(groups) <= 8:
                for a in sorted(groups):
                    if not a.startswith("ret == "):
                        continue
                    here = set().union(*groups[a])
                    for b in sorted(groups):
                        if b == a or not b.startswith("ret == "):
                            continue
                        ok = {}
                        for s in groups[b]:
                            # decisive on its own: whatever else was tested first would have decided the same way
                            rest = [y for y in s if (y[0], not y[1]) in here]
                            for x in s:
                                if x not in here:
                                    ok[x] = ok.get(x, True) and all(y == x or y[0] == x[0] for y in rest)
                        for x in sorted((x for x in ok if ok[x]), key=str)[:16]:
                            res.append((a, "~" + lit(x)))
        cl = clause([[re.sub(r"\$p\d+", "_", a)] for a in vals or ()])
        if cl and not cl.startswith("ret is _") and len(vals) <= 30:
            res.append(("ret", cl))
    if rets and f.rt != "void":
        with budget(60):
            returns()
    # merge clauses with the same effect
    out = {}
    for at, c in res:
        l = out.setdefault(at, [])
        if c not in l:
            l.append(c)
    for at, l in out.items():
        sets = [set(c.split(" || ")) for c in l]
        out[at] = [c for j, c in enumerate(l) if not any(sets[x] < sets[j] for x in range(len(l)) if x != j)]
        if at in ("ret", "iter"):
            # one exploration per obligation keeps the state space small
            pass
    res = []
    for at, l in out.items():
        if at in ("ret", "iter"):
            by = {}
            for c in l:
                m = re.search(r"\+(.*?)( \|\| |$)", c)
                x = re.match(r"-(.*?) \|\| ", c)
                by.setdefault((m.group(1) if m else "", x.group(1) if x and at == "iter" else ""), []).append(c)
            res += [(at, x) for x in by.values()]
        else:
            res.append((at, l))
    return res


def ctrl(M, b):
    """branches block b depends on (directly)."""
    if not hasattr(M, "cd"):
        f = M.f
        m = Collect(f, ("ret", None), {}, set(), None)
        ex = Explorer(f, m, relevant=m.relevant, limit=10)
        if getattr(ex, "_ipd", None) is None:
            ex._relevant_branches()
        n = len(f.blocks)
        M.cd = {}
        for c in range(n):
            if not f.blocks[c] or f.blocks[c][-1].op not in ("br", "switch"):
                continue
            stop = ex._ipd.get(c)
            for s in f.succs(c):
                x, seen = s, set()
                while x != stop and x is not None and x != n and x not in seen:
                    seen.add(x)
                    if x != c:
                        M.cd.setdefault(x, set()).add(c)
                    x = ex._ipd.get(x)
    return M.cd.get(b, ())


def away(f, eb, M):
    """facts tested inside a loop after which none of the blocks eb can be reached any more."""
    out = set()
    if not hasattr(M, "edges"):
        M.edges = []
        for b in range(len(f.blocks)):
            if not f.blocks[b] or f.blocks[b][-1].op != "br" or f.inner(b) is None:
                continue
            i = f.blocks[b][-1]
            if i.x[1] == i.x[2]:
                continue
            e = f.expr(i.x[0])
            # decided by nothing else in the loop, or a reordered conjunction would test it elsewhere
            body = f.loops()[0][f.inner(b)]
            if not all(c not in body or any(y not in body for y in f.succs(c)) for c in ctrl(M, b)):
                continue
            for s, r in ((i.x[1], TRUE), (i.x[2], FALSE)):
                fs = patfacts([(rr, (), k) for k, rr in expand(e, r)], None)
                if fs and len(fs) == 1:
                    M.edges.append((b, s, next(iter(fs)), f.reach_from(s) | {s}))
    bad = set()
    for b, s, x, re_ in M.edges:
        if eb & re_:
            bad.add(x)
    for b, s, x, re_ in M.edges:
        # the effect is behind the loop: guards inside the same iteration are stated anyway
        if x not in bad and x[0][1] is not None and any(y in f.reach_from(b) for y in eb):
            out.add(x)
    return sorted(out, key=str)[:8]


def every(f, h):
    """a call made in every iteration of loop h."""
    body = f.loops()[0][h]
    latches = [s for s, d in f.loops()[1] if d == h]
    for b, ii, i in f.instrs():
        if i.op == "call" and b in body and f.inner(b) == h and i.callee() and re.match(r"\w+$", i.callee()) and i.callee() not in NOISE_CALL \
                and all(f.dominates(b, x) for x in latches):
            return i.callee() + "(...)"
    return None


def driver(f, h, blocks, name):
    """a call made in every iteration of loop h that reaches one of the blocks: it identifies the loop."""
    body = f.loops()[0][h]
    for b, ii, i in f.instrs():
        if i.op == "call" and b in body and f.inner(b) == h and i.callee() and re.match(r"\w+$", i.callee()) and i.callee() != name \
                and i.callee() not in NOISE_CALL and all(f.dominates(b, x) for x in blocks):
            t = text(("call", i.callee(), tuple(f.expr(a) for a in i.args()), i.id))
            others = [b2 for b2, _, j in f.calls(i.callee()) if f.inner(b2) != h]
            if not others:
                return t
    return None


def mine_loops(model, cfg, fn, inline, tu):
    f = model.view(cfg, fn, inline, tu)
    rows = []
    cand = set()
    for b, ii, i in f.instrs():
        if i.op != "phi":
            continue
        x = ("phi", i.id)
        es = [f.expr(v) for v, _ in i.x[0]]
        # lists
        for e in es:
            if e[0] == "ld" and e[1][0] == "fld" and e[1][1] == x:
                st = e[1][2].split(".")[-1]
                ini = sorted({text(y) for y in es if y != e and x[1] not in deps(y)})
                if ini and all(not trivial(t) for t in ini) and re.match(r"\w+$", st):
                    rows.append(("list", st, ini))
        inc = [e for e in es if e[0] == "bin" and e[1] == "add" and e[2] == x and e[3][0] == "c"]
        init = [e for e in es if x[1] not in deps(e)]
        if not inc or not init:
            continue
        for e in init:
            cand.add(text(e if not (e[0] == "bin" and e[1] == "add" and e[3][0] == "c") else e[2]))
        for b2, _, t in f.instrs():
            if t.op == "cmp":
                for y in (f.expr(t.x[1]), f.expr(t.x[2])):
                    if x[1] in deps(f.expr(t.x[1])) or x[1] in deps(f.expr(t.x[2])):
                        if x[1] not in deps(y):
                            if y[0] == "bin" and y[1] == "add" and y[3][0] == "c":
                                y = y[2]
                            cand.add(text(y))
    for bound in sorted(cand):
        if trivial(bound):
            continue
        done = False
        for start in (0, 1, 2):
            for last in (-1, 0, -2):
                k = Checker("gen", model, "quick")
                try:
                    k.loops(fn, bound, start=start, last=last, inline=inline, tu=tu, cfg=cfg, min=1)
                except Timeout:
                    raise
                except Broken:
                    continue
                if not k.reports and not k.lost and not done:
                    rows.append(("loop", bound, start, last))
                    done = True
    return rows


def lhs(b, name):
    if b.startswith("&"):
        return b[1:] + "." + name
    if re.match(r"[\w$@]", b):
        return b + "->" + name
    return "(" + b + ")->" + name


def tidy(atoms):
    """variables used once become wildcards; drop what that empties."""
    alltext = " ".join(atoms)
    for v in set(re.findall(r"\$p\d+", alltext)):
        if len(re.findall(re.escape(v) + r"\b", alltext)) == 1:
            atoms = [re.sub(re.escape(v) + r"\b", "_", a) for a in atoms]
    return [a for a in atoms if not re.match(r"\$\w+ is _$", a)]


def clause(alts):
    seen = []
    for a in alts:
        if not [x for x in a if x != "ret is _"]:
            return None                    # an unconditional alternative
        s = " && ".join(a)
        if s not in seen:
            seen.append(s)
    # absorption between alternatives
    sets = [set(s.split(" && ")) for s in seen]
    keep = [s for j, s in enumerate(seen) if not any(sets[x] < sets[j] for x in range(len(seen)) if x != j)]
    if len(keep) > 60:
        return None
    return " || ".join(keep)


# ------------------------------------------------------------------ generation
def verify(model, cfg, fn, inline, tu, at, need, limit=12000):
    """does the rule hold on the reference tree, and how big is it?"""
    k = Checker("gen", model, "quick")
    t = (cfg, fn, at, need, inline, tu, 1, "", (), "gen", True, limit)
    try:
        r = k._run(t)
    except Timeout:
        raise
    except Broken as e:
        return None, str(e)
    if isinstance(r, str):
        return None, r
    return (not r[5]), r


_G = {}


def _gen1(a):
    cfg, fn, opt = a
    model = _G["model"]
    inline = opt.get("inline", "").split()
    tu = opt.get("tu")
    f = model.view(cfg, fn, inline, tu, required=False)
    if f is None:
        return (cfg, fn, None, [])
    out, log = [], []
    try:
        cs = mine(model, cfg, fn, opt.get("want", "*").split(), inline, tu, opt.get("rets", True), opt.get("must", True), opt.get("limit", 6000))
    except RecursionError:
        return (cfg, fn, [], ["recursion"])
    for at, cls in cs:
        left = list(cls)
        for _ in range(4):
            ok, r = None, "time"
            with budget(90):
                ok, r = verify(model, cfg, fn, inline, tu, at, left)
            if ok is not False:
                break
            badt = {x[2][len("reached without: "):] for x in r[5]}
            log.append("%s/%s at %s: %d of %d dropped" % (fn, cfg, at, len(badt), len(left)))
            left = [c for c in left if c not in badt]
            if not left:
                break
        if ok and left:
            out.append((at, left, r[1]))
        elif ok is None:
            log.append("%s/%s at %s: %s" % (fn, cfg, at, r))
    for r in mine_loops(model, cfg, fn, inline, tu):
        if r[0] == "list":
            k = Checker("gen", model, "quick")
            k.lists(fn, r[1], r[2], inline=inline, tu=tu, cfg=cfg)
            if not k.reports and not k.lost:
                out.append((r, ["list"], 0))
        else:
            out.append((r, ["loop"], 0))
    return (cfg, fn, out, log)


DROP = r"Print|print|Verify|verify|debug|Debug|Dump|PrettyPrint|_pcl|TSTP|tstp|^main$|usage|Stats|^Is[A-Z]|^Default\w+Alloc$"


def expand_scope(model, scope):
    """SCOPE entries: (function, options), "FILE" (all its functions), "FILE !regex" (without), "FILE regex" (only), "callers NAMES" (with those effects only)."""
    out, seen = [], set()

    def add(fn, tu, opt):
        if (fn, tu) not in seen:
            seen.add((fn, tu))
            o = dict(opt)
            p = model.progs["ho"]
            q = model.progs["fo"]
            if tu and any((g.tu != tu) for pr in (p, q) for g in pr.byname.get(fn, ()) if not g.inline):
                o["tu"] = tu
            out.append((fn, o))
    for e in scope:
        if not isinstance(e, str):
            fn, opt = e
            add(fn, opt.get("tu"), opt)
            continue
        w = e.split()
        if w[0] == "callers":
            names = set(w[1:])
            want = " ".join(w[1:])
            found = set()
            for c, p in model.progs.items():
                for (tu, n), f in p.fns.items():
                    if not f.inline and n not in names and names & set(f.raw_callees()) and not tu.startswith(("SIMPLE_APPS", "EXTERNAL")):
                        found.add((tu, n))
            for tu, n in sorted(found):
                if (n, tu) not in seen:
                    add(n, tu, {"want": want, "rets": False})
            continue
        pat = w[1] if len(w) > 1 else None
        found = {}
        for c, p in model.progs.items():
            for (tu, n), f in p.fns.items():
                if (f.file != w[0] or n in found) if w[0].endswith(".h") else (tu != w[0] or f.inline):
                    continue
                if pat and pat[0] == "!":
                    if re.search(pat[1:], n) or re.search(DROP, n):
                        continue
                elif pat:
                    if not re.search(pat, n):
                        continue
                elif re.search(DROP, n):
                    continue
                found[n] = f.line
        if not found:
            print("no functions for", e)
        for n in sorted(found):
            add(n, None if w[0].endswith(".h") else w[0], {})
    return out


def generate(pid, model, scope):
    scope = expand_scope(model, scope)
    import multiprocessing as mp
    _G["model"] = model
    todo = []
    twin = set()
    for fn, opt in scope:
        cs = opt.get("cfg", "fo ho").split()
        vs = [model.view(c, fn, opt.get("inline", "").split(), opt.get("tu"), required=False) for c in cs]
        if len(vs) == 2 and None not in vs and sameir(*vs):
            cs = ["ho"]
            twin.add((fn, opt.get("tu"), opt.get("inline", "")))
        for c in cs:
            todo.append((c, fn, opt))
    todo.sort(key=lambda t: -len(getattr(model.view(t[0], t[1], t[2].get("inline", "").split(), t[2].get("tu"), required=False), "blocks", ())))
    with mp.get_context("fork").Pool(8) as pool:
        res = pool.map(_gen1, todo, chunksize=1)
    byf = {}
    log = []
    for (cfg, fn, out, lg), (c, _, opt) in zip(res, todo):
        log += lg
        if out is None:
            log.append("%s: no such function in %s" % (fn, cfg))
            continue
        for at, c, n in out:
            if not isinstance(at, str):
                at = json.dumps(at)
            e = byf.setdefault((fn, opt.get("tu"), opt.get("inline", ""), at, tuple(c)), [[], 0])
            e[0] += ["fo", "ho"] if (fn, opt.get("tu"), opt.get("inline", "")) in twin else [cfg]
            e[1] = max(e[1], n)
    rows = []
    for (fn, tu, inl, at, c), (cfgs, n) in byf.items():
        if c == ("list",):
            x = json.loads(at)
            r = {"fn": fn, "list": x[1], "init": x[2]}
        elif c == ("loop",):
            x = json.loads(at)
            r = {"fn": fn, "loop": x[1], "start": x[2], "last": x[3]}
        else:
            r = {"fn": fn, "at": at, "need": list(c)}
        if tu:
            r["tu"] = tu
        if inl:
            r["inline"] = inl
        if sorted(cfgs) != ["fo", "ho"]:
            r["cfg"] = sorted(cfgs)[0]
        r["_n"] = n
        rows.append(r)
    rows.sort(key=lambda r: (r["fn"], r.get("at", "~"), json.dumps(r)))
    return rows, log


def path_of(pid):
    return os.path.join(VERIF, "rules", "contracts", pid + ".json")


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(20000)
    import check
    from dev import cached
    model = cached()
    if sys.argv[1] == "show":
        cfg = "ho"
        a = sys.argv[2:]
        if a[0] in ("fo", "ho"):
            cfg = a.pop(0)
        for at, cls in mine(model, cfg, a[0], ["*"], a[1:]):
            ok, r = verify(model, cfg, a[0], a[1:], None, at, cls)
            print("%-6s at %s" % ("ok %d" % r[1] if ok else "ALARM" if ok is False else r, at))
            for c in cls:
                print("          ", c)
            if ok is False:
                for x in r[5][:1]:
                    print("        ", x[1], x[2], x[3][:1500].replace("\n", "\n          "))
        sys.exit()
    for pid in sys.argv[2:]:
        m = check.load_rules(pid)
        rows, log = generate(pid, model, m.SCOPE)
        os.makedirs(os.path.dirname(path_of(pid)), exist_ok=True)
        tot = sum(r["_n"] for r in rows)
        big = sorted(rows, key=lambda r: -r["_n"])[:4]
        print("%s: %d clauses, %d states; largest: %s" % (pid, len(rows), tot, [(r["fn"], r.get("at"), r["_n"]) for r in big]))
        for r in rows:
            del r["_n"]
        with open(path_of(pid), "w") as f:
            f.write("[\n" + ",\n".join(json.dumps(r) for r in rows) + "\n]\n")
        if "-v" in sys.argv or True:
            for l in log:
                print("   ", l)
