"""Rule engine: path rules over (inlined) function graphs, reports and evidence."""
import time, re
import facts as facts_mod
from facts import *


# ------------------------------------------------------------------ views: inlined + promoted functions
def promote(f):
    """mem2reg for allocas that are only loaded and stored (they appear once helpers are inlined)."""
    uses = {}
    bad = set()
    als = set()
    for b, ii, i in f.instrs():
        if i.op == "alloca":
            als.add(i.id)
    if not als:
        return f
    def note(o, kind):
        if isinstance(o, list):
            note(o[1], "addr")
            for p in o[2]:
                if not isinstance(p, str):
                    note(p[0], "addr")
            return
        if isinstance(o, str) and o.startswith("%"):
            n = int(o[1:])
            if n in als and kind != "ls":
                bad.add(n)
    for b, ii, i in f.instrs():
        if i.op == "load":
            note(i.x[0], "ls")
        elif i.op == "store":
            note(i.x[0], "val")
            note(i.x[1], "ls")
        else:
            for o in operands(i):
                note(o, "x")
    good = als - bad
    # element type must be scalar: only direct loads/stores are left, so it is
    if not good:
        return f
    nid = [max([i.id for _, _, i in f.instrs()] + [len(f.params)]) + 1]
    blocks = f.blocks
    newb = [list(b) for b in blocks]
    reach = {0}
    st = [0]
    while st:
        x = st.pop()
        for s in f.succs(x):
            if s not in reach:
                reach.add(s); st.append(s)
    names = dict(f.names)
    repl = {}

    def R(o):
        if isinstance(o, list):
            return [o[0], R(o[1]), [p if isinstance(p, str) else [R(p[0]), p[1]] for p in o[2]]]
        if isinstance(o, str) and o.startswith("%"):
            n = int(o[1:])
            seen = 0
            while n in repl and seen < 1000:
                v = repl[n]
                seen += 1
                if isinstance(v, str) and v.startswith("%"):
                    n = int(v[1:])
                else:
                    return v
            return "%%%d" % n
        return o
    for a in sorted(good):
        key = "%%%d" % a
        # live-in blocks
        gen, kill = set(), set()
        for b in reach:
            k = False
            for i in newb[b]:
                if i.op == "load" and i.x[0] == key and not k:
                    gen.add(b)
                if i.op == "store" and i.x[1] == key:
                    k = True
            if k:
                kill.add(b)
        live = set(gen)
        work = list(gen)
        while work:
            b = work.pop()
            for p in f.preds[b]:
                if p in reach and p not in live and p not in kill:
                    live.add(p); work.append(p)
        phis = {}
        for b in reach:
            if b in live and len([p for p in f.preds[b] if p in reach]) >= 2:
                phis[b] = nid[0]
                nid[0] += 1
                if a in names:
                    names[phis[b]] = names[a]
        out = {}
        # process in RPO with memo: value at block entry
        def entry(b, stack=()):
            while True:
                if b in phis:
                    return "%%%d" % phis[b]
                ps = [p for p in f.preds[b] if p in reach]
                if not ps or b == 0:
                    return "undef"
                p = ps[0]
                if p in out_store:
                    return out_store[p]
                b = p
        out_store = {}
        for b in reach:
            for i in newb[b]:
                if i.op == "store" and i.x[1] == key:
                    out_store[b] = i.x[0]
        for b in reach:
            cur = None
            res = []
            for i in newb[b]:
                if i.op == "load" and i.x[0] == key:
                    if cur is None:
                        cur = entry(b)
                    repl[i.id] = cur
                    continue
                if i.op == "store" and i.x[1] == key:
                    cur = i.x[0]
                    continue
                if i.op == "alloca" and i.id == a:
                    continue
                res.append(i)
            newb[b] = res
        for b, pid in phis.items():
            inc = []
            for p in f.preds[b]:
                if p in reach:
                    v = out_store[p] if p in out_store else entry(p)
                    inc.append([v, p])
            newb[b].insert(0, I(pid, 0, "phi", (inc,), blocks[b][0].src if blocks[b] else None))
    # apply replacements and drop trivial phis
    changed = True
    while changed:
        changed = False
        for b in reach:
            for i in newb[b]:
                if i.op != "phi":
                    continue
                if i.id in repl:
                    continue
                vs = {R(v) if not isinstance(v, list) else json.dumps(R(v)) for v, _ in i.x[0]}
                vs.discard("%%%d" % i.id)
                if len(vs) == 1 and i.line == 0:
                    v = vs.pop()
                    if isinstance(v, str) and not v.startswith("["):
                        repl[i.id] = v
                        changed = True
    fin = []
    for b in range(len(newb)):
        o = []
        for i in newb[b]:
            if i.op == "phi" and i.id in repl:
                continue
            o.append(_repl_instr(i, R))
        fin.append(o)
    g = f.clone_shell()
    g.blocks = fin
    g.names = names
    g._reset()
    return g


def _repl_instr(i, r):
    op, x = i.op, i.x
    if op == "call":
        nx = (r(x[0]), [r(a) for a in x[1]]) + tuple(x[2:])
    elif op == "gep":
        nx = (r(x[0]), [p if isinstance(p, str) else [r(p[0]), p[1]] for p in x[1]])
    elif op == "load":
        nx = (r(x[0]), x[1])
    elif op == "store":
        nx = (r(x[0]), r(x[1]), x[2])
    elif op == "phi":
        nx = ([[r(v), b] for v, b in x[0]],)
    elif op in ("cmp", "bin"):
        nx = (x[0], r(x[1]), r(x[2]))
    elif op == "cast":
        nx = (x[0], r(x[1]), x[2], x[3])
    elif op == "select":
        nx = (r(x[0]), r(x[1]), r(x[2]))
    elif op == "br":
        nx = (r(x[0]), x[1], x[2])
    elif op == "switch":
        nx = (r(x[0]), x[1], x[2])
    elif op == "ret":
        nx = (None if x[0] is None else r(x[0]),)
    elif op == "extract":
        nx = (r(x[0]), x[1])
    elif op == "insert":
        nx = (r(x[0]), r(x[1]))
    elif op == "other":
        nx = (x[0], [r(a) for a in x[1]])
    else:
        return i
    return I(i.id, i.line, op, nx, i.src)


_baseline = None


def baseline():
    """{unit: {function: [param types]}} of the reference tree: anything else is a new helper and gets inlined."""
    global _baseline
    if _baseline is None:
        with open(os.path.join(VERIF, "rules", "functions.json")) as f:
            _baseline = json.load(f)
    return _baseline


class Model:
    """All configurations, with views."""

    def __init__(self, progs):
        self.progs = progs
        base = baseline()
        self.refnorm = {}
        p = os.path.join(VERIF, "rules", "norm.json")
        if os.path.exists(p) and not os.environ.get("VERIF_NOFILTER"):
            with open(p) as f:
                self.refnorm = json.load(f)
        self.allnames = set()
        for tu in base:
            self.allnames |= set(base[tu])
        for p in progs.values():
            p.views = {}
            p.renamed = {}
            p.newfns = {k for k in p.fns if k[1] not in self.allnames}
            self._renames(p, base)

    def _renames(self, p, base):
        """a vanished file-local function whose signature and callers match one new function of the unit is that function renamed."""
        for tu, fns in base.items():
            gone = [n for n in fns if n not in p.byname and (tu in p.tus) and fns[n][0] and p.cfg in fns[n][4]]
            if not gone:
                continue
            new = [k for k in p.newfns if k[0] == tu]
            for n in gone:
                sig = fns[n][1]
                cand = [k for k in new if [t for _, t in p.fns[k].params] == sig and p.fns[k].rt == fns[n][2]]
                if len(cand) > 1:
                    cand = [k for k in cand if sorted(p.fns[k].raw_callees()) == sorted(fns[n][3])]
                if len(cand) == 1:
                    f = p.fns[cand[0]]
                    p.renamed[n] = f.name
                    p.newfns.discard(cand[0])

    def same(self, cfg, f):
        """has the function the normal form it has in the reference tree (where every rule was established)?"""
        ref = self.refnorm.get(cfg, {}).get(f.tu, {}).get(f.name)
        if ref == "":
            ref = self.refnorm["fo"].get(f.tu, {}).get(f.name)
        cur = NORM.get(cfg, {}).get(f.tu, {}).get(f.name)
        return bool(ref and cur and cur.startswith(ref))

    def unchanged(self, cfg, name, inline=(), tu=None):
        """same() for the function and everything its view inlines."""
        p = self.progs[cfg]
        f = p.fn(p.renamed.get(name, name), tu)
        if f is None or not self.same(cfg, f):
            return False
        for n in inline:
            g = p.fn(p.renamed.get(n, n), None)
            if g is not None and not self.same(cfg, g):
                return False
        return True

    def view(self, cfg, name, inline=(), tu=None, required=True):
        p = self.progs[cfg]
        key = (name, tu, tuple(sorted(inline)))
        if key in p.views:
            return p.views[key]
        f = p.fn(p.renamed.get(name, name), tu)
        if f is None:
            if required:
                raise Broken("anchor function %s is gone (%s)" % (name, cfg))
            return None
        inl = {p.renamed.get(x, x) for x in inline}
        g = p.inline(f, lambda h: h.name in inl or (h.tu, h.name) in p.newfns)
        g = promote(g)
        p.views[key] = g
        return g


# ------------------------------------------------------------------ rules
class Atom:
    """'cond' | '+event' | '-event' | '+event / reset'"""

    def __init__(self, s, prog):
        self.s = s = s.strip()
        self.reset = None
        if s.startswith(("+", "-")):
            self.kind = s[0]
            body = s[1:]
            if " / " in body:
                body, r = body.split(" / ")
                self.reset = [Event(x, prog) for x in r.split(" , ")]
            self.ev = Event(body, prog)
        elif s.startswith("~"):
            self.kind = "n"
            self.pc = pcond(s[1:], prog)
        elif re.match(r"\$\w+ is ", s):
            self.kind = "V"
            self.var, e = re.match(r"\$(\w+) is (.*)$", s).groups()
            self.p = pexpr(e, prog)
        elif s.startswith("ret is "):
            self.kind = "R"
            self.p = pexpr(s[7:], prog)
        elif s.startswith("ret ") or s.startswith("ret="):
            self.kind = "r"
            m = re.match(r"ret\s*(==|!=|>=|<=)\s*(.+)$", s)
            if not m:
                raise Broken("bad ret atom " + s)
            c = PP(m.group(2), prog.enumval).e().v
            self.rel = {"==": ("eq", c), "!=": ("ne", c), ">=": ("ge", c), "<=": ("le", c)}[m.group(1)]
        else:
            self.kind = "f"
            self.pc = pcond(s, prog)


class Event:
    """'f(args)' (call), 'lhs := rhs' (store), 'load lvalue'"""

    def __init__(self, s, prog):
        s = s.strip()
        self.s = s
        if s.startswith("load "):
            self.kind = "load"
            self.l = pexpr(s[5:], prog)
            if self.l.t != "ld":
                raise Broken("load pattern needs an lvalue: " + s)
            self.l = self.l.sub[0]
        elif ":=" in s:
            l, r = s.split(":=")
            self.kind = "store"
            self.l, self.r = pexpr(l, prog), pexpr(r, prog)
            if self.l.t != "ld":
                raise Broken("store pattern needs an lvalue: " + s)
            self.l = self.l.sub[0]
        else:
            self.kind = "call"
            self.p = pexpr(s, prog)
            if self.p.t != "call":
                raise Broken("call pattern expected: " + s)

    def pre(self, i):
        if self.kind == "call":
            return i.op == "call" and i.callee() in self.p.v
        return i.op == self.kind

    def prefn(self, fn, i):
        """could match structurally (ignoring aliases)?"""
        if not self.pre(i):
            return False
        if self.kind == "call":
            return True
        a = fn.expr(i.x[1] if self.kind == "store" else i.x[0])
        if self.l.t == "fld":
            return a[0] == "fld" and a[2].split(".")[-1] == self.l.v
        if self.l.t == "g":
            return a == ("g", self.l.v)
        if self.l.t == "ix":
            return a[0] == "ix"
        if self.l.t in ("a", "var", "call"):
            return a[0] not in ("fld", "g", "ix", "al")
        return True

    def match(self, i, cx, env):
        fn, ex = cx.fn, cx.ex
        if self.kind == "call":
            if i.op != "call" or i.callee() not in self.p.v:
                return None
            e = ("call", i.callee(), tuple(ex.rdeep(fn.expr(a), cx.env) for a in i.args()), i.id)
            e2 = dict(env)
            return e2 if match(self.p, e, e2) else None
        if i.op != self.kind or not self.prefn(fn, i):
            return None
        e2 = dict(env)
        if self.kind == "load":
            return e2 if match(self.l, ex.rdeep(fn.expr(i.x[0]), cx.env), e2) else None
        if match(self.l, ex.rdeep(fn.expr(i.x[1]), cx.env), e2) and match(self.r, ex.rdeep(fn.expr(i.x[0]), cx.env), e2):
            return e2
        return None


def parse_need(s, prog):
    """'a || b && c || +ev' -> list of alternatives, each a list of Atoms"""
    alts = []
    for a in s.split(" || "):
        alts.append([Atom(x, prog) for x in a.split(" && ")])
    return alts


class PathMachine(Machine):
    copy = True

    def __init__(self, fn, at, needs, rule):
        super().__init__()
        self.fn, self.rule = fn, rule
        self.prog = fn.prog
        self.at = at                      # Event or ('ret', Atom or None)
        self.needs = needs                # [(text, alts)]
        self.atoms = []
        seen = {}
        for _, alts in needs:
            for alt in alts:
                for n, a in enumerate(alt):
                    if a.s in seen:
                        alt[n] = seen[a.s]
                        continue
                    seen[a.s] = a
                    a.idx = len(self.atoms)
                    self.atoms.append(a)
        self.facts = [a for a in self.atoms if a.kind in "fn" and a.pc[0].t != "var"]
        self.iter = isinstance(at, tuple) and at[0] == "iter"
        if self.iter:
            self.loopsof, self.back = fn.loops()
            # iterations are counted from one call of the driver to the next, so the driver may stand in the loop's head or at its end
            xs = {alts[0][0].s for _, alts in needs if alts and len(alts[0]) == 1 and alts[0][0].kind == "-"}
            self.driver = None
            if len(xs) == 1 and needs and all(alts[0][0].s in xs for _, alts in needs):
                self.driver = next(a for a in self.atoms if a.s in xs)
                xb = {b for b, _, i in fn.instrs() if self.driver.ev.prefn(fn, i)}
                self.xloops = [body for body in self.loopsof.values() if body & xb]
        self.events = [a for a in self.atoms if a.kind in "+-"]
        self.hits = {}                    # effect instruction -> ok?
        self.nchecks = 0
        self.web = None
        self.strict = rule.startswith(("contract", "gen"))

    def relevant(self, i):
        if isinstance(self.at, Event):
            if self.at.prefn(self.fn, i):
                return True
        elif i.op == "ret":
            return True
        elif self.at[0] == "choose" and i.op == "phi":
            if self.web is None:
                self.web = self._web()
            if i.id in self.web:
                return True
        return any(a.ev.pre(i) and a.ev.prefn(self.fn, i) or (a.reset and any(r.prefn(self.fn, i) for r in a.reset)) for a in self.events)

    def factrel(self, key):
        """could a branch on key establish a fact some clause asks for?"""
        for k, _ in expand(key, TRUE) + expand(key, FALSE):
            for a in self.facts:
                if match(a.pc[0], k, {}):
                    return True
        return False

    def init(self):
        return frozenset()

    def _addfacts(self, q, facts, cx):
        new = None
        tag = (cx.block,) if self.iter else ()
        for k, r in facts:
            for a in self.facts:
                e2 = {}
                if match(a.pc[0], k, e2):
                    sat = fact_satisfies((k, r), a.pc, {})
                    if sat is not None:
                        new = new if new is not None else set(q)
                        if a.kind == "n":
                            new.add((a.idx, (), None) + tag)
                            continue
                        new.add((a.idx, _ft(sat), k) + tag)
                        if k[0] == "eq2":          # the other way round
                            sat = fact_satisfies((("eq2", k[2], k[1]), r), a.pc, {})
                            if sat is not None:
                                new.add((a.idx, _ft(sat), k) + tag)
                    elif a.kind != "n" and implies(r, neg(a.pc[1])):
                        # tested again with the opposite outcome
                        new = new if new is not None else set(q)
                        new = {t for t in new if t[0] != a.idx or t[2] != k}
        return frozenset(new) if new is not None else q

    def edge(self, q, facts, cx):
        ex = cx.ex
        if not self.facts:
            return q
        rf = []
        for k, r in facts:
            k2 = ex.rdeep(k, cx.env)
            rf.append((k, r))
            if k2 != k:
                rf += expand(k2, r)
        return self._addfacts(q, rf, cx)

    def _web(self):
        """phis that feed the return value through phis only."""
        w, todo = set(), []
        for b, ii, i in self.fn.instrs():
            if i.op == "ret" and i.x[0] is not None:
                todo.append(self.fn.expr(i.x[0]))
        while todo:
            e = todo.pop()
            if e[0] == "phi" and e[1] not in w:
                w.add(e[1])
                todo += [self.fn.expr(v) for v, _ in self.fn.defs[e[1]][2].x[0]]
        return w

    def _choose(self, q, ids, src, dst, cx):
        if self.web is None:
            self.web = self._web()
        for i in self.fn.blocks[dst]:
            if i.op == "phi" and i.id in self.web:
                for v, pb in i.x[0]:
                    if pb == src:
                        e = cx.ex.rdeep(self.fn.expr(v), cx.env)
                        if e[0] not in ("phi", "c", "ophi", "oophi") and self.fn.expr(v)[0] != "phi":
                            self._check(q, self.fn.blocks[src][-1], cx, {"ret": e}, (None, e))

    def phis(self, q, ids, src, dst, cx, frozen):
        if self.at[0] == "choose" if isinstance(self.at, tuple) else False:
            self._choose(q, ids, src, dst, cx)
        if not q:
            return q
        K = set(ids)
        out = []
        old, promote, new = frozen
        if self.copy:
            # what is known about a value is known about the variable it is assigned to
            inc = []
            for i in self.fn.blocks[dst]:
                if i.op != "phi":
                    break
                for v, pb in i.x[0]:
                    if pb == src:
                        e = self.fn.expr(v)
                        if e[0] in ("ld", "call", "bin", "a", "phi") and e not in (x for x, _ in inc):
                            inc.append((e, i.id))
                            e2 = cx.ex.rdeep(e, cx.env)
                            if e2 != e:
                                inc.append((e2, i.id))
            for e, x in inc:
                for t in q:
                    if t[2] is not None and _in(e, t[2]):
                        k = _sub(t[2], e, ("nphi", x))
                        ev = tuple((n, _sub(y, e, ("nphi", x))) for n, y in t[1])
                        if not (deps(k) & K or any(deps(y) & K for _, y in ev) or facts_mod._any_old(k)):
                            out.append((t[0], tuple((n, _sub(y, ("nphi", x), ("phi", x))) for n, y in ev), _sub(k, ("nphi", x), ("phi", x))) + t[3:])
        for t in q:
            if t[1] and any(facts_mod._has_old(e, K, "oophi") for _, e in t[1]) or (t[2] is not None and facts_mod._has_old(t[2], K, "oophi")):
                if old:
                    out.append(t)
                continue
            if t[1] and any(facts_mod._has_old(e, K) for _, e in t[1]) or (t[2] is not None and facts_mod._has_old(t[2], K)):
                if promote:
                    out.append((t[0], tuple((n, freeze(e, K, "ophi", "oophi")) for n, e in t[1]), None if t[2] is None else freeze(t[2], K, "ophi", "oophi")) + t[3:])
                continue
            if self._d(t) & K:
                if new:
                    out.append((t[0], tuple((n, freeze(e, K)) for n, e in t[1]), None if t[2] is None else freeze(t[2], K)) + t[3:])
                continue
            out.append(t)
        return frozenset(out)

    def _drop(self, q, ids):
        if not q:
            return q
        out = [t for t in q if not (self._d(t) & ids)]
        return q if len(out) == len(q) else frozenset(out)

    _dc = {}

    def _d(self, t):
        r = self._dc.get(t)
        if r is None:
            r = set()
            if t[2] is not None:
                deps(t[2], r)
            for _, e in t[1]:
                deps(e, r)
            self._dc[t] = r
        return r

    def step(self, q, i, cx):
        # effect first (an event is not its own prerequisite, and facts about its previous execution still count)
        if isinstance(self.at, Event) and self.at.pre(i):
            e = self.at.match(i, cx, {})
            if e is not None:
                self._check(q, i, cx, e, None)
        if self.iter and self.driver is not None and self.driver.ev.pre(i) and self.driver.ev.match(i, cx, {}) is not None:
            # what the previous iteration left open is due before the next element is fetched
            for t in q:
                if t[0] < 0:
                    text, alts = self.needs[-1 - t[0]]
                    q2 = q | {(self.driver.idx, (), None, cx.block)}
                    if not any(self._alt(alt, q2, {}, cx, None) for alt in alts):
                        self.viol.append((text, {}, None))
            q = frozenset(t for t in q if t[0] >= 0)
        if i.id >= 0 and q:
            q = self._drop(q, {i.id})
        if i.op == "store" and q:
            tg = cx.fn.expr(i.x[1])
            ld = ("ld", tg)
            if tg[0] in ("fld", "g", "al"):
                q = frozenset(t for t in q if t[2] is None or not has_load(t[2], ld))
        if i.op == "call" and q:
            q = outkill(q, i, cx)
        if i.op == "ret" and self.iter:
            return q
        if i.op == "ret" and not isinstance(self.at, Event):
            if self.at[0] == "choose":
                e = cx.fn.expr(i.x[0])
                if e[0] not in ("c", "phi"):
                    self._check(q, i, cx, {"ret": e}, (None, e))
            else:
                self._ret(q, i, cx)
            return q
        for a in self.events:
            if a.reset:
                for r in a.reset:
                    if r.pre(i) and r.match(i, cx, {}) is not None:
                        q = frozenset(t for t in q if t[0] != a.idx)
            if a.ev.pre(i):
                e = a.ev.match(i, cx, {})
                if e is not None:
                    q = q | {(a.idx, _ft(e), None) + ((cx.block,) if self.iter else ())}
        return q

    def _ret(self, q, i, cx):
        at = self.at[1]
        e = cx.ex.rdeep(cx.fn.expr(i.x[0]), cx.env) if i.x[0] is not None else ("c", 0)
        for val, fl in retcases(e, cx, cx.fn):
            if fl and any(cx.ex.decide(k, r, cx.facts) is False for k, r in fl):
                continue
            env = {"ret": e} if e else {}
            if at is not None and at.kind == "R":
                if val is not None or not match(at.p, e, env):
                    continue
            elif at is not None:
                v = _relknown(val, e, at.rel, cx)
                if v is False or (v is None and self.strict):
                    continue
            q2 = self._addfacts(q, fl, cx) if fl else q
            self._check(q2, i, cx, env, (val, e))

    def _check(self, q, i, cx, env, ret):
        self.nchecks += 1
        k = (i.src, i.line, i.id)
        self.hits.setdefault(k, i)
        for text, alts in self.needs:
            if not any(self._alt(alt, q, dict(env), cx, ret) for alt in alts):
                self.viol.append((text, dict(env), ret))

    def trans(self, q, src, dst, cx):
        if self.driver is not None:
            if q and any(src in body and dst not in body for body in self.xloops):
                q = frozenset(t for t in q if t[0] >= 0)
            if (src, dst) not in self.back:
                return q
            body = self.loopsof[dst]
            q2 = frozenset(t for t in q if t[3] in body)
            if any(t[0] == self.driver.idx for t in q2):
                self.nchecks += 1
                i = self.fn.blocks[src][-1]
                self.hits.setdefault((i.src, i.line, i.id), i)
                pend = frozenset((-1 - n, (), None, dst) for n, (_, alts) in enumerate(self.needs)
                                 if not any(self._alt(alt, q2, {}, cx, None) for alt in alts))
            else:
                pend = frozenset()
            return frozenset(t for t in q if t[3] not in body and t[0] >= 0) | pend
        if (src, dst) not in self.back:
            return q
        body = self.loopsof[dst]
        self._check(frozenset(t for t in q if t[3] in body), self.fn.blocks[src][-1], cx, {}, None)
        return frozenset(t for t in q if t[3] not in body)

    def _alt(self, alt, q, env, cx, ret):
        if not alt:
            return True
        a, rest = alt[0], alt[1:]
        if a.kind == "n":
            for t in q:
                if t[0] == a.idx and _uni(dict(t[1]), env) is not None:
                    return False
            return self._alt(rest, q, env, cx, ret)
        if a.kind == "r":
            if ret is None or _relknown(ret[0], ret[1], a.rel, cx) is not True:
                return False
            return self._alt(rest, q, env, cx, ret)
        if a.kind == "R":
            e2 = dict(env)
            if ret is None or not match(a.p, ret[1], e2):
                return False
            return self._alt(rest, q, e2, cx, ret)
        if a.kind == "V":
            e2 = dict(env)
            if a.var not in env or not match(a.p, env[a.var], e2):
                return False
            return self._alt(rest, q, e2, cx, ret)
        if a.kind == "-":
            for t in q:
                if t[0] == a.idx and _uni(dict(t[1]), env) is not None:
                    return False
            return self._alt(rest, q, env, cx, ret)
        if a.kind == "f" and a.pc[0].t == "var":
            v = env.get(a.pc[0].v)
            if v is None:
                return False
            kk, rr = canon(v, a.pc[1])
            if cx.ex.decide(kk, rr, cx.facts) is True:
                return self._alt(rest, q, env, cx, ret)
            return False
        for t in q:
            if t[0] == a.idx:
                u = _uni(dict(t[1]), env)
                if u is not None and self._alt(rest, q, u, cx, ret):
                    return True
        if a.kind == "f":
            v = _inst(a.pc[0], env)
            if v is not None:
                kk, rr = canon(v, a.pc[1])
                if cx.ex.decide(kk, rr, cx.facts) is True:
                    return self._alt(rest, q, env, cx, ret)
        return False


def _in(x, e):
    return x == e or isinstance(e, tuple) and any(_in(x, y) for y in e if isinstance(y, tuple))


def _sub(e, x, y):
    if e == x:
        return y
    if not isinstance(e, tuple):
        return e
    return tuple(_sub(z, x, y) if isinstance(z, tuple) else z for z in e)


def outkill(q, i, cx):
    """a call that gets the address of a local variable ends what is known about its value."""
    for a in i.args():
        e = cx.fn.expr(a)
        if e[0] == "al":
            ld = ("ld", e)
            q = frozenset(t for t in q if t[2] is None or not has_load(t[2], ld))
    return q


def _inst(p, env):
    """instantiate simple patterns (eq2 / lt of bound vars, constants, args) to an expression."""
    def g(p):
        if p.t == "var":
            return env.get(p.v)
        if p.t == "c":
            return ("c", p.v)
        if p.t == "a":
            return ("a", p.v)
        return None
    if p.t in ("eq2", "lt"):
        a, b = g(p.sub[0]), g(p.sub[1])
        if a is None or b is None:
            return None
        if p.t == "eq2":
            return ("cmp", "eq", a, b)
        return ("cmp", "slt", a, b)
    return None


def retcases(e, cx, fn):
    """[(value or None, facts)] a returned expression stands for."""
    if e[0] == "c":
        return [(e[1], [])]
    if e[0] in ("cmp", "eq2", "lt") or (e[0] == "bin" and e[1] in ("xor", "and", "or") and fn.rt.lower() in ("_bool", "bool")) \
            or (fn.rty == "i1" or fn.rt in ("_Bool", "bool")):
        return [(1, expand(e, TRUE)), (0, expand(e, FALSE))]
    if e[0] == "sel":
        r = []
        for v, t in ((e[2], TRUE), (e[3], FALSE)):
            for val, fl in retcases(v, cx, fn):
                r.append((val, fl + expand(e[1], t)))
        return r
    return [(None, [])]


def _relknown(val, e, rel, cx):
    if val is not None:
        return holds(val, rel)
    k, r = canon(e, rel)
    return cx.ex.decide(k, r, cx.facts)


def _ft(env):
    return tuple(sorted(env.items()))


def _uni(a, b):
    r = dict(b)
    for k, v in a.items():
        if k in r:
            if r[k] != v:
                return None
        else:
            r[k] = v
    return r


class Report:
    def __init__(self, rule, where, text, detail):
        self.rule, self.where, self.text, self.detail = rule, where, text, detail

    def key(self):
        return (self.rule, self.where, self.text)


class Checker:
    """Collects rule instances and violations of one property."""

    def __init__(self, prop, model, tier):
        self.prop, self.model, self.tier = prop, model, tier
        self.quiet = False
        self.reports = {}
        self.counts = {"rules": 0, "functions": set(), "sites": 0, "paths": 0, "obligations": 0}
        self.samples = []
        self.notes = []
        self.tasks = []
        self.broken = []
        self.lost = []
        self._stale = {}

    def cfgs(self):
        return list(self.model.progs)

    def report(self, rule, where, text, detail=""):
        if self.quiet:
            return
        r = Report(rule, where, text, detail)
        self.reports.setdefault(r.key(), r)

    def covered(self, n=1, fn=None, site=None):
        self.counts["obligations"] += n
        if fn is not None:
            self.counts["functions"].add(fn)
        if site is not None:
            self.counts["sites"] += 1

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def path(self, fn, at, need, inline=(), tu=None, cfg=("fo", "ho"), min=1, why="", assume=(), name=None, optional=False,
             correlate=True, limit=200000):
        """On every path of fn reaching effect `at`, every clause of `need` holds."""
        if isinstance(need, str):
            need = [need]
        if isinstance(inline, str):
            inline = inline.split()
        cfgs = [cfg] if isinstance(cfg, str) else cfg
        self.counts["rules"] += 1
        rname = name or ("%s: at `%s`" % (fn, at))
        for c in cfgs:
            if c not in self.model.progs:
                continue
            prog = self.model.progs[c]
            gone = [w for w in set(re.findall(r"(\w+)\(", " ".join([at] + list(need)))) | set(inline) if self.stale(prog, w)]
            if self.stale(prog, fn, tu):
                gone.append(fn)
            # build the view here so that the forked workers share it
            f = self.model.view(c, fn, inline, tu, required=False) if not gone else None
            if f is None:
                if not optional:
                    self.lost.append("%s (%s): %s is gone or has another signature" % (rname, c, ", ".join(gone or [fn])))
                continue
            self.tasks.append((c, fn, at, need, inline, tu, min, why, assume, rname, correlate, limit))

    # ---- contracts
    def contracts(self):
        """the committed clauses of rules/contracts/<property>.json"""
        p = os.path.join(VERIF, "rules", "contracts", self.prop + ".json")
        if not os.path.exists(p):
            return
        rows = json.load(open(p))
        cached = {}
        same = {}
        for r in rows:
            cfgs = [r["cfg"]] if "cfg" in r else ["fo", "ho"]
            if len(cfgs) == 2 and len(self.model.progs) == 2 and "loop" not in r and "list" not in r:
                # the same code in both configurations is analysed once
                key = (r["fn"], r.get("tu"), r.get("inline", ""))
                if key not in same:
                    fs = [self.model.view(c, r["fn"], r.get("inline", "").split(), r.get("tu"), required=False) for c in cfgs]
                    same[key] = fs[0] is not None and fs[1] is not None and sameir(fs[0], fs[1])
                if same[key]:
                    cfgs = ["ho"]
            if "loop" in r:
                for c in cfgs:
                    self.loops(r["fn"], r["loop"], start=r["start"], last=r["last"], inline=r.get("inline", ""), tu=r.get("tu"), cfg=c, min=0,
                               name="contract %s: the loop up to %s covers every index" % (r["fn"], r["loop"]))
                continue
            if "list" in r:
                for c in cfgs:
                    self.lists(r["fn"], r["list"], r["init"], inline=r.get("inline", ""), tu=r.get("tu"), cfg=c, min=0,
                               name="contract %s: the traversal along ->%s starts at %s" % (r["fn"], r["list"], " or ".join(r["init"])))
                continue
            for c in cfgs:
                if c not in self.model.progs:
                    continue
                self.counts["rules"] += 1
                prog = self.model.progs[c]
                inl = tuple(r.get("inline", "").split())
                tu = r.get("tu")
                if self.stale(prog, r["fn"], tu):
                    self.lost.append("%s (%s): the function is gone or has another signature" % (r["fn"], c))
                    continue
                words = " ".join([r["at"]] + r["need"])
                gone = [w for w in set(re.findall(r"(\w+)\(", words)) if self.stale(prog, w)]
                if gone:
                    self.lost.append("%s at %s (%s): %s is gone or has another signature" % (r["fn"], r["at"], c, ", ".join(gone)))
                    continue
                key = (r["fn"], tu, inl, c)
                if key not in cached:
                    cached[key] = self.model.view(c, r["fn"], inl, tu, required=False)
                if cached[key] is None:
                    self.lost.append("%s (%s): no such function" % (r["fn"], c))
                    continue
                self.tasks.append((c, r["fn"], r["at"], r["need"], list(inl), tu, 0, "", (), "contract %s: at `%s`" % (r["fn"], r["at"]), True, 200000))

    def stale(self, prog, name, tu=None):
        """was name a function of the reference tree that is gone, or changed its parameters?"""
        key = (prog.cfg, name, tu)
        if key in self._stale:
            return self._stale[key]
        base = baseline()
        r = False
        for t, fns in base.items():
            if name in fns and (tu is None or t == tu):
                f = prog.fn(prog.renamed.get(name, name), tu)
                if f is None:
                    r = prog.cfg in fns[name][4]
                else:
                    r = len(f.params) != len(fns[name][1])
                break
        self._stale[key] = r
        return r

    # ---- loops
    def loops(self, fn, bound, start=0, last=-1, inline=(), tu=None, cfg=("fo", "ho"), min=1, name=None, down=True):
        """Every counting loop of fn that stops at `bound` visits start..bound+last, each index once (downward loops: the same range)."""
        if isinstance(inline, str):
            inline = inline.split()
        self.counts["rules"] += 1
        rname = name or "%s: loops up to %s cover every index" % (fn, bound)
        for c in ([cfg] if isinstance(cfg, str) else cfg):
            if c not in self.model.progs:
                continue
            prog = self.model.progs[c]
            f = self.model.view(c, fn, inline, tu, required=False)
            self.quiet = self.model.unchanged(c, fn, inline, tu)
            if f is None:
                self.lost.append("%s (%s): no such function" % (rname, c))
                continue
            bp = pexpr(bound, prog)
            n = 0

            def isbound(y):
                """offset d when y is bound + d"""
                if match(bp, y, {}):
                    return 0
                if y[0] == "bin" and y[1] in ("add", "sub") and y[3][0] == "c" and match(bp, y[2], {}):
                    return y[3][1] if y[1] == "add" else -y[3][1]
                return None

            def thread(d, src, depth=0):
                """where control really goes: skip blocks that only branch on a phi that is constant for this edge."""
                blk = f.blocks[d]
                if depth > 4 or not blk or blk[-1].op not in ("br", "jmp") or any(j.op != "phi" for j in blk[:-1]):
                    return d
                if blk[-1].op == "jmp":
                    return d
                e = f.expr(blk[-1].x[0])
                for j in blk[:-1]:
                    if e == ("phi", j.id):
                        for v, pb in j.x[0]:
                            if pb == src and f.expr(v)[0] == "c":
                                return thread(blk[-1].x[1] if f.expr(v)[1] else blk[-1].x[2], d, depth + 1)
                return d
            for b, ii, i in f.instrs():
                if i.op != "phi":
                    continue
                x = ("phi", i.id)
                inc, init, latches = [], [], []
                for v, pb in i.x[0]:
                    ve = f.expr(v)
                    if i.id in deps(ve):
                        inc.append(ve); latches.append(pb)
                    else:
                        init.append(ve)
                if not inc or not init:
                    continue
                steps = set()
                for ve in inc:
                    if ve[0] == "bin" and ve[1] in ("add", "sub") and ve[2] == x and ve[3][0] == "c":
                        steps.add(ve[3][1] if ve[1] == "add" else -ve[3][1])
                    elif ve != x:
                        steps.add(None)
                if None in steps or not steps:
                    continue
                loop = {b} | set(latches)
                st = list(latches)
                while st:
                    y = st.pop()
                    if y == b:
                        continue
                    for pr in f.preds[y]:
                        if pr not in loop:
                            loop.add(pr); st.append(pr)
                # exits of this loop that compare the counter
                for lb in loop:
                    if not f.blocks[lb] or f.blocks[lb][-1].op != "br":
                        continue
                    t = f.blocks[lb][-1]
                    ins = [thread(d, lb) in loop for d in t.x[1:3]]
                    if all(ins) or not any(ins):
                        continue
                    e = f.expr(t.x[0])
                    if e[0] != "cmp" or e[1][0] == "o" or e[1] in ("une", "ueq"):
                        continue
                    pred, l, r = e[1].lstrip("su") if e[1] not in ("eq", "ne") else e[1], e[2], e[3]
                    if not ins[0]:
                        pred = {"eq": "ne", "ne": "eq", "lt": "ge", "le": "gt", "gt": "le", "ge": "lt"}[pred]
                    xo = 0
                    def ctr(z):
                        if z == x:
                            return 0
                        if z[0] == "bin" and z[1] in ("add", "sub") and z[2] == x and z[3][0] == "c":
                            return z[3][1] if z[1] == "add" else -z[3][1]
                        return None
                    if ctr(l) is None and ctr(r) is not None:
                        l, r = r, l
                        pred = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(pred, pred)
                    xo = ctr(l)
                    if xo is None:
                        continue
                    up = any(z > 0 for z in steps)
                    if up:
                        d = isbound(r)
                        if d is None:
                            continue
                        n += 1
                        self.covered(1, f.file + ":" + f.name, site=1)
                        if steps != {1}:
                            self.report(rname, f.where(t), "the loop skips elements: step %s" % sorted(steps))
                        for ve in init:
                            if ve[0] == "c" and ve[1] != start:
                                self.report(rname, f.where(t), "the loop starts at %d instead of %d" % (ve[1], start))
                        lastv = {"lt": d - 1, "ne": d - 1, "le": d}.get(pred)
                        if lastv is not None and lastv - xo != last + (0 if lb == b or xo == 0 else -1 if xo else 0):
                            self.report(rname, f.where(t), "the loop stops at %s%+d instead of %s%+d" % (bound, lastv - xo, bound, last))
                    elif down:
                        ds = [isbound(ve) for ve in init]
                        if not ds or any(z is None for z in ds) or r[0] != "c":
                            continue
                        n += 1
                        self.covered(1, f.file + ":" + f.name, site=1)
                        if steps != {-1}:
                            self.report(rname, f.where(t), "the loop skips elements: step %s" % sorted(steps))
                        lo = {"ge": r[1], "gt": r[1] + 1, "ne": r[1] + 1}.get(pred)
                        # two idioms: test i then use i; test i then use i-1
                        if lo is None:
                            continue
                        base = ds[0] - last
                        if lo - start != base:
                            self.report(rname, f.where(t), "the downward loop covers [%d, %s%+d]" % (lo, bound, ds[0]))
            if n < min:
                self.lost.append("rule %s (%s): %d loops, at least %d expected" % (rname, c, n, min))

    def lists(self, fn, step, init, inline=(), tu=None, cfg=("fo", "ho"), min=1, name=None):
        """Every loop of fn that walks the list link `step` starts at one of the expressions `init`."""
        if isinstance(inline, str):
            inline = inline.split()
        if isinstance(init, str):
            init = [init]
        self.counts["rules"] += 1
        rname = name or "%s: loops along ->%s start at %s" % (fn, step, " or ".join(init))
        for c in ([cfg] if isinstance(cfg, str) else cfg):
            prog = self.model.progs[c]
            f = self.model.view(c, fn, inline, tu, required=False)
            self.quiet = self.model.unchanged(c, fn, inline, tu)
            if f is None:
                self.lost.append("%s (%s): no such function" % (rname, c))
                continue
            ps = [pexpr(x, prog) for x in init]
            n = 0
            for b, ii, i in f.instrs():
                if i.op != "phi":
                    continue
                x = ("phi", i.id)
                es = [f.expr(v) for v, _ in i.x[0]]
                if not any(e == ("ld", ("fld", x, e[1][2])) and e[1][2].split(".")[-1] == step for e in es if e[0] == "ld" and e[1][0] == "fld"):
                    continue
                n += 1
                self.covered(1, f.file + ":" + f.name, site=1)
                for e in es:
                    if e[0] == "ld" and e[1][0] == "fld" and e[1][2].split(".")[-1] == step and not any(match(q, e, {}) for q in ps):
                        if e[1][1] != x and e[1][1][0] == "ld" and not (x[1] in deps(e)):
                            self.report(rname, f.where(i), "the traversal starts at %s" % show(e, f))
            if n < min:
                self.lost.append("rule %s (%s): %d list loops, at least %d expected" % (rname, c, n, min))

    # ---- program-wide scans
    def writers(self, field, allowed, value=None, min=1, name=None, why=""):
        self.quiet = False
        """Only the functions in `allowed` store to `tag.field` (optionally: a value matching `value`)."""
        self.counts["rules"] += 1
        rname = name or "who may write %s%s" % (field, " := " + value if value else "")
        n = 0
        for c, p in self.model.progs.items():
            vp = pexpr(value, p) if value else None
            al = {p.renamed.get(x, x) for x in allowed}
            for f in p.fns.values():
                for b, ii, i in f.instrs():
                    if i.op != "store":
                        continue
                    a = f.expr(i.x[1])
                    nm = a[2] if a[0] == "fld" else ("@" + a[1] if a[0] == "g" else None)
                    if nm is None or (nm != field and not ("." not in field and nm.split(".")[-1] == field)):
                        continue
                    if vp is not None and not match(vp, f.expr(i.x[0]), {}):
                        continue
                    n += 1
                    self.covered(1, f.file + ":" + f.name, site=1)
                    if f.name not in al and not self.only_from(p, f, al):
                        self.report(rname, f.where(i), "store outside %s" % ", ".join(sorted(allowed)), why)
        if n < min:
            self.lost.append("rule %s: %d sites" % (rname, n))

    def only_from(self, p, f, allowed, depth=0):
        """a helper new since the reference tree counts as its callers."""
        if (f.tu, f.name) not in p.newfns or depth > 4:
            return False
        cs = p.callers_raw.get(f.name, ())
        return bool(cs) and all(n in allowed or self.only_from(p, p.fns[(t, n)], allowed, depth + 1) for t, n in cs)

    def callers(self, callee, allowed, min=1, name=None, why="", units=None):
        self.quiet = False
        """Only the functions in `allowed` call `callee`."""
        self.counts["rules"] += 1
        rname = name or "who may call %s" % callee
        n = 0
        for c, p in self.model.progs.items():
            al = {p.renamed.get(x, x) for x in allowed}
            for tu, nm in p.callers_raw.get(callee, ()):
                f = p.fns[(tu, nm)]
                n += 1
                self.covered(1, f.file + ":" + f.name, site=1)
                if nm not in al and not self.only_from(p, f, al):
                    self.report(rname, "%s (%s)" % (f.file, f.name), "call outside %s" % ", ".join(sorted(allowed)), why)
        if n < min:
            self.lost.append("rule %s: %d sites" % (rname, n))

    def _run(self, t):
        c, fn, at, need, inline, tu, min, why, assume, rname, correlate, limit = t
        prog = self.model.progs[c]
        f = self.model.view(c, fn, inline, tu)
        if at == "ret":
            eff = ("ret", None)
        elif at == "choose ret":
            eff = ("choose", None)
        elif at == "iter":
            eff = ("iter", None)
        elif at.startswith("ret is ") or at.startswith("ret "):
            eff = ("ret", Atom(at, prog))
        else:
            eff = Event(at, prog)
        needs = [(n, parse_need(n, prog)) for n in need]
        m = PathMachine(f, eff, needs, rname)
        asm = [_assume(s, prog) for s in assume]
        ex = Explorer(f, m, relevant=m.relevant, assume=asm, correlate=correlate, limit=limit)
        ex.run()
        n = len(m.hits)
        if n < min:
            return "lost: rule %s (%s): %d instances, at least %d expected" % (rname, c, n, min)
        sample = None
        for i in m.hits.values():
            sample = "%s [%s] `%s` requires: %s" % (f.where(i), c, at, " ; ".join(need))
            break
        reps = []
        viol = ex.violations
        if viol and self.model.unchanged(c, fn, inline, tu):
            viol = []
        for (text, env, ret), s, i in viol:
            key = (rname, f.where(i), "reached without: " + text)
            if any(r[:3] == key for r in reps):
                continue
            reps.append(key + ((why + "\n" if why else "") + "config: " + c + "\neffect bindings: " +
                        ", ".join("%s=%s" % (k, show(v, f)[:200]) for k, v in env.items()) + "\npath:\n  " + "\n  ".join(ex.path(s)),))
        return (f.file + ":" + f.name, ex.nstates, n, n * len(need), sample, reps)

    def flush(self):
        tasks, self.tasks = self.tasks, []
        if not tasks:
            return
        global _CK
        _CK = self
        import multiprocessing as mp
        ncpu = sorted([os.cpu_count() or 1, len(tasks), 8])[0]
        if ncpu <= 1 or len(tasks) < 4:
            res = [_task((self, t)) for t in tasks]
        else:
            order = sorted(range(len(tasks)), key=lambda j: -len(self.model.view(tasks[j][0], tasks[j][1], tasks[j][4], tasks[j][5]).blocks))
            _GT[:] = tasks
            with mp.get_context("fork").Pool(ncpu) as pool:
                out = pool.map(_gtask, order, chunksize=1)
            res = [None] * len(tasks)
            for j, r in zip(order, out):
                res[j] = r
        for r in res:
            if isinstance(r, str):
                (self.lost if r.startswith("lost: ") else self.broken).append(r)
                continue
            fnm, ns, n, ob, sample, reps = r
            self.counts["functions"].add(fnm)
            self.counts["paths"] += ns
            self.counts["sites"] += n
            self.counts["obligations"] += ob
            if sample:
                self.sample(sample)
            self.quiet = False
            for a in reps:
                self.report(*a)
        # an analysis that could not be finished, or whose subject was restructured away, is not an alarm; too many of them are no verdict either
        self.lost += self.broken
        self.broken = []
        if len(self.lost) > 6 + self.counts["rules"] // 3:
            raise Broken("%d of %d rules lost their subject: %s" % (len(self.lost), self.counts["rules"], "; ".join(self.lost[:20])))


def sameir(f, g):
    if len(f.blocks) != len(g.blocks) or f.rt != g.rt or f.params != g.params:
        return False
    for a, b in zip(f.blocks, g.blocks):
        if len(a) != len(b) or any(x.op != y.op or x.id != y.id or x.x != y.x for x, y in zip(a, b)):
            return False
    return True


_CK = None
_GT = []


def _gtask(j):
    return _task((_CK, _GT[j]))


def _task(a):
    k, t = a
    try:
        return k._run(t)
    except Broken as e:
        return str(e)
    except RecursionError as e:
        return "recursion limit in rule %s" % t[9]


def _assume(s, prog):
    k, r = pcond(s, prog)
    return (_pat2expr(k), r)


def _pat2expr(p):
    t = p.t
    if t == "c":
        return ("c", p.v)
    if t == "a":
        return ("a", p.v)
    if t == "g":
        return ("g", p.v)
    if t == "ld":
        return ("ld", _pat2expr(p.sub[0]))
    raise Broken("cannot assume this pattern")
