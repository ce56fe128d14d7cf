"""Branch facts, the pattern language and the path-sensitive explorer."""
import re
from core import *

# ------------------------------------------------------------------ relations  (pred, const)
NEG = {"eq": "ne", "ne": "eq", "le": "gt", "ge": "lt"}


def neg(rel):
    p, c = rel
    if p == "eq":
        return ("ne", c)
    if p == "ne":
        return ("eq", c)
    if p == "le":
        return ("ge", c + 1)
    return ("le", c - 1)


def implies(r, s):
    """does  x r  imply  x s ?"""
    (p, c), (q, d) = r, s
    if r == s:
        return True
    if q == "eq":
        return p == "eq" and c == d
    if q == "ne":
        return (p == "eq" and c != d) or (p == "ge" and c > d) or (p == "le" and c < d)
    if q == "ge":
        return (p == "eq" and c >= d) or (p == "ge" and c >= d)
    if q == "le":
        return (p == "eq" and c <= d) or (p == "le" and c <= d)
    return False


TRUE, FALSE = ("ne", 0), ("eq", 0)
_PM = {"eq": "eq", "ne": "ne", "slt": "lt", "sle": "le", "sgt": "gt", "sge": "ge",
       "ult": "lt", "ule": "le", "ugt": "gt", "uge": "ge",
       "oeq": "eq", "une": "ne", "one": "ne", "olt": "lt", "ole": "le", "ogt": "gt", "oge": "ge"}
_SW = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}


def canon(key, rel):
    """(key, rel) with trivial layers removed."""
    for _ in range(60):
        if key[0] in ("eq2", "lt") and (key[1][0] == "c" or key[2][0] == "c"):
            key = ("cmp", "eq" if key[0] == "eq2" else "slt", key[1], key[2])
        if key[0] == "cmp" and rel in (TRUE, FALSE):
            pos = rel == TRUE
            p, a, b = _PM.get(key[1]), key[2], key[3]
            if p is None:
                return key, rel
            if a[0] == "c" and b[0] != "c":
                a, b, p = b, a, _SW[p]
            if b[0] == "c" and (key[1][0] != "o" and key[1] != "une"):
                c = b[1]
                r = {"eq": ("eq", c), "ne": ("ne", c), "lt": ("le", c - 1), "le": ("le", c),
                     "gt": ("ge", c + 1), "ge": ("ge", c)}[p]
                if key[1][0] == "u":
                    if p == "gt" and c == 0 or p == "ge" and c == 1:
                        r = ("ne", 0)
                    if p == "lt" and c == 1 or p == "le" and c == 0:
                        r = ("eq", 0)
                key, rel = a, (r if pos else neg(r))
                continue
            if p in ("eq", "ne"):
                if repr(b) < repr(a):
                    a, b = b, a
                return ("eq2", a, b), (TRUE if pos == (p == "eq") else FALSE)
            if p == "gt":
                return ("lt", b, a), rel
            if p == "lt":
                return ("lt", a, b), rel
            if p == "ge":   # a>=b == !(a<b)
                return ("lt", a, b), (FALSE if pos else TRUE)
            return ("lt", b, a), (FALSE if pos else TRUE)
        if key[0] == "bin" and key[1] == "xor" and key[3] == ("c", 1) and rel in (TRUE, FALSE) and _boolish(key[2]):
            key, rel = key[2], (FALSE if rel == TRUE else TRUE)
            continue
        if key[0] == "bin" and key[1] == "xor" and key[3] == ("c", -1) and rel in (TRUE, FALSE) and _boolish(key[2]):
            key, rel = key[2], (FALSE if rel == TRUE else TRUE)
            continue
        if key[0] == "cmp" and rel in (("eq", 1), ("ne", 1)):
            rel = TRUE if rel[0] == "eq" else FALSE
            continue
        if key[0] == "bin" and key[1] == "and" and key[3][0] == "c" and rel[0] in ("eq", "ne"):
            m = key[3][1]
            if m and (m & (m - 1)) == 0 and rel[1] == m:
                return key, (TRUE if rel[0] == "eq" else FALSE)
            return key, rel
        if key[0] == "sel" and key[2][0] == "c" and key[3][0] == "c":
            t, f = holds(key[2][1], rel), holds(key[3][1], rel)
            if t != f:
                key, rel = key[1], (TRUE if t else FALSE)
                continue
            return key, rel
        if key[0] == "bin" and key[1] == "add" and key[3][0] == "c":
            key, rel = key[2], (rel[0], rel[1] - key[3][1])
            continue
        return key, rel
    return key, rel


def _boolish(e):
    return e[0] in ("cmp", "eq2", "lt") or e[0] == "phi" or e[0] == "call" or (e[0] == "ld") or \
        (e[0] == "bin" and e[1] in ("xor", "and", "or")) or e[0] == "sel"


def holds(c, rel):
    p, d = rel
    return {"eq": c == d, "ne": c != d, "le": c <= d, "ge": c >= d}[p]


def expand(key, rel):
    """list of atomic facts entailed by (key rel)."""
    key, rel = canon(key, rel)
    if key[0] == "bin" and key[1] == "and" and rel == TRUE and key[3][0] != "c" and _boolv(key[2]) and _boolv(key[3]):
        return expand(key[2], TRUE) + expand(key[3], TRUE)
    if key[0] == "bin" and key[1] == "or" and rel == FALSE:
        return expand(key[2], FALSE) + expand(key[3], FALSE)
    return [(key, rel)]


def _boolv(e):
    return e[0] in ("cmp", "eq2", "lt") or (e[0] == "bin" and e[1] in ("xor",) and _boolv(e[2]))


# ------------------------------------------------------------------ patterns
class Pat:
    """A compiled pattern over canonical expressions."""
    __slots__ = ("t", "v", "sub")

    def __init__(self, t, v=None, sub=()):
        self.t, self.v, self.sub = t, v, sub

    def __repr__(self):
        return "Pat(%s,%r,%r)" % (self.t, self.v, self.sub)


_TOK = re.compile(r'\s*(->|\.\.\.|<<|>>|==|!=|<=|>=|&&|\|\||[A-Za-z_][A-Za-z0-9_]*|\$[A-Za-z0-9_]+|-?\d+|"(?:[^"\\]|\\.)*"|.)')


def _lex(s):
    out, p = [], 0
    s = s.strip()
    while p < len(s):
        m = _TOK.match(s, p)
        out.append(m.group(1))
        p = m.end()
    return out


class PP:
    def __init__(self, s, enumval):
        self.t, self.p, self.ev, self.s = _lex(s), 0, enumval, s

    def peek(self, k=0):
        return self.t[self.p + k] if self.p + k < len(self.t) else None

    def nxt(self):
        x = self.peek()
        self.p += 1
        return x

    def expect(self, x):
        if self.nxt() != x:
            raise Broken("pattern syntax: %r near token %d" % (self.s, self.p))

    def cond(self):
        """-> (Pat key, rel) or ('cmp2', ...)"""
        if self.peek() == "!" :
            self.nxt()
            if self.peek() == "(":
                k, r = self._paren_cond()
            else:
                k, r = self.e(), TRUE
            return k, neg(r)
        a = self.e()
        op = self.peek()
        if op in ("==", "!=", "<", "<=", ">", ">="):
            self.nxt()
            b = self.e()
            if a.t == "c" and b.t != "c":
                a, b = b, a
                op = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
            if b.t == "c":
                c = b.v
                rel = {"==": ("eq", c), "!=": ("ne", c), "<": ("le", c - 1), "<=": ("le", c), ">": ("ge", c + 1), ">=": ("ge", c)}[op]
                if a.t == "bin" and a.v == "and" and a.sub[1].t == "c" and a.sub[1].v == c and c and c & (c - 1) == 0:
                    rel = TRUE if rel[0] == "eq" else FALSE
                return a, rel
            if op in ("==", "!="):
                return Pat("eq2", None, (a, b)), (TRUE if op == "==" else FALSE)
            if op == "<":
                return Pat("lt", None, (a, b)), TRUE
            if op == ">":
                return Pat("lt", None, (b, a)), TRUE
            if op == "<=":
                return Pat("lt", None, (b, a)), FALSE
            return Pat("lt", None, (a, b)), FALSE
        return a, TRUE

    def _paren_cond(self):
        self.expect("(")
        k, r = self.cond()
        self.expect(")")
        return k, r

    def e(self):
        a = self.post()
        while self.peek() in ("&", "+", "|", "*", "-", "<<", ">>", "%"):
            op = self.nxt()
            b = self.post()
            nm = {"&": "and", "+": "add", "|": "or", "*": "mul", "-": "sub", "<<": "shl", ">>": "shr", "%": "rem"}[op]
            a = Pat("bin", nm, (a, b))
        return a

    def post(self):
        a = self.prim()
        while True:
            t = self.peek()
            if t == "->":
                self.nxt()
                f = self.nxt()
                a = Pat("ld", None, (Pat("fld", f, (a,)),))
            elif t == ".":
                self.nxt()
                f = self.nxt()
                if a.t != "ld":
                    raise Broken("pattern: . on non-lvalue in %r" % self.s)
                a = Pat("ld", None, (Pat("fld", f, (a.sub[0],)),))
            elif t == "[":
                self.nxt()
                x = self.e()
                self.expect("]")
                a = Pat("ld", None, (Pat("ix", None, (a, x)),))
            else:
                return a

    def prim(self):
        t = self.nxt()
        if t is None:
            raise Broken("pattern syntax: " + self.s)
        if t == "(":
            a = self.e()
            self.expect(")")
            return a
        if t == "&":
            a = self.post()
            if a.t != "ld":
                raise Broken("pattern: & of non-lvalue in %r" % self.s)
            return a.sub[0]
        if t == "*":
            return Pat("ld", None, (self.post(),))
        if t == "@":
            n = self.nxt()
            return Pat("ld", None, (Pat("g", n),))
        if t == "{":
            names = []
            while True:
                names.append(self.nxt())
                x = self.nxt()
                if x == "}":
                    break
                if x != "|":
                    raise Broken("pattern: {a|b} expected in %r" % self.s)
            self.expect("(")
            return self._call(set(names))
        if t == "_":
            return Pat("any")
        if t.startswith("$"):
            return Pat("var", t[1:])
        if re.match(r"-?\d+$", t):
            return Pat("c", int(t))
        if t == "NULL" or t == "false":
            return Pat("c", 0)
        if t == "true":
            return Pat("c", 1)
        if t[0] == '"':
            return Pat("s", json.loads(t))
        m = re.match(r"arg(\d+)$", t)
        if m:
            return Pat("a", int(m.group(1)))
        if t == "out" and self.peek() == "(":
            self.nxt()
            f = self.nxt()
            self.expect(",")
            k = self.nxt()
            self.expect(")")
            return Pat("ld", None, (Pat("al", "%s.%s" % (f, k)),))
        if self.peek() == "(":
            self.nxt()
            return self._call({t})
        if t in self.ev:
            return Pat("c", self.ev[t])
        raise Broken("pattern: unknown name %r in %r" % (t, self.s))

    def _call(self, names):
        args, rest = [], False
        if self.peek() == ")":
            self.nxt()
            return Pat("call", names, (tuple(), False))
        while True:
            if self.peek() == "...":
                self.nxt()
                rest = True
                self.expect(")")
                break
            args.append(self.e())
            x = self.nxt()
            if x == ")":
                break
            if x != ",":
                raise Broken("pattern syntax: %r" % self.s)
        return Pat("call", names, (tuple(args), rest))


_pc = {}


def pcond(s, prog):
    k = ("c", s, prog.cfg)
    if k not in _pc:
        p = PP(s, prog.enumval)
        r = p.cond()
        if p.peek() is not None:
            raise Broken("pattern trailing tokens: %r" % s)
        _pc[k] = r
    return _pc[k]


def pexpr(s, prog):
    k = ("e", s, prog.cfg)
    if k not in _pc:
        p = PP(s, prog.enumval)
        r = p.e()
        if p.peek() is not None:
            raise Broken("pattern trailing tokens: %r" % s)
        _pc[k] = r
    return _pc[k]


def match(p, e, env):
    """match pattern p against expression e under bindings env (dict or None for wildcard vars)."""
    t = p.t
    if t == "any":
        return True
    if t == "var":
        if env is None:
            return True
        if p.v in env:
            return env[p.v] == e
        env[p.v] = e
        return True
    if t == "c":
        return e == ("c", p.v)
    if t == "a":
        return e[0] == "a" and e[1] == p.v
    if t == "g":
        return e[0] == "g" and e[1] == p.v
    if t == "s":
        if p.v.startswith("~"):
            return e[0] == "s" and re.search(p.v[1:], e[1]) is not None
        return e[0] == "s" and e[1] == p.v
    if t == "al":
        return e[0] == "al" and p.v in e[2].split("|")
    if t == "ld":
        return e[0] == "ld" and match(p.sub[0], e[1], env)
    if t == "fld":
        return e[0] == "fld" and e[2].split(".")[-1] == p.v and match(p.sub[0], e[1], env)
    if t == "ix":
        if e[0] != "ix":
            return False
        a = p.sub[0]
        if a.t == "ld" and e[1][0] in ("fld", "g", "al"):
            a = a.sub[0]              # an embedded array
        return match(a, e[1], env) and match(p.sub[1], e[2], env)
    if t == "call":
        if e[0] != "call" or e[1] not in p.v:
            return False
        args, rest = p.sub
        if len(e[2]) < len(args) or (len(e[2]) != len(args) and not rest):
            return False
        return all(match(a, x, env) for a, x in zip(args, e[2]))
    if t == "bin":
        if e[0] != "bin" or (e[1] != p.v and not (p.v in ("shr", "rem") and e[1][1:] == p.v)):
            return False
        sv = dict(env) if env is not None else None
        if match(p.sub[0], e[2], env) and match(p.sub[1], e[3], env):
            return True
        if env is not None:
            env.clear(); env.update(sv)
        return p.v in ("and", "or", "add", "mul", "xor") and match(p.sub[0], e[3], env) and match(p.sub[1], e[2], env)
    if t == "eq2":
        if e[0] != "eq2":
            return False
        sv = dict(env) if env is not None else None
        if match(p.sub[0], e[1], env) and match(p.sub[1], e[2], env):
            return True
        if env is not None:
            env.clear(); env.update(sv)
        return match(p.sub[0], e[2], env) and match(p.sub[1], e[1], env)
    if t == "lt":
        return e[0] == "lt" and match(p.sub[0], e[1], env) and match(p.sub[1], e[2], env)
    return False


def fact_satisfies(fact, pc, env):
    (pk, pr) = pc
    key, rel = fact
    e2 = dict(env)
    if not match(pk, key, e2):
        return None
    if implies(rel, pr) or (pr == ("ge", 1) and rel == ("ne", 0)) or (pr == ("eq", 0) and rel == ("le", 0)) \
            or (pr == TRUE and rel[0] == "ge" and rel[1] >= 1):
        return e2
    return None


# ------------------------------------------------------------------ explorer
class Ctx:
    """What a machine sees while stepping."""
    __slots__ = ("fn", "ex", "env", "facts", "block")


_NONNULL = re.compile(r"(Alloc|AllocReal)$|^(SecureMalloc|SecureRealloc|SecureStrdup|SecureStrndup)$")


class Explorer:
    """Path-sensitive forward exploration of (block, phi aliases, correlated facts, machine state).

    machine:  init() -> q ;  step(q, i, cx) -> q | None (cut path) | [q...] ;
              edge(q, facts, cx) -> q      (facts: list of (key, rel) just established)
              phis(q, ids, cx) -> q        (ids re-executed)
    """

    def __init__(self, fn, machine, correlate=True, limit=150000, assume=(), corr_filter=None, relevant=None):
        self.fn, self.m, self.limit = fn, machine, limit
        self.prog = fn.prog
        self.assume = list(assume)
        self.corr_filter = corr_filter
        self.relevant = relevant
        self._prepare(correlate)

    # --- which phis / keys matter for branch decisions
    def _prepare(self, correlate):
        fn = self.fn
        roots = {}
        self.tracked = set()
        keyuse = {}
        self.bkeys = {}
        for b, blk in enumerate(fn.blocks):
            if not blk:
                continue
            t = blk[-1]
            if t.op in ("br", "switch"):
                self._phiroots(t.x[0], self.tracked, set())
                if t.op == "br":
                    ks = [canon(fn.expr(t.x[0]), TRUE)[0]]
                else:
                    ks = [fn.expr(t.x[0])]
                self.bkeys[b] = set()
                for k in ks:
                    if k[0] == "phi":
                        self._phikeys(k[1], self.bkeys[b], set())
                    self.bkeys[b].add(k)
                for k in self.bkeys[b]:
                    keyuse.setdefault(k, set()).add(b)
        # what is returned counts as a test of its truth value
        retkeys = {}
        if isinstance(getattr(self.m, "at", None), tuple) and self.m.at[0] == "ret":
            for b, blk in enumerate(fn.blocks):
                if blk and blk[-1].op == "ret" and blk[-1].x[0] is not None:
                    k = canon(fn.expr(blk[-1].x[0]), TRUE)[0]
                    r = set()
                    if k[0] == "phi":
                        self._phikeys(k[1], r, set())
                    if k[0] not in ("c", "g", "s", "al"):
                        r.add(k)
                    self.bkeys[b] = r
                    for k in r:
                        retkeys.setdefault(k, set()).add(b)
        self.relphis = {}
        if self.relevant is not None:
            for b, blk in enumerate(fn.blocks):
                for i in blk:
                    if i.op in ("call", "store", "ret") and self.relevant(i):
                        r = set()
                        for o in operands(i):
                            self._phideep(fn.expr(o), r)
                        if r:
                            self.relphis.setdefault(b, set()).update(r)
                            for x in r:
                                if x in fn.defs and fn.defs[x][2].op == "phi":
                                    self._phiroots("%%%d" % x, self.tracked, set())
        # induction-like phis are not tracked
        for p in list(self.tracked):
            d = fn.defs.get(p)
            if d is None or d[2].op != "phi":
                self.tracked.discard(p)
                continue
            for v, _ in d[2].x[0]:
                e = fn.expr(v)
                if e[0] in ("bin", "ld", "fld", "ix") and p in deps(e):
                    self.tracked.discard(p)
        # must (transitively) merge at least one constant, or feed one that does
        useful = set()
        ch = True
        while ch:
            ch = False
            for p in self.tracked:
                if p in useful:
                    continue
                for v, _ in fn.defs[p][2].x[0]:
                    e = fn.expr(v)
                    if e[0] == "c" or e[0] in ("cmp", "call", "ld", "sel", "bin", "s", "g", "a", "al", "fld", "k") or (e[0] == "phi" and e[1] in useful):
                        useful.add(p)
                        ch = True
                        break
        self.tracked &= useful
        self.corr = set()
        if self.relevant is not None:
            for _ in range(6):
                rb = self._relevant_branches()
                t2 = set()
                for b in rb:
                    self._phiroots(fn.blocks[b][-1].x[0], t2, set())
                for b, r in self.relphis.items():
                    for x in r:
                        if x in fn.defs and fn.defs[x][2].op == "phi":
                            self._phiroots("%%%d" % x, t2, set())
                t2 &= self.tracked
                if t2 == self.tracked:
                    break
                self.tracked = t2
            keyuse = {k: bs & rb for k, bs in keyuse.items()}
        for k, bs in retkeys.items():
            keyuse[k] = keyuse.get(k, set()) | bs
        if correlate:
            for k, bs in keyuse.items():
                if len(bs) > 1 and (self.corr_filter is None or self.corr_filter(k)):
                    self.corr.add(k)
        self.store_fields = set()
        for _, _, i in fn.instrs():
            if i.op == "store":
                a = fn.expr(i.x[1])
                self.store_fields |= _addr_tags(a)
        self.keydeps = {}
        # liveness of tracked phis and correlated keys (block-level)
        n = len(fn.blocks)
        use = [set() for _ in range(n)]
        for b, blk in enumerate(fn.blocks):
            if not blk:
                continue
            t = blk[-1]
            use[b] |= {("p", x) for x in self.relphis.get(b, ())}
            if t.op in ("br", "switch"):
                r = set()
                self._phiroots(t.x[0], r, set(), deep=False)
                use[b] |= {("p", x) for x in r}
            if t.op in ("br", "switch", "ret"):
                for k in self.bkeys.get(b, ()):
                    if k in self.corr:
                        use[b].add(("k", k))
            for s in fn.succs(b):
                for i in fn.blocks[s]:
                    if i.op != "phi":
                        break
                    if i.id in self.tracked:
                        for v, pb in i.x[0]:
                            if pb == b:
                                r = set()
                                self._phiroots(v, r, set(), deep=False)
                                use[b] |= {("p", x) for x in r}
        live = [set(u) for u in use]
        work = list(range(n))
        while work:
            b = work.pop()
            out = set(use[b])
            for s in fn.succs(b):
                defd = set()
                for i in fn.blocks[s]:
                    if i.op != "phi":
                        break
                    defd.add(("p", i.id))
                out |= (live[s] - defd) if defd else live[s]
            if out != live[b]:
                live[b] = out
                work.extend(fn.preds[b])
        self.live = live

    def _phiroots(self, o, acc, seen, deep=True):
        fn = self.fn
        if isinstance(o, str) and o.startswith("%"):
            n = int(o[1:])
            if n in seen:
                return
            seen.add(n)
            d = fn.defs.get(n)
            if d is None:
                return
            i = d[2]
            if i.op == "phi":
                acc.add(n)
                if deep:
                    for v, _ in i.x[0]:
                        self._phiroots(v, acc, seen, deep)
            elif i.op == "cast":
                self._phiroots(i.x[1], acc, seen, deep)
            elif i.op == "cmp" or (i.op == "bin" and i.x[0] in ("and", "or", "xor")):
                self._phiroots(i.x[1], acc, seen, deep)
                self._phiroots(i.x[2], acc, seen, deep)
            elif i.op == "select":
                for y in i.x:
                    self._phiroots(y, acc, seen, deep)

    def _relevant_branches(self):
        """branches whose outcome can matter to the machine: relevant instructions, exits or tracked merges depend on it."""
        fn = self.fn
        n = len(fn.blocks)
        live = [b for b in range(n) if fn.blocks[b]]
        # post-dominators (bit sets), EXIT = n
        succ = {b: list(fn.succs(b)) or [n] for b in live}
        for b in live:
            if any(i.op == "call" and self.prog.call_noret(fn, i) for i in fn.blocks[b]):
                succ[b] = [n]
        if getattr(self, "_ipd", None) is None:
            order = []
            seen = set()
            pred = {}
            for b in live:
                for t in succ[b]:
                    pred.setdefault(t, []).append(b)
            st = [(n, iter(pred.get(n, ())))]
            seen.add(n)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(pred.get(y, ()))))
                        break
                else:
                    order.append(x)
                    st.pop()
            rpo = {x: j for j, x in enumerate(reversed(order))}
            ipd = {n: n}
            ch = True
            while ch:
                ch = False
                for x in reversed(order):
                    if x == n:
                        continue
                    new = None
                    for t in succ[x]:
                        if t in ipd:
                            if new is None:
                                new = t
                            else:
                                a, c = new, t
                                while a != c:
                                    while rpo[a] > rpo[c]:
                                        a = ipd[a]
                                    while rpo[c] > rpo[a]:
                                        c = ipd[c]
                                new = a
                    if new is not None and ipd.get(x) != new:
                        ipd[x] = new
                        ch = True
            self._ipd = ipd
            self._relblk = set()
            for b in live:
                for i in fn.blocks[b]:
                    if i.op == "ret" or (i.op in ("call", "store") and self.relevant(i)):
                        self._relblk.add(b)
                    elif i.op == "call" and self.prog.call_noret(fn, i):
                        self._relblk.add(b)
        ipd = self._ipd
        fr = getattr(self.m, "factrel", None)
        rb = set()
        for b in live:
            t = fn.blocks[b][-1]
            if t.op not in ("br", "switch"):
                continue
            if fr is not None and any(fr(k) for k in self.bkeys.get(b, ())):
                rb.add(b)
                continue
            stop = ipd.get(b)
            if stop is None:
                rb.add(b)
                continue
            seen = set()
            st = [x for x in fn.succs(b) if x != stop]
            hit = False
            while st and not hit:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in self._relblk or x == b:
                    hit = True
                    break
                for y in fn.succs(x):
                    if y != stop and y not in seen:
                        st.append(y)
            if not hit:
                # tracked merges at the join or inside
                for x in list(seen) + ([stop] if stop < n else []):
                    for i in fn.blocks[x]:
                        if i.op != "phi":
                            break
                        if i.id in self.tracked:
                            vals = [repr(v) for v, pb in i.x[0] if pb in seen or pb == b]
                            if len(set(vals)) > 1:
                                hit = True
            if hit:
                rb.add(b)
        return rb

    def _phikeys(self, n, acc, seen):
        if n in seen:
            return
        seen.add(n)
        d = self.fn.defs.get(n)
        if d is None or d[2].op != "phi":
            return
        for v, _ in d[2].x[0]:
            e = self.fn.expr(v)
            if e[0] == "phi":
                self._phikeys(e[1], acc, seen)
            elif e[0] != "c":
                k = canon(e, TRUE)[0]
                if k[0] not in ("c", "g", "s", "al"):
                    acc.add(k)

    def _phideep(self, e, acc):
        for x in subexprs(e):
            if x[0] == "phi":
                acc.add(x[1])

    def rdeep(self, e, env, depth=0):
        """substitute known phi aliases everywhere inside e."""
        if not env or depth > 60 or not isinstance(e, tuple):
            return e
        if e[0] == "phi":
            v = env.get(e[1])
            if v is not None and v[0] == "v":
                v = self.fn.expr("%%%d" % v[1])
            return e if v is None else self.rdeep(v, env, depth + 1)
        if e[0] in ("a", "c", "g", "s", "al", "k", "?"):
            return e
        if e[0] == "call":
            n = tuple(self.rdeep(a, env, depth + 1) for a in e[2])
            return e if n == e[2] else ("call", e[1], n, e[3])
        if e[0] in ("cmp", "bin", "sel"):
            return self.resolve(e, env, depth) if e[0] == "sel" else (e[0], e[1], self.rdeep(e[2], env, depth + 1), self.rdeep(e[3], env, depth + 1))
        if e[0] in ("ld", "fld", "ix", "eq2", "lt", "cast", "ext"):
            return tuple(self.rdeep(x, env, depth + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e)
        return e

    def _aliasval(self, o, env):
        """compact alias value of operand o under env: a constant-like leaf, ('v', id), or a small expression."""
        fn = self.fn
        e = fn.expr(o)
        t = e[0]
        if t in ("c", "g", "s", "a", "al", "k"):
            return e
        if t == "phi":
            v = env.get(e[1])
            return v if v is not None else e
        r = self.resolve(e, env)
        if r is not e and r != e:
            if r[0] in ("c", "g", "s", "a", "al", "k", "phi"):
                return r
            return r if _small(r) else None
        if isinstance(o, str) and o.startswith("%"):
            return ("v", int(o[1:]))
        return e if _small(e) else None

    # resolve expression under aliases
    def resolve(self, e, env, depth=0):
        if not env or depth > 40:
            return e
        t = e[0]
        if t == "phi":
            v = env.get(e[1])
            if v is not None:
                if v[0] == "v":
                    v = self.fn.expr("%%%d" % v[1])
                return self.resolve(v, env, depth + 1) if v[0] != "c" else v
            return e
        if t in ("cmp", "bin"):
            a, b = self.resolve(e[2], env, depth + 1), self.resolve(e[3], env, depth + 1)
            if a is e[2] and b is e[3]:
                return e
            if t == "bin" and a[0] == "c" and b[0] == "c":
                v = _foldc(e[1], a[1], b[1])
                if v is not None:
                    return ("c", v)
            if t == "cmp" and a[0] == "c" and b[0] == "c":
                v = _cmpc(e[1], a[1], b[1])
                if v is not None:
                    return ("c", 1 if v else 0)
            return (t, e[1], a, b)
        if t == "sel":
            c = self.resolve(e[1], env, depth + 1)
            if c[0] == "c":
                return self.resolve(e[2] if c[1] else e[3], env, depth + 1)
            return e
        return e

    def decide(self, key, rel, facts):
        """True/False/None for (key rel) under facts (dict key->list of rels)."""
        if key[0] == "c":
            return holds(key[1], rel)
        if key[0] == "eq2" and key[1] == key[2]:
            return rel == TRUE
        if key[0] == "lt" and key[1] == key[2]:
            return rel == FALSE
        if key[0] in ("g", "al", "s") and rel[0] in ("eq", "ne") and rel[1] == 0:
            return rel[0] == "ne"
        if key[0] in ("fld", "ix") and rel[0] in ("eq", "ne") and rel[1] == 0:
            return rel[0] == "ne"
        if key[0] == "call" and rel[0] in ("eq", "ne") and rel[1] == 0 and _NONNULL.search(key[1] if isinstance(key[1], str) else ""):
            return rel[0] == "ne"
        nrel = neg(rel)
        for r in facts.get(key, ()):
            if implies(r, rel):
                return True
            if implies(r, nrel):
                return False
        return None

    def run(self):
        fn, m = self.fn, self.m
        facts0 = {}
        for k, r in self.assume:
            k, r = canon(k, r)
            facts0.setdefault(k, ()) 
            facts0[k] = facts0[k] + (r,)
        q0 = m.init()
        start = (0, (), _fz(facts0), q0)
        seen = {start: None}
        self.seen = seen
        st = [start]
        self.violations = []
        nstates = 0
        while st:
            s = st.pop()
            nstates += 1
            if nstates > self.limit:
                raise Broken("state limit exceeded in %s" % fn.name)
            b, envt, factst, q = s
            env = dict(envt)
            facts = {k: v for k, v in factst}
            qs = [q]
            cx = Ctx()
            cx.fn, cx.ex, cx.env, cx.facts, cx.block = fn, self, env, facts, b
            dead = False
            blk = fn.blocks[b]
            for i in blk:
                if i.op == "phi":
                    continue
                if i.id >= 0:
                    self._kill_id(i.id, env, facts)
                if i.op == "store":
                    self._kill_store(fn.expr(i.x[1]), facts)
                elif i.op == "call":
                    self._kill_call(i, facts)
                nq = []
                for q1 in qs:
                    r = m.step(q1, i, cx)
                    if r is None:
                        continue
                    if isinstance(r, list):
                        nq += r
                    else:
                        nq.append(r)
                if hasattr(m, "viol") and m.viol:
                    for v in m.viol:
                        self.violations.append((v, s, i))
                    m.viol = []
                qs = nq
                if not qs:
                    dead = True
                    break
                if i.op == "call" and self.prog.call_noret(fn, i):
                    dead = True
                    break
            if dead:
                continue
            t = blk[-1]
            outs = []
            if t.op == "br":
                e = self.resolve(fn.expr(t.x[0]), env)
                for truth, dst in ((TRUE, t.x[1]), (FALSE, t.x[2])):
                    fl = expand(e, truth)
                    if any(self.decide(k, r, facts) is False for k, r in fl):
                        continue
                    outs.append((dst, fl))
            elif t.op == "jmp":
                outs.append((t.x[0], []))
            elif t.op == "switch":
                e = self.resolve(fn.expr(t.x[0]), env)
                dflt = []
                for c, dst in t.x[2]:
                    k, r = canon(e, ("eq", c))
                    if self.decide(k, r, facts) is not False:
                        outs.append((dst, [(k, r)]))
                    dflt.append(canon(e, ("ne", c)))
                if not any(self.decide(k, r, facts) is False for k, r in dflt):
                    outs.append((t.x[1], dflt))
            else:
                continue
            for dst, fl in outs:
                nenv, nfacts = dict(env), dict(facts)
                ids = []
                upd = {}
                for i in fn.blocks[dst]:
                    if i.op != "phi":
                        break
                    ids.append(i.id)
                    if i.id in self.tracked:
                        for v, pb in i.x[0]:
                            if pb == b:
                                upd[i.id] = self._aliasval(v, env)
                # facts first (about old values), then phis
                for k, r in fl:
                    if k in self.corr or k[0] == "phi" or _any_old(k) and unfreeze(k) in self.corr:
                        old = nfacts.get(k, ())
                        if not any(implies(x, r) for x in old):
                            nfacts[k] = tuple(sorted(set(x for x in old if not implies(r, x)) | {r}))
                if fl and nenv:
                    for k, r in fl:
                        if r[0] == "eq" and k[0] != "c":
                            for x, v in list(nenv.items()):
                                if v == k or (v[0] == "v" and fn.expr("%%%d" % v[1]) == k):
                                    nenv[x] = ("c", r[1])
                for q1 in qs:
                    q2 = m.edge(q1, fl, cx) if fl else q1
                    if q2 is None:
                        continue
                    if m.iter:
                        q2 = m.trans(q2, b, dst, cx)
                        if m.viol:
                            for v in m.viol:
                                self.violations.append((v, s, blk[-1]))
                            m.viol = []
                    if ids:
                        K = set(ids)
                        e2, f2 = dict(nenv), dict(nfacts)
                        for x in ids:
                            e2.pop(x, None)
                        for x, v in upd.items():
                            if v is not None and v != ("phi", x):
                                e2[x] = v
                        lv0 = self.live[dst]
                        old = promote = new = False
                        for x, v in e2.items():
                            if _has_old(v, K, "oophi") and ("p", x) in lv0:
                                old = True
                        for x in list(e2):
                            v = e2[x]
                            if ("p", x) not in lv0:
                                del e2[x]
                                continue
                            if _has_old(v, K, "oophi"):
                                continue
                            if _has_old(v, K):
                                if old:
                                    del e2[x]
                                else:
                                    e2[x] = freeze(v, K, "ophi", "oophi")
                                    promote = True
                                continue
                            if self._kd(v)[0] & K:
                                w = None
                                if v[0] != "phi":
                                    w = self.fn.expr("%%%d" % v[1]) if v[0] == "v" else v
                                    w = freeze(w, K)
                                    if not _small(w):
                                        w = None
                                if w is None:
                                    del e2[x]
                                else:
                                    e2[x] = w
                                    new = True
                        for k in list(f2):
                            if _has_old(k, K, "oophi"):
                                if not old:
                                    del f2[k]
                            elif _has_old(k, K):
                                v = f2.pop(k)
                                if promote:
                                    f2[freeze(k, K, "ophi", "oophi")] = v
                            elif self._kd(k)[0] & K:
                                v = f2.pop(k)
                                if new:
                                    f2[freeze(k, K)] = v
                        frozen = (old, promote, new)
                        q2 = m.phis(q2, ids, b, dst, cx, frozen)
                        if m.viol:
                            for v in m.viol:
                                self.violations.append((v, s, blk[-1]))
                            m.viol = []
                    else:
                        e2, f2 = nenv, nfacts
                    lv = self.live[dst]
                    e3 = tuple(sorted((x, v) for x, v in e2.items() if ("p", x) in lv))
                    f3 = _fz({k: v for k, v in f2.items() if ("k", k) in lv or k in facts0 or (e3 and _any_old(k))})
                    ns = (dst, e3, f3, q2)
                    if ns not in seen:
                        seen[ns] = s
                        st.append(ns)
        self.nstates = nstates
        return self

    def _kd(self, k):
        d = self.keydeps.get(k)
        if d is None:
            e = self.fn.expr("%%%d" % k[1]) if k[0] == "v" else k
            d = (deps(e) | {k[1]} if k[0] == "v" else deps(e), memfields(e))
            self.keydeps[k] = d
        return d

    def _kill_id(self, n, env, facts):
        env.pop(n, None)
        if env:
            for x in [x for x, v in env.items() if n in self._kd(v)[0]]:
                del env[x]
        if facts:
            for k in [k for k in facts if n in self._kd(k)[0]]:
                del facts[k]

    def _kill_store(self, addr, facts):
        if facts:
            tg = _addr_tags(addr)
            for k in [k for k in facts if self._kd(k)[1] & tg]:
                del facts[k]

    def _kill_call(self, i, facts):
        if facts:
            tg = set()
            for a in i.args():
                e = self.fn.expr(a)
                while e[0] in ("fld", "ix"):
                    e = e[1]
                if e[0] == "al":
                    tg.add(("al", e[1]))
                elif e[0] == "g":
                    tg.add(("g", e[1]))
            if tg:
                for k in [k for k in facts if self._kd(k)[1] & tg]:
                    del facts[k]

    def path(self, s):
        """source lines of the branch decisions leading to state s."""
        out = []
        while s is not None:
            p = self.seen.get(s)
            if p is not None:
                t = self.fn.blocks[p[0]][-1]
                if t.op in ("br", "switch") and t.line:
                    k = canon(self.fn.expr(t.x[0]), TRUE)
                    taken = ""
                    if t.op == "br":
                        taken = "true" if t.x[1] == s[0] else "false"
                    out.append("%s:%d %s -> %s" % (t.src[0] if t.src else "", t.line, show(self.fn.expr(t.x[0]), self.fn)[:90], taken))
            s = p
        out.reverse()
        return out[-14:]


def unfreeze(e):
    """the expression with earlier values of phis replaced by their current ones."""
    if not isinstance(e, tuple):
        return e
    if e and e[0] in ("ophi", "oophi"):
        return ("phi",) + e[1:]
    return tuple(unfreeze(x) for x in e)


def freeze(e, K, frm="phi", to="ophi"):
    """the value e had before the phis K were executed again."""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == frm and e[1] in K:
        return (to, e[1])
    return tuple(freeze(x, K, frm, to) if isinstance(x, tuple) else x for x in e)


def _has_old(e, K, tag="ophi"):
    if not isinstance(e, tuple) or not e:
        return False
    if e[0] == tag:
        return e[1] in K
    return any(_has_old(x, K, tag) for x in e if isinstance(x, tuple))


_ao = {}


def _any_old(e):
    r = _ao.get(e)
    if r is None:
        r = _ao[e] = "ophi'" in repr(e)
    return r


def _small(v):
    return len(repr(v)) < 400


def _fz(d):
    return tuple(sorted(d.items(), key=lambda kv: repr(kv[0])))


def _foldc(o, a, b):
    from core import _fold
    return _fold(o, a, b)


def _cmpc(p, a, b):
    q = _PM.get(p)
    if q is None:
        return None
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[q]


def _addr_tags(a):
    s = set()
    if a[0] == "fld":
        s.add(a[2])
    elif a[0] == "al":
        s.add(("al", a[1]))
    elif a[0] == "g":
        s.add(("g", a[1]))
    elif a[0] == "ix":
        s.add("[]")
    return s


class Machine:
    viol = []
    iter = False

    def __init__(self):
        self.viol = []

    def init(self):
        return ()

    def step(self, q, i, cx):
        return q

    def edge(self, q, facts, cx):
        return q

    def phis(self, q, ids, src, dst, cx, frozen):
        return q
