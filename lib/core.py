"""Static-analysis core: program model over the JSON dumps of tool/eir (SSA, resolved fields)."""
import json, os, re, sys, hashlib, subprocess, glob, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIBDIRS = ["BASICS", "INOUT", "TERMS", "ORDERINGS", "CLAUSES", "PROPOSITIONAL", "LEARN",
           "PCL2", "HEURISTICS", "CONTROL"]
APPDIRS = ["SIMPLE_APPS", "EXTERNAL", "PROVER"]


class Broken(Exception):
    """The analysis itself cannot be carried out (exit 2)."""


# ------------------------------------------------------------------ building

def ensure_tool():
    exe = os.path.join(VERIF, "build", "eir")
    src = os.path.join(VERIF, "tool", "eir.cpp")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    lc = "/usr/lib/llvm-18/bin/llvm-config"
    cxx = subprocess.check_output([lc, "--cxxflags"], text=True).split()
    cxx = [x for x in cxx if not x.startswith(("-O", "-std"))]
    ld = subprocess.check_output([lc, "--ldflags"], text=True).split()
    tmp = exe + ".%d" % os.getpid()
    r = subprocess.run(["clang++-18" if shutil.which("clang++-18") else "clang++", "-O1", "-std=c++17", "-w"] + cxx + [src, "-o", tmp] + ld + ["-lLLVM-18"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("cannot build the IR extractor:\n" + r.stdout[-2000:])
    os.rename(tmp, exe)
    return exe


def makevar(names):
    """Values of make variables of /repo's Makefile.vars, as the build would use them."""
    rules = "".join("pv-%s:\n\t@echo '$(%s)'\n" % (n, n) for n in names)
    out = {}
    for n in names:
        r = subprocess.run(["make", "-s", "--no-print-directory", "-f", "Makefile.vars", "-f", "-", "pv-" + n], cwd=REPO,
                           input=rules, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           env={k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "CFLAGS", "MAKELEVEL")})
        if r.returncode:
            raise Broken("make variable %s: %s" % (n, r.stderr[-500:]))
        out[n] = r.stdout.split()
    return out


def built_programs(d):
    """C files of an application directory that the Makefile links into a program."""
    txt = open(os.path.join(REPO, d, "Makefile")).read()
    res = []
    for f in sorted(glob.glob(os.path.join(REPO, d, "*.c"))):
        o = os.path.basename(f)[:-2] + ".o"
        if o in txt:
            res.append(f)
    return res


def sources():
    res = []
    for d in LIBDIRS:
        res += sorted(glob.glob(os.path.join(REPO, d, "*.c")))
    for d in APPDIRS:
        res += built_programs(d)
    return res


SKIP_PROGRAM = {"PROVER/termprops.c", "PROVER/tsm_classify.c"}


NORM = {}                                  # config -> unit -> function -> normal form


def compile_all(configs=("fo", "ho"), only=None):
    """Compile every unit of /repo's working tree; return {config: {relpath: parsed json}}."""
    exe = ensure_tool()
    mv = makevar(["BUILDFLAGS", "NODEBUG"])
    flags = [x for x in mv["BUILDFLAGS"] + mv["NODEBUG"] if x.startswith("-D") and x != "-DENABLE_LFHO"]
    inc = []
    for d in LIBDIRS + ["EXTERNAL", "PROVER", "CONTRIB/picosat-965"]:
        inc.append("-I" + os.path.join(REPO, d))
    srcs = [s for s in sources() if os.path.relpath(s, REPO) not in SKIP_PROGRAM]
    if only:
        srcs = [s for s in srcs if only(os.path.relpath(s, REPO))]
    tmp = tempfile.mkdtemp(prefix="eir.")
    res = {c: {} for c in configs}
    errors = []
    known = os.path.join(tmp, "known.txt")
    with open(os.path.join(VERIF, "rules", "functions.json")) as f:
        base = json.load(f)
    with open(known, "w") as f:
        f.write("\n".join(sorted({n for tu in base for n in base[tu]})) + "\n")
    for c in configs:
        NORM[c] = {}

    def job(a):
        cfg, s = a
        rel = os.path.relpath(s, REPO)
        base = os.path.join(tmp, cfg + "_" + rel.replace("/", "_"))
        cmd = ["clang", "-w", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-gno-column-info",
               "-std=gnu99", "-emit-llvm", "-c"] + flags + (["-DENABLE_LFHO"] if cfg == "ho" else []) + inc + [s, "-o", base + ".bc"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            errors.append("%s (%s): %s" % (rel, cfg, r.stdout[:800]))
            return
        r = subprocess.run([exe, base + ".bc", base + ".json", known, base + ".norm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        os.unlink(base + ".bc")
        if r.returncode:
            errors.append("%s (%s): eir: %s" % (rel, cfg, r.stdout[:800]))
            return
        with open(base + ".json", "rb") as f:
            data = f.read()
        os.unlink(base + ".json")
        res[cfg][rel] = data
        with open(base + ".norm") as f:
            NORM[cfg][rel] = dict(l.split() for l in f)
        os.unlink(base + ".norm")
    try:
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(job, [(c, s) for s in srcs for c in configs]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if errors:
        raise Broken("compilation failed:\n" + "\n".join(errors[:5]))
    for c in configs:
        for k in sorted(res[c]):
            res[c][k] = json.loads(res[c][k].decode("utf-8", "replace"))
    return res


# ------------------------------------------------------------------ program model

class I:
    """One instruction."""
    __slots__ = ("id", "line", "op", "x", "src")

    def __init__(self, id, line, op, x, src=None):
        self.id, self.line, self.op, self.x, self.src = id, line, op, x, src

    def __repr__(self):
        return "I(%s,%s,%s,%s)" % (self.id, self.line, self.op, self.x)

    def callee(self):
        """name of a direct callee, or None."""
        if self.op == "call" and isinstance(self.x[0], str) and self.x[0].startswith("@"):
            return self.x[0][1:]
        return None

    def args(self):
        return self.x[1]


def ren_op(o, off, argmap):
    if isinstance(o, str):
        if o.startswith("%"):
            n = int(o[1:])
            if n in argmap:
                return argmap[n]
            return "%%%d" % (n + off)
        return o
    if isinstance(o, list):  # const gep
        return [o[0], ren_op(o[1], off, argmap), [p if isinstance(p, str) else [ren_op(p[0], off, argmap), p[1]] for p in o[2]]]
    return o


def ren_instr(i, off, argmap, boff, src):
    op, x = i.op, i.x
    r = lambda o: ren_op(o, off, argmap)
    nid = i.id + off if i.id >= 0 else -1
    if op == "call":
        nx = (r(x[0]), [r(a) for a in x[1]]) + tuple(x[2:])
    elif op == "gep":
        nx = (r(x[0]), [p if isinstance(p, str) else [r(p[0]), p[1]] for p in x[1]])
    elif op == "load":
        nx = (r(x[0]), x[1])
    elif op == "store":
        nx = (r(x[0]), r(x[1]), x[2])
    elif op == "alloca":
        nx = (x[0], r(x[1]))
    elif op == "phi":
        nx = ([[r(v), b + boff] for v, b in x[0]],)
    elif op in ("cmp", "bin"):
        nx = (x[0], r(x[1]), r(x[2]))
    elif op == "cast":
        nx = (x[0], r(x[1]), x[2], x[3])
    elif op == "select":
        nx = (r(x[0]), r(x[1]), r(x[2]))
    elif op == "br":
        nx = (r(x[0]), x[1] + boff, x[2] + boff)
    elif op == "jmp":
        nx = (x[0] + boff,)
    elif op == "switch":
        nx = (r(x[0]), x[1] + boff, [[c, b + boff] for c, b in x[2]])
    elif op == "ret":
        nx = (None if x[0] is None else r(x[0]),)
    elif op == "unreachable":
        nx = ()
    elif op == "extract":
        nx = (r(x[0]), x[1])
    elif op == "insert":
        nx = (r(x[0]), r(x[1]))
    else:
        nx = (x[0], [r(a) for a in x[1]])
    return I(nid, i.line, op, nx, i.src or src)


def operands(i):
    op, x = i.op, i.x
    if op == "call":
        return [x[0]] + list(x[1])
    if op == "gep":
        return [x[0]] + [p[0] for p in x[1] if not isinstance(p, str)]
    if op in ("load",):
        return [x[0]]
    if op == "store":
        return [x[0], x[1]]
    if op == "phi":
        return [v for v, b in x[0]]
    if op in ("cmp", "bin"):
        return [x[1], x[2]]
    if op == "cast":
        return [x[1]]
    if op == "select":
        return [x[0], x[1], x[2]]
    if op in ("br", "switch", "extract"):
        return [x[0]]
    if op == "ret":
        return [] if x[0] is None else [x[0]]
    if op == "insert":
        return [x[0], x[1]]
    if op == "other":
        return list(x[1])
    return []


class Fn:
    def __init__(self, name, tu, d, prog):
        self.name, self.tu, self.prog = name, tu, prog
        self.local = bool(d["local"])
        self.noret = bool(d["noret"])
        self.file = d.get("file", "")
        if self.file.startswith(REPO + "/"):
            self.file = self.file[len(REPO) + 1:]
        self.line = d.get("line", 0)
        self.inline = self.file.endswith(".h")
        self.rt, self.rty = d.get("rt", ""), d.get("rty", "")
        self.params = d["args"]
        self.names = {int(k): v for k, v in d["names"].items()}
        self._raw = d["blocks"]
        self._blocks = None
        self.va = d.get("va", 0)
        self._reset()

    @property
    def blocks(self):
        if self._blocks is None:
            src = (self.file, self.name, self.tu)
            self._blocks = [[I(x[0], x[1], x[2], tuple(x[3:]), src) for x in b] for b in self._raw]
        return self._blocks

    @blocks.setter
    def blocks(self, b):
        self._blocks = b

    def raw_callees(self):
        r = set()
        for b in self._raw:
            for x in b:
                if x[2] == "call" and isinstance(x[3], str) and x[3][0] == "@":
                    r.add(x[3][1:])
        return r

    def _reset(self):
        self._defs = self._preds = self._expr = None
        self._succ = None
        self._loops = None
        self._outs = None
        self._reach = {}

    def clone_shell(self):
        f = Fn.__new__(Fn)
        f.__dict__.update(self.__dict__)
        f._reset()
        return f

    @property
    def outs(self):
        """{alloca: "callee.k|..."}: the calls that get the address of a local variable."""
        if self._outs is None:
            self._outs = {}
            al = set()
            for b, ii, i in self.instrs():
                if i.op == "alloca":
                    al.add("%%%d" % i.id)
            r = {}
            for b, ii, i in self.instrs():
                if i.op == "call" and i.callee() and re.match(r"\w+$", i.callee()):
                    for k, a in enumerate(i.args()):
                        if isinstance(a, str) and a.startswith("%") and a not in al:
                            d = self.defs.get(int(a[1:]))
                            if d and d[2].op in ("gep", "cast"):
                                a = d[2].x[0] if d[2].op == "gep" else d[2].x[1]
                        if isinstance(a, str) and a in al:
                            r.setdefault(int(a[1:]), set()).add("%s.%d" % (i.callee(), k))
            self._outs = {k: "|".join(sorted(v)) for k, v in r.items()}
        return self._outs

    @property
    def defs(self):
        if self._defs is None:
            d = {}
            for bi, b in enumerate(self.blocks):
                for ii, i in enumerate(b):
                    if i.id >= 0:
                        d[i.id] = (bi, ii, i)
            self._defs = d
        return self._defs

    def succs(self, b):
        if self._succ is None:
            s = []
            for blk in self.blocks:
                if not blk:
                    s.append(())
                    continue
                t = blk[-1]
                if t.op == "br":
                    s.append((t.x[1], t.x[2]) if t.x[1] != t.x[2] else (t.x[1],))
                elif t.op == "jmp":
                    s.append((t.x[0],))
                elif t.op == "switch":
                    l = [t.x[1]]
                    for c, bb in t.x[2]:
                        if bb not in l:
                            l.append(bb)
                    s.append(tuple(l))
                else:
                    s.append(())
            self._succ = s
        return self._succ[b]

    @property
    def preds(self):
        if self._preds is None:
            p = [[] for _ in self.blocks]
            for b in range(len(self.blocks)):
                for s in self.succs(b):
                    p[s].append(b)
            self._preds = p
        return self._preds

    def loops(self):
        """{header: set of blocks} of the natural loops, {(src, header)} back edges."""
        if self._loops is None:
            n = len(self.blocks)
            order, seen = [], {0}
            st = [(0, iter(self.succs(0)))]
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(self.succs(y))))
                        break
                else:
                    order.append(x)
                    st.pop()
            order.reverse()
            num = {b: j for j, b in enumerate(order)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for q in self.preds[b]:
                        if q in idom:
                            if new is None:
                                new = q
                            else:
                                a, c = new, q
                                while a != c:
                                    while num[a] > num[c]:
                                        a = idom[a]
                                    while num[c] > num[a]:
                                        c = idom[c]
                                new = a
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._idom = idom
            loops, back = {}, set()
            for b in order:
                for h in self.succs(b):
                    if self.dominates(h, b):
                        back.add((b, h))
                        body = loops.setdefault(h, {h})
                        st = [b]
                        while st:
                            y = st.pop()
                            if y not in body:
                                body.add(y)
                                st.extend(q for q in self.preds[y] if q in num)
            self._loops = (loops, back)
        return self._loops

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self._idom:
                return False
            b = self._idom[b]

    def inner(self, b):
        """header of the innermost loop around block b, or None."""
        best = None
        for h, body in self.loops()[0].items():
            if b in body and (best is None or len(body) < len(self.loops()[0][best])):
                best = h
        return best

    def instrs(self):
        for bi, b in enumerate(self.blocks):
            for ii, i in enumerate(b):
                yield bi, ii, i

    def calls(self, *names):
        for bi, ii, i in self.instrs():
            if i.op == "call":
                c = i.callee()
                if not names or c in names:
                    yield bi, ii, i

    def reach_from(self, b):
        r = self._reach.get(b)
        if r is None:
            r = set(); st = [b]
            while st:
                x = st.pop()
                for s in self.succs(x):
                    if s not in r:
                        r.add(s); st.append(s)
            self._reach[b] = r
        return r

    def where(self, i):
        f = i.src[0] if i.src else self.file
        fn = i.src[1] if i.src else self.name
        return "%s:%d (%s)" % (f, i.line, fn)

    # ---- canonical expressions
    def expr(self, o, _d=0):
        if self._expr is None:
            self._expr = {}
        if isinstance(o, list):
            e = self.expr(o[1], _d + 1)
            return self._path(e, o[2], _d)
        if not isinstance(o, str):
            return ("?",)
        if o[0] == "%":
            n = int(o[1:])
            c = self._expr.get(n)
            if c is not None:
                return c
            if _d > 400:
                return ("deep", n)
            d = self.defs.get(n)
            if d is None:
                e = ("a", n)
            else:
                e = self._iexpr(d[2], _d + 1)
            self._expr[n] = e
            return e
        if o[0] == "#":
            try:
                return ("c", int(o[1:]))
            except ValueError:
                return ("?",)
        if o[0] == "@":
            s = self.prog.strings.get((self.tu, o[1:])) if (o.startswith("@.str") or o.startswith("@__")) else None
            if s is not None:
                return ("s", s)
            return ("g", o[1:])
        return ("k", o)

    def _path(self, e, path, _d):
        for p in path:
            if isinstance(p, str):
                e = ("fld", e, p)
            else:
                e = ("ix", e, self.expr(p[0], _d + 1))
        return e

    def _iexpr(self, i, _d):
        op, x = i.op, i.x
        E = lambda o: self.expr(o, _d)
        if op == "load":
            return ("ld", E(x[0]))
        if op == "gep":
            return self._path(E(x[0]), x[1], _d)
        if op == "cast":
            e = E(x[1])
            if x[0] == "trunc" and x[3] == "i1":
                return e
            if x[0] in ("zext", "sext", "bitcast", "ptrtoint", "inttoptr", "trunc", "addrspacecast"):
                return e
            return ("cast", x[0], e)
        if op == "bin":
            a, b = E(x[1]), E(x[2])
            o = x[0]
            if a[0] == "c" and b[0] == "c":
                v = _fold(o, a[1], b[1])
                if v is not None:
                    return ("c", v)
            if o in ("add", "mul", "and", "or", "xor") and a[0] == "c":
                a, b = b, a
            if o == "sub" and b[0] == "c":
                o, b = "add", ("c", -b[1])
            if o == "add" and b == ("c", 0):
                return a
            if o == "add" and b[0] == "c" and a[0] == "bin" and a[1] == "add" and a[3][0] == "c":
                return ("bin", "add", a[2], ("c", a[3][1] + b[1])) if a[3][1] + b[1] else a[2]
            if o in ("add", "mul", "and", "or", "xor") and b[0] != "c" and repr(b) < repr(a):
                a, b = b, a
            return ("bin", o, a, b)
        if op == "cmp":
            return ("cmp", x[0], E(x[1]), E(x[2]))
        if op == "call":
            c = x[0]
            cn = c[1:] if isinstance(c, str) and c.startswith("@") else ("*", E(c))
            if cn == "llvm.expect.i64":
                return E(x[1][0])
            return ("call", cn, tuple(E(a) for a in x[1]), i.id)
        if op == "phi":
            return ("phi", i.id)
        if op == "select":
            return ("sel", E(x[0]), E(x[1]), E(x[2]))
        if op == "alloca":
            return ("al", i.id, self.outs.get(i.id, ""))
        if op == "extract":
            return ("ext", E(x[0]), tuple(x[1]))
        return ("op", op, i.id)


def _fold(o, a, b):
    try:
        if o == "add": return a + b
        if o == "sub": return a - b
        if o == "mul": return a * b
        if o == "and": return a & b
        if o == "or": return a | b
        if o == "xor": return a ^ b
        if o == "shl": return a << b
    except Exception:
        return None
    return None


def subexprs(e):
    yield e
    if isinstance(e, tuple):
        for x in e[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    yield from subexprs(x)
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            yield from subexprs(y)


def has_load(e, ld):
    """does e read ld now (not: in the arguments of a finished call)?"""
    if e == ld:
        return True
    if not isinstance(e, tuple) or not e or e[0] == "call":
        return False
    return any(has_load(x, ld) for x in e[1:] if isinstance(x, tuple))


def deps(e, acc=None):
    """ids of phis/calls/allocas inside e (their re-execution invalidates facts about e)."""
    acc = set() if acc is None else acc
    if isinstance(e, tuple) and e:
        if e[0] == "phi" or e[0] == "al":
            acc.add(e[1])
        elif e[0] == "call":
            acc.add(e[3])
            if isinstance(e[1], tuple):
                deps(e[1], acc)
            for a in e[2]:
                deps(a, acc)
        elif e[0] == "op":
            acc.add(e[2])
        else:
            for x in e[1:]:
                if isinstance(x, tuple):
                    deps(x, acc)
    return acc


def memfields(e, acc=None):
    """names of fields / allocas / globals loaded inside e."""
    acc = set() if acc is None else acc
    if isinstance(e, tuple) and e:
        if e[0] == "ld":
            a = e[1]
            if a[0] == "fld":
                acc.add(a[2])
            elif a[0] == "al":
                acc.add(("al", a[1]))
            elif a[0] == "g":
                acc.add(("g", a[1]))
            elif a[0] == "ix":
                acc.add("[]")
            memfields(a, acc)
        elif e[0] == "call":
            pass                     # the result of a finished call does not change
        else:
            for x in e[1:]:
                if isinstance(x, tuple):
                    memfields(x, acc)
    return acc


def show(e, fn=None):
    """readable form of a canonical expression."""
    t = e[0]
    S = lambda x: show(x, fn)
    if t == "a":
        if fn is not None and e[1] < len(fn.params):
            return fn.params[e[1]][0] or "arg%d" % e[1]
        return "arg%d" % e[1]
    if t == "c":
        return str(e[1])
    if t == "g":
        return "@" + e[1]
    if t == "s":
        return json.dumps(e[1])
    if t == "ld":
        a = e[1]
        if a[0] == "fld":
            if a[1][0] in ("fld",):
                return S(("ld", a[1])) + "." + a[2].split(".")[-1]
            return S(a[1]) + "->" + a[2].split(".")[-1]
        if a[0] == "g":
            return a[1]
        if a[0] == "al":
            nm = fn.names.get(a[1]) if fn is not None else None
            return nm[0] if nm else "local%d" % a[1]
        if a[0] == "ix":
            b = S(a[1])
            return (b[1:] if b.startswith("&") else b) + "[" + S(a[2]) + "]"
        return "*" + S(a)
    if t == "fld":
        return "&" + S(e[1]) + "->" + e[2].split(".")[-1]
    if t == "ix":
        b = S(e[1])
        return "&" + (b[1:] if b.startswith("&") else b) + "[" + S(e[2]) + "]"
    if t == "call":
        n = e[1] if isinstance(e[1], str) else "(*%s)" % S(e[1][1])
        return "%s(%s)" % (n, ", ".join(S(a) for a in e[2]))
    if t == "phi":
        nm = fn.names.get(e[1]) if fn is not None else None
        return "%s.%d" % (nm[0] if nm else "phi", e[1])
    if t == "al":
        nm = fn.names.get(e[1]) if fn is not None else None
        return "&%s" % (nm[0] if nm else "local%d" % e[1])
    if t == "bin":
        return "(%s %s %s)" % (S(e[2]), {"and": "&", "or": "|", "add": "+", "sub": "-", "mul": "*"}.get(e[1], e[1]), S(e[3]))
    if t == "cmp":
        return "(%s %s %s)" % (S(e[2]), e[1], S(e[3]))
    if t == "lt":
        return "(%s < %s)" % (S(e[1]), S(e[2]))
    if t == "eq2":
        return "(%s == %s)" % (S(e[1]), S(e[2]))
    if t == "sel":
        return "(%s ? %s : %s)" % (S(e[1]), S(e[2]), S(e[3]))
    if t == "cast":
        return S(e[2])
    return str(e)


class Prog:
    def __init__(self, cfg, tus):
        self.cfg, self.tus = cfg, tus
        self.enums, self.enumval, self.structs, self.sizes, self.strings = {}, {}, {}, {}, {}
        self.globals = {}
        self.fns = {}        # (tu, name) -> Fn
        self.byname = {}     # name -> [Fn]
        self.noret = {"exit", "_exit", "abort", "longjmp", "__assert_fail"}
        for tu, d in tus.items():
            for k, v in d["enums"].items():
                self.enums.setdefault(k, v)
                for n, val in v:
                    self.enumval.setdefault(n, val)
            for k, v in d["structs"].items():
                self.structs.setdefault(k, v)
            for k, v in d["sizes"].items():
                self.sizes.setdefault(k, v)
            for k, v in d["globals"].items():
                if v.get("def"):
                    self.globals[(tu, k)] = v
                    iv = v.get("init")
                    if isinstance(iv, dict) and "s" in iv:
                        self.strings[(tu, k)] = iv["s"]
                    elif iv == "zero" and k.startswith(".str"):
                        self.strings[(tu, k)] = ""
            for k, v in d["functions"].items():
                f = Fn(k, tu, v, self)
                self.fns[(tu, k)] = f
                self.byname.setdefault(k, []).append(f)
        self._infer_noret()

    def fn(self, name, tu=None):
        l = self.byname.get(name)
        if not l:
            return None
        if tu:
            for f in l:
                if f.tu == tu:
                    return f
        for f in l:
            if not f.local and not f.tu.startswith(("PROVER/", "SIMPLE_APPS/", "EXTERNAL/")):
                return f
        return l[0]

    def resolve(self, caller, name):
        f = self.fns.get((caller.tu, name))
        if f:
            return f
        for g in self.byname.get(name, ()):
            if not g.local and not g.tu.startswith(("PROVER/", "SIMPLE_APPS/", "EXTERNAL/")):
                return g
        return None

    def glob(self, name, tu=None):
        if tu and (tu, name) in self.globals:
            return self.globals[(tu, name)]
        for (t, n), v in self.globals.items():
            if n == name:
                return v
        return None

    def _infer_noret(self):
        """functions with no path to a return once calls that never return are cut."""
        self.callers_raw = {}
        self.callees_raw = {}
        for k, f in self.fns.items():
            rc = f.raw_callees()
            self.callees_raw[k] = rc
            for c in rc:
                self.callers_raw.setdefault(c, []).append(k)
        noret_keys = set()
        work = [k for n in self.noret for k in self.callers_raw.get(n, ())]
        while work:
            k = work.pop()
            if k in noret_keys:
                continue
            if not self._can_return(self.fns[k], noret_keys):
                noret_keys.add(k)
                work += self.callers_raw.get(k[1], ())
        self.noret_keys = noret_keys

    def call_noret(self, f, i):
        if i.op != "call":
            return False
        if len(i.x) > 2 and i.x[2]:
            return True
        c = i.callee()
        if c is None:
            return False
        if c in self.noret:
            return True
        g = self.fns.get((f.tu, c))
        if g is None:
            for h in self.byname.get(c, ()):
                if not h.local:
                    g = h
                    break
        return g is not None and (g.tu, g.name) in self.noret_keys

    def _can_return(self, f, nk):
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            dead = False
            for i in f.blocks[b]:
                if i.op == "call":
                    c = i.callee()
                    if c in self.noret or (len(i.x) > 2 and i.x[2]):
                        dead = True
                        break
                    if c:
                        g = self.fns.get((f.tu, c))
                        if g is None:
                            for h in self.byname.get(c, ()):
                                if not h.local:
                                    g = h
                                    break
                        if g is not None and (g.tu, g.name) in nk:
                            dead = True
                            break
                elif i.op == "ret":
                    return True
            if dead:
                continue
            for s in f.succs(b):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return False

    # ---- inlining
    def inline(self, f, policy, maxdepth=12, maxblocks=6000):
        """copy of f with every call for which policy(callee Fn) holds replaced by the callee's body."""
        g = f.clone_shell()
        nid = [max([i.id for b in f.blocks for i in b] + [len(f.params)]) + 1]
        blocks = [list(b) for b in f.blocks]
        stack = {}  # block index -> call chain
        names = dict(f.names)
        work = list(range(len(blocks)))
        chain = {b: (f.name,) for b in work}
        subst = {}
        wi = 0
        while wi < len(work):
            b = work[wi]
            wi += 1
            for ii, i in enumerate(blocks[b]):
                if i.op != "call":
                    continue
                c = i.callee()
                if not c:
                    continue
                host_tu = None
                # resolve relative to the unit the instruction came from
                src_tu = i.src[2] if i.src and len(i.src) > 2 else f.tu
                h = self.fns.get((src_tu, c)) or self.resolve(f, c)
                if h is None or h.name in chain[b] or len(chain[b]) > maxdepth or h.va:
                    continue
                if not policy(h):
                    continue
                if len(blocks) + len(h.blocks) > maxblocks:
                    raise Broken("inlining into %s exceeds %d blocks" % (f.name, maxblocks))
                off = nid[0]
                argmap = {k: (i.x[1][k] if k < len(i.x[1]) else "undef") for k in range(len(h.params))}
                nparams = len(h.params)
                boff = len(blocks)
                src = (h.file, h.name, h.tu)
                cont = boff + len(h.blocks)
                rets = []
                nb = []
                for hb, hblk in enumerate(h.blocks):
                    out = []
                    for hi in hblk:
                        if hi.op == "ret":
                            if hi.x[0] is not None:
                                rets.append((ren_op(hi.x[0], off, argmap), boff + hb))
                            out.append(I(-1, hi.line, "jmp", (cont,), src))
                        else:
                            n = ren_instr(hi, off, argmap, boff, src)
                            n.src = src
                            out.append(n)
                    nb.append(out)
                nid[0] = off + max([x.id for bb in h.blocks for x in bb] + [nparams]) + 1
                for k, v in h.names.items():
                    if k >= nparams:
                        names[k + off] = v
                tail = blocks[b][ii + 1:]
                blocks[b] = blocks[b][:ii] + [I(-1, i.line, "jmp", (boff,), i.src)]
                blocks.extend(nb)
                head = []
                if i.id >= 0:
                    if rets:
                        head.append(I(i.id, i.line, "phi", ([[v, bb] for v, bb in rets],), i.src))
                    else:
                        head.append(I(i.id, i.line, "other", ("undef", []), i.src))
                blocks.append(head + tail)
                # phis in successors of b must now name cont
                for s in _succ_of(tail):
                    blocks[s] = [_phi_retarget(p, b, cont) for p in blocks[s]]
                for k in range(boff, cont):
                    chain[k] = chain[b] + (h.name,)
                    work.append(k)
                chain[cont] = chain[b]
                work.append(cont)
                break
        g.blocks = blocks
        g.names = names
        g._reset()
        _drop_unreachable(g)
        return g


def _succ_of(tail):
    if not tail:
        return []
    t = tail[-1]
    if t.op == "br":
        return {t.x[1], t.x[2]}
    if t.op == "jmp":
        return {t.x[0]}
    if t.op == "switch":
        return {t.x[1]} | {b for _, b in t.x[2]}
    return []


def _phi_retarget(i, old, new):
    if i.op != "phi":
        return i
    if not any(b == old for _, b in i.x[0]):
        return i
    return I(i.id, i.line, "phi", ([[v, new if b == old else b] for v, b in i.x[0]],), i.src)


def _drop_unreachable(f):
    seen = {0}
    st = [0]
    while st:
        b = st.pop()
        for s in f.succs(b):
            if s not in seen:
                seen.add(s)
                st.append(s)
    for b in range(len(f.blocks)):
        if b not in seen:
            f.blocks[b] = []
    f._reset()
    for b in range(len(f.blocks)):
        f.blocks[b] = [i if i.op != "phi" or all(p in seen for _, p in i.x[0]) else
                       I(i.id, i.line, "phi", ([[v, p] for v, p in i.x[0] if p in seen],), i.src) for i in f.blocks[b]]
    f._reset()


def load(configs=("fo", "ho"), only=None):
    data = compile_all(configs, only)
    return {c: Prog(c, data[c]) for c in configs}
