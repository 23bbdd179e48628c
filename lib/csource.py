"""C17: data races in the OpenMP regions of the compiled kernels, decided on clang's syntax tree.
Also provides the C function signatures used by C16."""
import json, os, re, subprocess
from harness import Finding, Result
from pkg import AnalysisError

HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(HERE, "cstubs")
REPO = os.environ.get("VERIF_REPO", "/repo")

GEMM = {}
for _t in "zcds":
    GEMM["cblas_%sgemm" % _t] = dict(reads=(7, 9), out=12, beta=11, rows=3, cols=4, ld=13, order=0)
    GEMM["%sgemm_" % _t] = dict(reads=(6, 8), out=11, beta=10, rows=3, cols=2, ld=12, order=None)
# library function -> {argument: event}; other pointer arguments are only read
LIB = {"memset": {0: "W"}, "memcpy": {0: "W", 1: "R"}, "memmove": {0: "W", 1: "R"}, "free": {}, "printf": None, "fprintf": None,
       "cblas_daxpy": {2: "R", 4: "A"}, "cblas_zaxpy": {2: "R", 4: "A"}, "cblas_dcopy": {1: "R", 3: "W"}, "cblas_zcopy": {1: "R", 3: "W"},
       "cblas_dscal": {2: "A"}, "cblas_zscal": {2: "A"}}
ALLOC = {"malloc", "calloc", "realloc", "aligned_alloc"}
PURE = {"conj", "cimag", "creal", "fabs", "abs", "labs", "sqrt", "exp", "log", "pow", "omp_get_thread_num", "omp_get_num_threads",
        "omp_get_max_threads", "cabs", "fmax", "fmin", "conjf"} | ALLOC
CASTS = {"ImplicitCastExpr", "CStyleCastExpr", "ParenExpr", "ConstantExpr", "ExprWithCleanups"}
REGION = {"OMPParallelDirective", "OMPParallelForDirective", "OMPParallelForSimdDirective", "OMPParallelSectionsDirective"}
WSLOOP = {"OMPForDirective", "OMPForSimdDirective", "OMPParallelForDirective", "OMPParallelForSimdDirective"}


# ------------------------------------------------------------------ polynomials: {sorted tuple of symbols: int}
def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def pmul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l))
            r[m] = r.get(m, 0) + v * w
            if not r[m]:
                del r[m]
    return r


def const(c):
    return {(): c} if c else {}


def nonneg(p):
    """At least zero when every symbol is at least one (sufficient condition)."""
    return all(v > 0 for k, v in p.items() if k) and sum(p.values()) >= 0


def show(p):
    if not p:
        return "0"
    return " + ".join("*".join(([str(v)] if v != 1 or not k else []) + [s.split("#")[0] for s in k]) for k, v in sorted(p.items()))


class Unit:
    """One C source file."""

    def __init__(self, path):
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        cmd = ["clang", "-fsyntax-only", "-w", "-fopenmp", "-I", STUBS, "-Xclang", "-ast-dump=json", path]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode or not r.stdout:
            raise AnalysisError("clang cannot parse %s: %s" % (self.rel, r.stderr.strip()[:300]))
        self.ast = json.loads(r.stdout)
        self.src = open(path, encoding="utf-8", errors="replace").read()
        self.bsrc = self.src.encode()
        self.funcs = {}
        for n in self.ast["inner"]:
            if n.get("kind") == "FunctionDecl" and any(c.get("kind") == "CompoundStmt" for c in n.get("inner", [])):
                if self.offset(n) is not None and not n.get("loc", {}).get("includedFrom") and "includedFrom" not in n.get("range", {}).get("begin", {}):
                    self.funcs[n["name"]] = n
        self.decls = {}
        self.defs = {}      # decl id -> [init/assigned expressions]
        self.summ = {}
        self._index(self.ast)

    def _index(self, n):
        stack = [n]
        while stack:
            n = stack.pop()
            k = n.get("kind", "")
            if k in ("VarDecl", "ParmVarDecl"):
                if n["id"] not in self.decls:
                    self.decls[n["id"]] = n
                    if n.get("inner") and "init" in n:
                        self.defs.setdefault(n["id"], []).append(n["inner"][-1])
            elif k in ("BinaryOperator",) and n.get("opcode") == "=":
                t = strip(n["inner"][0])
                if t.get("kind") == "DeclRefExpr":
                    L = self.defs.setdefault(t["referencedDecl"]["id"], [])
                    if not any(x is not None and x.get("id") == n["inner"][1].get("id") for x in L):
                        L.append(n["inner"][1])
            elif (k == "CompoundAssignOperator") or (k == "UnaryOperator" and n.get("opcode") in ("++", "--")):
                t = strip(n["inner"][0])
                if t.get("kind") == "DeclRefExpr":
                    self.defs.setdefault(t["referencedDecl"]["id"], []).append(None)
            if k.startswith("OMP") and k != "OMPCapturedExprDecl":
                pass
            stack.extend(c for c in n.get("inner", []) if isinstance(c, dict) and c.get("kind") != "OMPCapturedExprDecl")

    def offset(self, n):
        b = n.get("range", {}).get("begin", {})
        if "offset" in b:
            return b["offset"]
        for k in ("expansionLoc", "spellingLoc"):
            if "offset" in b.get(k, {}):
                return b[k]["offset"]
        return n.get("loc", {}).get("offset")

    def line(self, n):
        o = self.offset(n)
        return self.bsrc[:o].count(b"\n") + 1 if o is not None else 0

    def text(self, n):
        """Source text of a node without white space."""
        b, e = n["range"]["begin"], n["range"]["end"]
        if "offset" not in b or "offset" not in e:
            return n["id"]
        return re.sub(r"\s+", "", self.bsrc[b["offset"]:e["offset"] + e.get("tokLen", 1)].decode())

    def pragma(self, n):
        """Text of the pragma of an OpenMP directive (clauses are not part of the JSON tree)."""
        ln = self.line(n) - 1
        lines = self.src.split("\n")
        while ln > 0 and "#pragma" not in lines[ln] and lines[ln - 1].rstrip().endswith("\\"):
            ln -= 1
        text = lines[ln]
        while text.rstrip().endswith("\\"):
            ln += 1
            text = text.rstrip()[:-1] + " " + lines[ln]
        return text

    def clauses(self, n):
        out = {}
        t = self.pragma(n)
        for m in re.finditer(r"(\w+)\s*\(([^()]*)\)", t):
            names = m.group(2).split(":")[-1]
            out.setdefault(m.group(1), []).extend(x.strip() for x in names.split(",") if x.strip())
        out["nowait"] = "nowait" in t
        return out


def strip(n):
    while n.get("kind") in CASTS and n.get("inner"):
        n = n["inner"][0]
    return n


def is_ptr(n):
    t = (n.get("type") or {}).get("qualType", "")
    return "*" in t or "[" in t


class Race:
    """Walks one function, producing events on memory objects."""

    def __init__(self, unit, fn, findings, counts):
        self.u, self.fn, self.findings, self.counts = unit, fn, findings, counts
        self.alts = {}
        self.params = [p for p in fn["inner"] if p.get("kind") == "ParmVarDecl"]
        self.body = [c for c in fn["inner"] if c.get("kind") == "CompoundStmt"][0]

    # ---------------- names and polynomials
    def sym(self, d):
        return "%s#%s" % (d.get("name"), d["id"])

    def poly(self, e, depth=0):
        e = strip(e)
        k = e.get("kind")
        if k == "IntegerLiteral":
            return const(int(e["value"]))
        if k == "FloatingLiteral":
            return {("?%s" % e["value"],): 1}
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            ds = self.u.defs.get(d["id"], [])
            full = self.u.decls.get(d["id"], d)
            if d["id"] not in self.loops and len(ds) == 1 and ds[0] is not None and not is_ptr(full) and depth < 12 and full.get("kind") == "VarDecl":
                return self.poly(ds[0], depth + 1)
            return {(self.sym(d),): 1}
        if k == "BinaryOperator" and e["opcode"] in "+-*":
            a, b = (self.poly(x, depth + 1) for x in e["inner"][:2])
            return pmul(a, b) if e["opcode"] == "*" else padd(a, b, 1 if e["opcode"] == "+" else -1)
        if k == "UnaryOperator" and e["opcode"] == "-":
            return padd({}, self.poly(e["inner"][0], depth + 1), -1)
        if k == "UnaryOperator" and e["opcode"] in ("++", "--"):
            return self.poly(e["inner"][0], depth + 1)
        if k == "CallExpr":
            f = self.callee(e)
            return {("call:%s" % f,): 1}
        if k == "ConditionalOperator":      # MIN, MAX
            s = "?%s" % self.u.offset(e)
            self.alts[s] = [self.poly(x, depth + 1) for x in e["inner"][1:]]
            return {(s,): 1}
        return {("?%s" % self.u.offset(e),): 1}

    def callee(self, e):
        f = strip(e["inner"][0])
        return f.get("referencedDecl", {}).get("name")

    def depends(self, e, ids, depth=0):
        """Whether the value of an expression depends on one of the variables."""
        stack, seen = [e], set()
        while stack:
            n = stack.pop()
            if n.get("kind") == "DeclRefExpr":
                i = n["referencedDecl"]["id"]
                if i in ids:
                    return True
                if i not in seen:
                    seen.add(i)
                    stack.extend(d for d in self.u.defs.get(i, []) if d)
            stack.extend(c for c in n.get("inner", []) if isinstance(c, dict))
        return False

    # ---------------- memory objects: ("var", id) | ("mem", id) | ("alloc", id) | None, with offset polynomial or None
    def ptr(self, e, depth=0):
        e = strip(e)
        k = e.get("kind")
        if depth > 12:
            return [(None, None)]
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            full = self.u.decls.get(d["id"], d)
            if full.get("kind") == "ParmVarDecl" or "[" in (full.get("type") or {}).get("qualType", ""):
                kind = "mem" if full.get("kind") == "ParmVarDecl" else "var"
                return [((kind, d["id"]), {})]
            out = []
            for x in self.u.defs.get(d["id"], []):
                if x is None:
                    out.append((None, None))
                    continue
                s = strip(x)
                if s.get("kind") in ("GNUNullExpr", "IntegerLiteral"):
                    continue
                out += self.ptr(x, depth + 1)
            return out or [(("mem", d["id"]), {})]
        if k == "BinaryOperator" and e["opcode"] in "+-":
            a, b = e["inner"][:2]
            if is_ptr(b) and not is_ptr(a):
                a, b = b, a
            p = self.poly(b)
            return [(m, None if o is None else padd(o, p, 1 if e["opcode"] == "+" else -1)) for m, o in self.ptr(a, depth + 1)]
        if k == "UnaryOperator" and e["opcode"] == "&":
            return self.lval(e["inner"][0], depth + 1)
        if k == "UnaryOperator" and e["opcode"] == "*":
            return [(m, None) for m, o in self.lval(e, depth + 1)]
        if k == "ConditionalOperator":
            return self.ptr(e["inner"][1], depth + 1) + self.ptr(e["inner"][2], depth + 1)
        if k == "CallExpr":
            f = self.callee(e)
            if f in ALLOC:
                return [(("alloc", e["id"]), {})]
            fn = self.u.funcs.get(f)
            if fn is not None:     # a function returning one of its pointer arguments or an allocation
                out = []
                for a in e["inner"][1:]:
                    if is_ptr(a):
                        out += [(m, None) for m, _ in self.ptr(a, depth + 1)]
                return out or [(None, None)]
            return [(None, None)]
        if k == "CompoundLiteralExpr":
            return [(("local", e["id"]), {})]
        if k in ("ArraySubscriptExpr", "MemberExpr"):     # a pointer stored in memory
            return [(m, None) for m, _ in self.lval(e, depth + 1)]
        if k == "StringLiteral":
            return []
        return [(None, None)]

    def lval(self, e, depth=0):
        e = strip(e)
        k = e.get("kind")
        if k == "DeclRefExpr":
            return [(("var", e["referencedDecl"]["id"]), {})]
        if k == "ArraySubscriptExpr":
            a, i = e["inner"][:2]
            if not is_ptr(a):
                a, i = i, a
            p = self.poly(i)
            return [(m, None if o is None else padd(o, p)) for m, o in self.ptr(a, depth + 1)]
        if k == "UnaryOperator" and e["opcode"] == "*":
            return self.ptr(e["inner"][0], depth + 1)
        if k == "MemberExpr":
            if e.get("isArrow"):
                return self.ptr(e["inner"][0], depth + 1)
            return self.lval(e["inner"][0], depth + 1)
        if k == "CompoundLiteralExpr":
            return [(("local", e["id"]), {})]
        return [(None, None)]

    # ---------------- events
    def emit(self, kind, targets, node, extent=None):
        for m, o in targets:
            self.events.append(dict(kind=kind, mem=m, off=o, extent=extent, node=node, ctx=dict(self.ctx), loops=dict(self.loops), may=len(targets) > 1))

    def expr(self, e):
        """Events of evaluating an expression, in order."""
        k = e.get("kind")
        if k in CASTS:
            s = strip(e)
            self.expr(s)
            if k == "ImplicitCastExpr" and self.has_l2r(e) and s.get("kind") in ("DeclRefExpr", "ArraySubscriptExpr", "MemberExpr") or \
                    self.has_l2r(e) and s.get("kind") == "UnaryOperator" and s["opcode"] == "*":
                self.emit("R", self.lval(s), s, extent=const(1))
            return
        if k == "BinaryOperator" and e["opcode"] == "=":
            x = self.accumulation(e)
            if x is not None:
                self.expr(x)
                self.addr(e["inner"][0])
                self.emit("A", self.lval(e["inner"][0]), e, extent=const(1))
                return
            self.expr(e["inner"][1])
            self.addr(e["inner"][0])
            self.emit("W", self.lval(e["inner"][0]), e, extent=const(1))
            return
        if k == "CompoundAssignOperator":
            self.expr(e["inner"][1])
            self.addr(e["inner"][0])
            self.emit("A", self.lval(e["inner"][0]), e, extent=const(1))
            return
        if k == "UnaryOperator" and e["opcode"] in ("++", "--"):
            self.addr(e["inner"][0])
            self.emit("A", self.lval(e["inner"][0]), e, extent=const(1))
            return
        if k == "UnaryOperator" and e["opcode"] == "&":
            self.addr(e["inner"][0])
            return
        if k == "CallExpr":
            self.call(e)
            return
        if k in ("ArraySubscriptExpr", "MemberExpr") or (k == "UnaryOperator" and e["opcode"] == "*"):
            self.addr(e)
            return
        if k == "UnaryExprOrTypeTraitExpr":
            return
        for c in e.get("inner", []):
            if isinstance(c, dict) and c.get("kind"):
                self.expr(c)

    def accumulation(self, e):
        """The other operand x of  v = v + x,  v = fmax(v, x)  and  v = x > v ? x : v,  or None."""
        v, r = self.u.text(strip(e["inner"][0])), strip(e["inner"][1])
        if r.get("kind") == "BinaryOperator" and r["opcode"] in ("+", "*"):
            ops = r["inner"]
        elif r.get("kind") == "CallExpr" and self.callee(r) in ("fmax", "fmin"):
            ops = r["inner"][1:]
        elif r.get("kind") == "ConditionalOperator" and strip(r["inner"][0]).get("opcode") in ("<", ">", "<=", ">="):
            ops = r["inner"][1:]
            if {self.u.text(strip(o)) for o in strip(r["inner"][0])["inner"]} != {self.u.text(strip(o)) for o in ops}:
                return None
        else:
            return None
        same = [self.u.text(strip(o)) == v for o in ops]
        return ops[same.index(False)] if sorted(same) == [False, True] else None

    def extremum(self, s):
        """The assignment of  if (x > v) v = x;  or None."""
        c, b = strip(s["inner"][0]), s["inner"][1]
        while b.get("kind") == "CompoundStmt" and len(b.get("inner", [])) == 1:
            b = b["inner"][0]
        b = strip(b)
        if len(s["inner"]) == 2 and c.get("opcode") in ("<", ">", "<=", ">=") and b.get("kind") == "BinaryOperator" and b["opcode"] == "=":
            if {self.u.text(strip(x)) for x in c["inner"]} == {self.u.text(strip(x)) for x in b["inner"]}:
                return b
        return None

    def has_l2r(self, e):
        while e.get("kind") in CASTS:
            if e.get("castKind") == "LValueToRValue":
                return True
            e = e["inner"][0]
        return False

    def addr(self, e):
        e = strip(e)
        if e.get("kind") == "ArraySubscriptExpr":
            for c in e["inner"]:
                self.expr(c)
        elif e.get("kind") in ("MemberExpr",):
            self.addr(e["inner"][0])
        elif e.get("kind") == "UnaryOperator" and e["opcode"] == "*":
            self.expr(e["inner"][0])

    def constant(self, e):
        """Numeric value of an argument given by value or as the address of a constant, or None."""
        e = strip(e)
        if e.get("kind") == "UnaryOperator" and e["opcode"] in "&-":
            v = self.constant(e["inner"][0])
            return -v if e["opcode"] == "-" and v is not None else v
        if e.get("kind") in ("IntegerLiteral", "FloatingLiteral"):
            return float(e["value"])
        if e.get("kind") == "DeclRefExpr":
            ds = self.u.defs.get(e["referencedDecl"]["id"], [])
            if len(ds) == 1 and ds[0] is not None:
                return self.constant(ds[0])
        return None

    def val(self, e):
        """Polynomial of an argument given by value or by address of an integer variable."""
        s = strip(e)
        if s.get("kind") == "UnaryOperator" and s["opcode"] == "&":
            return self.poly(s["inner"][0])
        return self.poly(e)

    def call(self, e):
        f = self.callee(e)
        args = e["inner"][1:]
        for a in args:
            self.expr(a)
        if f in PURE:
            return
        if f in GEMM:
            g = GEMM[f]
            for i in g["reads"]:
                self.emit("R", self.ptr(args[i]), args[i])
            beta = self.constant(args[g["beta"]])
            rows, cols, ld = (self.val(args[g[x]]) for x in ("rows", "cols", "ld"))
            colmajor = g["order"] is not None and strip(args[g["order"]]).get("referencedDecl", {}).get("name") == "CblasColMajor"
            if colmajor:
                rows, cols = cols, rows
            extent = padd(pmul(padd(rows, const(1), -1), ld), cols)
            self.emit("W" if beta == 0 else "A", self.ptr(args[g["out"]]), args[g["out"]], extent=extent)
            return
        if f in LIB:
            for i, k in (LIB[f] or {}).items():
                self.emit(k, self.ptr(args[i]), args[i])
            return
        fn = self.u.funcs.get(f)
        if fn is not None:
            summ = summary(self.u, f, self.findings, self.counts)
            for a, evs in zip(args, summ):
                if evs and is_ptr(a):
                    for k in evs:
                        self.emit(k, self.ptr(a), a)
            return
        for a in args:
            if is_ptr(a):
                self.emit("?", self.ptr(a), e)

    # ---------------- statements
    def stmt(self, s):
        k = s.get("kind")
        if not k:
            return
        if k == "CompoundStmt":
            for c in s.get("inner", []):
                self.stmt(c)
        elif k == "DeclStmt":
            for v in s.get("inner", []):
                if v.get("kind") == "VarDecl":
                    self.local.add(v["id"])
                    if v.get("storageClass") == "static":
                        self.static.add(v["id"])
                    if "init" in v and v.get("inner"):
                        self.expr(v["inner"][-1])
                        self.emit("W", [(("var", v["id"]), {})], v, extent=const(1))
                    elif v.get("inner") and "init" not in v:
                        pass
        elif k == "ForStmt":
            self.loop(s)
        elif k == "IfStmt":
            inner = s["inner"]
            b = self.extremum(s)
            if b is not None:
                self.expr(b["inner"][1])
                self.addr(b["inner"][0])
                self.emit("A", self.lval(b["inner"][0]), b, extent=const(1))
                return
            self.expr(inner[0])
            conds = self.ctx.get("conds", ())
            inv = self.invariant(inner[0])
            self.events.append(dict(kind="if", node=s))
            self.ctx["conds"] = conds + (inv,) if inv else conds
            self.stmt(inner[1])
            self.events.append(dict(kind="else", node=s))
            self.ctx["conds"] = conds + ((inv[0], not inv[1]),) if inv else conds
            if len(inner) > 2:
                self.stmt(inner[2])
            self.ctx["conds"] = conds
            self.events.append(dict(kind="endif", node=s))
        elif k in ("WhileStmt", "DoStmt"):
            for c in s["inner"]:
                self.stmt(c)
        elif k == "OMPCriticalDirective" or k == "OMPAtomicDirective" or k == "OMPOrderedDirective":
            old = self.ctx["protected"]
            self.ctx["protected"] = k
            self.stmt(body_of(s))
            self.ctx["protected"] = old
        elif k in ("OMPSingleDirective", "OMPMasterDirective", "OMPMaskedDirective"):
            old = self.ctx["one"]
            self.ctx["one"] = s["id"]
            self.stmt(body_of(s))
            self.ctx["one"] = old
            if k == "OMPSingleDirective" and not self.u.clauses(s)["nowait"]:
                self.interval()
        elif k == "OMPBarrierDirective":
            self.interval()
        elif k in WSLOOP or k in REGION or k.startswith("OMP"):
            self.directive(s)
        elif k in ("ReturnStmt", "CaseStmt", "SwitchStmt", "LabelStmt", "DefaultStmt", "AttributedStmt"):
            for c in s.get("inner", []):
                self.stmt(c)
        elif k in ("GotoStmt", "BreakStmt", "ContinueStmt", "NullStmt"):
            pass
        else:
            self.expr(s)

    def invariant(self, e):
        """Identity of a condition which has the same value for all threads throughout: it reads only variables of the
        enclosing function that are never reassigned.  None otherwise."""
        stack = [e]
        while stack:
            n = stack.pop()
            if n.get("kind") in ("CallExpr", "ArraySubscriptExpr", "MemberExpr"):
                return None
            if n.get("kind") == "UnaryOperator" and n.get("opcode") in ("*", "++", "--"):
                return None
            if n.get("kind") == "DeclRefExpr":
                i = n["referencedDecl"]["id"]
                full = self.u.decls.get(i, {})
                if i in self.local or len(self.u.defs.get(i, [])) > (0 if full.get("kind") == "ParmVarDecl" else 1):
                    return None
            stack.extend(c for c in n.get("inner", []) if isinstance(c, dict))
        e, side = strip(e), True
        while e.get("kind") == "UnaryOperator" and e.get("opcode") == "!":
            e, side = strip(e["inner"][0]), not side
        return self.u.text(e), side

    def interval(self):
        self.ctx["interval"] += 1

    def loop(self, s):
        inner = s["inner"]
        init, cond, inc, body = inner[0], inner[-3], inner[-2], inner[-1]
        if init.get("kind"):
            self.stmt(init)
        saved = dict(self.loops)
        var, bound = self.bound(init, cond)
        if var:
            self.loops[var] = bound
        if cond.get("kind"):
            self.expr(cond)
        self.stmt(body)
        if inc.get("kind"):
            self.expr(inc)
        self.loops = saved

    def bound(self, init, cond):
        """(loop variable, exclusive upper bound polynomial or None) of a canonical loop starting at a non-negative value."""
        c = strip(cond) if cond.get("kind") else {}
        if c.get("kind") == "BinaryOperator" and c.get("opcode") in ("<", "<=", "!="):
            l = strip(c["inner"][0])
            if l.get("kind") == "DeclRefExpr":
                b = self.poly(c["inner"][1])
                if c["opcode"] == "<=":
                    b = padd(b, const(1))
                return l["referencedDecl"]["id"], b
        return None, None

    def directive(self, s):
        raise NotImplementedError


def body_of(s):
    """Statement a directive applies to (the entries before it are its clauses)."""
    kids = [c for c in s.get("inner", []) if c.get("kind")]
    return unwrap(kids[-1]) if kids else {}


def unwrap(c):
    """Body statement of a captured statement."""
    while c.get("kind") in ("CapturedStmt", "CapturedDecl"):
        kids = [x for x in c.get("inner", []) if x.get("kind") and not x["kind"].endswith("Decl") or x.get("kind") == "CapturedDecl"]
        if not kids:
            return {}
        c = kids[0]
    return c


class Summary(Race):
    """Events of a function on the memory its pointer parameters point to, outside any parallel region."""

    def run(self):
        self.events, self.loops, self.local, self.static = [], {}, set(), set()
        self.ctx = dict(protected=None, one=None, interval=0, ws=None)
        self.stmt(self.body)
        idx = {p["id"]: i for i, p in enumerate(self.params)}
        out = [[] for _ in self.params]
        for e in self.events:
            if e["kind"] in ("if", "else", "endif"):
                continue
            m = e["mem"]
            if m and m[0] == "mem" and m[1] in idx:
                out[idx[m[1]]].append(e["kind"])
            elif m and m[0] in ("mem", "var") and e["kind"] != "R" and m[1] not in self.local and m[1] not in idx:
                self.shared_write(e)
            elif m and m[0] == "var" and m[1] in self.static and e["kind"] != "R":
                self.shared_write(e)
        return [reduce_events(x) for x in out]

    def shared_write(self, e):
        d = self.u.decls.get(e["mem"][1], {})
        self.findings.append((self.fn["name"], self.u.line(e["node"]), "shared-write", d.get("name", "?"),
                              "%s, which all threads share, is written by %s, which is called from a parallel region" % (d.get("name"), self.fn["name"])))

    def directive(self, s):
        self.stmt(body_of(s))


def reduce_events(x):
    """Keep what matters: the first event and whether there are others."""
    out = []
    for k in x:
        if k not in out:
            out.append(k)
    return out


def summary(unit, name, findings, counts):
    if name not in unit.summ:
        unit.summ[name] = [["?"]] * 40      # recursion
        unit.summ[name] = Summary(unit, unit.funcs[name], findings, counts).run()
    return unit.summ[name]


class Region(Race):
    """A function with parallel regions."""

    def run(self):
        self.events, self.loops, self.local, self.static = [], {}, set(), set()
        self.ctx = dict(protected=None, one=None, interval=0, ws=None)
        self.region = None
        self.stmt(self.body)

    def clause_ids(self, s, names):
        """Declarations named by clauses: those referenced inside the directive with that name and declared outside it."""
        out, stack = set(), [s]
        while stack:
            n = stack.pop()
            if n.get("kind") == "DeclRefExpr" and n["referencedDecl"].get("name") in names:
                out.add(n["referencedDecl"]["id"])
            stack.extend(c for c in n.get("inner", []) if isinstance(c, dict))
        return out

    def directive(self, s):
        k = s["kind"]
        cl = self.u.clauses(s)
        if k in REGION and self.region is None:
            self.counts["regions"] += 1
            outer_events, outer_local, outer_ctx = self.events, self.local, self.ctx
            self.events, self.local = [], set()
            self.ctx = dict(protected=None, one=None, interval=0, ws=None)
            self.region = s
            self.priv = self.clause_ids(s, set(cl.get("private", []) + cl.get("firstprivate", []) + cl.get("reduction", []) + cl.get("lastprivate", [])))
            self.uninit = self.clause_ids(s, set(cl.get("private", [])))
            self.red = []
            body = body_of(s)
            if k in WSLOOP:
                self.wsloop(s, body, cl)
            else:
                self.stmt(body)
            self.check()
            self.region = None
            self.events, self.local, self.ctx = outer_events, outer_local, outer_ctx
            return
        if k in WSLOOP and self.region is not None:
            self.wsloop(s, body_of(s), cl)
            if not cl["nowait"]:
                self.interval()
            return
        self.stmt(body_of(s))

    def wsloop(self, s, body, cl):
        self.counts["worksharing_loops"] += 1
        red = self.clause_ids(s, set(cl.get("reduction", []) + cl.get("private", []) + cl.get("firstprivate", []) + cl.get("lastprivate", [])))
        n = 1
        if "collapse" in cl:
            n = int(cl["collapse"][0])
        vars_, b = [], body
        for _ in range(n):
            while b.get("kind") == "CompoundStmt":
                b = b["inner"][0]
            init, cond = b["inner"][0], b["inner"][-3]
            v, bd = self.bound(init, cond)
            if init.get("kind") == "DeclStmt":
                v = init["inner"][0]["id"]
            if v is None:
                raise AnalysisError("%s:%d: loop form not understood" % (self.u.rel, self.u.line(s)))
            vars_.append((v, bd))
            b = b["inner"][-1]
        old = self.ctx["ws"]
        oldp = set(self.priv)
        self.priv |= red | {v for v, _ in vars_}
        self.ctx["ws"] = (s["id"], tuple(v for v, _ in vars_), tuple(tuple(sorted((bd or {}).items())) for _, bd in vars_), frozenset(red | {v for v, _ in vars_}))
        self.stmt(body)
        self.ctx["ws"] = old
        self.priv = oldp

    # ---------------- the rules
    def private(self, m, e):
        """Whether a memory object belongs to one thread (or one iteration)."""
        if m[0] == "local":
            return True
        if m[0] == "alloc":
            return m[1] in self.inner_allocs
        if m[0] == "var":
            if m[1] in self.static:
                return False
            return m[1] in self.local or m[1] in self.priv or bool(e["ctx"]["ws"] and m[1] in e["ctx"]["ws"][3])
        return False

    def name(self, m):
        if m is None:
            return "?"
        if m[0] == "alloc":
            for i, ds in self.u.defs.items():
                if any(d and strip(d).get("id") == m[1] for d in ds):
                    return self.u.decls[i].get("name")
            return "allocated memory"
        return self.u.decls.get(m[1], {}).get("name", "?")

    def report(self, e, rule, con, msg):
        self.findings.append((self.fn["name"], self.u.line(e["node"]), rule, con, msg))

    def check(self):
        # allocations made inside the region belong to the thread that made them
        self.inner_allocs = set()
        stack = [self.region]
        while stack:
            n = stack.pop()
            if n.get("kind") == "CallExpr":
                self.inner_allocs.add(n["id"])
            stack.extend(c for c in n.get("inner", []) if isinstance(c, dict))
        shared = {}
        for e in self.events:
            if e["kind"] in ("if", "else", "endif"):
                continue
            m = e["mem"]
            self.counts["accesses"] += 1
            if m is None:
                if e["kind"] in ("W", "A", "?"):
                    self.report(e, "unknown-target", "?", "a write inside a parallel region goes to memory that could not be identified")
                continue
            if self.private(m, e):
                continue
            shared.setdefault(m, []).append(e)
        for m, evs in shared.items():
            writes = [e for e in evs if e["kind"] != "R"]
            if not writes:
                continue
            self.counts["shared_written"] += 1
            bad = False
            for e in writes:
                if e["kind"] == "?":
                    self.report(e, "unknown-effect", self.name(m), "shared memory %r is passed to a function whose effect is unknown" % self.name(m))
                    bad = True
                elif e["ctx"]["protected"] or e["ctx"]["one"]:
                    e["stride"] = "protected"
                else:
                    why, st = self.disjoint(m, e)
                    if why:
                        self.report(e, "shared-write", self.name(m), "%r is shared by all threads and %s" % (self.name(m), why))
                        bad = True
                    else:
                        e["stride"] = st
            if bad:
                continue
            for e in evs:
                iv = e["ctx"]["interval"]
                same = [w for w in writes if w["ctx"]["interval"] == iv]
                if not same:
                    continue
                if e["kind"] == "R":
                    if e["ctx"]["protected"] and all(w["ctx"]["protected"] for w in same):
                        continue
                    if e["ctx"]["one"] and all(w["ctx"]["one"] == e["ctx"]["one"] for w in same):
                        continue
                    why, st = self.disjoint(m, e)
                    others = {w["stride"] for w in same if not exclusive(e, w)}
                    if why or others - {st}:
                        self.report(e, "shared-read", self.name(m), "%r is read by all threads while other threads write it" % self.name(m))
                        break
            intervals = {}
            for w in writes:
                intervals.setdefault(w["ctx"]["interval"], []).append((w, "protected" if (w["ctx"]["protected"] or w["ctx"]["one"]) else self.disjoint(m, w)[1]))
            for iv, ss in intervals.items():
                if any(x != y and not exclusive(v, w) for v, x in ss for w, y in ss):
                    self.report(writes[0], "shared-write", self.name(m), "%r is written at locations assigned to threads in different ways without a barrier between them" % self.name(m))
        self.carried()

    def disjoint(self, m, e):
        """(why not, stride): the location belongs to one iteration of the work-shared loop."""
        ws = e["ctx"]["ws"]
        what = "written" if e["kind"] != "R" else "read"
        if m[0] == "var" and not is_ptr(self.u.decls.get(m[1], {})):
            return "is %s by every thread without a critical or atomic section" % what, None
        if ws is None and not any("call:omp_get_thread_num" in k for k in (e["off"] or {})):
            return "is %s outside a work-shared loop without a critical or atomic section" % what, None
        if e["off"] is None:
            return "is %s at a location that could not be related to the iteration" % what, None
        dist = []
        if ws:
            dist = [("%s#%s" % (self.u.decls.get(v, {}).get("name"), v), dict(b) if b else None) for v, b in zip(ws[1], ws[2])]
        if not dist or not any(any(v in k for k in e["off"]) for v, _ in dist):
            dist2 = [("call:omp_get_thread_num", None)]
            if any("call:omp_get_thread_num" in k for k in e["off"]):
                dist = dist2
            else:
                return "the location %s does not depend on the iteration of the work-shared loop" % what, None
        # one distributed variable with coefficient S (several with collapse: the last one with smallest stride must appear, all must appear)
        for v, b in dist:
            if not any(v in k for k in e["off"]):
                return "the location %s does not depend on %r, over which iterations are distributed" % (what, v.split("#")[0]), None
        v, b = dist[-1]
        S, rest = {}, {}
        for k, c in e["off"].items():
            if k.count(v) == 1:
                kk = list(k)
                kk.remove(v)
                S[tuple(kk)] = S.get(tuple(kk), 0) + c
            elif v in k:
                return None, "nonlinear"
            else:
                rest[k] = c
        if len(S) != 1:
            return None, show(S)
        (sm, sc), = S.items()
        # group the remaining terms by loop variable
        need = e["extent"] if e["extent"] is not None else None
        small = {}
        known = need is not None
        for k, c in rest.items():
            if k == ():
                small = padd(small, {k: c})
                continue
            if b is not None and len(b) == 1 and divisible(k, c, mono(b, sm, sc)):
                continue
            lv = [x for x in k if x.split("#")[-1] in e["loops"]]
            if len(lv) == 1 and k.count(lv[0]) == 1 and e["loops"][lv[0].split("#")[-1]] is not None and c > 0:
                bd = e["loops"][lv[0].split("#")[-1]]
                kk = list(k)
                kk.remove(lv[0])
                small = padd(small, pmul({tuple(kk): c}, padd(bd, const(1), -1)))
            else:
                known = False
        if known:
            slack = padd(padd(S, small, -1), need, -1)
            if not nonneg(slack) and slack and all(c < 0 for c in slack.values()):
                return "iterations %s overlapping ranges (stride %s, range %s)" % ("write" if what == "written" else "read", show(S), show(padd(small, need))), None
            if not any(nonneg(x) for x in self.expand(slack)):
                return "the range %s by one iteration (%s) is not shown to stay within its stride %s" % (what, show(padd(small, need)), show(S)), None
        return None, show(S)

    def expand(self, p):
        """The polynomial with each MIN/MAX in it replaced by either operand."""
        for k in p:
            for x in k:
                if x in self.alts:
                    out = []
                    for a in self.alts[x]:
                        q = {}
                        for l, c in p.items():
                            t = {tuple(y for y in l if y != x): c}
                            for _ in range(l.count(x)):
                                t = pmul(t, a)
                            q = padd(q, t)
                        out += self.expand(q)
                    return out
        return [p]

    def carried(self):
        """Values of thread-private memory must not be carried from one iteration of a work-shared loop to the next."""
        loops = {}
        for i, e in enumerate(self.events):
            if e["kind"] in ("if", "else", "endif"):
                continue
            if e["ctx"]["ws"]:
                loops.setdefault(e["ctx"]["ws"][0], []).append(i)
        for ws, idx in loops.items():
            lo, hi = idx[0], idx[-1]
            declared_in = {e["mem"][1] for e in self.events[lo:hi + 1] if e["kind"] == "W" and e.get("mem") and e["node"].get("kind") == "VarDecl"}
            state, stack, carried, first = set(), [], {}, {}
            for e in self.events[lo:hi + 1]:
                if e["kind"] == "if":
                    stack.append([set(state), None])
                    continue
                if e["kind"] == "else":
                    stack[-1][1] = set(state)
                    state = set(stack[-1][0])
                    continue
                if e["kind"] == "endif":
                    a = stack.pop()[1]
                    state = a & state
                    continue
                m = e["mem"]
                if m is None or not self.private(m, e) or m[0] == "local" or m[1] in declared_in:
                    continue
                if e["ctx"]["ws"] and m[0] == "var" and m[1] in e["ctx"]["ws"][3]:
                    continue
                if e["kind"] == "W":
                    if m not in state and self.scattered(m, e):
                        continue
                    state.add(m)
                elif m not in state and not (e["may"] and e["kind"] == "R"):
                    if self.readonly(m, lo, hi):
                        continue
                    carried.setdefault(m, set()).add(e["kind"])
                    first.setdefault(m, e)
            for m, kinds in carried.items():
                evs = [e for e in self.events[lo:hi + 1] if e.get("mem") == m]
                if kinds == {"A"} and not any(e["kind"] == "R" for e in evs):
                    before = [e for e in self.events[:lo] if e.get("mem") == m and e["kind"] == "W"]
                    if not before and not self.zeroed(m):
                        self.report(first[m], "uninitialised", self.name(m), "%r is accumulated over iterations but not initialised by its thread" % self.name(m))
                    after = [e for e in self.events[hi + 1:] if e.get("mem") == m and e["kind"] == "R"]
                    if not after:
                        self.report(first[m], "lost", self.name(m), "%r is accumulated by each thread and the threads' values are never combined" % self.name(m))
                    self.counts["accumulators"] += 1
                else:
                    self.report(first[m], "carried", self.name(m), "the value of %r is carried from one iteration to the next by the thread that happens to run it" % self.name(m))
            self.counts["private_objects"] += len({e["mem"] for e in self.events[lo:hi + 1] if e.get("mem") and self.private(e["mem"], e)})
        # private(x) starts uninitialised
        seen = set()
        for e in self.events:
            if e["kind"] in ("if", "else", "endif") or not e["mem"] or e["mem"][0] != "var" or e["mem"][1] not in self.uninit:
                continue
            if e["kind"] == "W":
                seen.add(e["mem"])
            elif e["mem"] not in seen:
                seen.add(e["mem"])
                self.report(e, "uninitialised", self.name(e["mem"]), "the private copy of %r is used before it is assigned" % self.name(e["mem"]))

    def scattered(self, m, e):
        """Whether a store goes to an element picked by data, so that the stores of a loop need not cover the array."""
        if m[0] == "var" and not is_ptr(self.u.decls.get(m[1], {})) or e["extent"] != const(1) or e["off"] is None:
            return False
        for k in e["off"]:
            for x in k:
                if x.startswith("?"):
                    return True
        return False

    def readonly(self, m, lo, hi):
        return not any(e.get("mem") == m and e["kind"] != "R" for e in self.events[lo:hi + 1])

    def zeroed(self, m):
        """Memory from calloc."""
        if m[0] != "alloc":
            return False
        stack = [self.region]
        while stack:
            n = stack.pop()
            if n.get("id") == m[1]:
                return self.callee(n) == "calloc"
            stack.extend(c for c in n.get("inner", []) if isinstance(c, dict))
        return False


def mono(b, sm, sc):
    (bk, bc), = b.items()
    return tuple(sorted(bk + sm)), bc * sc


def divisible(k, c, m):
    mk, mc = m
    kk = list(k)
    for x in mk:
        if x in kk:
            kk.remove(x)
        else:
            return False
    return mc != 0 and c % mc == 0


def exclusive(a, b):
    """Whether two accesses lie in opposite branches of a condition that is the same for all threads."""
    y = dict(b["ctx"].get("conds", ()))
    return any(k in y and y[k] != v for k, v in a["ctx"].get("conds", ()))


def c_files():
    out = []
    base = os.path.join(REPO, "vayesta")
    for d, _, fs in os.walk(base):
        out += [os.path.join(d, f) for f in fs if f.endswith(".c")]
    return sorted(out)


def analyse(prop, tier):
    res = Result()
    counts = dict(files=0, functions=0, regions=0, worksharing_loops=0, accesses=0, shared_written=0, private_objects=0, accumulators=0)
    for path in c_files():
        u = Unit(path)
        counts["files"] += 1
        for name, fn in u.funcs.items():
            counts["functions"] += 1
            raw = []
            r = Region(u, fn, raw, counts)
            r.run()
            for f, ln, rule, con, msg in dict.fromkeys(raw):
                res.findings.append(Finding("C17", rule, "%s:%s" % (os.path.basename(path), f), con or "?", "%s:%d" % (u.rel, ln), msg))
    res.coverage = counts
    res.floors = {"files": 3, "regions": 4, "worksharing_loops": 5, "shared_written": 6, "accumulators": 3}
    res.explanation = "Every access to memory inside every parallel region of the C sources was classified by the object it goes to; rule: objects shared by the threads are written only in critical/atomic/single sections or at locations whose index is distributed over the iterations without overlap, are not read while others write them, and objects private to a thread carry no value from one iteration to the next except sums that are combined afterwards."
    res.assumptions = ["distinct pointer parameters do not overlap", "BLAS writes only its output argument", "an inner loop that initialises an array covers the elements used later"]
    return res
