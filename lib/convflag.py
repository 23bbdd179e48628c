"""C14: convergence flags.  Path-wise abstract interpretation of the kernels of cluster solvers,
fragments, embeddings and self-consistency drivers.

An *event* is the run of something iterative that has a convergence flag (`x.kernel()`,
`x.solve_lambda()`, a root search called so that it does not raise).  A boolean value carries
the events whose success it implies when it is true (T) and when it is false (F).  At every
normal exit of a kernel, `self.converged` must imply the success of every event whose outcome
the kernel used; so must the `converged` argument of the Results object that it creates.
Self-consistency loops (over range(... maxiter ...)) are events whose success is a comparison
with a tolerance."""
import ast

import pkg
from harness import Finding, Result
from pkg import ClassInfo, FuncInfo, dotted

ALL = "ALL"
EMPTY = frozenset()
MAXSTATES = 3000
EVENT_METHODS = {"kernel": "conv", "run": "conv", "solve_lambda": "lambda", "scf": "conv"}
FLAGS = {"converged": "conv", "converged_lambda": "lambda", "success": "conv"}
SCIPY = {"brentq", "brenth", "ridder", "bisect", "newton", "toms748", "root_scalar", "minimize", "minimize_scalar", "root", "fsolve", "least_squares", "basinhopping"}
RESULT_ALIAS = (".results", "._results", ".solver_results")


def union(a, b):
    return ALL if a == ALL or b == ALL else a | b


def inter(a, b):
    return b if a == ALL else a if b == ALL else a & b


# values: ("u", taint) ("b", T, F, taint) ("o", sym) ("c", atoms) ("l", items) ("f", id) ("m", sym, name) ("s", text)

U = ("u", EMPTY)


class State:
    __slots__ = ("vars", "attrs", "facts", "events", "memo", "taint", "stored", "nompi", "res")

    def __init__(self):
        self.vars, self.attrs, self.facts, self.events, self.memo, self.taint = {}, {}, EMPTY, {}, {}, {}
        self.stored, self.nompi, self.res = EMPTY, False, EMPTY

    def copy(self):
        s = State.__new__(State)
        s.vars, s.attrs, s.facts, s.events, s.memo, s.taint = dict(self.vars), dict(self.attrs), self.facts, dict(self.events), dict(self.memo), dict(self.taint)
        s.stored, s.nompi, s.res = self.stored, self.nompi, self.res
        return s

    def key(self):
        # variables and attributes that carry neither an outcome nor a flag do not tell states apart
        hot = {k for k, t in self.taint.items() if t} | {s for (_, s) in self.events}

        def plain(v):
            if v[0] == "u":
                return not v[1]
            if v[0] == "o":
                return v[1].split(".")[0] not in hot and v[1] not in hot
            if v[0] == "l":
                return all(plain(x) for x in v[1])
            if v[0] == "b":
                return v[1] == EMPTY and v[2] == EMPTY and not v[3]
            return v[0] in ("g", "z", "range", "cls")
        live = set()

        def see(v):
            if v[0] == "o":
                live.add(v[1].split(".")[0])
            elif v[0] in "lz":
                for x in v[1]:
                    see(x)
        for d in (self.vars, self.attrs):
            for k, v in d.items():
                see(v)
                if d is self.attrs:
                    live.add(k[0].split(".")[0])
        return (frozenset(x for x in self.vars.items() if not plain(x[1])), frozenset(x for x in self.attrs.items() if x[1][0] == "b" or not plain(x[1])), self.facts,
                frozenset(self.events.items()), frozenset(self.memo.items()), frozenset(x for x in self.taint.items() if x[1] and x[0].split(".")[0] in live), self.stored, self.nompi, self.res)


class Exit:
    """how control leaves a statement list"""
    NORMAL, BREAK, CONTINUE, RETURN, RAISE = range(5)


class Interp:
    def __init__(self, pk, cls, prop):
        self.pk, self.cls, self.prop = pk, cls, prop
        self.frames = {}       # frame id -> (parent frame id or None, FuncInfo, class owning the method)
        self.frameids, self.curframe = {}, 0
        self.closures = {}     # closure id -> (node, frame)
        self.findings = []
        self.stats = {"events": set(), "exits": 0, "flags": set(), "paths": 0}
        self.entry = None
        self.repeat = set()
        self.noflag = set()
        self.calls_back = set()     # objects that were given a function of the kernel: they run it
        self.search_entry = False
        self.kernels = []      # closures installed as self.kernel
        self.depth = 0

    # ---------- frames

    def new_frame(self, parent, func, owner, site=None):
        """frames are named after the chain of call sites, so that equal states look equal"""
        name = "%s>%s" % (self.curframe, "%d:%d" % (site.lineno, site.col_offset) if site is not None else "")
        fid = self.frameids.setdefault((name, parent, id(func)), len(self.frameids) + 1)
        self.frames[fid] = (parent, func, owner)
        return fid

    def getvar(self, st, fr, name):
        while fr is not None:
            if (fr, name) in st.vars:
                return st.vars[(fr, name)]
            fr = self.frames[fr][0]
        return None

    def setvar(self, st, fr, name, val):
        f = fr
        # nonlocal
        node = self.frames[fr][1]
        while f is not None:
            if f != fr and (f, name) in st.vars and name in self.nonlocals(node):
                st.vars[(f, name)] = val
                return
            f = self.frames[f][0]
        st.vars[(fr, name)] = val

    def nonlocals(self, node):
        if not hasattr(node, "_nl"):
            node._nl = {n for s in ast.walk(node) if isinstance(s, ast.Nonlocal) for n in s.names}
        return node._nl

    # ---------- values

    def sym(self, st, v):
        return v[1] if v is not None and v[0] == "o" else None

    def taint_of(self, st, v):
        if v is None:
            return EMPTY
        k = v[0]
        if k == "u":
            return v[1]
        if k == "b":
            return v[3]
        if k == "o":
            out = EMPTY
            s = v[1]
            for t, x in st.taint.items():
                if s == t or s.startswith(t + "."):
                    out |= x
            return out
        if k == "l":
            out = EMPTY
            for x in v[1]:
                out |= self.taint_of(st, x)
            return out
        if k == "f":
            node, fr = self.closures[v[1]]
            out = EMPTY
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    w = self.getvar(st, fr, n.id)
                    if w is not None and w != v and w[0] != "f":
                        out |= self.taint_of(st, w)
            return out
        return EMPTY

    def boolean(self, st, v):
        """(T, F) of a value used as a condition"""
        if v is not None and v[0] == "b":
            return v[1], v[2]
        return EMPTY, EMPTY

    # ---------- facts

    def add_event(self, st, kind, sym, node, external):
        self.forget(st, kind, sym)
        st.events[(kind, sym)] = (self.loc(node), external, self.text(node))
        self.stats["events"].add((self.loc(node), kind))
        if not external:
            st.taint[sym] = st.taint.get(sym, EMPTY) | {(kind, sym)}

    def forget(self, st, kind, sym):
        """what was known about earlier runs of the object is outdated"""
        mine = self.atoms_of_elem(sym)

        def about(f):
            k, s = f[-2], f[-1]
            if k != kind or f[0] == "crit":
                return False
            if s == sym:
                return True
            e = self.atoms_of_elem(s)
            if mine is None or e is None:
                return False
            a, b = set(mine[0].split(";")), set(e[0].split(";"))
            return a != b and (a <= b or b <= a)

        def drop(x):
            return x if x == ALL else frozenset(f for f in x if not about(f))

        def val(v):
            if v[0] == "b":
                return ("b", drop(v[1]), drop(v[2]), v[3])
            if v[0] == "l":
                return ("l", tuple(val(x) for x in v[1]))
            return v
        st.facts = drop(st.facts)
        for k, v in st.vars.items():
            if v[0] in "bl":
                st.vars[k] = val(v)
        for k, v in st.attrs.items():
            if v[0] in "bl":
                st.attrs[k] = val(v)

    def loc(self, node):
        return self.funcstack[-1].loc(node)

    @staticmethod
    def text(node):
        if isinstance(node, ast.FunctionDef):
            return "the search of " + node.name
        t = " ".join(ast.unparse(node).split())
        return t if len(t) < 90 else t[:87] + "..."

    @staticmethod
    def atoms_of_elem(sym):
        # "elem<...>#1" or "elem<...>#1.results"
        if sym.startswith("elem<"):
            body = sym[5:].rsplit(">#", 1)
            return body[0], body[1]
        return None

    @staticmethod
    def atom_text(atom):
        return ";".join(sorted(atom))

    def implied(self, facts, kind, sym, remote=False):
        if facts == ALL:
            return True

        def has(x):
            return (("remote", kind, x) if remote else (kind, x)) in facts
        e = self.atoms_of_elem(sym)
        if has(sym) and (e is None or not remote):
            return True
        if e is None:
            return False
        mine = set(e[0].split(";"))
        # every element of a collection that contains this one
        colls = {self.atoms_of_elem(f[-1])[0] for f in facts if f[-1].startswith("elem<")}
        return any(set(c.split(";")) <= mine and has("elem<%s>#1" % c) and has("elem<%s>#2" % c) for c in colls)

    # ---------- requirement check

    def required(self, st, extra=EMPTY):
        out = []
        stored = st.stored | extra
        for (s, name), v in st.attrs.items():
            if s == "self":
                stored |= self.taint_of(st, v)
        for (kind, sym), (loc, external, text) in sorted(st.events.items()):
            if external or (kind, sym) in stored:
                out.append((kind, sym, loc, text))
        return out

    def check(self, st, facts, where, what, extra=EMPTY):
        facts = union(facts, st.facts)
        self.stats["paths"] += 1
        for kind, sym, loc, text in self.required(st, extra):
            ok = self.implied(facts, kind, sym)
            if kind == "loop":
                ok = facts == ALL or any(f[0] == "crit" for f in facts)
            if not ok:
                self.report("flag-not-implied", text, loc, "%s can be true although %s (%s) did not converge: it does not follow from its convergence flag on every path to %s" % (
                    what, text, loc, where))
            elif "mpi_rank" in sym and not st.nompi and kind == "conv" and what == "self.converged":
                if not self.implied(facts, kind, sym, remote=True):
                    self.report("other-processes", text, loc, "%s does not include the flags of the fragments solved on other processes" % what)

    def report(self, rule, construct, loc, msg):
        f = self.entry
        self.findings.append(Finding(self.prop, rule, f.short if not self.cls or f.cls is self.cls else "%s (as %s)" % (f.short, self.cls.qualname.replace("vayesta.", "", 1)), construct, loc, msg))

    # ---------- expressions

    def ev(self, st, fr, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            return m(st, fr, n)
        t = EMPTY
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                t |= self.taint_of(st, self.ev(st, fr, c))
        return ("u", t)

    def e_Constant(self, st, fr, n):
        if n.value is True:
            return ("b", EMPTY, ALL, EMPTY)
        if n.value is False or n.value is None:
            return ("b", ALL, EMPTY, EMPTY)
        return U

    def e_Name(self, st, fr, n):
        v = self.getvar(st, fr, n.id)
        if v is not None:
            return v
        return ("g", n.id)

    def e_Attribute(self, st, fr, n):
        b = self.ev(st, fr, n.value)
        return self.attr(st, fr, b, n.attr, n)

    def attr(self, st, fr, b, name, n):
        if b[0] == "g":
            return ("g", b[1] + "." + name)
        if b[0] == "super":
            return ("sm", b[1], name)
        if b[0] == "o":
            s = b[1]
            if name in FLAGS:
                self.stats["flags"].add(self.loc(n))
                for a in RESULT_ALIAS:
                    if s.endswith(a):
                        s = s[: -len(a)]
                if (s, name) in st.attrs:
                    return st.attrs[(s, name)]
                return ("b", frozenset([(FLAGS[name], s)]), EMPTY, EMPTY)
            if (s, name) in st.attrs:
                return st.attrs[(s, name)]
            if s == "self":
                r = self.self_attr(st, name)
                if r is not None:
                    return r
            if name in EVENT_METHODS:
                return ("m", s, name)
            return ("o", s + "." + name)
        if b[0] == "u" and name in FLAGS:
            return ("b", EMPTY, EMPTY, b[1])
        return ("u", self.taint_of(st, b))

    def self_attr(self, st, name):
        """attributes of self that are another object's kernel (self._kernel_orig = self.emb.kernel), properties returning them"""
        if self.cls is None:
            return None
        f = self.pk.find_method(self.cls, name)
        if f is not None and f.is_property:
            rets = [s for s in ast.walk(f.node) if isinstance(s, ast.Return) and s.value is not None]
            if len(rets) == 1 and isinstance(rets[0].value, ast.Attribute) and isinstance(rets[0].value.value, ast.Name) and rets[0].value.value.id == "self" and rets[0].value.attr != name:
                return self.self_attr(st, rets[0].value.attr)
            return None
        for k in self.pk.mro(self.cls):
            ini = k.methods.get("__init__")
            if ini is None:
                continue
            for s in ast.walk(ini.node):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and dotted(s.targets[0]) == "self." + name:
                    d = dotted(s.value)
                    if d and d.startswith("self.") and d.split(".")[-1] == "kernel" and d.count(".") > 1:
                        return ("m", d.rsplit(".", 1)[0], "kernel")
        return None

    def e_BoolOp(self, st, fr, n):
        vs = [self.ev(st, fr, v) for v in n.values]
        T, F = self.boolean(st, vs[0])
        taint = EMPTY
        for v in vs:
            taint |= self.taint_of(st, v)
        for v in vs[1:]:
            t, f = self.boolean(st, v)
            if isinstance(n.op, ast.And):
                T, F = union(T, t), inter(F, f)
            else:
                T, F = inter(T, t), union(F, f)
        return ("b", T, F, taint)

    def e_UnaryOp(self, st, fr, n):
        v = self.ev(st, fr, n.operand)
        if isinstance(n.op, ast.Not):
            T, F = self.boolean(st, v)
            return ("b", F, T, self.taint_of(st, v))
        return ("u", self.taint_of(st, v))

    def e_BinOp(self, st, fr, n):
        a, b = self.ev(st, fr, n.left), self.ev(st, fr, n.right)
        if isinstance(n.op, ast.BitAnd) and (a[0] == "b" or b[0] == "b"):
            (T, F), (t, f) = self.boolean(st, a), self.boolean(st, b)
            return ("b", union(T, t), inter(F, f), EMPTY)
        if isinstance(n.op, ast.BitOr) and (a[0] == "b" or b[0] == "b"):
            (T, F), (t, f) = self.boolean(st, a), self.boolean(st, b)
            return ("b", inter(T, t), union(F, f), EMPTY)
        if isinstance(n.op, ast.Mult) and (a[0] == "b" and b[0] == "b"):
            return ("b", union(a[1], b[1]), inter(a[2], b[2]), EMPTY)
        if isinstance(n.op, ast.Add):
            if a[0] == "c" and b[0] == "c":
                return ("c", a[1] | b[1])
            if a[0] == "l" and b[0] == "l":
                return ("l", a[1] + b[1])
        return ("u", self.taint_of(st, a) | self.taint_of(st, b))

    def e_Compare(self, st, fr, n):
        a = self.ev(st, fr, n.left)
        bs = [self.ev(st, fr, c) for c in n.comparators]
        taint = self.taint_of(st, a)
        for b in bs:
            taint |= self.taint_of(st, b)
        if len(bs) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            c = n.comparators[0]
            if isinstance(c, ast.Constant) and isinstance(c.value, bool) and a[0] == "b":
                pos = c.value == isinstance(n.ops[0], (ast.Is, ast.Eq))
                return ("b", a[1], a[2], taint) if pos else ("b", a[2], a[1], taint)
        if len(bs) == 1:
            l, r = ast.unparse(n.left), ast.unparse(n.comparators[0])
            op = type(n.ops[0])
            up, lo = (r, l) if op in (ast.Lt, ast.LtE) else (l, r)
            if op in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                tol_up = "tol" in up.lower() or self.istol(st, fr, n.comparators[0] if up is r else n.left)
                tol_lo = "tol" in lo.lower() or self.istol(st, fr, n.left if up is r else n.comparators[0])
                cr = frozenset([("crit", "%s<%s" % (lo, up) if tol_up else "%s>%s" % (up, lo))])
                if tol_up and not tol_lo:
                    return ("b", cr, EMPTY, taint)
                if tol_lo and not tol_up:
                    return ("b", EMPTY, cr, taint)
        return ("b", EMPTY, EMPTY, taint)

    def istol(self, st, fr, node):
        """a local computed from a tolerance"""
        if isinstance(node, ast.Name):
            v = self.getvar(st, fr, node.id)
            return v is not None and v[0] == "o" and "tol" in v[1].lower()
        return False

    def e_IfExp(self, st, fr, n):
        c = self.ev(st, fr, n.test)
        a, b = self.ev(st, fr, n.body), self.ev(st, fr, n.orelse)
        (cT, cF) = self.boolean(st, c)
        if a[0] == "b" or b[0] == "b":
            (aT, aF), (bT, bF) = self.boolean(st, a), self.boolean(st, b)
            return ("b", inter(union(cT, aT), union(cF, bT)), inter(union(cT, aF), union(cF, bF)), self.taint_of(st, a) | self.taint_of(st, b))
        if a == b:
            return a
        if a[0] == "c" and b[0] == "c":
            return ("c", a[1] | b[1])
        if a[0] in "mo" and b[0] not in "mo":
            return a
        return ("u", self.taint_of(st, a) | self.taint_of(st, b))

    def e_NamedExpr(self, st, fr, n):
        v = self.ev(st, fr, n.value)
        self.assign(st, fr, n.target, v, n)
        return v

    def e_List(self, st, fr, n):
        items = []
        for e in n.elts:
            v = self.ev(st, fr, e.value if isinstance(e, ast.Starred) else e)
            if isinstance(e, ast.Starred) and v[0] == "l":
                items.extend(v[1])
            else:
                items.append(v)
        return ("l", tuple(items))

    e_Tuple = e_List

    def e_Dict(self, st, fr, n):
        t = EMPTY
        for v in n.values:
            t |= self.taint_of(st, self.ev(st, fr, v))
        return ("u", t)

    def e_Lambda(self, st, fr, n):
        return self.closure(n, fr)

    def e_JoinedStr(self, st, fr, n):
        return U

    def closure(self, node, fr):
        cid = "%d:%d:%d" % (node.lineno, node.col_offset, fr)
        self.closures[cid] = (node, fr)
        return ("f", cid)

    def e_Subscript(self, st, fr, n):
        b = self.ev(st, fr, n.value)
        if isinstance(n.slice, ast.Constant) and n.slice.value == "converged":
            if b[0] == "o":
                return ("b", frozenset([("conv", b[1])]), EMPTY, EMPTY)
        if b[0] == "l" and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and -len(b[1]) <= n.slice.value < len(b[1]):
            return b[1][n.slice.value]
        if b[0] == "c":
            return ("o", "elem<%s>#%s" % (self.atom_text(sorted(b[1], key=str)[0]), "1"))
        if b[0] == "o":
            return ("o", b[1] + "[%s]" % self.text(n.slice))
        return ("u", self.taint_of(st, b))

    def comp(self, st, fr, n):
        """values of the element expression over the generator (two symbolic elements per collection)"""
        g = n.generators[0]
        it = self.ev(st, fr, g.iter)
        vals = []
        sub = it
        if g.ifs and it[0] == "c":
            extra = tuple("if " + self.text(i) for i in g.ifs)
            # filter text independent of the variable's name
            var = ast.unparse(g.target)
            extra = tuple(e.replace(var + ".", "_.") for e in extra)
            sub = ("c", frozenset(frozenset(a | set(extra)) for a in it[1]))
        for el in self.elements(sub)[0]:
            f2 = self.new_frame(fr, self.frames[fr][1], self.frames[fr][2], n)
            self.assign(st, f2, g.target, el, n)
            if len(n.generators) > 1:
                inner = type(n)(elt=n.elt, generators=n.generators[1:]) if not isinstance(n, ast.DictComp) else n
                ast.copy_location(inner, n)
                if isinstance(n, ast.DictComp):
                    continue
                v, _ = self.comp(st, f2, inner)
                vals.extend(v)
            elif not isinstance(n, ast.DictComp):
                vals.append(self.ev(st, f2, n.elt))
            else:
                self.ev(st, f2, n.value)
            for k in [k for k in st.vars if k[0] == f2]:
                del st.vars[k]
        return vals, sub

    def e_ListComp(self, st, fr, n):
        vals, sub = self.comp(st, fr, n)
        if len(n.generators) == 1 and isinstance(n.elt, ast.Name) and isinstance(n.generators[0].target, ast.Name) and n.elt.id == n.generators[0].target.id and sub[0] == "c":
            return sub
        return ("l", tuple(vals))

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, st, fr, n):
        self.comp(st, fr, n)
        return U

    def elements(self, v):
        """(elements, is_collection)"""
        if v[0] == "l":
            return list(v[1]), False
        if v[0] == "c":
            out = []
            for a in sorted(v[1], key=lambda a: sorted(a)):
                for i in (1, 2):
                    out.append(("o", "elem<%s>#%d" % (self.atom_text(a), i)))
            return out, True
        if v[0] == "z":
            cols = [self.elements(x)[0] for x in v[1]]
            m = max([len(c) for c in cols] or [0])
            return [("l", tuple(c[i] if i < len(c) else U for c in cols)) for i in range(m)], True
        if v[0] == "o":
            return [("o", "elem<%s>#%d" % (v[1], i)) for i in (1, 2)], True
        return [("u", v[1] if v[0] == "u" else EMPTY)] * 2, True

    # ---------- calls

    def e_Call(self, st, fr, n):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        # super()
        if isinstance(f, ast.Name) and f.id == "super":
            owner = self.frames[fr][2]
            return ("super", owner.qualname if owner is not None else None)
        fv = self.ev(st, fr, f)
        args = [self.ev(st, fr, a.value if isinstance(a, ast.Starred) else a) for a in n.args]
        kws = {}
        for k in n.keywords:
            kws[k.arg] = self.ev(st, fr, k.value)
        allargs = args + list(kws.values())
        taint = EMPTY
        for a in allargs:
            taint |= self.taint_of(st, a)
        if name == "__get__" and isinstance(f, ast.Attribute):
            b = self.ev(st, fr, f.value)
            if b[0] == "f":
                return b
        if name in ("partial", "MethodType") and args and args[0][0] == "f":
            return args[0]
        if fv[0] == "sm":
            owner = self.frames[fr][2]
            t = self.pk.find_method(self.cls, fv[2], after=owner) if self.cls is not None else None
            if t is not None and self.relevant(t):
                return self.inline(st, t, args, kws, n, fr)
            return ("u", taint)
        if fv[0] == "f":
            return self.call_closure(st, fv, args, kws, n)
        if fv[0] == "m":
            return self.event(st, fv[1], EVENT_METHODS[fv[2]], n)
        if name in EVENT_METHODS and isinstance(f, ast.Attribute):
            b = self.ev(st, fr, f.value)
            if b[0] == "o":
                if b[1] == "self" and self.cls is not None:
                    t = self.pk.find_method(self.cls, name)
                    if t is not None and t.node is not self.entry.node:
                        return self.inline(st, t, args, kws, n, fr)
                return self.event(st, b[1], EVENT_METHODS[name], n)
            if b[0] == "u":
                # an object of which nothing is known
                return self.event(st, "obj@%d:%d" % (n.lineno, n.col_offset), EVENT_METHODS[name], n)
        if name == "callback" and isinstance(f, ast.Attribute) and fv[0] == "o":
            s = "%s()" % fv[1]
            self.add_event(st, "conv", s, n, True)
            return ("o", s)
        if name in SCIPY and fv[0] in "go" and ("optimize" in (fv[1] or "") or self.imported_from(fr, name, "scipy")):
            return self.search(st, fr, n, name, args, kws)
        # closures passed to somebody: they are called
        for a in allargs:
            if a[0] == "f" and self.has_event(self.closures[a[1]][0], a):
                self.call_closure(st, a, [], {}, n)
        if name in ("all", "alltrue") and len(args) == 1:
            v = args[0]
            if v[0] == "gather":
                return ("b", v[2], EMPTY, taint)
            T, F = EMPTY, ALL
            if v[0] == "l":
                for x in v[1]:
                    t, f2 = self.boolean(st, x)
                    T, F = union(T, t), inter(F, f2)
                return ("b", T, F if v[1] else EMPTY, taint)
            return ("b", EMPTY, EMPTY, taint)
        if name == "any" and len(args) == 1 and args[0][0] == "l":
            T, F = ALL, EMPTY
            for x in args[0][1]:
                t, f2 = self.boolean(st, x)
                T, F = inter(T, t), union(F, f2)
            return ("b", T if args[0][1] else EMPTY, F, taint)
        if name in ("bool", "bool_", "int") and len(args) == 1:
            return args[0]
        if name == "min" and len(args) == 1 and args[0][0] == "l":
            return ("b", self.fold(st, args[0][1], 1), EMPTY, taint)
        if name == "logical_and" and len(args) == 2:
            (T, F), (t, f2) = self.boolean(st, args[0]), self.boolean(st, args[1])
            return ("b", union(T, t), inter(F, f2), taint)
        if name in ("allreduce", "reduce") and args and args[0][0] == "b":
            op = next((k.value for k in n.keywords if k.arg == "op"), n.args[1] if len(n.args) > 1 else None)
            opn = ast.unparse(op).split(".")[-1] if op is not None else "SUM"
            if opn in ("LAND", "MIN", "PROD", "BAND"):
                # every process arrives here on one of the paths, on all of which a true value needs its own flags
                T = args[0][1]
                S = T if T == ALL or st.facts == ALL else T | st.facts
                return ("b", T if T == ALL else T | {("remote",) + x for x in S if x[0] in ("conv", "lambda")}, EMPTY, taint)
            return ("b", EMPTY, args[0][2] if args[0][2] == ALL else EMPTY, taint)
        if name == "allgather" and args and args[0][0] == "b" and args[0][1] != ALL:
            T = args[0][1]
            return ("gather", T, T | {("remote",) + x for x in (T if st.facts == ALL else T | st.facts) if x[0] in ("conv", "lambda")})
        if name == "enumerate" and args:
            return ("z", (U, args[0]))
        if name == "zip":
            return ("z", tuple(args))
        if name in ("list", "tuple", "sorted", "reversed", "iter") and len(args) == 1:
            return args[0]
        if name == "chain":
            atoms = EMPTY
            for a in args:
                if a[0] == "c":
                    atoms |= a[1]
            return ("c", atoms) if atoms else ("u", taint)
        if name == "range":
            return ("range", self.text(n))
        if name == "append" and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            v = self.getvar(st, fr, f.value.id)
            if v is not None and v[0] == "l" and args:
                items = v[1] + (args[0],)
                if len(items) <= 8:
                    self.setvar(st, fr, f.value.id, ("l", items))
                return U
        if name in ("get_fragments", "loop", "get_symmetry_parent_fragments"):
            b = self.ev(st, fr, f.value) if isinstance(f, ast.Attribute) else None
            base = b[1] if b is not None and b[0] == "o" else "?"
            filt = {"of %s" % base}
            for k in n.keywords:
                if k.arg:
                    filt.add("%s=%s" % (k.arg, self.text(k.value)))
            if name == "get_symmetry_parent_fragments":
                filt.add("sym_parent=None")
            return ("c", frozenset([frozenset(filt)]))
        if name == "get" and isinstance(f, ast.Attribute) and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == "converged":
            b = self.ev(st, fr, f.value)
            dflt = args[1] if len(args) > 1 else ("b", ALL, EMPTY, EMPTY)
            if b[0] == "o":
                return ("b", inter(frozenset([("conv", b[1])]), self.boolean(st, dflt)[0]), EMPTY, EMPTY)
        if name == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
            self.assign_attr(st, fr, args[0], n.args[1].value, args[2], n)
            return U
        if name == "getattr" and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
            return self.attr(st, fr, args[0], n.args[1].value, n)
        if name == "Results" or (name or "").endswith("Results"):
            conv = kws.get("converged")
            t2 = taint
            if conv is None:
                if self.results_has_flag(f, fr):
                    self.check(st, EMPTY, "the construction of the results", "the `converged` field of the results (not set)", t2)
            else:
                self.check(st, self.boolean(st, conv)[0], "the construction of the results", "the `converged` field of the results", t2)
            self.stats["flags"].add(self.loc(n))
            s = "results@%d" % n.lineno
            st.taint[s] = taint
            return ("o", s)
        # package code worth looking into
        t = self.target(st, fr, f, fv, name)
        if t is not None and self.relevant(t):
            return self.inline(st, t, args, kws, n, fr)
        if fv[0] == "o":
            if not fv[1].startswith(("obj@", "results@", "search@")) and "log" not in fv[1].split("."):
                st.stored |= taint          # handed to an object that outlives the kernel
            taint |= self.taint_of(st, fv)
        if fv[0] == "u":
            taint |= fv[1]
        s = "obj@%d:%d" % (n.lineno, n.col_offset)
        if fv[0] == "g":
            r = self.pk.resolve(self.funcstack[-1].module, fv[1])
            made = [r] if isinstance(r, ClassInfo) else []
            if isinstance(r, FuncInfo) and r.cls is None:       # a factory
                made = [c for c in (self.pk.resolve(r.module, dotted(x.func) or "?") for x in ast.walk(r.node) if isinstance(x, ast.Call)) if isinstance(c, ClassInfo)]
            if made and not any(self.class_has_flag(c) for c in made) or isinstance(r, tuple) and r[0] == "ext" and str(r[1]).startswith("dyson"):
                self.noflag.add(s)
        if any(a[0] == "f" for a in allargs):
            self.calls_back.add(s)
        st.taint[s] = taint
        return ("o", s)

    def class_has_flag(self, c):
        return any(isinstance(x, ast.Attribute) and x.attr in FLAGS for k in [*self.pk.mro(c), *self.pk.subs.get(c, [])] for x in ast.walk(k.node)) or self.pk.has_external_base(c)

    def fold(self, st, vs, i):
        T = EMPTY
        for x in vs:
            T = union(T, self.boolean(st, x)[0])
        return T

    def results_has_flag(self, f, fr):
        return True

    def imported_from(self, fr, name, mod):
        func = self.funcstack[-1]
        return str(func.module.imports.get(name, "")).startswith(mod)

    def event(self, st, sym, kind, n):
        for a in RESULT_ALIAS:
            if sym.endswith(a):
                sym = sym[: -len(a)]
        if sym in self.noflag:
            return ("o", sym + ".results")      # a direct method of the package, nothing to converge
        local = sym.startswith("obj@") and sym not in self.calls_back
        self.add_event(st, kind, sym, n, not local)
        for flag, k in FLAGS.items():
            if k == kind:
                st.attrs.pop((sym, flag), None)
        if sym == "self":
            # the kernel of this object sets its own flag
            st.attrs.pop(("self", "converged"), None)
        return ("o", sym + ".results")

    def search(self, st, fr, n, name, args, kws):
        for a in args + list(kws.values()):
            if a[0] == "f":
                self.call_closure(st, a, [], {}, n)
        disp = next((k.value for k in n.keywords if k.arg == "disp"), None)
        full = next((k.value for k in n.keywords if k.arg == "full_output"), None)
        isfull = isinstance(full, ast.Constant) and full.value is True
        raises = name in ("brentq", "brenth", "ridder", "bisect", "newton", "toms748") and not (isinstance(disp, ast.Constant) and disp.value is False)
        s = "search@%d:%d" % (n.lineno, n.col_offset)
        if not raises:
            self.add_event(st, "conv", s, n, True)
        res = ("o", s)
        if name in ("brentq", "brenth", "ridder", "bisect", "newton", "toms748"):
            return ("l", (U, res)) if isfull else U
        return res

    def has_event(self, node, fv):
        for x in ast.walk(node):
            if isinstance(x, ast.Call):
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
                if nm in EVENT_METHODS or "kernel" in nm:
                    return True
                if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" and self.cls is not None:
                    t = self.pk.find_method(self.cls, nm)
                    if t is not None and self.relevant(t):
                        return True
        return False

    def target(self, st, fr, f, fv, name):
        if isinstance(f, ast.Attribute):
            b = self.ev(st, fr, f.value)
            if b == ("o", "self") and self.cls is not None:
                t = self.pk.find_method(self.cls, name)
                return t
            if b[0] == "g":
                r = self.pk.resolve(self.funcstack[-1].module, b[1] + "." + name)
                return self.near(r)
        elif isinstance(f, ast.Name) and fv[0] == "g":
            r = self.pk.resolve(self.funcstack[-1].module, f.id)
            return self.near(r)
        return None

    def near(self, r):
        """module-level functions are followed in the module of the kernel, or where flags are handled"""
        if not isinstance(r, FuncInfo) or r.cls is not None:
            return None
        if r.module is self.entry.module or any(isinstance(x, ast.Attribute) and x.attr in FLAGS for x in ast.walk(r.node)):
            return r
        return None

    _rel = {}

    def relevant(self, t, depth=0):
        k = (t, self.cls)
        if k in Interp._rel:
            return Interp._rel[k]
        Interp._rel[k] = False
        out = False
        if t.is_property:
            return False
        for x in ast.walk(t.node):
            if isinstance(x, ast.Attribute) and x.attr in FLAGS and x.attr != "success":
                out = True
            elif isinstance(x, ast.Call):
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
                if nm in ("kernel", "solve_lambda") and isinstance(x.func, ast.Attribute):
                    d = dotted(x.func.value)
                    r = self.pk.resolve(t.module, d) if d and not d.startswith("self") else None
                    if not (isinstance(r, pkg.Module) or (isinstance(r, tuple) and r[0] == "ext")):
                        out = True
                elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" and self.cls is not None and depth < 4:
                    m = self.pk.find_method(self.cls, nm)
                    if m is not None and m is not t and self.relevant(m, depth + 1):
                        out = True
            if isinstance(x, ast.Compare) and "tol" in ast.unparse(x) and any(isinstance(y, ast.Return) and y.value is not None for y in ast.walk(t.node)):
                out = True
        Interp._rel[k] = out
        return out

    SKIP = {"__init__", "reset", "make_bath", "make_cluster", "get_solver", "make_fragment"}

    def inline(self, st, t, args, kws, n, fr):
        """Inlines in expression position: every path is explored, the states are joined through `pending`."""
        if self.depth >= 6 or t.name in self.SKIP or t.name.startswith("_debug") or t in self.funcstack[-4:] and self.funcstack.count(t) > 1:
            tt = EMPTY
            for a in list(args) + list(kws.values()):
                tt |= self.taint_of(st, a)
            return ("u", tt)
        f2 = self.new_frame(None, t.node, t.cls, n)
        params = t.params()
        vals = {}
        if t.cls is not None and not t.is_static:
            vals[params[0]] = ("o", "self")
            params = params[1:]
        for p, a in zip(params, args):
            vals[p] = a
        for k, a in kws.items():
            if k is not None:
                vals[k] = a
        return self.run_sub(st, t, t.node, f2, vals, n)

    def call_closure(self, st, fv, args, kws, n):
        node, fr = self.closures[fv[1]]
        if self.depth >= 6 or self.closure_stack.count(fv[1]) > 0:
            return U
        f2 = self.new_frame(fr, node, self.frames[fr][2], n)
        vals = {}
        ps = [a.arg for a in node.args.posonlyargs + node.args.args]
        for p, a in zip(ps, args):
            vals[p] = a
        for k, a in kws.items():
            if k is not None:
                vals[k] = a
        for p in ps:
            vals.setdefault(p, U)
        if isinstance(node, ast.Lambda):
            for k, v in vals.items():
                st.vars[(f2, k)] = v
            self.closure_stack.append(fv[1])
            r = self.ev(st, f2, node.body)
            self.closure_stack.pop()
            return r
        self.closure_stack.append(fv[1])
        try:
            return self.run_sub(st, self.funcstack[-1], node, f2, vals, n)
        finally:
            self.closure_stack.pop()

    def run_sub(self, st, t, node, f2, vals, n):
        """Runs a callee on a copy of the state; leaves the outcomes in self.pending, a list of
        (state, value, raised) that the statement under execution distributes."""
        ck = tuple(self.choice.script[:self.choice.pos])
        if len(ck) == self.choice.pos and (ck, id(node)) in self.choice.cache:
            return self.fork(st, self.choice.cache[(ck, id(node))])
        defaults(self, st, f2, node, vals)
        for k, v in vals.items():
            st.vars[(f2, k)] = v
        self.depth += 1
        self.funcstack.append(t if isinstance(t, FuncInfo) else self.funcstack[-1])
        choice, cf = self.choice, self.curframe
        self.curframe = f2
        try:
            outs = self.block([st.copy()], f2, node.body)
        finally:
            self.depth -= 1
            self.funcstack.pop()
            self.choice, self.curframe = choice, cf
        results = []
        seen = set()
        for kind, s, v in outs:
            rv = v if kind == Exit.RETURN else U
            # drop the callee's locals
            keep = self.captured(rv)
            for k in [k for k in s.vars if k[0] == f2 and f2 not in keep]:
                del s.vars[k]
            key = (kind == Exit.RAISE, v if kind in (Exit.RETURN, Exit.RAISE) else None, s.key())
            if key not in seen:
                seen.add(key)
                results.append((kind, s, rv if kind != Exit.RAISE else v))
        self.choice.cache[(ck, id(node))] = results
        return self.fork(st, results)

    def captured(self, v):
        return {self.closures[v[1]][1]} if v[0] == "f" else set()

    def fork(self, st, results):
        """continue with one of several outcomes; the choice is replayed by `forked`"""
        i = self.choice.pos
        if i < len(self.choice.script):
            k = self.choice.script[i]
        else:
            k = 0
            self.choice.script.append(0)
            self.choice.widths.append(len(results))
        self.choice.pos += 1
        if not results:
            raise Dead()
        if i < len(self.choice.widths):
            self.choice.widths[i] = len(results)
        kind, s, v = results[min(k, len(results) - 1)]
        for a in State.__slots__:
            setattr(st, a, getattr(s, a))
        st2 = st.copy()
        for a in State.__slots__:
            setattr(st, a, getattr(st2, a))
        if kind == Exit.RAISE:
            raise Raised(v)
        return v

    def forked(self, st, fn):
        """runs fn(state) for every choice of outcomes of the calls in it; yields (state, value, raised)"""
        outer = self.choice
        script = []
        out = []
        cache = {}
        for _ in range(400):
            c = Choice(list(script), cache)
            self.choice = c
            s = st.copy()
            try:
                v = fn(s)
                out.append((s, v, None))
            except Raised as e:
                out.append((s, None, e.cls))
            except Dead:
                pass
            # next script
            sc, w = c.script[:c.pos], c.widths[:c.pos]
            while sc and sc[-1] + 1 >= w[len(sc) - 1]:
                sc.pop()
            if not sc:
                break
            sc[-1] += 1
            script = sc
        self.choice = outer
        return out

    # ---------- assignment

    def assign(self, st, fr, t, v, n):
        if isinstance(t, ast.Name):
            self.setvar(st, fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v[0] == "l" and len(v[1]) == len(t.elts):
                for e, x in zip(t.elts, v[1]):
                    self.assign(st, fr, e, x, n)
            else:
                for e in t.elts:
                    self.assign(st, fr, e.value if isinstance(e, ast.Starred) else e, ("u", self.taint_of(st, v)), n)
        elif isinstance(t, ast.Attribute):
            self.assign_attr(st, fr, self.ev(st, fr, t.value), t.attr, v, n)
        elif isinstance(t, ast.Subscript):
            b = self.ev(st, fr, t.value)
            if b[0] == "o":
                self.absorb(st, b[1], v)

    def absorb(self, st, sym, v):
        if v[0] == "b":
            return
        t = self.taint_of(st, v)
        if sym.startswith("self") or not sym.startswith(("obj@", "results@", "search@")):
            st.stored |= t
        else:
            root = sym.split(".")[0]
            st.taint[root] = st.taint.get(root, EMPTY) | t

    def assign_attr(self, st, fr, b, name, v, n):
        if b[0] != "o":
            return
        s = b[1]
        if name in FLAGS:
            for a in RESULT_ALIAS:
                if s.endswith(a):
                    s = s[: -len(a)]
            self.stats["flags"].add(self.loc(n))
            val = v if v[0] == "b" else ("b", EMPTY, EMPTY, EMPTY)
            if s != "self":
                # somebody else's flag: it must not claim more than is known
                self.check(st, val[1], "this assignment", "`%s`" % self.text(n.targets[0] if isinstance(n, ast.Assign) else n))
            st.attrs[(s, name)] = val
            return
        if name == "kernel" and s == "self" and v[0] in ("f", "o"):
            self.kernels.append((v, st.copy()))
        if (v[0] in ("f", "m", "b") and s == "self") or v[0] == "o" and s == "self" and v[1].startswith("obj@"):
            st.attrs[(s, name)] = v
        elif (s, name) in st.attrs:
            del st.attrs[(s, name)]
        self.absorb(st, s, v)

    # ---------- statements: lists of (exit kind, state, value)

    def block(self, states, fr, stmts):
        cur = list(states)
        out = []
        for s in stmts:
            nxt = []
            for st in cur:
                for kind, s2, v in self.stmt(st, fr, s):
                    if kind == Exit.NORMAL:
                        nxt.append(s2)
                    else:
                        out.append((kind, s2, v))
            cur = self.dedupe(nxt)
            if not cur:
                break
        out.extend((Exit.NORMAL, s, None) for s in cur)
        return out

    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > MAXSTATES:
            raise pkg.AnalysisError("too many paths in %s" % self.entry.short)
        return out

    def stmt(self, st, fr, n):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is not None:
            return m(st, fr, n)
        return [(Exit.NORMAL, st, None)]

    def simple(self, st, fr, fn):
        out = []
        for s, v, r in self.forked(st, fn):
            out.append((Exit.RAISE, s, r) if r is not None else (Exit.NORMAL, s, v))
        return out

    def s_Expr(self, st, fr, n):
        if isinstance(n.value, ast.Constant):
            return [(Exit.NORMAL, st, None)]
        return self.simple(st, fr, lambda s: self.ev(s, fr, n.value))

    def s_Assign(self, st, fr, n):
        def go(s):
            v = self.ev(s, fr, n.value)
            for t in n.targets:
                self.assign(s, fr, t, v, n)
        return self.simple(st, fr, go)

    def s_AnnAssign(self, st, fr, n):
        if n.value is None:
            return [(Exit.NORMAL, st, None)]
        return self.simple(st, fr, lambda s: self.assign(s, fr, n.target, self.ev(s, fr, n.value), n))

    def s_AugAssign(self, st, fr, n):
        def go(s):
            load = ast.copy_location(ast.BinOp(left=as_load(n.target), op=n.op, right=n.value), n)
            v = self.ev(s, fr, load)
            self.assign(s, fr, n.target, v, n)
        return self.simple(st, fr, go)

    def s_Return(self, st, fr, n):
        if n.value is None:
            return [(Exit.RETURN, st, ("b", ALL, EMPTY, EMPTY))]
        out = []
        for kind, s, v in self.simple(st, fr, lambda s: self.ev(s, fr, n.value)):
            out.append((Exit.RETURN if kind == Exit.NORMAL else kind, s, v))
        return out

    def s_Raise(self, st, fr, n):
        c = None
        if n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            c = dotted(e) or "?"
        return [(Exit.RAISE, st, c or "?")]

    def s_Assert(self, st, fr, n):
        out = []
        for kind, s, v in self.simple(st, fr, lambda s: self.ev(s, fr, n.test)):
            if kind == Exit.NORMAL:
                T, F = self.boolean(s, v)
                if F != ALL:
                    out.append((Exit.RAISE, s.copy(), "AssertionError"))
                if T == ALL:
                    continue
                s.facts = union(s.facts, T)
                out.append((Exit.NORMAL, s, None))
            else:
                out.append((kind, s, v))
        return out

    def s_Break(self, st, fr, n):
        return [(Exit.BREAK, st, None)]

    def s_Continue(self, st, fr, n):
        return [(Exit.CONTINUE, st, None)]

    def s_FunctionDef(self, st, fr, n):
        c = self.closure(n, fr)
        st.vars[(fr, n.name)] = c
        return [(Exit.NORMAL, st, None)]

    def s_ClassDef(self, st, fr, n):
        st.vars[(fr, n.name)] = ("cls", n.name)
        return [(Exit.NORMAL, st, None)]

    def s_With(self, st, fr, n):
        outs = []

        def go(s):
            for it in n.items:
                v = self.ev(s, fr, it.context_expr)
                if it.optional_vars is not None:
                    self.assign(s, fr, it.optional_vars, v, n)
        for kind, s, v in self.simple(st, fr, go):
            if kind == Exit.NORMAL:
                outs.extend(self.block([s], fr, n.body))
            else:
                outs.append((kind, s, v))
        return outs

    def branch(self, st, fr, test):
        """(state, True/False) or (state, None, exc) for the outcomes of a condition"""
        out = []
        txt = ast.unparse(test)
        for kind, s, v in self.simple(st, fr, lambda s: self.ev(s, fr, test)):
            if kind != Exit.NORMAL:
                out.append((s, None, v))
                continue
            T, F = self.boolean(s, v)
            memo = self.memo_key(fr, test, txt)
            for outcome, facts in ((True, T), (False, F)):
                if facts == ALL:
                    continue
                if memo is not None and s.memo.get(memo, outcome) != outcome:
                    continue
                s2 = s.copy()
                s2.facts = union(s2.facts, facts)
                if memo is not None:
                    s2.memo[memo] = outcome
                if outcome and any(isinstance(x, ast.Constant) and x.value == "dump" for x in ast.walk(test)):
                    s2.res = s2.res | {"dump"}
                names = {x.id for x in ast.walk(test) if isinstance(x, ast.Name)}
                if "mpi" in names:
                    neg = isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not)
                    if outcome == neg:
                        s2.nompi = True
                    elif s.nompi:
                        continue
                out.append((s2, outcome, None))
        return out

    def memo_key(self, fr, test, txt):
        t = test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t = t.operand
        if t is not test:
            return None
        if txt in self.repeat and all(isinstance(x, (ast.Attribute, ast.Name, ast.Compare, ast.Constant, ast.Load, ast.cmpop)) for x in ast.walk(t)) and "opts." in txt:
            return txt
        return None

    def s_If(self, st, fr, n):
        outs = []
        for s, o, exc in self.branch(st, fr, n.test):
            if o is None:
                outs.append((Exit.RAISE, s, exc))
            else:
                outs.extend(self.block([s], fr, n.body if o else n.orelse))
        return outs

    def loop_states(self, states, fr, n, bind_list, always):
        """runs the body once per element in bind_list; returns (after-loop normal states, broken states, other exits)"""
        others, broke = [], []
        cur = list(states)
        done = [] if always else [s.copy() for s in states]
        for b in bind_list:
            nxt = []
            for s in cur:
                s = s.copy()
                if b is not None:
                    b(s)
                for kind, s2, v in self.block([s], fr, n.body):
                    if kind in (Exit.NORMAL, Exit.CONTINUE):
                        nxt.append(s2)
                    elif kind == Exit.BREAK:
                        broke.append(s2)
                    else:
                        others.append((kind, s2, v))
            cur = self.dedupe(nxt)
            if not always:
                done.extend(s.copy() for s in cur)
        if always:
            done = cur
        return self.dedupe(done), self.dedupe(broke), others

    def s_For(self, st, fr, n):
        outs = []
        for kind, s, v in self.simple(st, fr, lambda s: self.ev(s, fr, n.iter)):
            if kind != Exit.NORMAL:
                outs.append((kind, s, v))
                continue
            if v[0] == "range":
                if "maxiter" in v[1] or "max_iter" in v[1] or "max_cycle" in v[1]:
                    self.add_event(s, "loop", "loop@%d" % n.lineno, n.iter, True)
                els, always = [U, U], False
            else:
                els, _ = self.elements(v)
                always = v[0] in ("c", "l", "z", "o")
            binds = [(lambda x: (lambda s2: self.assign(s2, fr, n.target, x, n)))(e) for e in els]
            done, broke, oth = self.loop_states([s], fr, n, binds, always)
            outs.extend(oth)
            if n.orelse:
                for d in done:
                    outs.extend(self.block([d], fr, n.orelse))
            else:
                outs.extend((Exit.NORMAL, d, None) for d in done)
            outs.extend((Exit.NORMAL, d, None) for d in broke)
        return outs

    def s_While(self, st, fr, n):
        outs = []
        cur = [st]
        if "maxiter" in ast.unparse(n.test) or "max_iter" in ast.unparse(n.test) or "max_cycle" in ast.unparse(n.test):
            self.add_event(st, "loop", "loop@%d" % n.lineno, n.test, True)
        for i in range(3):
            nxt = []
            for s in cur:
                for s2, o, exc in self.branch(s, fr, n.test):
                    if o is None:
                        outs.append((Exit.RAISE, s2, exc))
                    elif not o:
                        if n.orelse:
                            outs.extend(self.block([s2], fr, n.orelse))
                        else:
                            outs.append((Exit.NORMAL, s2, None))
                    elif i < 2:
                        for kind, s3, v in self.block([s2], fr, n.body):
                            if kind in (Exit.NORMAL, Exit.CONTINUE):
                                nxt.append(s3)
                            elif kind == Exit.BREAK:
                                outs.append((Exit.NORMAL, s3, None))
                            else:
                                outs.append((kind, s3, v))
            cur = self.dedupe(nxt)
        return outs

    def s_Try(self, st, fr, n):
        outs = []
        local = {k[1] for k, v in st.vars.items() if v[0] == "cls"}
        # states in which an exception that is not raised explicitly may arrive: before and after every statement
        implicit = [st.copy()]
        cur = [st.copy()]
        explicit = []
        final = []
        for s in n.body:
            nxt = []
            for x in cur:
                for kind, s2, v in self.stmt(x, fr, s):
                    if kind == Exit.NORMAL:
                        nxt.append(s2)
                        implicit.append(s2.copy())
                    elif kind == Exit.RAISE:
                        explicit.append((s2, v))
                    else:
                        final.append((kind, s2, v))
            cur = self.dedupe(nxt)
        implicit = self.dedupe(implicit)
        for s in cur:
            final.extend(self.block([s], fr, n.orelse) if n.orelse else [(Exit.NORMAL, s, None)])
        handlers = n.handlers
        for s, cls in explicit:
            caught = False
            for h in handlers:
                if self.catches(h, cls):
                    final.extend(self.handler(s, fr, h))
                    caught = True
                    break
            if not caught:
                final.append((Exit.RAISE, s, cls))
        for h in handlers:
            names = self.handler_names(h)
            if names and all(self.explicit_only(x, local) for x in names) and any(self.catches(h, c) for _, c in explicit):
                continue
            for s in implicit:
                final.extend(self.handler(s.copy(), fr, h))
        if n.finalbody:
            for kind, s, v in final:
                for k2, s2, v2 in self.block([s], fr, n.finalbody):
                    outs.append((kind, s2, v) if k2 == Exit.NORMAL else (k2, s2, v2))
        else:
            outs = final
        return outs

    def handler(self, s, fr, h):
        if h.name:
            s.vars[(fr, h.name)] = U
        return self.block([s], fr, h.body)

    def handler_names(self, h):
        if h.type is None:
            return []
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [dotted(t) or "?" for t in ts]

    def explicit_only(self, name, local):
        """exception classes that only the package raises"""
        if name.split(".")[-1] in local or name in ("StopIteration",):
            return True
        r = self.pk.resolve(self.funcstack[-1].module, name)
        return isinstance(r, ClassInfo)

    def catches(self, h, cls):
        names = self.handler_names(h)
        if not names:
            return True
        for x in names:
            if x in ("Exception", "BaseException") or cls == "?" or x.split(".")[-1] == (cls or "").split(".")[-1]:
                return True
            r = self.pk.resolve(self.funcstack[-1].module, cls) if cls else None
            if isinstance(r, ClassInfo) and any(k.name == x.split(".")[-1] for k in self.pk.mro(r)):
                return True
        return False

    # ---------- entry

    def run(self, func):
        self.entry = func
        self.funcstack = [func]
        self.closure_stack = []
        self.choice = Choice([], {})
        self.repeat = repeated_tests(self.pk, func, self.cls)
        fr = self.new_frame(None, func.node, func.cls)
        st = State()
        ps = func.params()
        if func.cls is not None and not func.is_static:
            st.vars[(fr, ps[0])] = ("o", "self")
            ps = ps[1:]
        for p in ps + [a.arg for a in func.node.args.kwonlyargs]:
            st.vars[(fr, p)] = ("o", "param:" + p)
        if self.search_entry:       # a search: success is a comparison with a tolerance
            self.add_event(st, "loop", "search", func.node, True)
        outs = self.block([st], fr, func.node.body)
        if func.name == "kernel":
            self.exits(outs, func.short)
        for v, s in list(self.kernels):
            if v[0] == "f":
                self.run_kernel(v, s)

    def run_kernel(self, cl, s):
        node, fr = self.closures[cl[1]]
        f2 = self.new_frame(fr, node, self.frames[fr][2])
        s = s.copy()
        for a in node.args.args:
            s.vars[(f2, a.arg)] = ("o", "self") if a.arg == "self" else ("o", "param:" + a.arg)
        for a in (node.args.vararg, node.args.kwarg):
            if a is not None:
                s.vars[(f2, a.arg)] = ("o", "param:" + a.arg)
        outs = self.block([s], f2, node.body)
        self.exits(outs, self.entry.short + ".kernel")

    def exits(self, outs, where):
        for kind, s, v in outs:
            if kind not in (Exit.NORMAL, Exit.RETURN):
                continue
            self.stats["exits"] += 1
            if not self.required(s) or "dump" in s.res:
                continue        # (nothing was solved when the clusters were only dumped)
            cv = s.attrs.get(("self", "converged"))
            if cv is None:
                # not assigned on this path: whatever it was before, or what the own kernel set
                own = s.events.get(("conv", "self"))
                cv = ("b", frozenset([("conv", "self")]) if own else EMPTY, EMPTY, EMPTY)
            if self.holder:
                self.check(s, cv[1], "the end of %s" % where, "self.converged")


class Choice:
    def __init__(self, script, cache):
        self.script, self.widths, self.pos, self.cache = script, [0] * len(script), 0, cache


class Raised(Exception):
    def __init__(self, cls):
        self.cls = cls


class Dead(Exception):
    pass


def as_load(t):
    return ast.parse(ast.unparse(t), mode="eval").body


def defaults(ip, st, fr, node, vals):
    a = node.args
    ps = a.posonlyargs + a.args
    for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        if p.arg not in vals:
            vals[p.arg] = const(d)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg not in vals and d is not None:
            vals[p.arg] = const(d)
    for p in ps + a.kwonlyargs:
        vals.setdefault(p.arg, U)
    for p in (a.vararg, a.kwarg):
        if p is not None:
            vals.setdefault(p.arg, U)


def const(d):
    if isinstance(d, ast.Constant) and isinstance(d.value, bool):
        return ("b", EMPTY, ALL, EMPTY) if d.value else ("b", ALL, EMPTY, EMPTY)
    return U


def repeated_tests(pk, func, cls):
    seen, rep = set(), set()
    funcs = [func]
    if cls is not None:
        for k in pk.mro(cls):
            funcs.extend(m for m in k.methods.values() if m is not func)
    for f in funcs:
        for n in ast.walk(f.node):
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                t = ast.unparse(n.test)
                (rep if t in seen else seen).add(t)
    return rep


def entries(pk):
    """(class, kernel function, holds self.converged)"""
    roots = {"solver": pk.get_class("solver.solver.ClusterSolver"), "fragment": pk.get_class("core.qemb.fragment.Fragment"),
             "embedding": pk.get_class("core.qemb.qemb.Embedding"), "scmf": pk.get_class("core.scmf.scmf.SCMF")}
    out = []
    for kind, r in roots.items():
        for c in [r] + [k for k in pk.subs.get(r, [])]:
            f = pk.find_method(c, "kernel")
            if f is not None:
                out.append((kind, c, f))
            # methods that install another kernel
            for m in c.methods.values():
                for s in ast.walk(m.node):
                    if isinstance(s, ast.Assign) and any(dotted(t) == "self.kernel" for t in s.targets) and any(isinstance(x, ast.FunctionDef) for x in ast.walk(m.node) if x is not m.node):
                        out.append((kind, c, m))
                        break
    for name in ("misc.cptbisect.ChempotBisection",):
        c = pk.get_class(name)
        out.append(("search", c, pk.find_method(c, "kernel")))
    return out


def analyse(prop, tier):
    pk = pkg.Package()
    res = Result()
    Interp._rel = {}
    seen = set()
    ev, flags, exits, paths, units = set(), set(), 0, 0, []
    for kind, c, f in entries(pk):
        if body_is_abstract(f):
            continue
        ip = Interp(pk, c, prop)
        ip.holder = kind != "fragment"
        ip.search_entry = kind == "search"
        ip.run(f)
        units.append("%s as %s" % (f.short, c.qualname.replace("vayesta.", "", 1)))
        ev |= ip.stats["events"]
        flags |= ip.stats["flags"]
        exits += ip.stats["exits"]
        paths += ip.stats["paths"]
        for x in ip.findings:
            k = (x.rule, x.construct, x.loc)
            if k not in seen:
                seen.add(k)
                res.findings.append(x)
    res.coverage = {"kernels": sorted(units), "events": sorted("%s:%s" % e for e in ev), "flag_sites": sorted(flags), "exits": exits, "flag_checks": paths}
    res.floors = {"kernels": 30, "events": 17, "flag_sites": 26, "exits": 120}
    res.explanation = "every path through the kernels (loops: 0-2 iterations, two symbolic elements per fragment collection): the convergence flag at the exit, or in the results object, must imply the flag of every iterative step whose outcome is used"
    res.assumptions = ["PySCF and EBCC solvers set their own `converged`/`converged_lambda` attribute correctly", "scipy root searches raise when they do not converge unless called with disp=False"]
    return res


def body_is_abstract(f):
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(b) == 1 and isinstance(b[0], ast.Raise) or not b or all(isinstance(s, ast.Pass) for s in b)
