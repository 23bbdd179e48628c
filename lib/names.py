"""C18/C19: every path refers only to names, attributes and arguments that exist; overrides accept what
their bases accept.  Scope analysis, path-sensitive definite assignment, class attribute tables over the
method resolution order, and call/signature matching on the resolved program."""
import ast
import builtins
import gzip
import json
import os

from pkg import ClassInfo, FuncInfo, Module, Package, AnalysisError, dotted, target_names
from harness import Finding, Result

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "ext.json.gz")
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__class__", "__spec__", "__package__"}
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def load_ext():
    with gzip.open(DATA) as f:
        d = json.load(f)
    return set(d["names"]), {k: (set(v) if v is not None else None) for k, v in d["mods"].items()}


# ---------------------------------------------------------------- scopes

def arg_names(a):
    out = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


def bound_names(body):
    """Names bound by statements of one scope (not descending into nested functions/classes), and its
    global/nonlocal declarations."""
    out, glob = set(), set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, COMP):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.update(target_names(c.target))
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != "*":
                    out.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in body:
        visit(s)
    return out - glob, glob


class Scan:
    """Undefined names of one module, by lexical scoping."""

    def __init__(self, pkg, m, report):
        self.pkg, self.m, self.report = pkg, m, report
        self.uses = 0
        mod, _ = bound_names(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                mod.update(n.names)
        self.mod = mod
        self.open = any(s not in pkg.modules for s in m.star)
        for s in m.star:
            if s in pkg.modules:
                self.mod |= self._exports(pkg.modules[s], set())
        self.where = ["<module>"]
        for s in m.tree.body:
            self.visit(s, [self.mod], None)

    def _exports(self, m, seen):
        if m.name in seen:
            return set()
        seen.add(m.name)
        out, _ = bound_names(m.tree.body)
        for s in m.star:
            if s in self.pkg.modules:
                out |= self._exports(self.pkg.modules[s], seen)
        return out

    def check(self, n, stack, cls):
        self.uses += 1
        if n.id in BUILTINS or self.open or any(n.id in s for s in stack) or (cls is not None and n.id in cls):
            return
        self.report("undefined-name", self.m, ".".join(self.where[1:]) or "<module>", n.id, n,
                    "name %r is not defined in any enclosing scope" % n.id)

    def visit(self, n, stack, cls):
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, (ast.Load, ast.Del)):
                self.check(n, stack, cls)
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in getattr(n, "decorator_list", []):
                self.visit(d, stack, cls)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, stack, cls)
            body = n.body if isinstance(n.body, list) else [n.body]
            names, _ = bound_names(body)
            names |= set(arg_names(n.args))
            self.where.append(getattr(n, "name", "<lambda>"))
            for s in body:
                self.visit(s, stack + [names], None)
            self.where.pop()
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, stack, cls)
            names, _ = bound_names(n.body)
            self.where.append(n.name)
            for s in n.body:
                self.visit(s, stack, names)
            self.where.pop()
            return
        if isinstance(n, COMP):
            names = set()
            for g in n.generators:
                names.update(x.id for x in ast.walk(g.target) if isinstance(x, ast.Name))
            self.visit(n.generators[0].iter, stack, cls)
            inner = stack + [names]
            for i, g in enumerate(n.generators):
                if i:
                    self.visit(g.iter, inner, cls)
                for c in g.ifs:
                    self.visit(c, inner, cls)
            for f in ("elt", "key", "value"):
                if hasattr(n, f):
                    self.visit(getattr(n, f), inner, cls)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.visit(n.value, stack, cls)
            self.visit(n.target, stack, cls)
            return
        for c in ast.iter_child_nodes(n):
            self.visit(c, stack, cls)


# ---------------------------------------------------------------- definite assignment

class State:
    __slots__ = ("bound", "facts")

    def __init__(self, bound, facts):
        self.bound, self.facts = bound, facts

    def key(self):
        return (self.bound, self.facts)


def cond_atoms(test, val):
    """Facts implied by test == val: list of (key, bool) or None if nothing can be said; key is a source text
    or (subject, constant) for equality with a constant."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return cond_atoms(test.operand, not val)
    if isinstance(test, ast.BoolOp):
        conj = isinstance(test.op, ast.And)
        if conj == val:
            out = []
            for v in test.values:
                out += cond_atoms(v, val)
            return out
        return [(ast.unparse(test), val)]
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op, l, r = test.ops[0], test.left, test.comparators[0]
        if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant):
            return [("%s is %r" % (ast.unparse(l), r.value), val == isinstance(op, ast.Is))]
        if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant):
            return [(("eq", ast.unparse(l), repr(r.value)), val == isinstance(op, ast.Eq))]
        if isinstance(op, (ast.In, ast.NotIn)):
            return [("%s in %s" % (ast.unparse(l), ast.unparse(r)), val == isinstance(op, ast.In))]
    if isinstance(test, ast.Constant):
        return [("const", bool(test.value) == val)] if bool(test.value) != val else []
    return [(ast.unparse(test), val)]


def fact_vars(key):
    src = key if isinstance(key, str) else key[1] if key[0] == "eq" else "(%s, %s)" % key[1:]
    try:
        return {n.id for n in ast.walk(ast.parse(src, mode="eval")) if isinstance(n, ast.Name)}
    except SyntaxError:
        return set()


MAXST = 48


class Flow:
    """Path-sensitive definite assignment over one function body."""

    def __init__(self, fn, report, outer=()):
        self.fn, self.report, self.uses = fn, report, 0
        args = set(arg_names(fn.args))
        body = fn.body if isinstance(fn.body, list) else [ast.Expr(fn.body)]
        names, glob = bound_names(body)
        self.locals = names - args
        for n in ast.walk(fn):                     # names deleted or declared in nested scopes stay simple
            if isinstance(n, (ast.Nonlocal, ast.Global)) and n is not fn:
                self.locals -= set(n.names)
        self.varcache, self.parsed = {}, {}
        self.inner = {n.name: n for n in body if isinstance(n, ast.FunctionDef)}
        self.free = {}
        self.called = set()
        self.reported = {}
        if not self.locals:
            return
        end = self.block(body, [State(frozenset(), frozenset())], [])

    # -- expressions
    def expr(self, e, sts):
        if e is None:
            return sts
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals:
                self.uses += 1
                bad = [s for s in sts if e.id not in s.bound]
                if bad and e.id not in self.reported:
                    allbad = len(bad) == len(sts)
                    self.reported[e.id] = True
                    self.report(e, e.id, allbad, bad[0].facts)
            return sts
        if isinstance(e, ast.Lambda):
            return sts
        if isinstance(e, COMP):
            sts = self.expr(e.generators[0].iter, sts)
            names = set()
            for g in e.generators:
                names.update(x.id for x in ast.walk(g.target) if isinstance(x, ast.Name))
            inner = [State(s.bound | names, s.facts) for s in sts]
            for i, g in enumerate(e.generators):
                if i:
                    self.expr(g.iter, inner)
                for c in g.ifs:
                    self.expr(c, inner)
                    inner = self.assume(inner, c, True)
            for f in ("elt", "key", "value"):
                if hasattr(e, f):
                    self.expr(getattr(e, f), inner)
            return sts
        if isinstance(e, ast.BoolOp):
            sts = self.expr(e.values[0], sts)
            cur = sts
            for prev, v in zip(e.values, e.values[1:]):
                cur = self.assume(cur, prev, isinstance(e.op, ast.And))
                if not cur:
                    break
                cur = self.expr(v, cur)
            return sts
        if isinstance(e, ast.IfExp):
            sts = self.expr(e.test, sts)
            a = self.assume(sts, e.test, True)
            if a:
                self.expr(e.body, a)
            b = self.assume(sts, e.test, False)
            if b:
                self.expr(e.orelse, b)
            return sts
        if isinstance(e, ast.NamedExpr):
            sts = self.expr(e.value, sts)
            return self.bind(sts, target_names(e.target))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in self.inner and e.func.id not in self.called:
            self.called.add(e.func.id)
            for x in self.freevars(e.func.id):           # what the nested function reads has to exist when it is called
                self.expr(ast.copy_location(ast.Name(x, ast.Load()), e), sts)
            self.called.discard(e.func.id)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension, ast.Slice, ast.FormattedValue)):
                sts = self.expr(c, sts)
        return sts

    def freevars(self, name):
        """Locals of this function which the nested function reads unconditionally (at the top of its body)."""
        if name not in self.free:
            fn = self.inner[name]
            own, _ = bound_names(fn.body)
            own |= set(arg_names(fn.args))
            for n in ast.walk(fn):
                if isinstance(n, COMP):
                    for g in n.generators:
                        own |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                elif isinstance(n, FUNC) and n is not fn:
                    own |= set(arg_names(n.args))
            out = set()
            for s in fn.body:
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return)):
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in own:
                            out.add(n.id)
                else:
                    break
            self.free[name] = sorted(out)
        return self.free[name]

    def bind(self, sts, names):
        names = set(names)
        out = []
        for s in sts:
            facts = s.facts
            if facts:
                facts = frozenset(f for f in facts if not (self.vars(f[0]) & names))
            out.append(State(s.bound | names, facts))
        return self.dedup(out)

    def vars(self, key):
        if key not in self.varcache:
            self.varcache[key] = fact_vars(key)
        return self.varcache[key]

    def mutated(self, sts, stmt):
        """Attribute stores and calls may change what an attribute condition says: drop such facts only for
        the objects that are assigned to."""
        roots = set()
        for n in ast.walk(stmt):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                roots.add(ast.unparse(n))
        if not roots:
            return sts
        return [State(s.bound, frozenset(f for f in s.facts if not any(r in (f[0] if isinstance(f[0], str) else " ".join(f[0][1:])) for r in roots))) for s in sts]

    def assume(self, sts, test, val):
        atoms0 = cond_atoms(test, val)
        if ("const", False) in atoms0:
            return []
        out = []
        for s in sts:
            facts = set(s.facts)
            ok = True
            atoms = list(atoms0)
            for k, v in atoms0:                       # a flag stands for the condition it was made from
                for g in s.facts:
                    if isinstance(g[0], tuple) and g[0][0] == "def" and g[0][1] == k:
                        atoms += cond_atoms(self.parse(g[0][2]), v)
            for k, v in atoms:
                if (k, not v) in facts:
                    ok = False
                    break
                if isinstance(k, tuple) and k[0] == "eq":
                    if v and any(isinstance(g[0], tuple) and g[0][0] == "eq" and g[0][1] == k[1] and g[0][2] != k[2] and g[1] for g in facts):
                        ok = False
                        break
                    if v and (("%s is None" % k[1], True) in facts) and k[2] != "None":
                        ok = False
                        break
                if v and isinstance(k, str) and (k + " is None", True) in facts:
                    ok = False
                    break
                if isinstance(k, str) and k.endswith(" is None") and v and (k[:-8], True) in facts:
                    ok = False
                    break
                facts.add((k, v))
            if ok and not self.contradicts(facts):
                out.append(State(s.bound, frozenset(facts)))
        return self.dedup(out)

    def contradicts(self, facts):
        """Unit propagation over the recorded (a or b) == True / (a and b) == False clauses and the order
        relations between a quantity and numbers."""
        d = {f[0]: f[1] for f in facts if not (isinstance(f[0], tuple) and f[0][0] == "def")}
        clauses = []
        for k, v in d.items():
            if isinstance(k, str) and (" and " in k or " or " in k):
                t = self.parse(k)
                if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) != v:
                    clauses.append((t, v))
        changed = True
        while changed:
            changed = False
            for t, v in clauses:                 # at least one of the values evaluates to v
                kn = [self.known(x, d) for x in t.values]
                if v in kn:
                    continue
                if None not in kn:
                    return True
                if kn.count(None) == 1:
                    for k2, v2 in cond_atoms(t.values[kn.index(None)], v):
                        if d.get(k2, v2) != v2:
                            return True
                        if k2 not in d:
                            d[k2] = v2
                            changed = True
        return self.numeric(d)

    def parse(self, k):
        if k not in self.parsed:
            try:
                self.parsed[k] = ast.parse(k, mode="eval").body
            except SyntaxError:
                self.parsed[k] = None
        return self.parsed[k]

    def numeric(self, d):
        """Bounds on the same quantity that exclude each other."""
        lo, hi = {}, {}
        for k, v in d.items():
            if isinstance(k, tuple):
                if k[0] == "eq" and v:
                    try:
                        c = float(k[2])
                    except ValueError:
                        continue
                    ops = [(">=", c), ("<=", c)]
                    subj = k[1]
                else:
                    continue
            else:
                if ">" not in k and "<" not in k:
                    continue
                t = self.parse(k)
                if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and isinstance(t.comparators[0].value, (int, float))):
                    continue
                c, subj = float(t.comparators[0].value), ast.unparse(t.left)
                o = {ast.Gt: ">", ast.GtE: ">=", ast.Lt: "<", ast.LtE: "<="}.get(type(t.ops[0]))
                if o is None:
                    continue
                if not v:
                    o = {">": "<=", ">=": "<", "<": ">=", "<=": ">"}[o]
                ops = [(o, c)]
            for o, c in ops:
                if o[0] == ">":
                    lo[subj] = max(lo.get(subj, (float("-inf"), 0)), (c, o == ">"))
                else:
                    hi[subj] = min(hi.get(subj, (float("inf"), 1)), (c, -(o == "<")))
        for x in set(lo) & set(hi):
            if lo[x][0] > hi[x][0] or (lo[x][0] == hi[x][0] and (lo[x][1] or hi[x][1])):
                return True
        return False

    def known(self, t, d):
        atoms = cond_atoms(t, True)
        if atoms and all(d.get(k) == v for k, v in atoms):
            return True
        if len(atoms) == 1 and d.get(atoms[0][0]) == (not atoms[0][1]):
            return False
        if any(k in d and d[k] != v for k, v in atoms):
            return False
        return None

    def dedup(self, sts):
        seen = {}
        for s in sts:
            seen.setdefault(s.key(), s)
        out = list(seen.values())
        if len(out) > MAXST:
            by = {}
            for s in out:                                    # merge by bound set, keep common facts
                by.setdefault(s.bound, []).append(s.facts)
            out = [State(b, frozenset.intersection(*map(frozenset, fs))) for b, fs in by.items()]
        if len(out) > MAXST:                                 # give up precision towards silence
            b = frozenset().union(*[s.bound for s in out])
            out = [State(b, frozenset())]
        return out

    # -- statements; returns states that fall through
    def block(self, stmts, sts, loops):
        for s in stmts:
            if not sts:
                return []
            sts = self.stmt(s, sts, loops)
        return sts

    def stmt(self, s, sts, loops):
        if isinstance(s, ast.Assign):
            sts = self.expr(s.value, sts)
            for t in s.targets:
                sts = self.target(t, sts)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Name, ast.Attribute)):
                t, src = s.targets[0].id, ast.unparse(s.value)
                if not any(isinstance(n, (ast.Call, ast.Await)) for n in ast.walk(s.value)) and t not in {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}:
                    sts = [State(x.bound, x.facts | {(("def", t, src), True)}) for x in sts]
            return self.mutated(sts, s)
        if isinstance(s, ast.AugAssign):
            sts = self.expr(s.value, sts)
            if isinstance(s.target, ast.Name):
                sts = self.expr(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), sts)
                return self.bind(sts, [s.target.id])
            return self.mutated(self.target(s.target, sts), s)
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                sts = self.expr(s.value, sts)
                sts = self.target(s.target, sts)
            return sts
        if isinstance(s, ast.Expr):
            return self.expr(s.value, sts)
        if isinstance(s, ast.Return):
            self.expr(s.value, sts)
            return []
        if isinstance(s, ast.Raise):
            self.expr(s.exc, sts)
            return []
        if isinstance(s, ast.Assert):
            sts = self.expr(s.test, sts)
            return self.assume(sts, s.test, True)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    sts = self.expr(ast.copy_location(ast.Name(t.id, ast.Load()), t), sts)
                    sts = [State(x.bound - {t.id}, x.facts) for x in sts]
            return sts
        if isinstance(s, ast.If):
            sts = self.expr(s.test, sts)
            a = self.block(s.body, self.assume(sts, s.test, True), loops)
            b = self.block(s.orelse, self.assume(sts, s.test, False), loops)
            return self.dedup(a + b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            sts = self.expr(s.iter, sts)
            inner = {"brk": [], "cnt": []}
            ent = self.target(s.target, sts)
            out = self.block(s.body, ent, loops + [inner])
            fall = self.dedup(out + inner["cnt"])
            if fall:                                           # a second turn, with what the first one bound
                inner2 = {"brk": [], "cnt": []}
                again = self.block(s.body, self.forget(self.target(s.target, fall), s), loops + [inner2])
                fall = self.dedup(fall + again + inner2["cnt"])
                inner["brk"] += inner2["brk"]
            fall = self.forget(fall, s)
            # the zero-turn path: what the loop binds is assumed to be wanted for non-empty sequences only
            if s.orelse:
                fall = self.block(s.orelse, fall, loops)
            return self.dedup(fall + inner["brk"])
        if isinstance(s, ast.While):
            sts = self.expr(s.test, sts)
            inner = {"brk": [], "cnt": []}
            ent = self.assume(sts, s.test, True)
            out = self.block(s.body, ent, loops + [inner])
            fall = self.dedup(out + inner["cnt"])
            if fall:
                inner2 = {"brk": [], "cnt": []}
                again = self.block(s.body, self.forget(fall, s), loops + [inner2])
                fall = self.dedup(fall + again + inner2["cnt"])
                inner["brk"] += inner2["brk"]
            fall = self.forget(fall, s)
            if isinstance(s.test, ast.Constant) and s.test.value:
                fall = []
            elif s.orelse:
                fall = self.block(s.orelse, fall, loops)
            return self.dedup(fall + inner["brk"])
        if isinstance(s, ast.Break):
            if loops:
                loops[-1]["brk"] += sts
            return []
        if isinstance(s, ast.Continue):
            if loops:
                loops[-1]["cnt"] += sts
            return []
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                sts = self.expr(it.context_expr, sts)
                if it.optional_vars is not None:
                    sts = self.target(it.optional_vars, sts)
            return self.block(s.body, sts, loops)
        if isinstance(s, ast.Try):
            ent = sts
            body = self.block(s.body, sts, loops)
            outs = self.block(s.orelse, body, loops) if s.orelse else body
            for h in s.handlers:
                hs = self.bind(ent, [h.name]) if h.name else ent
                outs = outs + self.block(h.body, hs, loops)
            outs = self.dedup(outs)
            if s.finalbody:
                outs = self.block(s.finalbody, outs or ent, loops) if outs else (self.block(s.finalbody, ent, loops) and [])
            return outs
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                sts = self.expr(d, sts)
            return self.bind(sts, [s.name])
        if isinstance(s, ast.ClassDef):
            return self.bind(sts, [s.name])
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.bind(sts, [a.asname or a.name.split(".")[0] for a in s.names])
        if isinstance(s, ast.Match):
            return self.bind(sts, self.locals)
        return sts

    def forget(self, sts, loop):
        names = set()
        for n in ast.walk(loop):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        return self.dedup([State(s.bound, frozenset(f for f in s.facts if not (self.vars(f[0]) & names))) for s in sts])

    def target(self, t, sts):
        if isinstance(t, ast.Name):
            return self.bind(sts, [t.id])
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                sts = self.target(e, sts)
            return sts
        if isinstance(t, ast.Starred):
            return self.target(t.value, sts)
        for c in ast.iter_child_nodes(t):
            if isinstance(c, ast.expr):
                sts = self.expr(c, sts)
        return sts
