"""Contracts of the primitives the fragment-sum analysis builds on: which fragments contribute, how
symmetry multiplicities are counted, which rank owns a fragment, and what the MPI helpers reduce to where.
Each contract is a rule on the primitive's own source (truth table over its atomic conditions, linear normal
form, or a dataflow rule); a primitive written in a form the rule does not understand is left undecided."""
import ast
import itertools

from harness import Finding
from pkg import ClassInfo, FuncInfo, dotted


class Unknown(Exception):
    pass


# ---------------------------------------------------------------- truth tables

def bool_eval(f, atoms, names=None):
    """Value of a small boolean function body under an assignment of its atoms (text -> bool)."""
    env = {}

    def ev(e):
        if isinstance(e, ast.BoolOp):
            vals = [ev(v) for v in e.values]
            return all(vals) if isinstance(e.op, ast.And) else any(vals)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not ev(e.operand)
        if isinstance(e, ast.IfExp):
            return ev(e.body) if ev(e.test) else ev(e.orelse)
        if isinstance(e, ast.Constant) and isinstance(e.value, bool):
            return e.value
        if isinstance(e, ast.Name) and e.id in env:
            return env[e.id]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return ev(e.args[0])
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and isinstance(e.comparators[0].value, bool):
            v = ev(e.left)
            if isinstance(e.ops[0], (ast.Eq, ast.Is)):
                return v == e.comparators[0].value
            if isinstance(e.ops[0], (ast.NotEq, ast.IsNot)):
                return v != e.comparators[0].value
        t = ast.unparse(e)
        if t in atoms:
            return atoms[t]
        if isinstance(e, ast.Call) and dotted(e.func) in ("all", "any") and isinstance(e.args[0], (ast.Tuple, ast.List)):
            vals = [ev(x) for x in e.args[0].elts]
            return all(vals) if dotted(e.func) == "all" else any(vals)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
            a, b = ev(e.left), ev(e.right)
            return (a and b) if isinstance(e.op, ast.BitAnd) else (a or b)
        raise Unknown(t)

    def run(stmts):
        for s in stmts:
            if isinstance(s, ast.Return):
                return True, ev(s.value)
            if isinstance(s, ast.If):
                done, v = run(s.body if ev(s.test) else s.orelse)
                if done:
                    return done, v
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                try:
                    env[s.targets[0].id] = ev(s.value)
                except Unknown:
                    env.pop(s.targets[0].id, None)
            elif isinstance(s, (ast.Expr, ast.Pass)):
                continue
            else:
                raise Unknown(type(s).__name__)
        return False, None
    done, v = run(f.node.body)
    if not done:
        raise Unknown("no return")
    return v


# ---------------------------------------------------------------- linear forms

def linear(e, pkg, cls, depth=0, env=None):
    """{atom text: coefficient, 1: constant}; properties of the class are expanded."""
    env = env or {}
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
        return {1: e.value}
    if isinstance(e, ast.Name) and e.id in env:
        return dict(env[e.id])
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        a, b = linear(e.left, pkg, cls, depth, env), linear(e.right, pkg, cls, depth, env)
        s = 1 if isinstance(e.op, ast.Add) else -1
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + s * v
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        a, b = linear(e.left, pkg, cls, depth, env), linear(e.right, pkg, cls, depth, env)
        if set(a) == {1}:
            a, b = b, a
        if set(b) == {1}:
            return {k: v * b[1] for k, v in a.items()}
        raise Unknown(ast.unparse(e))
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and depth < 4:
        f = pkg.find_method(cls, e.attr)
        if f is not None and f.is_property:
            return linear_func(f, pkg, cls, depth + 1)
    if isinstance(e, ast.Call) and dotted(e.func) == "len" and len(e.args) == 1:
        a = e.args[0]
        while isinstance(a, ast.Call) and dotted(a.func) in ("list", "tuple") and len(a.args) == 1:
            a = a.args[0]
        if isinstance(a, ast.Call) and dotted(a.func) == "self.get_symmetry_children":
            if a.args or a.keywords:
                return {"restricted children: " + ast.unparse(a): 1}
            return {"children": 1}
        if isinstance(a, ast.Call) and dotted(a.func) == "self.loop_symmetry_children":
            kw = {k.arg: k.value for k in a.keywords}
            if not a.args and set(kw) <= {"include_self"}:
                inc = kw.get("include_self")
                inc = isinstance(inc, ast.Constant) and bool(inc.value)
                return {"children": 1, 1: int(inc)}
    raise Unknown(ast.unparse(e))


def linear_func(f, pkg, cls, depth=0):
    env = {}
    for s in f.node.body:
        if isinstance(s, ast.Expr):
            continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            v = s.value
            if isinstance(v, ast.Call) and dotted(v.func) in ("self.get_symmetry_children",):
                env["len:" + s.targets[0].id] = v
                continue
            env[s.targets[0].id] = linear(v, pkg, cls, depth, env)
        elif isinstance(s, ast.Return):
            e = s.value
            if isinstance(e, ast.AST):
                e = _subst_len(e, env)
            return linear(e, pkg, cls, depth, {k: v for k, v in env.items() if not k.startswith("len:")})
        else:
            raise Unknown(type(s).__name__)
    raise Unknown("no return")


def _subst_len(e, env):
    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            return env.get("len:" + n.id, n)
    import copy
    return T().visit(copy.deepcopy(e))


# ---------------------------------------------------------------- the contracts

def check(pkg):
    out, seen, undecided = [], [], []

    def add(prop, rule, f, node, construct, msg):
        out.append(Finding(prop, rule, f.short, construct, f.loc(node), msg))

    def contract(name, fn):
        try:
            fn()
            seen.append(name)
        except Unknown as e:
            undecided.append("%s (%s)" % (name, e))

    frag = pkg.resolve_abs("vayesta.core.qemb.fragment.Fragment")
    emb = pkg.resolve_abs("vayesta.core.qemb.qemb.Embedding")
    mpi = pkg.resolve_abs("vayesta.mpi.interface.MPI_Interface")

    def method(cls, name):
        f = pkg.find_method(cls, name) if isinstance(cls, ClassInfo) else None
        if f is None:
            raise Unknown("no %s" % name)
        return f

    def contributes():
        for c in [frag] + pkg.subs.get(frag, []):
            f = method(c, "contributes")
            for a, x in itertools.product((False, True), repeat=2):
                v = bool_eval(f, {"self.active": a, "self.opts.auxiliary": x})
                if v != (a and not x):
                    add("C05", "contributes", f, f.node, "contributes", "a fragment with active=%s, auxiliary=%s %s expectation values" % (a, x, "contributes to" if v else "is left out of"))
                    return

    def symfactor():
        for c in [frag] + pkg.subs.get(frag, []):
            f = method(c, "symmetry_factor")
            lf = {k: v for k, v in linear_func(f, pkg, c).items() if v}
            if lf != {"children": 1, 1: 1}:
                add("C04", "symmetry-factor", f, f.node, "symmetry_factor", "symmetry_factor is not the number of symmetry children plus one (found %s)" % lf)
            f = method(c, "n_symmetry_children")
            lf = {k: v for k, v in linear_func(f, pkg, c).items() if v}
            if lf != {"children": 1}:
                add("C04", "symmetry-factor", f, f.node, "n_symmetry_children", "n_symmetry_children is not the number of symmetry children of all generations (found %s)" % lf)

    def symloop():
        f = method(frag, "loop_symmetry_children")
        rec = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "loop_symmetry_children"]
        for n in rec:
            for k in n.keywords:
                if k.arg == "include_self" and not (isinstance(k.value, ast.Constant) and not k.value.value):
                    add("C04", "symmetry-loop", f, n, "loop_symmetry_children", "the recursion into a child includes the child again: it is counted twice")
        yields = [n for n in ast.walk(f.node) if isinstance(n, (ast.Yield, ast.YieldFrom))]
        if not yields:
            raise Unknown("no yield")
        # the fragment itself is yielded exactly under include_self
        par = parents(f.node)
        selfy = [y for y in yields if isinstance(y, ast.Yield) and y.value is not None and any(isinstance(n, ast.Name) and n.id == "self" for n in ast.walk(y.value))]
        if len(selfy) == 1:
            g = guards(selfy[0], par)
            if not any(ast.unparse(t) == "include_self" and v for t, v in g):
                if any("include_self" in ast.unparse(t) for t, v in g):
                    add("C04", "symmetry-loop", f, selfy[0], "yield self", "the fragment itself is included under a condition other than include_self")
                else:
                    add("C04", "symmetry-loop", f, selfy[0], "yield self", "the fragment itself is included although include_self was not requested")
        inloop = [y for y in yields if isinstance(y, ast.Yield) and y not in selfy]
        for y in inloop:
            g = [t for t, v in guards(y, par)]
            if g:
                raise Unknown("conditional child")

    def generations():
        f = method(frag, "get_symmetry_generations")
        kids = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get_fragments"]
        if not any(any(k.arg == "sym_parent" for k in n.keywords) for n in kids):
            raise Unknown("children not selected by sym_parent")

    def ncells():
        f = method(emb, "ncells")
        rets = [n for n in ast.walk(f.node) if isinstance(n, ast.Return)]
        par = parents(f.node)
        ok = False
        for r in rets:
            t = ast.unparse(r.value)
            g = guards(r, par)
            if t == "1":
                if not any("kpts" in ast.unparse(c) and "None" in ast.unparse(c) for c, v in g) and len(rets) > 1:
                    raise Unknown("guard")
            elif t in ("len(self.kpts)", "self.kpts.shape[0]", "self.mf.ncells"):
                ok = True
            else:
                raise Unknown(t)
        if not ok:
            add("C06", "ncells", f, f.node, "ncells", "the number of cells is not the number of k-points")

    def nreduce():
        f = method(mpi, "nreduce")
        par = parents(f.node)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("reduce", "Reduce"):
                root = {k.arg: k.value for k in n.keywords}.get("root")
                if root is None or ast.unparse(root) != "target":
                    g = [ast.unparse(t) for t, v in guards(n, par)]
                    add("C03", "nreduce", f, n, "nreduce", "the reduction to one rank uses root %s instead of the requested target" % ("0 (default)" if root is None else ast.unparse(root)))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("reduce", "allreduce"):
                g = guards(n, par)
                for t, v in g:
                    s = ast.unparse(t)
                    if s in ("target is None", "target is not None"):
                        none = (s == "target is None") == v
                        if n.func.attr == "allreduce" and not none:
                            add("C03", "nreduce", f, n, "nreduce", "every rank receives the result although a target rank is given")
                        if n.func.attr == "reduce" and none:
                            add("C01", "nreduce", f, n, "nreduce", "without a target rank the result is not returned to every rank")
                    elif s in ("target", "not target"):
                        add("C03", "nreduce", f, n, "nreduce", "target rank 0 is treated like no target")
                for k in n.keywords:
                    if k.arg == "op" and not ast.unparse(k.value).endswith("SUM"):
                        add("C01", "nreduce", f, n, "nreduce", "contributions are combined with %s instead of being summed" % ast.unparse(k.value))

    def wrappers():
        for name, coll in (("with_reduce", "reduce"), ("with_allreduce", "allreduce")):
            f = method(mpi, name)
            w = [n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "func" for c in ast.walk(n))]
            w = [n for n in w if not any(isinstance(x, ast.FunctionDef) and x is not n for x in ast.walk(n))]
            if len(w) != 1:
                raise Unknown(name)
            calls = [n.func.attr for n in ast.walk(w[0]) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("reduce", "allreduce", "Reduce", "Allreduce")]
            if calls and calls != [coll]:
                add("C01", "wrapper", f, w[0], name, "%s performs %s on the result of the wrapped function" % (name, calls))
            elif not calls:
                add("C01", "wrapper", f, w[0], name, "%s does not combine the results of the MPI processes" % name)

    def master():
        f = method(mpi, "is_master")
        r = [n for n in ast.walk(f.node) if isinstance(n, ast.Return)]
        if len(r) != 1 or not isinstance(r[0].value, ast.Compare):
            raise Unknown("is_master")
        c = r[0].value
        s = {ast.unparse(c.left), ast.unparse(c.comparators[0])}
        if not (isinstance(c.ops[0], ast.Eq) and s == {"self.rank", "0"}):
            add("C02", "is-master", f, r[0], "is_master", "is_master is not rank == 0")

    def bcast():
        f = method(mpi, "bcast")
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("bcast", "Bcast"):
                root = {k.arg: k.value for k in n.keywords}.get("root") or (n.args[1] if len(n.args) > 1 else None)
                if root is None or ast.unparse(root) != "root":
                    add("C01", "bcast", f, n, "bcast", "the object is broadcast from rank %s instead of the requested root" % ("0 (default)" if root is None else ast.unparse(root)))
        par = parents(f.node)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("bcast", "Bcast"):
                for t, v in guards(n, par):
                    if "rank" in ast.unparse(t):
                        add("C02", "bcast", f, n, "bcast", "only some ranks take part in the broadcast")

    def filters():
        f = method(emb, "get_fragments")
        flag_overwritten(f, add)

    def ranks():
        f = pkg.resolve_abs("vayesta.core.qemb.register.FragmentRegister.get_next_mpi_rank")
        if not isinstance(f, FuncInfo):
            raise Unknown("register")
        r = [n for n in ast.walk(f.node) if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod)]
        if len(r) != 1:
            raise Unknown("round robin")
        if not ast.unparse(r[0].right).endswith("mpi_size") and not ast.unparse(r[0].right).endswith("mpi.size") and not ast.unparse(r[0].right) == "len(mpi)":
            add("C01", "ranks", f, r[0], "get_next_mpi_rank", "fragments are assigned modulo %s, not the number of MPI processes: some belong to no process" % ast.unparse(r[0].right))

    for name, fn in (("Fragment.contributes", contributes), ("Fragment.symmetry_factor", symfactor), ("Fragment.loop_symmetry_children", symloop),
                     ("Fragment.get_symmetry_generations", generations), ("Embedding.ncells", ncells), ("mpi.nreduce", nreduce),
                     ("mpi.with_reduce/with_allreduce", wrappers), ("mpi.is_master", master), ("mpi.bcast", bcast),
                     ("Embedding.get_fragments", filters), ("FragmentRegister.get_next_mpi_rank", ranks)):
        contract(name, fn)
    return out, seen, undecided


def flag_overwritten(f, add):
    """A flag set by one filter loop must decide (continue / not append) before another loop assigns it again."""
    for loop in ast.walk(f.node):
        if not isinstance(loop, ast.For):
            continue
        pend = {}                                       # flag -> loop that set it and has not been acted on
        inner = [s for s in loop.body if isinstance(s, (ast.For, ast.If))]
        for s in loop.body:
            if isinstance(s, ast.For):
                sets = {t.id for n in ast.walk(s) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
                brk = {n.test.id for n in ast.walk(s) if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and any(isinstance(b, ast.Break) for b in n.body)}
                for v in sets & brk:
                    if v in pend:
                        add("C05", "filter-lost", f, s, "get_fragments", "the outcome of the filter loop at line %d (%r) is overwritten before it excludes the fragment" % (pend[v].lineno, v))
                    pend[v] = s
            elif isinstance(s, ast.If) and any(isinstance(n, ast.Continue) for n in s.body):
                for n in ast.walk(s.test):
                    if isinstance(n, ast.Name):
                        pend.pop(n.id, None)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append":
                for v, l in pend.items():
                    add("C05", "filter-lost", f, s, "get_fragments", "the outcome of the filter loop at line %d (%r) does not exclude the fragment" % (l.lineno, v))


def parents(root):
    p = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            p[c] = n
    return p


def guards(node, par):
    """[(test, polarity)] of the if statements around a node, within its function."""
    out = []
    n = node
    while n in par:
        q = par[n]
        if isinstance(q, ast.If):
            if n in q.body:
                out.append((q.test, True))
            elif n in q.orelse:
                out.append((q.test, False))
        elif isinstance(q, ast.IfExp):
            if n is q.body:
                out.append((q.test, True))
            elif n is q.orelse:
                out.append((q.test, False))
        n = q
    return out
