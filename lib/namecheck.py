"""C19 (and the signature half used by C18): drives the scope, assignment, attribute and call analyses."""
import ast
import gzip
import json
import os

from pkg import ClassInfo, FuncInfo, Module, Package, AnalysisError, dotted, target_names
from harness import Finding, Result
from names import DATA, Scan, Flow, FUNC, COMP, bound_names, arg_names
from members import Members, Sig, ExtSig, transparent

MPI_NAMES = {"COMM_WORLD", "Wtime", "Get_rank", "Get_size", "Bcast", "Barrier", "recv", "Win", "Allocate", "Lock", "Unlock", "Put", "Get",
             "Free", "LOCK_SHARED", "LOCK_EXCLUSIVE", "PROD", "SUM", "MIN", "MAX", "rc", "Send", "Recv", "send", "isend", "irecv", "reduce",
             "allreduce", "bcast", "gather", "allgather", "barrier", "Reduce", "Allreduce", "Scatter", "scatter", "Gather"}
# names of the interfaces of dyson (optional, not installed), ebcc amplitudes and logging records, which are made at run time
RUNTIME_NAMES = {"diagonalise_matrix_with_projection", "as_static_potential", "_unpack_couplings", "levelno", "levelname",
                 "s1", "s2", "u11", "u12", "ls1", "ls2", "lu11", "lu12"}


def base_classes(pkg):
    """Receiver families by anchor class; a family that vanished is left out."""
    out = {}
    for key, path in (("emb", "core.qemb.qemb.Embedding"), ("frag", "core.qemb.fragment.Fragment"),
                      ("cluster", "core.types.cluster.Cluster"), ("hamil", "solver.hamiltonian.RClusterHamiltonian"),
                      ("wf", "core.types.wf.wf.WaveFunction"), ("solver", "solver.solver.ClusterSolver"),
                      ("symgroup", "core.symmetry.group.SymmetryGroup"), ("bath", "core.bath.bath.Bath")):
        r = pkg.resolve_abs("vayesta." + path)
        if isinstance(r, ClassInfo):
            out[key] = r
    return out


class Types:
    """Flow-insensitive receiver types of one function: expression -> list of ClassInfo (a family) or None."""

    def __init__(self, ck, f):
        self.ck, self.f, self.env = ck, f, {}
        self.local = bound_names(f.node.body)[0] | set(arg_names(f.node.args))
        self.multi = {}
        ps = f.params()
        if f.cls is not None and ps and not f.is_static and not f.is_classmethod:
            self.env[ps[0]] = ("self", f.cls)
        fams = ck.fam
        for p in ps + [a.arg for a in f.node.args.kwonlyargs]:
            if p in ("emb",) and "emb" in fams and self.sane(p):
                self.env[p] = ("fam", "emb")
            elif p in ("fragment", "frag", "fx", "fy") and "frag" in fams and self.sane(p):
                self.env[p] = ("fam", "frag")
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self._set(n.targets[0].id, n.value)
            elif isinstance(n, ast.For):
                self._loop(n.target, n.iter)
            elif isinstance(n, ast.comprehension):
                self._loop(n.target, n.iter)
            elif isinstance(n, (ast.With,)):
                for it in n.items:
                    if it.optional_vars is not None:
                        for t in target_names(it.optional_vars):
                            self._kill(t)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in target_names(t):
                        self._kill(x)
            elif isinstance(n, FUNC) and n is not f.node:
                for a in arg_names(n.args):
                    self._kill(a)

    def sane(self, p):
        return True

    def _kill(self, name):
        self.env[name] = None
        self.multi[name] = True

    def _set(self, name, value):
        t = self.of(value)
        if name in self.env or name in self.multi:
            if self.env.get(name) != t:
                self._kill(name)
            return
        self.env[name] = t
        if t is None:
            self.multi[name] = True

    def _loop(self, target, it):
        el = None
        if isinstance(it, ast.Call) and dotted(it.func) == "enumerate" and it.args and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            self._loop(target.elts[0], ast.Constant(0))
            return self._loop(target.elts[1], it.args[0])
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("get_fragments", "loop_symmetry_children", "get_symmetry_children"):
            if it.func.attr == "get_fragments" and not isinstance(target, ast.Tuple):
                el = ("fam", "frag")
        elif isinstance(it, ast.Attribute) and it.attr == "fragments":
            el = ("fam", "frag")
        if isinstance(target, ast.Name):
            if target.id in self.env and self.env[target.id] != el:
                self._kill(target.id)
            else:
                self.env[target.id] = el
        else:
            for x in target_names(target):
                self._kill(x)

    def of(self, e):
        ck = self.ck
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            if e.id not in self.local:
                return ck.made_by(self.f.module, e.id)
            return None
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            if d and d.split(".")[0] not in self.local:
                return ck.instance(self.f.module, d)
            return None
        if isinstance(e, ast.Attribute):
            t = self.of(e.value)
            if t is None:
                return None
            kind = ck.kind(t)
            if e.attr == "base" and kind == "frag":
                return ("fam", "emb")
            if e.attr == "opts" and kind in ("frag", "emb", "solver"):
                return ("opts", kind)
            if e.attr == "cluster" and kind in ("frag", "hamil"):
                return ("fam", "cluster")
            if e.attr == "hamil" and kind in ("frag", "solver"):
                return ("fam", "hamil")
            if e.attr == "_results" and kind == "frag" or e.attr == "results" and kind == "frag":
                return ("results", "frag")
            if e.attr == "wf" and t == ("results", "frag"):
                return ("fam", "wf")
            if e.attr == "_fragment" and kind == "hamil":
                return ("fam", "frag")
            if e.attr in ("sym_parent", "parent") and kind == "frag":
                return ("fam", "frag")
            if kind in ("bath", "solver") or t[0] in ("self", "inst"):
                if e.attr == "fragment" and kind == "bath":
                    return ("fam", "frag")
                if e.attr == "base" and kind == "bath":
                    return ("fam", "emb")
                cl = [t[1]] if t[0] == "self" else t[1] if t[0] == "inst" else []
                if len(cl) == 1:
                    return ck.attr_type(cl[0], e.attr)
        return None


class Check:
    def __init__(self, pkg):
        self.pkg = pkg
        self.M = Members(pkg)
        self.fam = base_classes(pkg)
        self.families = {k: [c] + pkg.subs.get(c, []) for k, c in self.fam.items()}
        # hamiltonians and wave functions live in parallel hierarchies: take every class of the module(s)
        for key, pref in (("hamil", "vayesta.solver.hamiltonian"), ("wf", "vayesta.core.types.wf"), ("cluster", "vayesta.core.types.cluster")):
            if key in self.families:
                self.families[key] += [c for c in pkg.all_classes if c.module.name.startswith(pref) and c not in self.families[key] and c.outer is None]
        if "wf" in self.families:
            self.families["wf"] += [c for c in pkg.all_classes if c.module.name.startswith("vayesta.core.types.ebwf") and c not in self.families["wf"]]
        self.findings = []
        self._types, self._made, self._attrt = {}, {}, {}
        with gzip.open(os.path.join(os.path.dirname(DATA), "sigs.json.gz")) as fh:
            self.ext_sigs = json.load(fh)
        self.n = {"names": 0, "locals": 0, "attributes": 0, "calls": 0, "imports": 0, "unpackings": 0, "formats": 0}

    def kind(self, t):
        if t is None:
            return None
        if t[0] == "fam":
            return t[1]
        if t[0] in ("self", "inst"):
            for k, c in self.families.items():
                if (t[1] if t[0] == "self" else t[1][0]) in c:
                    return k
        return None

    def instance(self, m, d):
        """Type of calling the dotted name d: an instance of a class, or of the classes a factory function returns."""
        r = self.pkg.resolve(m, d)
        if isinstance(r, ClassInfo):
            return ("inst", (r,)) if not self.pkg.find_method(r, "__new__") else None
        if isinstance(r, FuncInfo) and r.cls is None and not r.decorators:
            cl = []
            rets = [n for n in ast.walk(r.node) if isinstance(n, ast.Return)]
            for n in rets:
                k = self.pkg.resolve(r.module, dotted(n.value.func)) if isinstance(n.value, ast.Call) and dotted(n.value.func) else None
                if not isinstance(k, ClassInfo):
                    return None
                if k not in cl:
                    cl.append(k)
            return ("inst", tuple(cl)) if cl else None
        return None

    def made_by(self, m, name):
        """Type of a module-level object, e.g. the MPI interface."""
        key = (m.name, name)
        if key not in self._made:
            self._made[key] = None
            r = self.pkg.lookup(m, name)
            if isinstance(r, tuple) and r[0] == "expr":
                src = r[1]
                cl = []
                for n in ast.walk(src.tree):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                        if isinstance(n.value, ast.Constant) and n.value.value is None:
                            continue
                        k = self.pkg.resolve(src, dotted(n.value.func)) if isinstance(n.value, ast.Call) and dotted(n.value.func) else None
                        if not isinstance(k, ClassInfo):
                            return None
                        cl.append(k)
                if cl and len(set(cl)) == 1:
                    self._made[key] = ("inst", (cl[0],))
        return self._made[key]

    def attr_type(self, c, attr):
        """Type of self.attr if every assignment to it in the class makes instances of the same class (or None)."""
        key = (c, attr)
        if key not in self._attrt:
            self._attrt[key] = None
            cl, ok = set(), True
            for k in self.pkg.mro(c) + list(self.pkg.subs.get(c, [])):
                if attr in k.methods or attr in k.attrs:
                    ok = False
                for g in list(k.methods.values()) + list(k.setters.values()):
                    ps = g.params()
                    if not ps or attr not in self.M.stored[k]:
                        continue
                    for n in ast.walk(g.node):
                        tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)) else []
                        for t in tg:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.value, ast.Name) and x.value.id == ps[0] and isinstance(x.ctx, ast.Store):
                                    v = n.value if isinstance(n, ast.Assign) and x in n.targets else None
                                    if isinstance(v, ast.Constant) and v.value is None:
                                        continue
                                    d = dotted(v.func) if isinstance(v, ast.Call) else None
                                    it = self.instance(g.module, d) if d and not d.startswith(ps[0] + ".") else None
                                    if it is None:
                                        ok = False
                                    else:
                                        cl.add(it[1])
            if ok and len(cl) == 1 and attr not in self.M.ext_assigned:
                self._attrt[key] = ("inst", cl.pop())
        return self._attrt[key]

    def classes(self, t):
        if t[0] == "inst":
            return list(t[1])
        if t[0] == "fam":
            return self.families.get(t[1])
        if t[0] == "opts":
            out = []
            for c in self.families.get(t[1], []):
                o = self.pkg.class_attr(c, "Options")
                if isinstance(o, ClassInfo) and o not in out:
                    out.append(o)
            return out
        if t[0] == "results":
            out = []
            for c in self.families.get(t[1], []):
                o = self.pkg.class_attr(c, "Results")
                if isinstance(o, ClassInfo) and o not in out:
                    out.append(o)
            return out
        return None

    def add(self, rule, f, construct, node, msg, where=None):
        if isinstance(f, FuncInfo):
            func, loc = f.short, f.loc(node)
        else:
            func, loc = (f.name + ("." + where if where and where != "<module>" else "")), "%s:%d" % (f.relpath, node.lineno)
            func = func[len("vayesta."):] if func.startswith("vayesta.") else func
        self.findings.append(Finding("C19", rule, func, construct, loc, msg))

    # ------------------------------------------------------------------ rules

    def names(self):
        for m in self.pkg.modules.values():
            main = [s for s in m.tree.body if isinstance(s, ast.If) and "__name__" in ast.unparse(s.test)]
            lines = set()
            for s in main:
                lines.update(range(s.lineno, s.end_lineno + 1))

            def rep(rule, m, where, c, n, msg):
                if n.lineno not in lines:
                    self.add(rule, m, c, n, msg, where)
            self.n["names"] += Scan(self.pkg, m, rep).uses
            self.main_lines = getattr(self, "main_lines", {})
            self.main_lines[m.name] = lines

    def locals(self):
        for f in self.pkg.all_funcs:
            todo = [f.node]
            while todo:
                node = todo.pop()
                for n in ast.walk(node):
                    if isinstance(n, (ast.FunctionDef,)) and n is not node:
                        todo.append(n)

                def rep(n, name, allbad, facts, f=f):
                    if not allbad and self.fallthrough(facts):
                        return
                    self.add("unbound-local", f, name, n, "local variable %r is %s here%s" % (
                        name, "never assigned before it is used" if allbad else "not assigned on some path",
                        "" if allbad else " (path: %s)" % ", ".join(sorted("%s=%s" % (k if isinstance(k, str) else "%s == %s" % k[1:], v) for k, v in facts if k[0] != "def"))))
                self.n["locals"] += Flow(node, rep).uses
                todo = [t for t in todo if t is not node]
                break_nested = True
                # nested functions are flowed once each
                seen = set()
                for t in todo:
                    if id(t) not in seen:
                        seen.add(id(t))
                        self.n["locals"] += Flow(t, rep).uses
                todo = []

    def fallthrough(self, facts):
        """The path exists only because a selection (x == 'a', x == 'b', ...) matched none of its values, or
        because a condition over the elements of a collection is unrelated to one over a single element."""
        subj = {}
        inst = set()
        for k, v in facts:
            if isinstance(k, str) and k.startswith("isinstance("):      # relations between library classes are not known
                s0 = k.split(",")[0]
                if s0 in inst:
                    return True
                inst.add(s0)
            if isinstance(k, tuple) and k[0] == "eq" and not v:
                subj.setdefault(k[1], set()).add(k[2])
            if isinstance(k, str) and ("any(" in k or "all(" in k):
                return True
        pos = {k[1] for k, v in facts if isinstance(k, tuple) and k[0] == "eq" and v}
        return any(len(v) > 1 and s not in pos for s, v in subj.items())

    def imports(self):
        M = self.M
        for m in self.pkg.modules.values():
            guarded = guarded_lines(m.tree, ("ImportError", "ModuleNotFoundError", "AttributeError", "Exception"))
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom) and n.lineno not in guarded:
                    src = self.pkg._abs(m, n)
                    self.n["imports"] += len(n.names)
                    if src in self.pkg.modules:
                        for a in n.names:
                            if a.name != "*" and self.pkg.lookup(self.pkg.modules[src], a.name) is None and (src + "." + a.name) not in self.pkg.modules:
                                if src.startswith("vayesta.libs"):
                                    continue
                                self.add("missing-import", m, "%s.%s" % (src, a.name), n, "module %s defines no %s" % (src, a.name))
                    elif src.split(".")[0] == "vayesta":
                        if not self.is_nonpy(src):
                            self.add("missing-import", m, src, n, "there is no module %s" % src)
                    elif M.ext_mods.get(src) is not None:
                        for a in n.names:
                            if a.name != "*" and a.name not in M.ext_mods[src] and (src + "." + a.name) not in M.ext_mods and not a.name.startswith("_"):
                                self.add("missing-import", m, "%s.%s" % (src, a.name), n, "module %s defines no %s" % (src, a.name))
                elif isinstance(n, ast.Import) and n.lineno not in guarded:
                    for a in n.names:
                        self.n["imports"] += 1
                        if a.name.split(".")[0] == "vayesta" and a.name not in self.pkg.modules and not self.is_nonpy(a.name):
                            self.add("missing-import", m, a.name, n, "there is no module %s" % a.name)

    def is_nonpy(self, name):
        import os
        return os.path.isdir(os.path.join(self.pkg.repo, *name.split(".")))

    def module_attrs(self):
        M, pkg = self.M, self.pkg
        for m in pkg.modules.values():
            guarded = guarded_lines(m.tree, ("ImportError", "ModuleNotFoundError", "AttributeError", "Exception"))
            lines = self.main_lines[m.name]
            shadow = shadowed(m.tree)
            for n in ast.walk(m.tree):
                if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)) or n.lineno in guarded or n.lineno in lines:
                    continue
                d = dotted(n)
                if d is None:
                    continue
                parts = d.split(".")
                if (parts[0], n.lineno) in shadow or parts[0] == "self":
                    continue
                pre = pkg.resolve(m, ".".join(parts[:-1]))
                if isinstance(pre, Module):
                    self.n["attributes"] += 1
                    if pkg.resolve(m, d) is None and parts[-1] not in ("__file__", "__path__", "__name__", "__version__") and (pre.name + "." + parts[-1]) not in pkg.modules \
                            and not self.is_nonpy(pre.name + "." + parts[-1]):
                        self.add("missing-member", m, d, n, "module %s defines no %s" % (pre.name, parts[-1]))
                elif isinstance(pre, tuple) and pre[0] == "ext" and M.ext_mods.get(pre[1]) is not None:
                    self.n["attributes"] += 1
                    if parts[-1] not in M.ext_mods[pre[1]] and not parts[-1].startswith("_") and (pre[1] + "." + parts[-1]) not in M.ext_mods \
                            and parts[-1] not in M.ext_assigned and parts[-1].upper() != parts[-1] and ".core" not in pre[1]:
                        self.add("missing-member", m, d, n, "module %s defines no %s" % (pre[1], parts[-1]))

    def functions(self):
        for f in self.pkg.all_funcs:
            self.function(f)
            self.local_modules(f)

    def local_modules(self, f):
        """Members of package modules imported inside the function."""
        imp = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Import):
                for a in n.names:
                    imp[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                src = self.pkg._abs(f.module, n)
                for a in n.names:
                    imp[a.asname or a.name] = "%s.%s" % (src, a.name)
        if not imp:
            return
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                d = dotted(n)
                if d and d.split(".")[0] in imp:
                    full = imp[d.split(".")[0]] + "." + ".".join(d.split(".")[1:])
                    pre = full.rsplit(".", 1)[0]
                    if pre in self.pkg.modules:
                        self.n["attributes"] += 1
                        if self.pkg.resolve_abs(full) is None and full not in self.pkg.modules and not n.attr.startswith("__") and not self.is_nonpy(full):
                            self.add("missing-member", f, d, n, "module %s defines no %s" % (pre, n.attr))

    def function(self, f):
        pkg, M = self.pkg, self.M
        T = self.types(f)
        guarded = guarded_lines(f.node, ("AttributeError", "Exception", "TypeError"))
        hasattrs = {(ast.unparse(n.args[0]), n.args[1].value) for n in ast.walk(f.node)
                    if isinstance(n, ast.Call) and dotted(n.func) in ("hasattr", "getattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant)}
        local = bound_names(f.node.body)[0] | set(arg_names(f.node.args))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.lineno not in guarded:
                self.attribute(f, T, n, hasattrs)
            elif isinstance(n, ast.Call) and n.lineno not in guarded:
                self.call(f, T, n, local)
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                self.format(f, n)
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Tuple, ast.List)) and len(n.targets) == 1:
                self.unpack(f, T, n, local)

    def attribute(self, f, T, n, hasattrs):
        M, pkg = self.M, self.pkg
        t = T.of(n.value)
        if (ast.unparse(n.value), n.attr) in hasattrs:
            return
        if t is None:
            self.n["attributes"] += 1
            if n.attr not in M.all_names and n.attr not in MPI_NAMES and n.attr not in RUNTIME_NAMES and not self.external_receiver(f, n.value):
                self.add("unknown-attribute", f, ast.unparse(n), n, "no class of the package or of the libraries it uses has an attribute %r" % n.attr)
            return
        self.n["attributes"] += 1
        if t[0] == "self":
            c = t[1]
            fam = M.family(c)
            if n.attr in M.ext_assigned and not any(n.attr in M.inst[k] for k in pkg.all_classes):
                return
            if any(M.is_open(k) for k in fam):
                if n.attr in M.all_names:
                    return
            miss = [k for k in fam if not M.has(k, n.attr)]
            if len(miss) == len(fam):
                self.add("missing-attribute", f, ast.unparse(n), n, "neither %s nor a class derived from it has an attribute %r" % (c.name, n.attr))
            elif miss:
                lm = [k for k in M.leaves(c) if k in miss and pkg.find_method(k, f.name) is f and self.reachable_on(k, f)]
                for k in lm:
                    self.add("missing-attribute", f, "%s in %s" % (ast.unparse(n), k.name), n, "class %s inherits this method but has no attribute %r" % (k.qualname, n.attr))
            return
        cl = self.classes(t)
        if not cl:
            return
        if any(M.has(k, n.attr) for k in cl):
            return
        if any(M.is_open(k) for k in cl) and n.attr in M.all_names:
            return
        if n.attr in M.ext_assigned:
            return
        self.add("missing-attribute", f, ast.unparse(n), n, "no class this object can be an instance of (%s, ...) has an attribute %r" % (cl[0].name, n.attr))

    def reachable_on(self, k, f):
        """Some method that class k really has calls f on self, or some other code calls it by name."""
        if not hasattr(self, "_refs"):
            self._refs, self._ext_refs = {}, set()
            for g in self.pkg.all_funcs:
                ps = g.params()
                me = ps[0] if g.cls is not None and ps else None
                s = self._refs.setdefault(g, set())
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Attribute):
                        if isinstance(n.value, ast.Name) and n.value.id == me:
                            s.add(n.attr)
                        else:
                            self._ext_refs.add(n.attr)
        if f.name in self._ext_refs or f.name.startswith("__"):
            return True
        names = set()
        for c in self.pkg.mro(k):
            names |= set(c.methods)
        used = set()
        for x in names:
            g = self.pkg.find_method(k, x)
            if g is not None and g is not f:
                used |= self._refs.get(g, set())
        return f.name in used or not any(f.name in s for s in self._refs.values())

    def external_receiver(self, f, e):
        """Rooted at an imported external module, or at something made by one."""
        while isinstance(e, (ast.Attribute, ast.Call, ast.Subscript)):
            e = e.func if isinstance(e, ast.Call) else e.value
        if not isinstance(e, ast.Name):
            return True
        r = self.pkg.lookup(f.module, e.id)
        if isinstance(r, tuple) and e.id not in arg_names(f.node.args):
            return True
        if e.id in f.module.assigns and e.id not in arg_names(f.node.args):     # a module-level object (loaded library)
            return True
        if e.id in self.local_imports(f):
            return True
        # results of calls into unknown libraries (plotting, argparse, quadrature info)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if e.id in target_names(t):
                        root = n.value
                        while isinstance(root, (ast.Attribute, ast.Call, ast.Subscript)):
                            root = root.func if isinstance(root, ast.Call) else root.value
                        if isinstance(root, ast.Name) and root.id != e.id:
                            r = self.pkg.lookup(f.module, root.id)
                            if (isinstance(r, tuple) and r[0] == "ext") or root.id in self.local_imports(f):
                                return True
                            return self.external_receiver(f, root)
        return False

    def local_imports(self, f):
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                out.update(a.asname or a.name.split(".")[0] for a in n.names)
        return out

    # ------------------------------------------------------------------ calls

    def targets(self, f, T, n, local):
        """[(FuncInfo, bound, must)] the call may reach; must: a mismatch with this one alone is a failure."""
        pkg = self.pkg
        fn = n.func
        if isinstance(fn, ast.Name):
            if fn.id in local:
                for s in ast.walk(f.node):
                    if isinstance(s, ast.FunctionDef) and s.name == fn.id and s is not f.node:
                        defs = [x for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x.name == fn.id and x is not f.node]
                        stores = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == fn.id]
                        if len(defs) == 1 and not stores and not s.decorator_list:
                            return [(FuncInfo(f.module, s, parent=f), False, True)]
                return []
            r = pkg.lookup(f.module, fn.id)
            return self.of_object(r)
        if isinstance(fn, ast.Attribute):
            v = fn.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls is not None:
                out = []
                for k in self.M.family(f.cls):
                    g = pkg.find_method(k, fn.attr, after=f.cls)
                    if g is not None:
                        out.append((g, not g.is_static, True))
                    elif not self.M.is_open(k) and not hasattr(object, fn.attr):
                        if k is f.cls and not any(pkg.find_method(x, fn.attr, after=f.cls) for x in self.M.family(f.cls)):
                            self.add("missing-attribute", f, ast.unparse(n.func), n, "no base class of %s has a method %r" % (f.cls.name, fn.attr))
                return out
            t = T.of(v)
            if t is not None:
                if t[0] == "self":
                    out = []
                    for k in self.M.family(t[1]):
                        if k is not t[1] and pkg.find_method(k, f.name) is not f:
                            continue
                        if self.instance_overrides(k, fn.attr):
                            return []
                        g = pkg.find_method(k, fn.attr)
                        if g is not None and not g.is_property:
                            out.append((g, not g.is_static, not pkg.subs.get(k) or g.cls is k))
                    return out
                out = []
                for k in self.classes(t) or []:
                    if self.instance_overrides(k, fn.attr):
                        return []
                    g = pkg.find_method(k, fn.attr)
                    if g is not None and not g.is_property:
                        out.append((g, not g.is_static, False))
                return out
            d = dotted(fn)
            if d and d.split(".")[0] not in local:
                r = pkg.resolve(f.module, d)
                pre = pkg.resolve(f.module, d.rsplit(".", 1)[0])
                if isinstance(pre, ClassInfo) and isinstance(r, FuncInfo):
                    return [(r, r.is_classmethod, True)]
                return self.of_object(r)
        return []

    def instance_overrides(self, k, name):
        """The method is replaced on the instance (self.name = ...) or is a class-level alias of something else."""
        for c in self.pkg.mro(k):
            if name in c.methods:
                f = c.methods[name]
                break
        else:
            return True
        return any(name in self.M.stored[c] for c in self.pkg.mro(k))

    def of_object(self, r):
        if isinstance(r, FuncInfo):
            return [(r, False, True)] if r.cls is None else [(r, not r.is_static, True)]
        if isinstance(r, ClassInfo):
            if any(k in ("dataclass", "dataclasses.dataclass") for k in [ast.unparse(d.func if isinstance(d, ast.Call) else d) for d in r.node.decorator_list]):
                return []
            g = self.pkg.find_method(r, "__init__")
            if g is None or self.pkg.find_method(r, "__new__") is not None:
                return []
            return [(g, True, True)]
        return []

    def forwarded(self, g, name, depth=0):
        """Whether the **kwargs of g take a keyword of this name: they do unless every use of the dictionary is to
        pass it on to functions that are known and do not accept the name."""
        kw = g.node.args.kwarg
        if kw is None or depth > 4:
            return True
        uses = [n for n in ast.walk(g.node) if isinstance(n, ast.Name) and n.id == kw.arg]
        fw = [(n, k) for n in ast.walk(g.node) if isinstance(n, ast.Call) for k in n.keywords
              if k.arg is None and isinstance(k.value, ast.Name) and k.value.id == kw.arg]
        if not fw or len(uses) != len(fw):
            return True
        local = bound_names(g.node.body)[0] | set(arg_names(g.node.args))
        T = self.types(g)
        for n, _ in fw:
            ts = self.targets(g, T, n, local)
            if not ts or not all(transparent(t[0]) for t in ts):
                return True
            for h, b, _m in ts:
                s = Sig(h, b)
                if name in s.pos or name in s.kwonly or (s.kw and self.forwarded(h, name, depth + 1)):
                    return True
        return False

    def types(self, f):
        if f not in self._types:
            self._types[f] = Types(self, f)
        return self._types[f]

    def external_call(self, f, n, local):
        d = dotted(n.func)
        if not d or "." not in d or d.split(".")[0] in local or d.startswith("self."):
            return
        r = self.pkg.resolve(f.module, d)
        if isinstance(r, tuple) and r[0] == "ext":
            m, _, name = r[1].rpartition(".")
            sig = self.ext_sigs.get(m, {}).get(name)
            if sig is not None:
                self.n["calls"] += 1
                why = ExtSig(sig).mismatch(n)
                if why:
                    self.add("bad-call", f, "%s(...)" % d, n, "%s does not accept this call: %s" % (r[1], why))

    def filters(self, f, T, n):
        """Keywords of get_fragments select by attributes of the fragments (or entries of their options/flags)."""
        if not (isinstance(n.func, ast.Attribute) and n.func.attr == "get_fragments") or "frag" not in self.families:
            return
        emb = self.fam.get("emb")
        g = self.pkg.find_method(emb, "get_fragments") if emb else None
        if g is None or g.node.args.kwarg is None:
            return
        own = set(Sig(g, True).pos) | set(Sig(g, True).kwonly)

        def check(k, classes, what):
            self.n["attributes"] += 1
            if classes and not any(self.M.has(c, k) for c in classes):
                self.add("missing-attribute", f, "get_fragments(%s=)" % k, n, "%s have no attribute %r to filter by" % (what, k))
        for k in n.keywords:
            if k.arg is None:
                continue
            if k.arg not in own:
                check(k.arg, self.families["frag"], "fragments")
            elif k.arg in ("options", "flags"):
                keys = []
                if isinstance(k.value, ast.Dict):
                    keys = [x.value for x in k.value.keys if isinstance(x, ast.Constant)]
                elif isinstance(k.value, ast.Call) and dotted(k.value.func) == "dict":
                    keys = [x.arg for x in k.value.keywords if x.arg]
                cls = []
                for c in self.families["frag"]:
                    o = self.pkg.class_attr(c, "Options" if k.arg == "options" else "Flags")
                    if isinstance(o, ClassInfo):
                        cls.append(o)
                for x in keys:
                    check(x, cls, "the %s of fragments" % k.arg)

    def call(self, f, T, n, local):
        self.filters(f, T, n)
        ts = self.targets(f, T, n, local)
        if not ts:
            self.external_call(f, n, local)
        ts = [(g, b, must) for g, b, must in ts if transparent(g)]
        if not ts:
            return
        self.n["calls"] += 1
        bad = []
        for g, b, must in ts:
            why = Sig(g, b).mismatch(n, lambda k, g=g: self.forwarded(g, k))
            if why:
                bad.append((g, why, must))
        if not bad:
            return
        hard = [x for x in bad if x[2]]
        if hard or len(bad) == len(ts):
            g, why, _ = (hard or bad)[0]
            self.add("bad-call", f, "%s(...) -> %s" % (ast.unparse(n.func), g.short), n, "%s does not accept this call: %s" % (g.short, why))

    # ------------------------------------------------------------------ tuples and formats

    def unpack(self, f, T, n, local):
        tgt = n.targets[0]
        if any(isinstance(e, ast.Starred) for e in tgt.elts):
            return
        k = len(tgt.elts)
        if isinstance(n.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.value.elts):
            self.n["unpackings"] += 1
            if len(n.value.elts) != k:
                self.add("bad-unpacking", f, ast.unparse(tgt), n, "%d values for %d names" % (len(n.value.elts), k))
            return
        if not isinstance(n.value, ast.Call):
            return
        ts = [x for x in self.targets(f, T, n.value, local) if transparent(x[0])]
        if not ts or isinstance(self.pkg.lookup(f.module, dotted(n.value.func) or ""), ClassInfo):
            return
        bad = []
        for g, b, must in ts:
            lens = return_lengths(g)
            if lens is None:
                return
            if k not in lens:
                bad.append((g, lens, must))
        self.n["unpackings"] += 1
        if bad and (len(bad) == len(ts)):
            g, lens, _ = bad[0]
            self.add("bad-unpacking", f, "%s = %s" % (ast.unparse(tgt), ast.unparse(n.value.func)), n, "%s returns %s values, %d names given" % (g.short, "/".join(map(str, sorted(lens))), k))

    def format(self, f, n):
        if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            return
        k = count_fields(n.left.value)
        if k is None:
            return
        self.n["formats"] += 1
        r = n.right
        if isinstance(r, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in r.elts):
                return
            if len(r.elts) != k:
                self.add("bad-format", f, ast.unparse(n.left)[:60], n, "format string has %d fields, %d values given" % (k, len(r.elts)))
        elif k != 1 and isinstance(r, (ast.Constant, ast.JoinedStr)):
            self.add("bad-format", f, ast.unparse(n.left)[:60], n, "format string has %d fields, 1 value given" % k)


def count_fields(s):
    """Number of values a %-format takes, or None if it uses mapping keys or * widths."""
    import re
    n, i = 0, 0
    while True:
        i = s.find("%", i)
        if i < 0:
            return n
        m = re.match(r"%(\([^)]*\))?[#0\- +]*(\*|\d+)?(\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])", s[i:])
        if not m:
            return None
        if m.group(1) or "*" in (m.group(2) or "") or "*" in (m.group(4) or ""):
            return None
        if m.group(5) != "%":
            n += 1
        i += m.end()


def return_lengths(g):
    """Set of tuple lengths of all returns of g, or None if some return is not a tuple display."""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(g.node)):
        return None
    out = set()

    def visit(stmts):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, ast.Return):
                if isinstance(s.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in s.value.elts):
                    out.add(len(s.value.elts))
                else:
                    out.add(None)
            for fld in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, fld, None), list):
                    visit(getattr(s, fld))
            for h in getattr(s, "handlers", []):
                visit(h.body)
    visit(g.node.body)
    if None in out or not out:
        return None
    return out


def guarded_lines(tree, excs):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and n.handlers:
            names = set()
            for h in n.handlers:
                names.update(x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)) if h.type is not None else names.add("Exception")
            if names & set(excs):
                out.update(range(n.lineno, n.end_lineno + 1))
    return out


def shadowed(tree):
    """(name, line) pairs where a module-level name is hidden by a parameter or local of a function."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, FUNC):
            names = set(arg_names(n.args))
            if isinstance(n.body, list):
                names |= bound_names(n.body)[0]
            for x in names:
                for l in range(n.lineno, n.end_lineno + 1):
                    out.add((x, l))
        elif isinstance(n, COMP):
            for g in n.generators:
                for x in target_names(g.target):
                    for l in range(n.lineno, n.end_lineno + 1):
                        out.add((x, l))
    return out


def analyse(prop, tier):
    pkg = Package()
    ck = Check(pkg)
    ck.names()
    ck.locals()
    ck.imports()
    ck.module_attrs()
    ck.functions()
    res = Result()
    res.findings = ck.findings
    res.coverage = {"modules": len(pkg.modules), "functions": len(pkg.all_funcs), "classes": len(pkg.all_classes)}
    res.coverage.update({"checked_" + k: v for k, v in ck.n.items()})
    res.floors = {"checked_names": 30000, "checked_locals": 25000, "checked_attributes": 8000, "checked_calls": 800, "functions": 1000}
    res.explanation = ("Every name, local variable, import, module member, attribute of a typed receiver and call of a package function in the "
                       "non-test modules was resolved on the source; obligations: the name is bound in an enclosing scope and assigned on every "
                       "path, the member exists on the module or in the class hierarchy of the receiver, and the call fits the signature it reaches.")
    res.assumptions = ["loops over fragments, spins or files run at least once", "code under `if __name__ == '__main__'` is not judged",
                       "attributes added to third-party objects at run time are accepted", "third-party names are those of the installed versions"]
    return res
