"""C16: calls from Python into the compiled library, compared with the C functions they reach.
The C side (parameter types, which parameter is the leading dimension of which array, which arrays are accumulated
into) comes from clang's syntax tree (csource.py); the Python side from a small element-type and layout inference."""
import ast
import copy
import os
import re

import csource
from csource import GEMM, Summary, Unit, strip, summary
from harness import Finding, Result
from pkg import AnalysisError, Package, dotted

SCALAR = {"c_int64": ("int", 8), "c_long": ("int", 8), "c_longlong": ("int", 8), "c_ssize_t": ("int", 8), "c_uint64": ("int", 8),
          "c_size_t": ("int", 8), "c_ulong": ("int", 8), "c_int": ("int", 4), "c_int32": ("int", 4), "c_uint": ("int", 4), "c_uint32": ("int", 4),
          "c_double": ("float", 8), "c_float": ("float", 4), "c_bool": ("bool", 1)}
CTYPE = {"int64_t": ("int", 8), "uint64_t": ("int", 8), "size_t": ("int", 8), "long": ("int", 8), "unsigned long": ("int", 8), "long long": ("int", 8),
         "ssize_t": ("int", 8), "int": ("int", 4), "int32_t": ("int", 4), "unsigned int": ("int", 4), "double": ("float", 8), "float": ("float", 4),
         "bool": ("bool", 1), "_Bool": ("bool", 1)}
ELEM = {"double": "float64", "float": "float32", "double complex": "complex128", "_Complex double": "complex128", "complex double": "complex128",
        "double _Complex": "complex128", "int": "int32", "int64_t": "int64", "long": "int64", "size_t": "int64", "_Complex float": "complex64"}
DTYPES = {"complex": "complex128", "complex128": "complex128", "cdouble": "complex128", "float": "float64", "float64": "float64", "double": "float64",
          "float32": "float32", "int": "int64", "int64": "int64", "int32": "int32", "intc": "int32", "bool": "bool", "complex64": "complex64", "int_": "int64"}
CREATE = {"zeros", "empty", "ones", "full", "eye", "identity"}
KEEP = {"conj", "conjugate", "copy", "transpose", "reshape", "swapaxes", "ravel", "flatten", "squeeze", "take", "T", "sum", "cumsum", "round"}
LAYOUT_KEEP = {"reshape"}
ALLFUNC = {"einsum", "dot", "tensordot", "matmul", "hstack", "vstack", "concatenate", "stack", "block", "multiply", "add", "kron", "outer", "where"}
ELEMWISE = {"exp", "sqrt", "cos", "sin", "conj", "negative", "square", "ascontiguousarray", "asarray", "array", "transpose", "require", "asfortranarray", "reshape", "moveaxis", "swapaxes", "atleast_2d"}
# functions of the libraries whose result has a fixed element type
KNOWN = {"get_phase": "complex128", "fft": "complex128", "ifft": "complex128"}


class CFunc:
    def __init__(self, unit, node):
        self.unit, self.node, self.name = unit, node, node["name"]
        self.params = [p for p in node["inner"] if p.get("kind") == "ParmVarDecl"]
        self.ret = node["type"]["qualType"].split("(")[0].strip()
        self.static = node.get("storageClass") == "static"
        self._eff = None

    def kind(self, i):
        q = re.sub(r"\b(const|restrict|volatile)\b", "", self.params[i]["type"]["qualType"]).strip()
        if "*" in q or "[" in q:
            q = re.sub(r"[\*\[\]\d ]+$", "", q.replace("*", " *")).strip()
            return ("ptr", ELEM.get(re.sub(r"\s+", " ", q), q))
        return CTYPE.get(q, (q, 0))

    def effects(self):
        """Per parameter: (accumulated into before being written, set of parameters that are its leading dimension)."""
        if self._eff is not None:
            return self._eff
        w = Dims(self.unit, self.node, [], dict.fromkeys(("regions", "worksharing_loops", "accesses", "shared_written", "private_objects", "accumulators"), 0))
        ev = w.run()
        self._eff = [("A" in e and (e.index("A") < e.index("W") if "W" in e else True), frozenset(w.lead.get(p["id"], ()))) for p, e in zip(self.params, ev)]
        return self._eff


class Dims(Summary):
    def run(self):
        self.lead = {}
        return Summary.run(self)

    def directive(self, s):
        for c in s.get("inner", []):
            if c.get("kind"):
                self.stmt(csource.unwrap(c))

    def call(self, e):
        f = self.callee(e)
        if f in GEMM and f.startswith("cblas") and strip(e["inner"][1]).get("referencedDecl", {}).get("name") == "CblasRowMajor":
            args = e["inner"][1:]
            for a, ld in ((7, 8), (9, 10), (12, 13)):
                p = self.val(args[ld])
                if len(p) == 1 and list(p.values()) == [1] and len(list(p)[0]) == 1:
                    i = list(p)[0][0].split("#")[-1]
                    if self.u.decls.get(i, {}).get("kind") == "ParmVarDecl":
                        for m, _ in self.ptr(args[a]):
                            if m and m[0] == "mem":
                                self.lead.setdefault(m[1], set()).add(i)
        Summary.call(self, e)


def c_functions():
    """library name -> {function name: CFunc}, for the libraries the build makes."""
    base = os.path.join(csource.REPO, "vayesta", "libs")
    def cm(path):
        try:
            return [l.split("#")[0] for l in open(path)]
        except OSError:
            return []
    out = {}
    for l in cm(os.path.join(base, "CMakeLists.txt")):
        m = re.match(r"\s*add_subdirectory\s*\(\s*(\w+)", l)
        if not m:
            continue
        d = os.path.join(base, m.group(1))
        text = "".join(cm(os.path.join(d, "CMakeLists.txt")) + cm(os.path.join(d, "src", "CMakeLists.txt")))
        lib = re.search(r"add_library\s*\(\s*(\w+)", text)
        if not lib:
            continue
        funcs = out.setdefault(lib.group(1), {})
        for src in re.findall(r"(?:^|[/\s(\"])(\w[\w-]*\.c)\b", text):
            p = os.path.join(d, "src", src)
            if os.path.exists(p):
                u = Unit(p)
                for n, f in u.funcs.items():
                    funcs[n] = CFunc(u, f)
    return out


class Scope:
    """Assignments to local names of a function, in source order."""

    def __init__(self, node, outer=None):
        self.node, self.outer = node, outer
        self.assign = {}
        self.params = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs] if isinstance(node, (ast.FunctionDef, ast.Lambda)) else []
        self._scan(getattr(node, "body", []), ())

    def _scan(self, stmts, path):
        if not isinstance(stmts, list):
            return
        for i, s in enumerate(stmts):
            p = path + ((id(stmts), i),)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.assign.setdefault(s.name, []).append((s, s, p))
                continue
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    self._target(t, s.value, s, p)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self._target(s.target, s.value, s, p)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.assign.setdefault(s.target.id, []).append((ast.BinOp(left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op, right=s.value), s, p))
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                self._target(s.target, None, s, p)
            elif isinstance(s, ast.With):
                for it in s.items:
                    if it.optional_vars is not None:
                        self._target(it.optional_vars, None, s, p)
            for f in ("body", "orelse", "finalbody"):
                self._scan(getattr(s, f, None), p)
            for h in getattr(s, "handlers", []):
                self._scan(h.body, p)

    def _target(self, t, v, s, p):
        if isinstance(t, ast.Name):
            self.assign.setdefault(t.id, []).append((v, s, p))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                self._target(x, vs[i] if vs else (ast.Subscript(value=v, slice=ast.Constant(value=i), ctx=ast.Load()) if v is not None else None), s, p)

    def path_of(self, node):
        """Path of the statement containing a node."""
        best = None
        for lst, path in self._blocks(getattr(self.node, "body", []), ()):
            for i, s in enumerate(lst):
                if any(n is node for n in ast.walk(s)):
                    best = path + ((id(lst), i),)
        return best

    def _blocks(self, stmts, path):
        if not isinstance(stmts, list):
            return
        yield stmts, path
        for i, s in enumerate(stmts):
            for f in ("body", "orelse", "finalbody"):
                yield from self._blocks(getattr(s, f, None) if not isinstance(s, ast.FunctionDef) else None, path + ((id(stmts), i),))

    def reaching(self, name, path):
        """Values that may reach a use at the given path; None among them when the parameter's value may reach it."""
        cands = []
        for v, s, p in self.assign.get(name, []):
            if path is None or before(p, path):
                cands.append((v, s, p))
        # the last assignment that dominates the use hides the ones before it
        last = None
        for k, (v, s, p) in enumerate(cands):
            if path is not None and dominates(p, path):
                last = k
        out = cands[last:] if last is not None else cands
        return [(v, p) for v, s, p in out], last is not None


def before(p, q):
    """Statement p can run before statement q in straight-line order (loops re-enter from the end are ignored)."""
    for (a, i), (b, j) in zip(p, q):
        if a != b:
            return True
        if i != j:
            return i < j
    return False


def dominates(p, q):
    """p lies in a block that q's path passes through, at an earlier position."""
    return len(p) <= len(q) and all(a == b for a, b in zip(p[:-1], q)) and p[-1][0] == q[len(p) - 1][0] and p[-1][1] < q[len(p) - 1][1]


class Infer:
    def __init__(self, pkg, module, parents):
        self.pkg, self.module, self.parents = pkg, module, parents
        self.depth = 0

    def scope_of(self, node):
        fns = []
        n = node
        while n is not None:
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                fns.append(n)
            n = self.parents.get(n)
        sc = Scope(self.module.tree)
        for f in reversed(fns):
            sc = Scope(f, sc)
        return sc

    def callers(self, fn):
        """Calls of a nested or module-level function within this module, or None if it may be called from elsewhere."""
        out = []
        for n in ast.walk(self.module.tree):
            if isinstance(n, ast.Name) and n.id == fn.name and isinstance(n.ctx, ast.Load):
                p = self.parents.get(n)
                if isinstance(p, ast.Call) and p.func is n:
                    out.append(p)
                else:
                    return None
        return out

    def name(self, n, sc, path, f):
        """Fold f over the values that may reach a name."""
        if self.depth > 25:
            return None
        self.depth += 1
        try:
            s, p = sc, path
            while s is not None:
                if n in s.assign or n in s.params:
                    vals, dom = s.reaching(n, p)
                    res = []
                    if n in s.params and not dom:
                        res.append(self.param(n, s, f))
                    for v, vp in vals:
                        res.append(None if v is None else f(v, s, vp))
                    return res[0] if res and all(r == res[0] and r is not None for r in res) else None
                s, p = s.outer, None
            return None
        finally:
            self.depth -= 1

    def param(self, n, sc, f):
        if not isinstance(sc.node, ast.FunctionDef):
            return None
        cs = self.callers(sc.node)
        if not cs:
            return None
        i = sc.params.index(n)
        res = []
        for c in cs:
            v = next((k.value for k in c.keywords if k.arg == n), None)
            if v is None and i < len(c.args):
                v = c.args[i]
            if v is None:
                return None
            s = self.scope_of(c)
            res.append(f(v, s, s.path_of(c)))
        return res[0] if all(r == res[0] for r in res) else None

    def inline(self, e, sc):
        """The expression a call of a one-line helper stands for."""
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords):
            return e
        fn = None
        s = sc
        while s is not None and fn is None:
            vals = s.assign.get(e.func.id)
            if vals:
                fn = vals[-1][0] if len(vals) == 1 else None
                break
            s = s.outer
        if isinstance(fn, ast.FunctionDef):
            body = [x for x in fn.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            val = body[0].value if len(body) == 1 and isinstance(body[0], ast.Return) else None
        elif isinstance(fn, ast.Lambda):
            val = fn.body
        else:
            return e
        names = [a.arg for a in fn.args.args]
        if val is None or len(names) != len(e.args):
            return e
        sub = dict(zip(names, e.args))

        class T(ast.NodeTransformer):
            def visit_Name(self, n):
                return sub.get(n.id, n)
        return T().visit(copy.deepcopy(val))

    # ---------------- element type
    def dtype(self, e, sc, path):
        r = self.dtype
        if isinstance(e, ast.Name):
            return self.name(e.id, sc, path, r)
        if isinstance(e, ast.Constant):
            return {complex: "complex128", float: "float64", int: "int64"}.get(type(e.value))
        if isinstance(e, ast.UnaryOp):
            return r(e.operand, sc, path)
        if isinstance(e, ast.BinOp):
            return self.join([r(e.left, sc, path), r(e.right, sc, path)], isinstance(e.op, ast.Div))
        if isinstance(e, ast.Attribute):
            if e.attr in ("real", "imag"):
                d = r(e.value, sc, path)
                return {"complex128": "float64", "complex64": "float32"}.get(d, d) or "float64"
            if e.attr in KEEP:
                return r(e.value, sc, path)
            return None
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Call) and callee(e.value) in KNOWN:
                return KNOWN[callee(e.value)] if callee(e.value) != "get_phase" or const_index(e) == 1 else None
            return r(e.value, sc, path)
        if isinstance(e, ast.IfExp):
            a, b = r(e.body, sc, path), r(e.orelse, sc, path)
            return a if a == b else None
        if isinstance(e, ast.Call):
            c = callee(e)
            dt = next((k.value for k in e.keywords if k.arg == "dtype"), None)
            if c == "astype" and e.args:
                dt = e.args[0]
            if c in CREATE and dt is None and len(e.args) > 1 and c != "full" and c != "eye":
                dt = e.args[1]
            if dt is not None:
                return self.dtname(dt, sc, path)
            if c in CREATE:
                return "float64" if c != "full" else None
            if c in ("zeros_like", "empty_like", "ones_like", "full_like"):
                return r(e.args[0], sc, path) if e.args else None
            if c in KNOWN:
                return KNOWN[c] if c != "get_phase" else None
            if c in ALLFUNC:
                args = [a for a in e.args if not (isinstance(a, ast.Constant) and isinstance(a.value, str))]
                if len(args) == 1 and isinstance(args[0], (ast.Tuple, ast.List)):
                    args = args[0].elts
                if c == "tensordot":
                    args = args[:2]
                return self.join([r(a, sc, path) for a in args])
            if isinstance(e.func, ast.Attribute) and c in KEEP and not (isinstance(e.func.value, ast.Name) and e.func.value.id in ("np", "numpy")):
                return r(e.func.value, sc, path)
            if c in ELEMWISE and e.args:
                return r(e.args[0], sc, path)
        return None

    def join(self, ds, div=False):
        if "complex128" in ds:      # whatever the other operand is, numpy widens to it
            return "complex128"
        if any(d is None for d in ds) or not ds:
            return None
        if all(d == "int64" for d in ds):
            return "float64" if div else "int64"
        if all(d in ("int64", "float64") for d in ds):
            return "float64"
        return ds[0] if len(set(ds)) == 1 else None

    def dtname(self, e, sc, path):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return DTYPES.get(e.value)
        if isinstance(e, ast.Attribute) and e.attr == "dtype":
            return self.dtype(e.value, sc, path)
        d = dotted(e)
        return DTYPES.get(d.split(".")[-1]) if d else None

    # ---------------- layout
    def contiguous(self, e, sc, path):
        """True when the array is C-contiguous whatever its input was."""
        r = self.contiguous
        if isinstance(e, ast.Name):
            return self.name(e.id, sc, path, r)
        if isinstance(e, ast.IfExp):
            return r(e.body, sc, path) and r(e.orelse, sc, path) or None
        if isinstance(e, ast.Call):
            c = callee(e)
            order = next((k.value for k in e.keywords if k.arg == "order"), None)
            oc = order.value if isinstance(order, ast.Constant) else None
            if c in ("zeros", "empty", "ones", "full"):
                return True if order is None or oc == "C" else None
            if c in ("asarray", "array", "asanyarray", "zeros_like", "empty_like", "astype") and oc == "C":
                return True
            if c == "ascontiguousarray":
                return True
            if c == "copy" and isinstance(e.func, ast.Attribute) and (order is None and not e.args or oc == "C") and dotted(e.func) not in ("np.copy", "numpy.copy"):
                return True
            if c == "require" and any(isinstance(a, ast.Constant) and a.value == "C" or isinstance(a, (ast.List, ast.Tuple)) and any(isinstance(x, ast.Constant) and x.value in ("C", "C_CONTIGUOUS") for x in a.elts) for a in e.args[1:] + [k.value for k in e.keywords]):
                return True
            if c in LAYOUT_KEEP and isinstance(e.func, ast.Attribute):
                return r(e.func.value, sc, path)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, (ast.Constant, ast.Name)):
            return r(e.value, sc, path)
        return None

    # ---------------- values
    def zeroed(self, e, sc, path):
        if isinstance(e, ast.Name):
            return self.name(e.id, sc, path, self.zeroed)
        if isinstance(e, ast.Call) and callee(e) in ("zeros", "zeros_like"):
            return True
        return None

    def root(self, e, sc, path):
        """Where the value of an expression comes from, written in terms of parameters and names assigned once."""
        if isinstance(e, ast.Name):
            v = self.name(e.id, sc, path, self.root)
            return v or e.id
        if isinstance(e, ast.Call):
            c = callee(e)
            if c in ("asarray", "ascontiguousarray", "array", "require") and e.args:
                return self.root(e.args[0], sc, path)
            if c in ("conj", "conjugate", "copy", "astype", "int", "len") and isinstance(e.func, ast.Attribute):
                return self.root(e.func.value, sc, path)
            if c == "int" and e.args:
                return self.root(e.args[0], sc, path)
        return ast.unparse(e)

    def dims(self, e, sc, path):
        """Dimensions of an array: ("shape of", root) or tuple of roots; None if not known."""
        if isinstance(e, ast.Name):
            v = self.name(e.id, sc, path, self.dims)
            return v if v is not None else ("shape of", e.id)
        if isinstance(e, ast.Call):
            c = callee(e)
            if c in ("zeros", "empty", "ones", "full") and e.args and isinstance(e.args[0], (ast.Tuple, ast.List)):
                return tuple(self.value(x, sc, path) for x in e.args[0].elts)
            if c in ("asarray", "ascontiguousarray", "array", "require", "zeros_like", "empty_like") and e.args:
                return self.dims(e.args[0], sc, path)
            if c in ("conj", "conjugate", "copy", "astype") and isinstance(e.func, ast.Attribute):
                return self.dims(e.func.value, sc, path)
        return None

    def value(self, e, sc, path):
        """Canonical text of an integer: which axis of which array it is, or its own text."""
        if isinstance(e, ast.Name):
            v = self.name(e.id, sc, path, self.value)
            return v if v is not None else "name " + e.id
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == "shape":
            d = self.dims(e.value.value, sc, path)
            i = const_index(e)
            if isinstance(d, tuple) and d and d[0] == "shape of" and i is not None:
                return "axis %d of %s" % (i, d[1])
            if isinstance(d, tuple) and d and d[0] != "shape of" and i is not None and -len(d) <= i < len(d):
                return d[i]
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name):      # a, b = x.shape  is seen as x.shape[0], ...
            return "text " + ast.unparse(e)
        if isinstance(e, ast.Call) and callee(e) in ("len", "int") and e.args:
            return self.value(e.args[0], sc, path) if callee(e) == "int" else "text " + ast.unparse(e)
        return "text " + ast.unparse(e)


def callee(c):
    f = c.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def const_index(e):
    s = e.slice
    if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub) and isinstance(s.operand, ast.Constant):
        return -s.operand.value
    return s.value if isinstance(s, ast.Constant) and isinstance(s.value, int) else None


def library_names(pkg):
    """Absolute path of module-level names bound to a loaded library -> library name."""
    out = {}
    for m in pkg.modules.values():
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and callee(s.value) in ("load_library", "CDLL", "LoadLibrary"):
                a = s.value.args[0] if s.value.args else None
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    n = a.value
                    n = n[3:] if n.startswith("lib") else n
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            out[m.name + "." + t.id] = n.split(".")[0]
    return out


def analyse(prop, tier):
    pkg = Package()
    res = Result()
    libs = library_names(pkg)
    cf = c_functions()
    calls = args = 0
    sample = []
    for m in pkg.modules.values():
        parents = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                parents[c] = n
        names = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                mod = n.module or ""
                for a in n.names:
                    full = mod + "." + a.name
                    if full in libs:
                        names[a.asname or a.name] = libs[full]
        for full, l in libs.items():
            if full.rsplit(".", 1)[0] == m.name:
                names[full.rsplit(".", 1)[1]] = l
        inf = Infer(pkg, m, parents)
        fns = {}        # local aliases:  f = libcore.name / getattr(libcore, "name")
        def target(e):
            if isinstance(e, ast.Attribute):
                d = dotted(e.value)
                if d in names:
                    return names[d], e.attr
                if d in libs:
                    return libs[d], e.attr
            if isinstance(e, ast.Call) and callee(e) == "getattr" and len(e.args) == 2 and isinstance(e.args[1], ast.Constant):
                d = dotted(e.args[0])
                if d in names:
                    return names[d], e.args[1].value
            if isinstance(e, ast.Subscript) and dotted(e.value) in names and isinstance(e.slice, ast.Constant):
                return names[dotted(e.value)], e.slice.value
            if isinstance(e, ast.Name) and e.id in fns:
                return fns[e.id]
            return None
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                t = target(n.value)
                if t and isinstance(t[1], str):
                    fns[n.targets[0].id] = t
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            t = target(n.func)
            if t is None:
                continue
            calls += 1
            args += len(n.args)
            lib, fname = t
            loc = "%s:%d" % (m.relpath, n.lineno)
            where = "%s" % m.name
            f = cf.get(lib, {}).get(fname)

            def report(rule, con, msg):
                res.findings.append(Finding("C16", rule, where, "%s:%s" % (fname, con), loc, msg))
            if f is None or f.static:
                report("no-function", "-", "library %r has no function %r in the sources the build compiles" % (lib, fname))
                continue
            if n.keywords or any(isinstance(a, ast.Starred) for a in n.args):
                report("arguments", "-", "the arguments of %s cannot be matched to its C parameters" % fname)
                continue
            if len(n.args) != len(f.params):
                report("count", "-", "%s takes %d arguments and is called with %d" % (fname, len(f.params), len(n.args)))
                continue
            sc = inf.scope_of(n)
            path = sc.path_of(n)
            eff = f.effects()
            info = []
            for i, a in enumerate(n.args):
                p = f.params[i]["name"]
                k = f.kind(i)
                a0 = a
                if isinstance(a, ast.Name):     # an argument prepared beforehand
                    vals, dom = sc.reaching(a.id, path)
                    vals = [v for v, _ in vals if v is not None]
                    if len(vals) == 1:
                        a0 = vals[0]
                a0 = inf.inline(a0, sc)
                info.append(one(inf, f, i, p, k, a0, sc, path, eff, report))
            # leading dimensions
            ids = {q["id"]: i for i, q in enumerate(f.params)}
            for i, inf_i in enumerate(info):
                if not inf_i or inf_i[0] != "ptr":
                    continue
                dims = inf.dims(inf_i[1], sc, path)
                for ld in eff[i][1]:
                    j = ids[ld]
                    if not info[j] or info[j][0] != "int":
                        continue
                    v = inf.value(info[j][1], sc, path)
                    p, q = f.params[i]["name"], f.params[j]["name"]
                    if dims is None or v.startswith("text") or v.startswith("name"):
                        continue
                    if dims[0] == "shape of":
                        ok = v.startswith("axis") and v.endswith(" of " + dims[1])
                    else:
                        ok = v == dims[-1]
                    if not ok:
                        report("dimension", p, "the length of a row of %r is passed as %r, which is not a dimension of the array passed (%s)" % (p, q, v))
            # swapped scalars
            pn = [q["name"] for q in f.params]
            for i, x in enumerate(info):
                if x and isinstance(x[1], ast.Name) and x[1].id in pn and x[1].id != pn[i]:
                    report("swapped", pn[i], "%r is passed for parameter %r of %s, which also has a parameter %r" % (x[1].id, pn[i], fname, x[1].id))
            if f.ret.strip() not in CTYPE and f.ret.strip() != "void" or f.ret.strip() in ("double", "float"):
                if not any(isinstance(x, ast.Attribute) and x.attr == "restype" for x in ast.walk(m.tree)):
                    report("restype", "-", "%s returns %s but the result is read as an int" % (fname, f.ret))
            sample.append("%s -> %s(%s)" % (loc, fname, ", ".join(pn)))
    res.coverage = dict(libraries=len(cf), c_functions=sum(len(x) for x in cf.values()), library_names=len(libs), calls=calls, arguments=args, sample=sample[:10])
    res.floors = dict(libraries=1, c_functions=4, library_names=1, calls=1, arguments=6)
    res.explanation = "Every call through a loaded library was matched with the C function of that name in the sources the build compiles; rule: same number of arguments, scalars of the declared kind and width, arrays C-contiguous with the declared element type at every call of the enclosing function, rows as long as the dimension passed for them, and accumulated outputs zero-initialised."
    res.assumptions = ["np.asarray(order='C'), np.ascontiguousarray and np.zeros return C-contiguous arrays", "pyscf's get_phase returns complex phases"]
    return res


def one(inf, f, i, p, k, a, sc, path, eff, report):
    """Check one argument; returns ("int", expr) / ("ptr", array expr) / None."""
    if isinstance(a, ast.Constant) and a.value is None:
        if k[0] != "ptr":
            report("kind", p, "NULL is passed for %r, a %s" % (p, f.params[i]["type"]["qualType"]))
        return None
    arr = pointed = None
    if isinstance(a, ast.Call):
        c = callee(a)
        if c == "data_as" and isinstance(a.func.value, ast.Attribute) and a.func.value.attr == "ctypes":
            arr = a.func.value.value
            t = a.args[0] if a.args else None
            if isinstance(t, ast.Call) and callee(t) == "POINTER" and t.args:
                pointed = (dotted(t.args[0]) or "").split(".")[-1]
        elif c == "c_void_p" and a.args and isinstance(a.args[0], ast.Attribute) and a.args[0].attr == "data":
            v = a.args[0].value
            arr = v.value if isinstance(v, ast.Attribute) and v.attr == "ctypes" else v
        elif c in SCALAR:
            if k[0] == "ptr":
                report("kind", p, "a scalar is passed for the pointer %r" % p)
                return None
            if SCALAR[c] != k:
                report("kind", p, "%s is passed for %r, a %s" % (c, p, f.params[i]["type"]["qualType"]))
            return ("int", a.args[0]) if a.args else None
        elif c in ("byref", "pointer"):
            if k[0] != "ptr":
                report("kind", p, "a pointer is passed for %r, a %s" % (p, f.params[i]["type"]["qualType"]))
            return None
    if arr is None:
        report("kind", p, "the argument for %r has no C type: ctypes passes Python integers as 32 bits" % p)
        return None
    if k[0] != "ptr":
        report("kind", p, "an array is passed for %r, a %s" % (p, f.params[i]["type"]["qualType"]))
        return None
    if pointed and SCALAR.get(pointed) and ELEM.get({"c_double": "double", "c_int": "int", "c_int64": "int64_t"}.get(pointed, ""), k[1]) != k[1] and k[1] != "complex128":
        report("element", p, "a pointer to %s is passed for %r, a pointer to %s" % (pointed, p, k[1]))
    d = inf.dtype(arr, sc, path)
    if d is None:
        report("element", p, "the element type of the array passed for %r (%s) is not fixed before the call" % (p, k[1]))
    elif d != k[1]:
        report("element", p, "an array of %s is passed for %r, a pointer to %s" % (d, p, k[1]))
    if not inf.contiguous(arr, sc, path):
        report("layout", p, "the array passed for %r is not made contiguous before the call" % p)
    if eff[i][0] and not inf.zeroed(arr, sc, path):
        report("uninitialised", p, "%s adds to %r, which is not zero-initialised" % (f.name, p))
    return ("ptr", arr)
