"""Package index: parses every non-test module of /repo/vayesta and resolves
names, imports, classes (with MRO) and functions statically."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = "vayesta"


class AnalysisError(Exception):
    """The analysis cannot give a verdict (vanished anchor, unparsable file)."""


class FuncInfo:
    def __init__(self, module, node, cls=None, name=None, parent=None):
        self.module, self.node, self.cls, self.parent = module, node, cls, parent
        self.name = name or node.name

    @property
    def qualname(self):
        pre = self.module.name
        if self.cls is not None:
            pre += "." + self.cls.qual
        if self.parent is not None:
            pre = self.parent.qualname + ".<locals>"
        return pre + "." + self.name

    @property
    def short(self):
        q = self.qualname
        return q[len(ROOT) + 1:] if q.startswith(ROOT + ".") else q

    @property
    def decorators(self):
        return getattr(self.node, "decorator_list", [])

    def decorator_names(self):
        out = []
        for d in self.decorators:
            t = d.func if isinstance(d, ast.Call) else d
            out.append(dotted(t) or ast.unparse(t))
        return out

    @property
    def is_property(self):
        return any(n == "property" or n.endswith("cached_property") or n.endswith(".getter") for n in self.decorator_names())

    @property
    def is_setter(self):
        return any(n.endswith(".setter") or n.endswith(".deleter") for n in self.decorator_names())

    @property
    def is_static(self):
        return "staticmethod" in self.decorator_names()

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorator_names()

    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def loc(self, node=None):
        return "%s:%d" % (self.module.relpath, (node or self.node).lineno)

    def __repr__(self):
        return "<func %s>" % self.qualname


class ClassInfo:
    def __init__(self, module, node, outer=None):
        self.module, self.node, self.outer = module, node, outer
        self.name = node.name
        self.methods = {}      # name -> FuncInfo (getter wins over setter)
        self.setters = {}
        self.inner = {}        # nested classes
        self.attrs = {}        # class-level assignment name -> value expr
        self.annots = {}       # annotated class-level names
        self.base_exprs = node.bases
        self._mro = None

    @property
    def qual(self):
        return (self.outer.qual + "." if self.outer else "") + self.name

    @property
    def qualname(self):
        return self.module.name + "." + self.qual

    def loc(self):
        return "%s:%d" % (self.module.relpath, self.node.lineno)

    def __repr__(self):
        return "<class %s>" % self.qualname


class Module:
    def __init__(self, name, path, relpath, is_pkg):
        self.name, self.path, self.relpath, self.is_pkg = name, path, relpath, is_pkg
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        try:
            self.tree = ast.parse(self.src, path)
        except SyntaxError as e:
            raise AnalysisError("cannot parse %s: %s" % (relpath, e))
        self.funcs, self.classes, self.assigns, self.imports, self.star = {}, {}, {}, {}, []

    def __repr__(self):
        return "<module %s>" % self.name


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


def is_test_path(rel):
    parts = rel.split(os.sep)
    return "tests" in parts or "examples" in parts


class Package:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        base = os.path.join(self.repo, ROOT)
        if not os.path.isdir(base):
            raise AnalysisError("no package at %s" % base)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "tests", "build"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.repo)
                if is_test_path(rel):
                    continue
                mod = rel[:-3].replace(os.sep, ".")
                is_pkg = mod.endswith(".__init__")
                if is_pkg:
                    mod = mod[: -len(".__init__")]
                self.modules[mod] = Module(mod, path, rel, is_pkg)
        for m in self.modules.values():
            self._index(m)
        self.all_classes = []
        self.all_funcs = []
        for m in self.modules.values():
            self._collect(m)
        self.subs = {}
        for c in self.all_classes:
            for b in self.mro(c)[1:]:
                self.subs.setdefault(b, []).append(c)

    # --- indexing

    def _index(self, m):
        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.funcs[s.name] = FuncInfo(m, s)
                elif isinstance(s, ast.ClassDef):
                    m.classes[s.name] = self._index_class(m, s, None)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in _target_names(t):
                            m.assigns[n] = s.value if isinstance(t, ast.Name) else None
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    m.assigns[s.target.id] = s.value
                elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    m.assigns.setdefault(s.target.id, None)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.imports[a.asname] = a.name
                        else:
                            m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
                elif isinstance(s, ast.ImportFrom):
                    src = self._abs(m, s)
                    for a in s.names:
                        if a.name == "*":
                            m.star.append(src)
                        else:
                            m.imports[a.asname or a.name] = src + "." + a.name
                elif isinstance(s, (ast.If, ast.For, ast.While)):
                    if isinstance(s, ast.For):
                        for n in _target_names(s.target):
                            m.assigns.setdefault(n, None)
                    body(s.body)
                    body(s.orelse)
                elif isinstance(s, ast.With):
                    for it in s.items:
                        if it.optional_vars is not None:
                            for n in _target_names(it.optional_vars):
                                m.assigns.setdefault(n, None)
                    body(s.body)
                elif isinstance(s, ast.Try):
                    body(s.body)
                    for h in s.handlers:
                        if h.name:
                            m.assigns.setdefault(h.name, None)
                        body(h.body)
                    body(s.orelse)
                    body(s.finalbody)
        body(m.tree.body)

    def _index_class(self, m, node, outer):
        c = ClassInfo(m, node, outer)

        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = FuncInfo(m, s, cls=c)
                    if f.is_setter:
                        c.setters[s.name] = f
                    else:
                        c.methods[s.name] = f
                elif isinstance(s, ast.ClassDef):
                    c.inner[s.name] = self._index_class(m, s, c)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in _target_names(t):
                            c.attrs[n] = s.value if isinstance(t, ast.Name) else None
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    c.attrs[s.target.id] = s.value
                    c.annots[s.target.id] = s
                elif isinstance(s, (ast.If, ast.With, ast.Try)):
                    body(s.body)
        body(node.body)
        return c

    def _collect(self, m):
        def cls(c):
            self.all_classes.append(c)
            for f in list(c.methods.values()) + list(c.setters.values()):
                self.all_funcs.append(f)
            for i in c.inner.values():
                cls(i)
        for f in m.funcs.values():
            self.all_funcs.append(f)
        for c in m.classes.values():
            cls(c)

    def _abs(self, m, s):
        if not s.level:
            return s.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    # --- resolution: returns Module / ClassInfo / FuncInfo / ('ext', dotted) / ('expr', module, node) / None

    def lookup(self, m, name, _seen=None):
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        if name in m.classes:
            return m.classes[name]
        if name in m.funcs:
            return m.funcs[name]
        if name in m.imports and not (name in m.assigns and m.assigns[name] is not None):
            return self.resolve_abs(m.imports[name], _seen)
        if name in m.assigns:
            v = m.assigns[name]
            if v is not None:
                d = dotted(v)
                if d:
                    r = self.resolve(m, d, _seen)
                    if r is not None:
                        return r
            if name in m.imports:
                return self.resolve_abs(m.imports[name], _seen)
            return ("expr", m, v)
        if name in m.imports:
            return self.resolve_abs(m.imports[name], _seen)
        for src in m.star:
            sm = self.modules.get(src)
            if sm is not None:
                r = self.lookup(sm, name, _seen)
                if r is not None:
                    return r
        if m.is_pkg and (m.name + "." + name) in self.modules:
            return self.modules[m.name + "." + name]
        return None

    def resolve_abs(self, path, _seen=None):
        parts = path.split(".")
        if parts[0] != ROOT:
            return ("ext", path)
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.modules:
                obj = self.modules[mn]
                for p in parts[i:]:
                    obj = self.member(obj, p, _seen)
                    if obj is None:
                        return None
                return obj
        return None

    def member(self, obj, name, _seen=None):
        if isinstance(obj, Module):
            return self.lookup(obj, name, set(_seen or ()))
        if isinstance(obj, ClassInfo):
            if name in obj.inner:
                return obj.inner[name]
            f = self.find_method(obj, name)
            if f is not None:
                return f
            return self.class_attr(obj, name)
        if isinstance(obj, tuple) and obj[0] == "ext":
            return ("ext", obj[1] + "." + name)
        return None

    def resolve(self, m, path, _seen=None):
        parts = path.split(".")
        obj = self.lookup(m, parts[0], _seen)
        for p in parts[1:]:
            if obj is None:
                return None
            obj = self.member(obj, p, _seen)
        return obj

    # --- classes

    def bases(self, c):
        out = []
        for b in c.base_exprs:
            d = dotted(b)
            r = None
            if d:
                if c.outer is not None:
                    r = self._lookup_in_class(c.outer, d)
                if r is None:
                    r = self.resolve(c.module, d)
            out.append(r if r is not None else ("ext", ast.unparse(b)))
        return out

    def _lookup_in_class(self, c, d):
        parts = d.split(".")
        if parts[0] in c.inner:
            obj = c.inner[parts[0]]
            for p in parts[1:]:
                obj = self.member(obj, p)
            return obj
        return None

    def mro(self, c):
        if c._mro is None:
            c._mro = [c]
            bs = [b for b in self.bases(c) if isinstance(b, ClassInfo) and b is not c]
            seqs = [list(self.mro(b)) for b in bs] + [list(bs)]
            res = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                for s in seqs:
                    if h in s:
                        s.remove(h)
            c._mro = res
        return c._mro

    def has_external_base(self, c):
        for k in self.mro(c):
            for b in self.bases(k):
                if isinstance(b, ClassInfo):
                    continue
                if b == ("ext", "object") or b == ("ext", "abc.ABC") or b == ("ext", "Exception"):
                    continue
                return True
        return False

    def find_method(self, c, name, after=None, setter=False):
        mro = self.mro(c)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            tab = k.setters if setter else k.methods
            if name in tab:
                return tab[name]
            if not setter and name in k.attrs:
                return self._attr_func(k, name)
        return None

    def _attr_func(self, k, name):
        v = k.attrs[name]
        if v is None:
            return None
        # `name = func`, `name = deco()(func)`, `name = property(...)`
        while isinstance(v, ast.Call) and len(v.args) == 1 and not v.keywords and isinstance(v.func, ast.Call):
            v = v.args[0]
        d = dotted(v)
        if d is None:
            return None
        if d in k.methods:
            return k.methods[d]
        r = self.resolve(k.module, d)
        return r if isinstance(r, FuncInfo) else None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.inner:
                return k.inner[name]
            if name in k.attrs:
                v = k.attrs[name]
                d = dotted(v) if v is not None else None
                if d:
                    r = self._lookup_in_class(k, d) or self.resolve(k.module, d)
                    if r is not None:
                        return r
                return ("expr", k.module, v)
            if name in k.methods:
                return k.methods[name]
        return None

    def get_func(self, path):
        """'ewf.ewf.EWF.kernel' or 'ewf.rdm.make_rdm1_ccsd' -> FuncInfo; AnalysisError if it vanished."""
        r = self.resolve_abs(ROOT + "." + path)
        if not isinstance(r, FuncInfo):
            raise AnalysisError("anchor vanished: function %s" % path)
        return r

    def get_class(self, path):
        r = self.resolve_abs(ROOT + "." + path)
        if not isinstance(r, ClassInfo):
            raise AnalysisError("anchor vanished: class %s" % path)
        return r


def _target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for e in t.elts for n in _target_names(e)]
    if isinstance(t, ast.Starred):
        return _target_names(t.value)
    return []


target_names = _target_names
