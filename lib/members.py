"""Attribute tables of classes, a light type inference for receivers, and signature matching (C18, C19)."""
import ast

from pkg import ClassInfo, FuncInfo, Module, dotted
from names import load_ext, FUNC, COMP

OPEN_METHODS = {"__getattr__", "__getattribute__"}


class Sig:
    def __init__(self, f, bound):
        a = f.node.args
        self.f = f
        pos = [p.arg for p in a.posonlyargs + a.args]
        nd = len(a.defaults)
        req = pos[: len(pos) - nd]
        if bound and pos:
            pos, req = pos[1:], req[1:] if req else req
        self.pos, self.req = pos, req
        self.posonly = [p.arg for p in a.posonlyargs]
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.kwreq = [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        self.var, self.kw = a.vararg is not None, a.kwarg is not None
        d = {}
        for p, v in zip(reversed(a.posonlyargs + a.args), reversed(a.defaults)):
            d[p.arg] = v
        for p, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                d[p.arg] = v
        self.defaults = d

    def mismatch(self, call, kwok=None):
        """Why the call does not fit, or None.  kwok(name): whether **kwargs of the function takes this keyword."""
        star = any(isinstance(x, ast.Starred) for x in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        npos = sum(1 for x in call.args if not isinstance(x, ast.Starred))
        kws = [k.arg for k in call.keywords if k.arg is not None]
        if npos > len(self.pos) and not self.var:
            return "%d positional arguments given, %d accepted" % (npos, len(self.pos))
        for k in kws:
            if k not in self.pos and k not in self.kwonly and not (self.kw and (kwok is None or kwok(k))):
                return "no parameter named %r" % k
            if k in self.pos[:npos] and k in self.pos:
                return "parameter %r given twice" % k
        if not star and not dstar:
            for i, r in enumerate(self.req):
                if i >= npos and r not in kws:
                    return "required parameter %r not given" % r
            for r in self.kwreq:
                if r not in kws:
                    return "required parameter %r not given" % r
        elif not dstar and star:
            for r in self.kwreq:
                if r not in kws:
                    return "required parameter %r not given" % r
        return None


class ExtSig(Sig):
    def __init__(self, d):
        self.pos, self.req, self.kwonly, self.kwreq = d[0], d[1], d[2], d[3]
        self.var, self.kw, self.posonly, self.defaults = bool(d[4]), bool(d[5]), [], {}


TRANSPARENT = {"staticmethod", "classmethod", "property", "cached_property", "cache", "cache_without_self", "cached_method",
               "deprecated", "log_method", "log_time", "with_doc", "wraps", "lru_cache", "abstractmethod", "contextmanager",
               "with_send", "with_reduce", "with_allreduce", "with_bcast", "functools.wraps", "mpi.with_send", "mpi.with_reduce",
               "mpi.with_allreduce", "mpi.with_bcast", "functools.cached_property", "functools.lru_cache", "abc.abstractmethod",
               "contextlib.contextmanager", "util.deprecated", "abstractclassmethod"}


def transparent(f):
    return all(n in TRANSPARENT or n.split(".")[-1] in TRANSPARENT for n in f.decorator_names())


class Members:
    def __init__(self, pkg):
        self.pkg = pkg
        self.ext_names, self.ext_mods = load_ext()
        self.inst = {}          # class -> own attribute names
        self.opened = set()
        self.stored = {}        # class -> attributes stored on self in its methods
        self.ext_assigned = set()   # names set on objects other than self anywhere in the package
        for c in pkg.all_classes:
            self._own(c)
        for m in pkg.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    if not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                        self.ext_assigned.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
                    if isinstance(n.args[1], ast.Constant):
                        self.ext_assigned.add(n.args[1].value)
        self.all_names = set(self.ext_names) | self.ext_assigned
        for v in self.ext_mods.values():
            self.all_names |= v or set()
        for m in pkg.modules.values():
            for n in ast.walk(m.tree):                       # command-line options, log levels
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument":
                    for a in n.args:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            self.all_names.add(a.value.lstrip("-").replace("-", "_"))
                    for k in n.keywords:
                        if k.arg == "dest" and isinstance(k.value, ast.Constant):
                            self.all_names.add(k.value.value)
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and m.name.endswith("vlog") and n.value.isidentifier():
                    self.all_names |= {n.value, n.value.lower(), n.value.upper()}
        for c in pkg.all_classes:
            self.all_names |= self.inst[c]
        for m in pkg.modules.values():
            self.all_names |= set(m.funcs) | set(m.classes) | set(m.assigns) | set(m.imports)
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.all_names.add(n.name)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.all_names.add(n.attr)

    def _own(self, c):
        stored = self.stored[c] = set()
        s = set(c.methods) | set(c.setters) | set(c.attrs) | set(c.annots) | set(c.inner)
        for f in list(c.methods.values()) + list(c.setters.values()):
            ps = f.params()
            me = ps[0] if ps else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store,)) and isinstance(n.value, ast.Name) and n.value.id == me:
                    s.add(n.attr)
                    stored.add(n.attr)
                elif isinstance(n, ast.Call):
                    d = dotted(n.func)
                    if d in ("setattr", "object.__setattr__", "self.__setattr__") and len(n.args) >= 2:
                        tgt = n.args[0] if d != "self.__setattr__" else ast.Name(me, ast.Load())
                        name = n.args[1] if d != "self.__setattr__" else n.args[0]
                        if isinstance(tgt, ast.Name) and tgt.id == me:
                            if isinstance(name, ast.Constant):
                                s.add(name.value)
                            else:
                                self.opened.add(c)
                    if d == "self.__dict__.update":
                        self.opened.add(c)
                elif isinstance(n, ast.Subscript) and dotted(n.value) == "self.__dict__" and isinstance(n.slice, ast.Constant) and isinstance(n.ctx, ast.Store):
                    s.add(n.slice.value)
        if set(c.methods) & OPEN_METHODS:
            self.opened.add(c)
        # namedtuple-like and enum are covered by the external-base rule
        self.inst[c] = s

    def is_open(self, c):
        if any(k in self.opened for k in self.pkg.mro(c)):
            return True
        return self.pkg.has_external_base(c)

    def has(self, c, name):
        if any(name in self.inst[k] for k in self.pkg.mro(c)):
            return True
        return name in dir(object) or name in ("__dict__", "__name__", "__module__", "__qualname__", "__doc__", "__annotations__", "__dataclass_fields__")

    def family(self, c):
        return [c] + [k for k in self.pkg.subs.get(c, [])]

    def leaves(self, c):
        fam = self.family(c)
        return [k for k in fam if not self.pkg.subs.get(k)]
