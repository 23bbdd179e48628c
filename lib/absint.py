"""Abstract interpreter over the package's syntax tree.

Evaluates one path of a function at a time on abstract values (no code of the repository is run and no
values are computed): where the outcome of a condition is not determined by the abstract state, the path
chooses an outcome, and `explore` enumerates the choices until every branch outcome that can be reached was
taken and the budget of combinations is used.  The tensor domain (tensor.py) supplies the array values."""
import ast
import os

from pkg import ClassInfo, FuncInfo, Module, AnalysisError

BUILTINS = {"len", "range", "enumerate", "zip", "isinstance", "hasattr", "getattr", "setattr", "tuple", "list", "dict", "sum", "min", "max", "abs",
            "int", "float", "bool", "str", "sorted", "reversed", "type", "super", "callable", "all", "any", "print", "set", "frozenset", "round", "map",
            "filter", "iter", "next", "repr", "id", "slice", "complex", "object", "property", "vars", "issubclass", "divmod", "pow"}


class PathEnd(Exception):
    """The path leaves the analysed code (raise, sys.exit)."""

    def __init__(self, what=None, node=None, explicit=True):
        self.what, self.node, self.explicit = what, node, explicit


class Budget(Exception):
    pass


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Unk:
    """An unknown value; `key` names it when two reads of the same place must agree."""
    __slots__ = ("key",)

    def __init__(self, key=None):
        self.key = key if key is None or len(key) < 240 else None

    def __repr__(self):
        return "?%s" % (self.key or "")


class Ext:
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<ext %s>" % self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class HObj:
    """An instance of a package class."""

    def __init__(self, cls):
        self.cls, self.fields = cls, {}

    def __repr__(self):
        return "<%s>" % self.cls.name


class Closure:
    __slots__ = ("node", "mod", "env", "cls", "info", "defaults", "kwdefaults")

    def __init__(self, node, mod, env, cls=None, info=None, defaults=None, kwdefaults=None):
        self.node, self.mod, self.env, self.cls, self.info, self.defaults, self.kwdefaults = node, mod, env, cls, info, defaults, kwdefaults

    def __repr__(self):
        return "<closure %s>" % getattr(self.node, "name", "lambda")


class Bound:
    __slots__ = ("func", "obj")

    def __init__(self, func, obj):
        self.func, self.obj = func, obj

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.obj)


class Super:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Prim:
    """A function implemented by the analysis."""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name

    def __repr__(self):
        return "<prim %s>" % self.name


class Api:
    """Base class of the analysis' own symbolic objects; attr(run, name, node) returns a value or NotImplemented."""
    cls = None

    def attr(self, run, name, node):
        return NotImplemented


class Range:
    __slots__ = ("dim",)

    def __init__(self, dim):
        self.dim = dim


class Env:
    __slots__ = ("vars", "parent", "nonlocals")

    def __init__(self, parent=None):
        self.vars, self.parent, self.nonlocals = {}, parent, {}

    def get(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        raise KeyError(name)

    def set(self, name, v):
        if name in self.nonlocals:
            e = self.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        self.vars[name] = v


class Ctx:
    __slots__ = ("mod", "env", "func", "cls", "self_obj", "info")

    def __init__(self, mod, env, func, cls, self_obj, info):
        self.mod, self.env, self.func, self.cls, self.self_obj, self.info = mod, env, func, cls, self_obj, info


KNOWN = (type(None), bool, int, float, str, bytes, complex, type(Ellipsis))


class Run:
    """One path.  `dom` is the tensor domain; `prefix` the choices to replay."""

    def __init__(self, pkg, dom, prefix=(), maxsteps=150000, maxdepth=30):
        self.pkg, self.dom = pkg, dom
        self.prefix, self.trace = list(prefix), []
        self.facts = {}
        self.steps, self.maxsteps, self.depth, self.maxdepth = 0, maxsteps, 0, maxdepth
        self.stack = []
        self.modcache = {}
        self.modbusy = set()
        self.notes = []
        self.calls = set()
        self.nodes = 0

    # --- choices

    def decide(self, site, key=None, prefer=False):
        """An outcome for a condition the state does not determine; remembered under `key`."""
        if key is not None and key in self.facts:
            return self.facts[key]
        i = len(self.trace)
        v = self.prefix[i] if i < len(self.prefix) else prefer
        self.trace.append((site, v))
        if key is not None:
            self.facts[key] = v
        return v

    def site(self, node):
        c = self.stack[-1] if self.stack else None
        return (c.mod.name if c else "", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), type(node).__name__)

    def where(self, node):
        c = self.stack[-1]
        return "%s:%d" % (c.mod.relpath, getattr(node, "lineno", 0))

    def funcname(self):
        """Name of the innermost named package function being evaluated."""
        for c in reversed(self.stack):
            if c.info is not None:
                return c.info.short
        return "?"

    # --- truth

    def key_of(self, v):
        if isinstance(v, Unk):
            return v.key
        if isinstance(v, KNOWN):
            return repr(v)
        return None

    def truth(self, v, node):
        k = self.known_truth(v)
        if k is not None:
            return k
        key = self.key_of(v)
        if key is not None:
            if self.facts.get(("none", key)) is True:
                return False
            for fk, fv in self.facts.items():
                if fv and isinstance(fk, tuple) and len(fk) == 3 and fk[0] == "eq" and fk[1] == key:
                    return bool(fk[2]) if not isinstance(fk[2], str) else bool(fk[2])
            r = self.decide(self.site(node), ("truth", key))
            if r:
                self.facts.setdefault(("none", key), False)
            return r
        return self.decide(self.site(node))

    def known_truth(self, v):
        if isinstance(v, KNOWN):
            return bool(v)
        if isinstance(v, (tuple, list, dict, set)):
            return len(v) > 0
        if isinstance(v, (HObj, Closure, Bound, ClassInfo, FuncInfo, Module, Prim)):
            if isinstance(v, HObj) and self.pkg.find_method(v.cls, "__bool__"):
                return None
            return True
        if isinstance(v, Api):
            return True
        return self.dom.known_truth(v)

    def is_none(self, v, node):
        if v is None:
            return True
        if isinstance(v, Unk):
            if v.key is None:
                return self.decide(self.site(node))
            k = ("none", v.key)
            if k in self.facts:
                return self.facts[k]
            if self.facts.get(("truth", v.key)) is True:
                return False
            for fk, fv in self.facts.items():
                if fv and isinstance(fk, tuple) and len(fk) == 3 and fk[0] == "eq" and fk[1] == v.key:
                    return False
            r = self.decide(self.site(node), k)
            if r:
                self.facts.setdefault(("truth", v.key), False)
            return r
        return False

    def equal(self, a, b, node):
        if isinstance(a, KNOWN) and isinstance(b, KNOWN):
            return a == b
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) is type(b):
            if len(a) != len(b):
                return False
            return all([self.equal(x, y, node) for x, y in zip(a, b)])
        if isinstance(b, Unk) and isinstance(a, KNOWN):
            a, b = b, a
        if isinstance(a, Unk) and a.key is not None and isinstance(b, KNOWN):
            if b is None:
                return self.is_none(a, node)
            for fk, fv in list(self.facts.items()):
                if isinstance(fk, tuple) and len(fk) == 3 and fk[0] == "eq" and fk[1] == a.key:
                    if fv:
                        return fk[2] == b
            if self.facts.get(("none", a.key)) is True:
                return False
            if isinstance(b, bool) and ("truth", a.key) in self.facts:
                return self.facts[("truth", a.key)] == b
            return self.decide(self.site(node), ("eq", a.key, b))
        if a is b and not isinstance(a, Unk):
            return True
        r = self.dom.equal(self, a, b, node)
        if r is not None:
            return r
        if isinstance(a, (Ext, ClassInfo, FuncInfo)) and isinstance(b, (Ext, ClassInfo, FuncInfo)):
            return a == b
        ka, kb = self.key_of(a), self.key_of(b)
        return self.decide(self.site(node), ("eq2", ka, kb) if ka and kb else None)

    # --- modules

    def modvalue(self, r, node=None):
        """Value of what the package index resolved."""
        if isinstance(r, (Module, ClassInfo, FuncInfo)):
            o = self.dom.override(self, r)
            return r if o is None else o
        if r is None:
            return Unk()
        if r[0] == "ext":
            return Ext(r[1])
        _, m, v = r
        if v is None:
            return Unk()
        k = (m.name, id(v))
        if k in self.modcache:
            return self.modcache[k]
        if k in self.modbusy or self.depth > self.maxdepth:
            return Unk()
        self.modbusy.add(k)
        self.stack.append(Ctx(m, Env(), None, None, None, None))
        try:
            val = self.ev(v)
        except (PathEnd, Return):
            val = Unk()
        finally:
            self.stack.pop()
            self.modbusy.discard(k)
        if isinstance(val, Unk) and val.key is None and isinstance(v, ast.AST):
            val = Unk("%s:%s" % (m.name, ast.unparse(v)[:60]))
        self.modcache[k] = val
        return val

    def name(self, n, node):
        c = self.stack[-1]
        try:
            return c.env.get(n)
        except KeyError:
            pass
        r = self.pkg.lookup(c.mod, n)
        if n in self.dom.named and r is not None:
            return self.dom.named[n]
        if r is not None:
            return self.modvalue(r, node)
        if n in BUILTINS:
            return Ext("builtins." + n)
        return Unk()

    # --- calls

    def call(self, f, args, kw, node):
        self.tick()
        if isinstance(f, Prim):
            return f.fn(self, args, kw, node)
        if isinstance(f, Bound):
            if isinstance(f.func, Prim):
                return f.func.fn(self, [f.obj] + list(args), kw, node)
            return self.call(f.func, [f.obj] + list(args), kw, node)
        if isinstance(f, FuncInfo):
            o = self.dom.override(self, f)
            if o is not None:
                return self.call(o, args, kw, node)
            return self.invoke(f.node, f.module, None, f.cls, f, args, kw, node)
        if isinstance(f, Closure):
            return self.invoke(f.node, f.mod, f.env, f.cls, f.info, args, kw, node, f)
        if isinstance(f, ClassInfo):
            return self.construct(f, args, kw, node)
        if isinstance(f, Ext):
            return self.ext(f.path, args, kw, node)
        if isinstance(f, HObj):
            m = self.pkg.find_method(f.cls, "__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kw, node)
            return Unk()
        if isinstance(f, Api):
            g = f.attr(self, "__call__", node)
            if g is not NotImplemented:
                return self.call(g, args, kw, node)
            return Unk()
        return self.dom.call_unknown(self, f, args, kw, node)

    def construct(self, cls, args, kw, node):
        o = self.dom.construct(self, cls, args, kw, node)
        if o is not NotImplemented:
            return o
        obj = HObj(cls)
        init = self.pkg.find_method(cls, "__init__")
        if init is not None:
            self.call(init, [obj] + list(args), kw, node)
        elif any("dataclass" in ast.unparse(d) for k in self.pkg.mro(cls) for d in k.node.decorator_list):
            names = []
            for k in reversed(self.pkg.mro(cls)):
                for a in k.annots:
                    if a not in names:
                        names.append(a)
            for n, v in zip(names, args):
                obj.fields[n] = v
            for n, v in kw.items():
                obj.fields[n] = v
            for n in names:
                if n not in obj.fields:
                    r = self.pkg.class_attr(cls, n)
                    obj.fields[n] = self.modvalue(r) if r is not None else Unk()
        return obj

    def invoke(self, node, mod, env, cls, info, args, kw, callnode, clo=None):
        if self.depth >= self.maxdepth or sum(1 for c in self.stack if c.func is node) >= 3:
            return Unk()
        if info is not None:
            self.calls.add(info.short)
            for d in info.decorator_names():
                if d.split(".")[-1] in ("contextmanager",):
                    return Unk()
        ctx = Ctx(mod, Env(env), node, cls, None, info if info is not None else (self.stack[-1].info if self.stack and clo is not None else None))
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        star_unknown = any(isinstance(x, StarUnk) for x in args)
        if star_unknown:
            i = [isinstance(x, StarUnk) for x in args].index(True)
            args = args[:i] + [Unk() for _ in pos[i:]]
        for p, v in zip(pos, args):
            vals[p] = v
        rest = args[len(pos):]
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(rest)
        extra = {}
        unkkw = kw.get(None) if isinstance(kw, dict) else None
        for k, v in kw.items():
            if k is None:
                continue
            if k in pos or k in [p.arg for p in a.kwonlyargs]:
                vals[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            d = dict(extra)
            vals[a.kwarg.arg] = d
        # defaults
        ctx2 = Ctx(mod, Env(env), node, cls, None, info)
        self.stack.append(ctx2)
        try:
            dn = len(a.defaults)
            for i, d in enumerate(a.defaults):
                p = pos[len(pos) - dn + i]
                if p not in vals:
                    if unkkw is not None:
                        vals[p] = Unk()
                    else:
                        vals[p] = clo.defaults[i] if clo is not None and clo.defaults else self.ev(d)
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if p.arg not in vals:
                    vals[p.arg] = self.ev(d) if d is not None else Unk()
        finally:
            self.stack.pop()
        for p in pos:
            if p not in vals:
                vals[p] = Unk()
        ctx.env.vars.update(vals)
        if pos and cls is not None and info is not None and not info.is_static:
            ctx.self_obj = vals.get(pos[0])
        self.stack.append(ctx)
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)
            for s in node.body:
                self.st(s)
            return None
        except Return as r:
            self.dom.on_return(self, ctx, r.value)
            return r.value
        except RecursionError:
            return Unk()
        finally:
            self.depth -= 1
            self.stack.pop()

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget()

    # --- attributes

    def getattr(self, v, name, node):
        if isinstance(v, Api):
            r = v.attr(self, name, node)
            if r is not NotImplemented:
                return r
            if v.cls is not None:
                return self.instattr(v, v.cls, name, node, {})
            return Unk()
        if isinstance(v, HObj):
            if name in v.fields:
                return v.fields[name]
            return self.instattr(v, v.cls, name, node, v.fields)
        if isinstance(v, Module):
            r = self.pkg.member(v, name)
            return self.modvalue(r, node)
        if isinstance(v, ClassInfo):
            if name == "__name__":
                return v.name
            r = self.pkg.member(v, name)
            if isinstance(r, FuncInfo):
                if r.is_classmethod:
                    return Bound(r, v)
                return r
            if r is None and name == "__new__":
                return Ext("object.__new__")
            return self.modvalue(r, node)
        if isinstance(v, Ext):
            return Ext(v.path + "." + name)
        if isinstance(v, Super):
            c = v.obj.cls if isinstance(v.obj, (HObj, Api)) and v.obj.cls is not None else (v.obj if isinstance(v.obj, ClassInfo) else v.cls)
            if name == "__setattr__":
                return Prim(lambda run, a, k, n, o=v.obj: self.rawset(o, a[0], a[1]), "setattr")
            m = self.pkg.find_method(c, name, after=v.cls)
            if m is not None:
                if m.is_property:
                    return self.call(m, [v.obj], {}, node)
                return m if m.is_static else Bound(m, v.obj)
            return Prim(lambda run, a, k, n: Unk(), "super")
        if isinstance(v, (tuple, list, dict, str, set)):
            return Bound(Prim(lambda run, a, k, n, nm=name: self.pymethod(nm, a, k, n), name), v)
        if isinstance(v, Unk):
            return Unk(v.key + "." + name) if v.key else Unk()
        r = self.dom.getattr(self, v, name, node)
        if r is NotImplemented:
            return Unk()
        return r

    def rawset(self, o, name, value):
        if isinstance(o, HObj) and isinstance(name, str):
            st = self.pkg.find_method(o.cls, name, setter=True)
            if st is not None:
                return self.call(st, [o, value], {}, None)
            o.fields[name] = value
            self.dom.on_setfield(self, o, name, value)
        return None

    def instattr(self, v, cls, name, node, fields):
        if name == "__class__":
            return cls
        if name == "__dict__":
            return fields
        m = self.pkg.find_method(cls, name)
        if m is not None:
            o = self.dom.override(self, m)
            if m.is_property:
                return self.call(o if o is not None else m, [v], {}, node)
            if m.is_static:
                return o if o is not None else m
            if m.is_classmethod:
                return Bound(o if o is not None else m, cls)
            return Bound(o if o is not None else m, v)
        r = self.pkg.class_attr(cls, name)
        if r is not None:
            return self.modvalue(r, node)
        g = self.pkg.find_method(cls, "__getattr__")
        if g is not None and isinstance(v, HObj):
            return self.call(g, [v, name], {}, node)
        if isinstance(v, HObj):
            return self.dom.missing(self, v, name, node)
        return Unk()

    def setattr(self, o, name, value, node):
        if isinstance(o, HObj):
            st = self.pkg.find_method(o.cls, "__setattr__")
            if st is not None:
                return self.call(st, [o, name, value], {}, node)
            return self.rawset(o, name, value)
        if isinstance(o, Api):
            if hasattr(o, "set"):
                o.set(self, name, value, node)
            return None
        self.dom.setattr(self, o, name, value, node)

    # --- python containers

    def pymethod(self, name, a, kw, node):
        v, args = a[0], list(a[1:])
        try:
            if isinstance(v, dict):
                if name == "items":
                    return list(v.items())
                if name == "keys":
                    return list(v)
                if name == "values":
                    return list(v.values())
                if name == "copy":
                    return dict(v)
                if name == "clear":
                    return None
                if name in ("get", "pop", "setdefault"):
                    k = self.hashable(args[0])
                    if k is None:
                        return Unk()
                    if name == "get":
                        return v.get(k, args[1] if len(args) > 1 else None)
                    if name == "pop":
                        return v.pop(k, args[1] if len(args) > 1 else Unk())
                    return v.setdefault(k, args[1] if len(args) > 1 else None)
                if name == "update":
                    for x in args:
                        if isinstance(x, dict):
                            v.update(x)
                    v.update({k: w for k, w in kw.items() if k is not None})
                    return None
            if isinstance(v, list):
                if name == "append":
                    v.append(args[0])
                    return None
                if name == "extend":
                    if isinstance(args[0], (list, tuple)):
                        v.extend(args[0])
                    return None
                if name == "insert" and isinstance(args[0], int):
                    v.insert(args[0], args[1])
                    return None
                if name == "pop":
                    return v.pop(*[x for x in args if isinstance(x, int)])
                if name == "copy":
                    return list(v)
            if isinstance(v, (list, tuple)) and name == "index":
                for i, x in enumerate(v):
                    if self.equal(x, args[0], node):
                        return i
                raise PathEnd("ValueError", node)
            if isinstance(v, str):
                if name == "format":
                    return Unk()
                if all(isinstance(x, (str, int, tuple)) for x in args) and all(isinstance(x, (str, int)) for x in kw.values()) and name in (
                        "replace", "split", "rsplit", "lower", "upper", "strip", "startswith", "endswith", "count", "index", "find", "title", "capitalize",
                        "join", "lstrip", "rstrip", "partition", "isupper", "islower", "swapcase"):
                    return getattr(v, name)(*args, **kw)
                if name == "join" and isinstance(args[0], (list, tuple)) and all(isinstance(x, str) for x in args[0]):
                    return v.join(args[0])
        except (IndexError, KeyError, ValueError, TypeError):
            return Unk()
        return Unk()

    def hashable(self, k):
        if isinstance(k, KNOWN):
            return k if k is not None else "<None>"
        if isinstance(k, (tuple, list)):
            out = tuple(self.hashable(x) for x in k)
            return None if any(x is None for x in out) else out
        if isinstance(k, Unk):
            return ("sym", k.key) if k.key else None
        return self.dom.hashable(k)

    def index(self, v, i, node):
        if isinstance(v, (tuple, list)):
            if isinstance(i, bool):
                i = int(i)
            if isinstance(i, int):
                if -len(v) <= i < len(v):
                    return v[i]
                self.dom.bad_index(self, v, i, node)
                raise PathEnd("IndexError", node)
            if isinstance(i, slice) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return v[i]
            return self.dom.index_seq(self, v, i, node)
        if isinstance(v, dict):
            r = self.dom.dict_get(self, v, i, node)
            if r is not NotImplemented:
                return r
            k = self.hashable(i)
            return v.get(k, Unk()) if k is not None else Unk()
        if isinstance(v, str):
            try:
                return v[i]
            except (TypeError, IndexError):
                return Unk()
        if isinstance(v, HObj):
            m = self.pkg.find_method(v.cls, "__getitem__")
            return self.call(m, [v, i], {}, node) if m is not None else Unk()
        if isinstance(v, Api):
            g = v.attr(self, "__getitem__", node)
            return self.call(g, [i], {}, node) if g is not NotImplemented else Unk()
        if isinstance(v, Unk):
            k = self.key_of(i)
            return Unk("%s[%s]" % (v.key, k)) if v.key and k else Unk()
        return self.dom.index(self, v, i, node)

    def iterate(self, v, node):
        """Elements to run a loop over."""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, set):
            return sorted(v, key=repr)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Range):
            if isinstance(v.dim, int):
                return list(range(v.dim)) if v.dim <= 8 else [Unk()]
            return [self.dom.loopindex(self, v.dim)]
        r = self.dom.iterate(self, v, node)
        if r is not None:
            return r
        return [Unk()]

    # --- external functions

    def ext(self, path, args, kw, node):
        if path.startswith("builtins."):
            r = self.builtin(path[9:], args, kw, node)
            if r is not NotImplemented:
                return r
        return self.dom.ext(self, path, args, kw, node)

    def builtin(self, name, args, kw, node):
        a0 = args[0] if args else None
        if name == "super":
            c = self.stack[-1]
            if len(args) == 2:
                return Super(a0, args[1])
            obj = c.self_obj
            k = c.cls
            e = c.env
            if obj is None:
                for cc in reversed(self.stack):
                    if cc.self_obj is not None:
                        obj, k = cc.self_obj, cc.cls
                        break
            return Super(k, obj)
        if name == "type" and len(args) == 1:
            if isinstance(a0, (HObj, Api)) and a0.cls is not None:
                return a0.cls
            return self.dom.typeof(self, a0)
        if name == "isinstance":
            return self.isinst(a0, args[1], node)
        if name == "hasattr":
            r = self.dom.hasattr(self, a0, args[1])
            if r is not None:
                return r
            if isinstance(a0, HObj):
                if args[1] in a0.fields or self.pkg.find_method(a0.cls, args[1]) or self.pkg.class_attr(a0.cls, args[1]):
                    return True
                return False
            if isinstance(a0, (tuple, list)):
                return args[1] in ("__len__", "__getitem__", "__iter__", "index", "count")
            if isinstance(a0, (Closure, Bound, FuncInfo, Prim)):
                return args[1] in ("__call__", "__name__")
            if isinstance(a0, (str,)):
                return hasattr(a0, args[1])
            if isinstance(a0, KNOWN):
                return hasattr(a0, args[1])
            return Unk()
        if name == "getattr":
            if isinstance(args[1], str):
                if len(args) == 3 and isinstance(a0, HObj) and self.builtin("hasattr", args[:2], {}, node) is False:
                    return args[2]
                return self.getattr(a0, args[1], node)
            return Unk()
        if name == "setattr":
            if isinstance(args[1], str):
                self.setattr(a0, args[1], args[2], node)
            return None
        if name == "len":
            if isinstance(a0, (tuple, list, dict, str, set)):
                return len(a0)
            r = self.dom.length(self, a0)
            return r
        if name == "range":
            if len(args) == 1:
                return Range(a0) if not isinstance(a0, Unk) else Unk()
            if all(isinstance(x, int) for x in args):
                r = list(range(*args))
                return r if len(r) <= 16 else Unk()
            return self.dom.range2(self, args)
        if name in ("tuple", "list"):
            if not args:
                return () if name == "tuple" else []
            if isinstance(a0, (tuple, list, dict)):
                return tuple(a0) if name == "tuple" else list(a0)
            if isinstance(a0, Range) and isinstance(a0.dim, int):
                return (tuple if name == "tuple" else list)(range(a0.dim))
            r = self.dom.unpack(self, a0, None, node)
            if r is not None:
                return tuple(r) if name == "tuple" else list(r)
            return Unk()
        if name == "dict":
            d = {}
            if args and isinstance(a0, dict):
                d.update(a0)
            elif args and isinstance(a0, (list, tuple)):
                for x in a0:
                    if isinstance(x, (tuple, list)) and len(x) == 2:
                        k = self.hashable(x[0])
                        if k is not None:
                            d[k] = x[1]
            d.update({k: v for k, v in kw.items() if k is not None})
            return d
        if name == "enumerate":
            it = self.iterate(a0, node)
            if isinstance(a0, (tuple, list)):
                return [(i, x) for i, x in enumerate(it)]
            return [(Unk(), x) for x in it]
        if name == "zip":
            its = [self.iterate(x, node) for x in args]
            return [tuple(x) for x in zip(*its)]
        if name == "reversed" and isinstance(a0, (tuple, list)):
            return list(reversed(a0))
        if name == "sum":
            if isinstance(a0, (tuple, list)) and a0:
                acc = a0[0]
                for x in a0[1:]:
                    acc = self.dom.binop(self, ast.Add(), acc, x, node)
                return acc
            return Unk()
        if name in ("all", "any") and isinstance(a0, (tuple, list)):
            for x in a0:
                t = self.truth(x, node)
                if name == "all" and not t:
                    return False
                if name == "any" and t:
                    return True
            return name == "all"
        if name in ("int", "float", "str", "bool", "abs", "min", "max", "round"):
            if all(isinstance(x, (int, float, str, bool)) for x in args):
                try:
                    return __builtins__[name](*args) if isinstance(__builtins__, dict) else getattr(__builtins__, name)(*args)
                except Exception:
                    return Unk()
            if name in ("int", "float") and isinstance(a0, Unk):
                return a0
            return NotImplemented
        if name == "callable":
            if isinstance(a0, (Closure, Bound, FuncInfo, Prim, ClassInfo)):
                return True
            return False if isinstance(a0, KNOWN) else Unk()
        if name in ("map", "filter") and len(args) == 2:
            return [self.call(a0, [x], {}, node) for x in self.iterate(args[1], node)] if name == "map" else Unk()
        if name == "slice":
            a = list(args) + [None] * (3 - len(args))
            return slice(a[0], a[1], a[2]) if len(args) > 1 else slice(None, a0, None)
        if name == "print":
            return None
        if name == "object":
            return Unk()
        return Unk() if name in ("set", "frozenset", "sorted", "iter", "next", "repr", "id", "vars", "complex", "property", "issubclass", "divmod", "pow") else NotImplemented

    def isinst(self, v, c, node):
        if isinstance(c, (tuple, list)):
            res = False
            for x in c:
                r = self.isinst(v, x, node)
                if r is True:
                    return True
                if r is not False:
                    res = r
            return res
        if isinstance(c, ClassInfo):
            if isinstance(v, (HObj, Api)) and v.cls is not None:
                return c in self.pkg.mro(v.cls)
            if isinstance(v, Unk):
                return Unk("isinstance(%s,%s)" % (v.key, c.name)) if v.key else Unk()
            return False
        if isinstance(c, Ext):
            p = c.path
            if isinstance(v, Unk):
                return Unk("isinstance(%s,%s)" % (v.key, p)) if v.key else Unk()
            tab = {"builtins.tuple": tuple, "builtins.list": list, "builtins.dict": dict, "builtins.str": str, "builtins.int": int, "builtins.float": float,
                   "builtins.bool": bool}
            if p in tab:
                if isinstance(v, KNOWN) or isinstance(v, (tuple, list, dict)):
                    return isinstance(v, tab[p])
            return self.dom.isinst(self, v, p)
        return Unk()

    # --- expressions

    def ev(self, e):
        self.nodes += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return Unk()
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.name(e.id, e)

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr, e)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_JoinedStr(self, e):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.ev(p.value)
                if not isinstance(v, (str, int)):
                    return Unk()
                out.append(str(v))
        return "".join(out)

    def seq(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if isinstance(v, (tuple, list)):
                    out.extend(v)
                else:
                    r = self.dom.unpack(self, v, None, x)
                    if r is None:
                        return None
                    out.extend(r)
            else:
                out.append(self.ev(x))
        return out

    def e_Tuple(self, e):
        r = self.seq(e.elts)
        return Unk() if r is None else tuple(r)

    def e_List(self, e):
        r = self.seq(e.elts)
        return Unk() if r is None else r

    def e_Set(self, e):
        for x in e.elts:
            self.ev(x)
        return Unk()

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            val = self.ev(v)
            if k is None:
                if isinstance(val, dict):
                    d.update(val)
                continue
            kk = self.hashable(self.ev(k))
            if kk is not None:
                d[kk] = val
        return d

    def e_Lambda(self, e):
        c = self.stack[-1]
        return Closure(e, c.mod, c.env, c.cls, None, [self.ev(d) for d in e.args.defaults])

    def e_IfExp(self, e):
        return self.ev(e.body) if self.truth(self.ev_cond(e.test), e) else self.ev(e.orelse)

    def ev_cond(self, t):
        """Value of a condition; short-circuits like the language does."""
        return self.ev(t)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v, x)
            if isand and not t:
                return v if self.known_truth(v) is not None else False
            if not isand and t:
                return v if not isinstance(v, Unk) or v.key is None or True else v
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return not self.truth(v, e)
        if isinstance(v, (int, float)) and isinstance(e.op, ast.USub):
            return -v
        return self.dom.unary(self, e.op, v, e)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            res = self.compare(op, left, right, e)
            if len(e.ops) == 1:
                return res
            if not self.truth(res, e):
                return False
            left = right
        return res

    def compare(self, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is None or a is None:
                r = self.is_none(a if b is None else b, node)
            elif isinstance(b, bool) or isinstance(a, bool):
                x, y = (a, b) if isinstance(b, bool) else (b, a)
                r = (x is y) if isinstance(x, KNOWN) else (self.equal(x, y, node) if isinstance(x, Unk) else False)
            else:
                r = self.equal(a, b, node) if not (a is b) else True
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.dom.compare_eq(self, a, b, node)
            if r is NotImplemented:
                r = self.equal(a, b, node)
            else:
                return r
            return r if isinstance(op, ast.Eq) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (tuple, list)):
                r = False
                for x in b:
                    if self.compare(ast.Is(), a, x, node) if x is None else self.equal(a, x, node):
                        r = True
                        break
            elif isinstance(b, dict):
                r = self.dom.dict_has(self, b, a, node)
            elif isinstance(b, str) and isinstance(a, str):
                r = a in b
            else:
                r = self.decide(self.site(node))
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        return self.dom.order(self, op, a, b, node)

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, node):
        if isinstance(a, KNOWN) and isinstance(b, KNOWN) and a is not None and b is not None and a is not Ellipsis and b is not Ellipsis:
            if isinstance(op, ast.Mod) and isinstance(a, str):
                try:
                    return a % b
                except Exception:
                    return Unk()
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b,
                        ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b if abs(b) < 20 else Unk()}.get(type(op), lambda: Unk())()
            except Exception:
                return Unk()
        if isinstance(a, str) and isinstance(op, ast.Mod):
            if isinstance(b, tuple) and all(isinstance(x, (str, int)) for x in b):
                try:
                    return a % b
                except Exception:
                    return Unk()
            return Unk()
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and isinstance(op, ast.Add):
            if type(a) is type(b):
                return a + b
        if isinstance(op, ast.Mult):
            if isinstance(a, int) and isinstance(b, (list, tuple)):
                return b * a if a * len(b) < 64 else Unk()
            if isinstance(b, int) and isinstance(a, (list, tuple)):
                return a * b if b * len(a) < 64 else Unk()
            if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
                return self.dom.seq_times(self, a, b, node)
        for x, y, dn in ((a, b, "__add__"), ) if isinstance(op, ast.Add) else ():
            if isinstance(x, HObj):
                m = self.pkg.find_method(x.cls, dn)
                if m is not None:
                    return self.call(m, [x, y], {}, node)
        return self.dom.binop(self, op, a, b, node)

    def e_Slice(self, e):
        return slice(self.ev(e.lower) if e.lower else None, self.ev(e.upper) if e.upper else None, self.ev(e.step) if e.step else None)

    def e_Subscript(self, e):
        v = self.ev(e.value)
        return self.index(v, self.ev(e.slice), e)

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Call(self, e):
        f = self.ev(e.func)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if isinstance(v, (tuple, list)):
                    args.extend(v)
                else:
                    r = self.dom.unpack(self, v, None, a)
                    if r is None:
                        args.append(StarUnk())
                    else:
                        args.extend(r)
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, dict):
                    for kk, vv in v.items():
                        if isinstance(kk, str):
                            kw[kk] = vv
                else:
                    kw[None] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e)

    def comp(self, e, elt, dictmode=False):
        out = []
        c = self.stack[-1]
        saved = c.env
        c.env = Env(saved)
        complete = True

        def rec(i):
            nonlocal complete
            if i == len(e.generators):
                out.append(elt())
                return
            g = e.generators[i]
            it = self.ev(g.iter)
            if not isinstance(it, (tuple, list, dict, str)) and not (isinstance(it, Range) and isinstance(it.dim, int)):
                complete = False
            for x in self.iterate(it, g):
                self.assign(g.target, x)
                if all([self.truth(self.ev(t), t) for t in g.ifs]):
                    rec(i + 1)
        try:
            rec(0)
        finally:
            c.env = saved
        return out, complete

    def e_ListComp(self, e):
        out, ok = self.comp(e, lambda: self.ev(e.elt))
        return out if ok else self.dom.many(self, out, e)

    def e_GeneratorExp(self, e):
        out, ok = self.comp(e, lambda: self.ev(e.elt))
        return out if ok else self.dom.many(self, out, e)

    def e_SetComp(self, e):
        self.comp(e, lambda: self.ev(e.elt))
        return Unk()

    def e_DictComp(self, e):
        out, ok = self.comp(e, lambda: (self.hashable(self.ev(e.key)), self.ev(e.value)))
        return {k: v for k, v in out if k is not None}

    # --- statements

    def st(self, s):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            m(s)

    def block(self, ss):
        for s in ss:
            self.st(s)

    def s_Expr(self, s):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, t)
            self.assign(t, self.aug(s, cur, self.ev(s.value)), s)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr, t)
            self.setattr(o, t.attr, self.aug(s, cur, self.ev(s.value)), s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            val = self.ev(s.value)
            if isinstance(o, (tuple, list, dict)):
                cur = self.index(o, i, t)
                new = self.aug(s, cur, val)
                if not isinstance(o, tuple):
                    self.store(o, i, new, s, t)
            else:
                self.dom.augstore(self, o, i, s.op, val, s, t, self)

    def aug(self, s, cur, val):
        if isinstance(cur, list) and isinstance(val, (list, tuple)) and isinstance(s.op, ast.Add):
            return cur + list(val)
        return self.binop(s.op, cur, val, s)

    def assign(self, t, v, node=None):
        c = self.stack[-1]
        if isinstance(t, ast.Name):
            c.env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vals = None
            if isinstance(v, (tuple, list)):
                vals = list(v)
            elif isinstance(v, dict):
                vals = list(v)
            elif v is None:
                raise PathEnd("TypeError", t)
            else:
                vals = self.dom.unpack(self, v, None if stars else n, t)
            if vals is None:
                k = v.key if isinstance(v, Unk) else None
                for i, x in enumerate(t.elts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, Unk("%s[%d]" % (k, i)) if k else Unk(), node)
                return
            if stars:
                i = stars[0]
                after = n - i - 1
                if len(vals) < n - 1:
                    self.dom.bad_unpack(self, vals, n - 1, t)
                    raise PathEnd("ValueError", t)
                vals = vals[:i] + [vals[i:len(vals) - after]] + (vals[len(vals) - after:] if after else [])
            elif len(vals) != n:
                self.dom.bad_unpack(self, vals, n, t)
                raise PathEnd("ValueError", t)
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, node)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.store(o, self.ev(t.slice), v, node, t)

    def store(self, o, i, v, node, t):
        if isinstance(o, list):
            if isinstance(i, int) and -len(o) <= i < len(o):
                o[i] = v
            return
        if isinstance(o, dict):
            r = self.dom.dict_set(self, o, i, v, node)
            if r is NotImplemented:
                k = self.hashable(i)
                if k is not None:
                    o[k] = v
            return
        self.dom.store(self, o, i, v, node, t)

    def s_Return(self, s):
        raise Return(self.ev(s.value) if s.value is not None else None)

    def s_If(self, s):
        if self.truth(self.ev(s.test), s):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_For(self, s):
        it = self.ev(s.iter)
        for x in self.iterate(it, s):
            self.assign(s.target, x, s)
            try:
                self.block(s.body)
            except Break:
                return
            except Continue:
                continue
        self.block(s.orelse)

    def s_While(self, s):
        t = self.ev(s.test)
        if self.known_truth(t) is False:
            return
        try:
            self.block(s.body)
        except (Break, Continue):
            pass

    def s_Break(self, s):
        raise Break()

    def s_Continue(self, s):
        raise Continue()

    def s_Raise(self, s):
        exc = None
        if s.exc is not None:
            f = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            exc = ast.unparse(f)
            if isinstance(f, ast.Name):
                pass
            self.dom.on_raise(self, s)
        raise PathEnd(exc, s)

    def s_Assert(self, s):
        v = self.ev(s.test)
        if self.known_truth(v) is False:
            raise PathEnd("AssertionError", s)
        if self.known_truth(v) is None:
            key = self.key_of(v)
            if key is not None:
                self.facts[("truth", key)] = True

    def s_Try(self, s):
        try:
            self.block(s.body)
        except PathEnd as e:
            for h in s.handlers:
                names = ast.unparse(h.type) if h.type is not None else ""
                w = e.what or ""
                if h.type is None or w in names or "Exception" in names:
                    if h.name:
                        self.stack[-1].env.set(h.name, Unk())
                    self.block(h.body)
                    break
            else:
                self.block(s.finalbody)
                raise
        else:
            self.block(s.orelse)
        self.block(s.finalbody)

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, Unk() if not isinstance(v, Api) else v)
        self.block(s.body)

    def s_FunctionDef(self, s):
        c = self.stack[-1]
        clo = Closure(s, c.mod, c.env, c.cls, None, [self.ev(d) for d in s.args.defaults])
        for d in s.decorator_list:
            pass
        c.env.set(s.name, clo)

    def s_ClassDef(self, s):
        self.stack[-1].env.set(s.name, Unk())

    def s_Nonlocal(self, s):
        for n in s.names:
            self.stack[-1].env.nonlocals[n] = True

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, i = self.ev(t.value), self.ev(t.slice)
                if isinstance(o, dict):
                    o.pop(self.hashable(i), None)

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                r = self.pkg.resolve_abs(a.name)
                self.stack[-1].env.set(a.asname, self.modvalue(r))
            else:
                r = self.pkg.resolve_abs(a.name.split(".")[0])
                self.stack[-1].env.set(a.name.split(".")[0], self.modvalue(r))

    def s_ImportFrom(self, s):
        c = self.stack[-1]
        src = self.pkg._abs(c.mod, s)
        for a in s.names:
            if a.name != "*":
                c.env.set(a.asname or a.name, self.modvalue(self.pkg.resolve_abs(src + "." + a.name)))


class StarUnk:
    """An argument list of unknown length."""


def explore(mk, budget=60):
    """mk(prefix) -> run that was executed.  Enumerates paths: first so that every reachable branch outcome is taken,
    then further combinations up to the budget.  Returns (number of paths, exhausted?)."""
    seen_out, todo, done, later = set(), [()], set(), []
    n = 0
    while (todo or later) and n < budget:
        p = todo.pop() if todo else later.pop(0)
        if p in done:
            continue
        done.add(p)
        run = mk(p)
        n += 1
        for i, (site, v) in enumerate(run.trace):
            seen_out.add((site, v))
        for i in range(len(p), len(run.trace)):
            site, v = run.trace[i]
            q = tuple(x for _, x in run.trace[:i]) + (not v,)
            if q in done:
                continue
            if (site, not v) not in seen_out:
                seen_out.add((site, not v))
                todo.append(q)
            else:
                later.append(q)
    return n, not (todo or later)
