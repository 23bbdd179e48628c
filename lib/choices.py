"""C12: an unsupported choice raises an error.

For every named choice (a parameter or option with a closed set of names, table CHOICES) the functions that act on it are
interpreted abstractly with the choice set to a name that is none of the names the source mentions ("OTHER"): comparisons
with literals are false, look-ups in literal dictionaries fail, calls that get the choice are followed into the package.
Rule: no path through the function completes normally (undecided tests are followed both ways)."""
import ast
import builtins

from harness import Finding, Result
from pkg import ClassInfo, FuncInfo, Module, Package, dotted

DEPTH = 6


class V:
    def __init__(self, kind, val=None):
        self.kind, self.val, self.items = kind, val, None

    def __eq__(self, o):
        return isinstance(o, V) and self.kind == o.kind and self.val == o.val and self.kind != "unk"

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "%s(%r)" % (self.kind, self.val)


UNK, OTHER, UNBOUND, TRUTHY = V("unk"), V("other"), V("unbound"), V("truthy")
NONE, TRUE, FALSE = V("const", None), V("const", True), V("const", False)


def const(v):
    return V("const", v)


class MustRaise(Exception):
    def __init__(self, name, node):
        self.name, self.node = name, node


def truth(v):
    if v.kind == "const" and v.val is NotImplemented:
        return None
    if v.kind == "const":
        return bool(v.val)
    if v.kind == "other":
        return True
    if v.kind in ("seq", "dict"):
        return bool(v.val) if v.val is not None else None
    if v.kind in ("func", "truthy"):
        return True
    return None


def join(a, b):
    if a is b or a == b:
        return a
    if a.kind == "unbound" or b.kind == "unbound":      # a use on the unassigned path raises
        return b if a.kind == "unbound" else a
    if a.kind == b.kind == "dict" and a.val is not None and b.val is not None:
        return V("dict", a.val + [k for k in b.val if k not in a.val])
    return UNK


def merge(envs):
    out = dict(envs[0])
    for e in envs[1:]:
        for k in set(out) | set(e):
            out[k] = join(out.get(k, UNBOUND), e.get(k, UNBOUND))
    return out


STRSAFE = {"lower", "upper", "strip", "replace", "title", "capitalize", "casefold", "format", "lstrip", "rstrip", "removesuffix", "removeprefix", "translate", "zfill", "encode", "join"}


def catches(handler, name):
    if handler.type is None:
        return True
    types = handler.type.elts if isinstance(handler.type, ast.Tuple) else [handler.type]
    exc = getattr(builtins, name or "", None)
    for t in types:
        d = (dotted(t) or "").split(".")[-1]
        h = getattr(builtins, d, None)
        if isinstance(exc, type) and isinstance(h, type) and issubclass(exc, h):
            return True
        if d in ("Exception", "BaseException") or d == name:
            return True
    return False


class Interp:
    def __init__(self, pkg, attrs=(), calls=()):
        self.pkg = pkg
        self.attrs = tuple(attrs)          # suffixes of attribute paths that hold the choice
        self.calls = tuple(calls)          # (function name, first argument) of calls that return the choice
        self.tests = 0
        self.followed = set()
        self.stack = []
        self.memo = {}

    # ------------------------------------------------------------------ functions
    def function(self, fi, bind, cls, env0=None):
        """(completes, return value, witness)."""
        key = (id(fi.node), tuple(sorted((k, v.kind, repr(v.val)) for k, v in bind.items() if v.kind != "unk")), cls.qualname if cls else None)
        if env0 is None and key in self.memo:
            return self.memo[key]
        if len(self.stack) >= DEPTH or any(s is fi.node for s in self.stack):
            return True, UNK, fi.node
        self.stack.append(fi.node)
        self.followed.add(fi.short)
        env = dict(env0 or {})
        if not isinstance(fi.node, ast.Lambda):
            for n in local_names(fi.node):
                env[n] = UNBOUND
        env.update(bind)
        ctx = dict(fi=fi, cls=cls)
        self.witness = None
        try:
            if isinstance(fi.node, ast.Lambda):
                try:
                    r = (True, self.ev(fi.node.body, env, ctx), fi.node)
                except MustRaise:
                    r = (False, None, fi.node)
            else:
                outs = self.block(fi.node.body, env, ctx)
                live = [o for o in outs if o[0] in ("fall", "return")]
                if not live:
                    r = (False, None, next((o[3] for o in outs), fi.node))
                else:
                    vals = [o[2] if o[0] == "return" else NONE for o in live]
                    v = vals[0]
                    for x in vals[1:]:
                        v = join(v, x)
                    r = (True, v, live[0][3])
                self.last_raise = next((o[2] for o in outs if o[0] == "raise"), None)
        finally:
            self.stack.pop()
        if env0 is None:
            self.memo[key] = r + (self.last_raise if not r[0] and not isinstance(fi.node, ast.Lambda) else None,)
            return self.memo[key]
        return r + (None,)

    # ------------------------------------------------------------------ statements; outcome = (kind, env, value, node)
    def block(self, stmts, env, ctx):
        done = []
        for i, s in enumerate(stmts):
            try:
                outs = self.stmt(s, env, ctx)
            except MustRaise as e:
                outs = [("raise", env, e.name, s)]
            falls = [o for o in outs if o[0] == "fall"]
            done += [o for o in outs if o[0] != "fall"]
            if not falls:
                return done
            env = merge([o[1] for o in falls]) if len(falls) > 1 else falls[0][1]
            last = falls[-1][3]
        return done + [("fall", env, None, stmts[-1] if stmts else None)]

    def stmt(self, s, env, ctx):
        F = lambda e: [("fall", e, None, s)]
        if isinstance(s, ast.Expr):
            self.ev(s.value, env, ctx)
            return F(env)
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return F(env)
            v = self.ev(s.value, env, ctx)
            env = dict(env)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.bind(t, v, env, ctx)
            return F(env)
        if isinstance(s, ast.AugAssign):
            self.ev(s.value, env, ctx)
            if isinstance(s.target, ast.Name):
                v = self.ev(ast.copy_location(ast.Name(s.target.id, ast.Load()), s), env, ctx)
                env = dict(env)
                env[s.target.id] = OTHER if v.kind == "other" else UNK
            return F(env)
        if isinstance(s, ast.Return):
            return [("return", env, self.ev(s.value, env, ctx) if s.value is not None else NONE, s)]
        if isinstance(s, ast.Raise):
            n = None
            if s.exc is not None:
                n = dotted(s.exc.func if isinstance(s.exc, ast.Call) else s.exc)
            else:
                n = env.get("<exc>")
            return [("raise", env, (n or "Exception").split(".")[-1] if isinstance(n, str) else "Exception", s)]
        if isinstance(s, ast.Assert):
            t = self.test(s.test, env, ctx)
            return [("raise", env, "AssertionError", s)] if t is False else F(env)
        if isinstance(s, ast.If):
            t = self.test(s.test, env, ctx)
            out = []
            if t is not False:
                out += self.block(s.body, env, ctx)
            if t is not True:
                out += self.block(s.orelse, env, ctx) if s.orelse else [("fall", env, None, s)]
            return out
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            env = dict(env)
            if isinstance(s, ast.While):
                if self.test(s.test, env, ctx) is False:
                    return F(env)
            else:
                it = self.ev(s.iter, env, ctx)
                if it.kind in ("iter", "map"):
                    self.bind(s.target, it.val if it.kind == "iter" else it.val[0], env, ctx)
                    it = None
                if it is not None and it.kind in ("seq", "dict") and it.val and len(it.val) <= 30 and all(literal(x) for x in it.val):
                    return self.unroll(s, it.val, env, ctx)
                if it is not None:
                    v = OTHER if it.kind == "other" else UNK
                    if it.kind == "seq" and it.val and all(x.kind == "other" for x in it.val):
                        v = OTHER
                    self.bind(s.target, v, env, ctx)
            outs = self.block(s.body, env, ctx)
            ends = [o for o in outs if o[0] in ("fall", "continue")]
            breaks = [o for o in outs if o[0] == "break"]
            out = [o for o in outs if o[0] in ("return", "raise")]
            if ends:
                e = merge([o[1] for o in ends])
                out += self.block(s.orelse, e, ctx) if s.orelse else [("fall", e, None, s)]
            out += [("fall", o[1], None, s) for o in breaks]
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            env = dict(env)
            for it in s.items:
                v = self.ev(it.context_expr, env, ctx)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, UNK, env, ctx)
            return self.block(s.body, env, ctx)
        if isinstance(s, ast.Try):
            outs = self.block(s.body, env, ctx)
            out = []
            for o in outs:
                if o[0] == "raise":
                    h = next((h for h in s.handlers if catches(h, o[2])), None)
                    if h is None:
                        out.append(o)
                    else:
                        e = dict(o[1])
                        e["<exc>"] = o[2]
                        if h.name:
                            e[h.name] = UNK
                        out += self.block(h.body, e, ctx)
                elif o[0] == "fall" and s.orelse:
                    out += self.block(s.orelse, o[1], ctx)
                else:
                    out.append(o)
            if s.finalbody:
                fin = []
                for o in out:
                    for p in self.block(s.finalbody, o[1], ctx):
                        fin.append(o if p[0] == "fall" and o[0] != "fall" else p if p[0] != "fall" else ("fall", p[1], None, s))
                out = fin
            return out
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env = dict(env)
            env[s.name] = V("func", (s, ctx["fi"]))
            return F(env)
        if isinstance(s, ast.Break):
            return [("break", env, None, s)]
        if isinstance(s, ast.Continue):
            return [("continue", env, None, s)]
        if isinstance(s, ast.Match):
            v = self.ev(s.subject, env, ctx)
            out, rest = [], True
            for c in s.cases:
                t = self.pattern(c.pattern, v)
                if c.guard is not None and t is not False:
                    g = self.test(c.guard, env, ctx)
                    t = False if g is False else (t if g is True else None)
                if t is False:
                    continue
                out += self.block(c.body, env, ctx)
                if t is True:
                    rest = False
                    break
            if rest:
                out.append(("fall", env, None, s))
            return out
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            env = dict(env)
            for a in s.names:
                env.pop((a.asname or a.name).split(".")[0], None)
            return F(env)
        if isinstance(s, ast.ClassDef):
            env = dict(env)
            env[s.name] = UNK
            return F(env)
        return F(env)

    def unroll(self, s, vals, env, ctx):
        out = []
        for v in vals:
            env = dict(env)
            self.bind(s.target, v, env, ctx)
            outs = self.block(s.body, env, ctx)
            out += [("fall", o[1], None, s) if o[0] == "break" else o for o in outs if o[0] in ("return", "raise", "break")]
            ends = [o[1] for o in outs if o[0] in ("fall", "continue")]
            if not ends:
                return out
            env = merge(ends)
        return out + (self.block(s.orelse, env, ctx) if s.orelse else [("fall", env, None, s)])

    def pattern(self, p, v):
        if isinstance(p, ast.MatchAs):
            return True if p.pattern is None else self.pattern(p.pattern, v)
        if isinstance(p, ast.MatchOr):
            ts = [self.pattern(x, v) for x in p.patterns]
            return True if True in ts else (None if None in ts else False)
        if isinstance(p, (ast.MatchValue, ast.MatchSingleton)):
            self.tests += v.kind == "other"
            return False if v.kind == "other" else None
        return False if v.kind == "other" else None

    def bind(self, t, v, env, ctx):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = v.val if v.kind == "seq" and v.val is not None and len(v.val) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                self.bind(x, vals[i] if vals else UNK, env, ctx)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, UNK, env, ctx)
        elif isinstance(t, ast.Attribute):
            d = dotted(t)
            if d:
                env["." + d] = v

    # ------------------------------------------------------------------ expressions
    def path(self, e):
        """Attribute path of an expression, constant keys counted as attributes."""
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute):
            p = self.path(e.value)
            return p and p + "." + e.attr
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            p = self.path(e.value)
            return p and p + "." + e.slice.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get" and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
            p = self.path(e.func.value)
            return p and p + "." + e.args[0].value
        if isinstance(e, ast.Call) and dotted(e.func) == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            p = self.path(e.args[0])
            return p and p + "." + str(e.args[1].value)
        return None

    def seeded(self, e):
        if self.attrs and isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            p = self.path(e)
            if p and any(p == a[1:] if a[0] == "=" else p.endswith("." + a) for a in self.attrs):
                return True
        if self.calls and isinstance(e, ast.Call):
            n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
            a0 = e.args[0].value if e.args and isinstance(e.args[0], ast.Constant) else None
            if any(n == c[0] and (c[1] is None or a0 == c[1]) for c in self.calls):
                return True
        return False

    def test(self, e, env, ctx):
        return truth(self.ev(e, env, ctx))

    def ev(self, e, env, ctx):
        if e is None:
            return UNK
        if self.seeded(e):
            d = dotted(e)
            if d and "." + d in env:
                return env["." + d]
            return OTHER
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.Name):
            if e.id in env:
                v = env[e.id]
                if v.kind == "unbound":
                    raise MustRaise("UnboundLocalError", e)
                return v
            if e.id == "NotImplemented":
                return const(NotImplemented)
            r = self.pkg.lookup(ctx["fi"].module, e.id)
            if isinstance(r, tuple) and r[0] == "expr" and isinstance(r[2], (ast.Dict, ast.Tuple, ast.List, ast.Set, ast.Constant)):
                return self.ev(r[2], {}, dict(fi=ModFunc(r[1]), cls=None))
            return UNK
        if isinstance(e, ast.Attribute):
            d = self.path(e)
            if d and "." + d in env:
                return env["." + d]
            v = self.ev(e.value, env, ctx)
            if v.kind == "other" and not hasattr(str, e.attr):
                self.tests += 1
                raise MustRaise("AttributeError", e)
            if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and ctx["cls"] is not None:
                r = self.pkg.class_attr(ctx["cls"], e.attr)
                if isinstance(r, tuple) and r[0] == "expr" and isinstance(r[2], (ast.Dict, ast.Tuple, ast.List, ast.Set)):
                    return self.ev(r[2], {}, dict(fi=ModFunc(r[1]), cls=None))
            return UNK
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            vals = [self.ev(x.value if isinstance(x, ast.Starred) else x, env, ctx) for x in e.elts]
            if any(isinstance(x, ast.Starred) for x in e.elts):
                vals = [UNK] + [v for v in vals if v.kind != "unk"]
            return V("seq", vals)
        if isinstance(e, ast.Dict):
            if any(k is None for k in e.keys):
                return UNK
            ks = [self.ev(k, env, ctx) for k in e.keys]
            r = V("dict", ks)
            r.items = [const(NotImplemented) if dotted(x) == "NotImplemented" else const(x.value) if isinstance(x, ast.Constant) else TRUTHY if isinstance(x, ast.Name) and not env else UNK for x in e.values]
            return r
        if isinstance(e, ast.JoinedStr):
            return OTHER if any(isinstance(x, ast.FormattedValue) and self.ev(x.value, env, ctx).kind == "other" for x in e.values) else UNK
        if isinstance(e, ast.BoolOp):
            res, unknown = None, False
            for i, x in enumerate(e.values):
                try:
                    v = self.ev(x, env, ctx)
                except MustRaise:
                    if unknown:
                        break
                    raise
                t = truth(v)
                if isinstance(e.op, ast.And):
                    if t is False:
                        return FALSE if unknown or v.kind != "const" else v
                else:
                    if t is True:
                        return v if not unknown else V("truthy")
                if t is None:
                    unknown = True
                res = v
            return UNK if unknown else (res if res is not None else UNK)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env, ctx)
            if isinstance(e.op, ast.Not):
                t = truth(v)
                return UNK if t is None else const(not t)
            return UNK
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env, ctx), self.ev(e.right, env, ctx)
            if isinstance(e.op, ast.Add) and a.kind == b.kind == "seq" and a.val is not None and b.val is not None:
                return V("seq", a.val + b.val)
            if isinstance(e.op, (ast.Add, ast.Mod)) and ("other" in (a.kind, b.kind) or (b.kind == "seq" and b.val and any(x.kind == "other" for x in b.val))):
                return OTHER
            if isinstance(e.op, ast.Mult):
                for x in (a, b):
                    if x.kind == "seq" and x.val and all(y.kind == "other" for y in x.val):
                        return V("seq", [OTHER])
            return UNK
        if isinstance(e, ast.IfExp):
            t = self.test(e.test, env, ctx)
            if t is True:
                return self.ev(e.body, env, ctx)
            if t is False:
                return self.ev(e.orelse, env, ctx)
            return join(self.ev(e.body, env, ctx), self.ev(e.orelse, env, ctx))
        if isinstance(e, ast.Compare):
            return self.compare(e, env, ctx)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env, ctx)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.Subscript):
            d = self.path(e)
            if d and "." + d in env:
                return env["." + d]
            v = self.ev(e.value, env, ctx)
            if isinstance(e.slice, ast.Slice):
                if v.kind == "const" and isinstance(v.val, str):
                    b = [self.ev(x, env, ctx) if x is not None else NONE for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                    if all(x.kind == "const" for x in b):
                        return const(v.val[b[0].val:b[1].val:b[2].val])
                return OTHER if v.kind == "other" else UNK
            k = self.ev(e.slice, env, ctx)
            if v.kind == "other":
                return OTHER
            if v.kind == "seq" and v.val and all(x.kind == "other" for x in v.val):
                return OTHER
            if v.kind == "dict" and self.foreign(k):
                self.tests += 1
                if all(x.kind != "unk" for x in v.val):
                    raise MustRaise("KeyError", e)
            return UNK
        if isinstance(e, ast.Lambda):
            return V("func", (e, ctx["fi"]))
        if isinstance(e, ast.Call):
            return self.call(e, env, ctx)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            if len(e.generators) == 1 and not isinstance(e, ast.DictComp):
                it = self.ev(e.generators[0].iter, env, ctx)
                if it.kind in ("seq", "dict") and it.val and len(it.val) <= 30 and all(literal(x) for x in it.val):
                    vals = []
                    for x in it.val:
                        en = dict(env)
                        self.bind(e.generators[0].target, x, en, ctx)
                        ts = [self.test(c, en, ctx) for c in e.generators[0].ifs]
                        if False in ts:
                            continue
                        v = self.ev(e.elt, en, ctx)
                        vals.append(UNK if None in ts else v)
                    return V("seq", vals)
            env, foreign = dict(env), True
            for g in e.generators:
                it = self.ev(g.iter, env, ctx)
                if it.kind in ("iter", "map"):
                    self.bind(g.target, it.val if it.kind == "iter" else it.val[0], env, ctx)
                    foreign &= all(self.test(c, env, ctx) is True for c in g.ifs)
                    continue
                over = it.kind == "other" or (it.kind == "seq" and bool(it.val) and all(x.kind == "other" for x in it.val))
                self.bind(g.target, OTHER if over else UNK, env, ctx)
                foreign &= over and all(self.test(c, env, ctx) is True for c in g.ifs)
            if foreign:                                    # not empty: the element is evaluated
                for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                    v = self.ev(x, env, ctx)
                if not isinstance(e, ast.DictComp) and v.kind in ("other", "const"):
                    return V("seq", [v])
            return UNK
        if isinstance(e, ast.Starred):
            return self.ev(e.value, env, ctx)
        return UNK

    def foreign(self, k):
        return k.kind == "other" or (k.kind == "seq" and k.val and any(x.kind == "other" for x in k.val))

    def compare(self, e, env, ctx):
        vals = [self.ev(x, env, ctx) for x in [e.left] + e.comparators]
        res = True
        for op, a, b in zip(e.ops, vals, vals[1:]):
            t = None
            if self.foreign(a) or self.foreign(b):
                self.tests += 1
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                if a.kind == "const" and b.kind == "const":
                    t = a.val == b.val if type(a.val) is type(b.val) or not isinstance(a.val, bool) else None
                elif (a.kind == "other" and b.kind in ("const", "seq", "dict", "func")) or (b.kind == "other" and a.kind in ("const", "seq", "dict", "func")):
                    t = False
                elif "const" in (a.kind, b.kind) and {a.kind, b.kind} & {"seq", "dict", "func"}:
                    t = False
                elif NONE in (a, b) and "truthy" in (a.kind, b.kind):
                    t = False
                if t is not None and isinstance(op, (ast.NotEq, ast.IsNot)):
                    t = not t
            elif isinstance(op, (ast.In, ast.NotIn)):
                if self.foreign(a) and b.kind in ("seq", "dict") and b.val is not None:
                    t = None if any(x.kind == "unk" for x in b.val) else False
                    if a.kind == "other" and any(x.kind == "other" for x in b.val):
                        t = True if all(x.kind != "unk" for x in b.val) else None
                elif a.kind == "const" and b.kind == "other":
                    t = False
                elif a.kind == "other" and b.kind in ("unk", "map", "iter") and "<absent>" in env:
                    self.tests += 1
                    t = False
                elif a.kind == "const" and b.kind in ("seq", "dict") and b.val is not None and all(x.kind == "const" for x in b.val):
                    t = any(x.val == a.val for x in b.val)
                elif a.kind == b.kind == "const" and isinstance(a.val, str) and isinstance(b.val, str):
                    t = a.val in b.val
                if t is not None and isinstance(op, ast.NotIn):
                    t = not t
            elif a.kind == b.kind == "const" and isinstance(a.val, (int, float)) and isinstance(b.val, (int, float)):
                t = {ast.Lt: a.val < b.val, ast.LtE: a.val <= b.val, ast.Gt: a.val > b.val, ast.GtE: a.val >= b.val}.get(type(op))
            if t is False:
                return FALSE
            if t is None:
                res = None
        return TRUE if res else UNK

    # ------------------------------------------------------------------ calls
    def call(self, e, env, ctx):
        f = e.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        args = [self.ev(a, env, ctx) for a in e.args]
        kws = {k.arg: self.ev(k.value, env, ctx) for k in e.keywords}
        tainted = any(self.foreign(v) for v in args) or any(self.foreign(v) or v.kind == "map" for v in kws.values())
        if isinstance(f, ast.Name) and f.id not in env:
            if name == "isinstance" and args and args[0].kind == "other":
                self.tests += 1
                ts = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
                return const(any(dotted(t) in ("str", "object", "collections.abc.Sequence") for t in ts))
            if name == "isinstance" and args and args[0].kind == "const" and isinstance(args[0].val, str):
                ts = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
                return const(any(dotted(t) in ("str", "object", "collections.abc.Sequence") for t in ts))
            if name == "callable" and args and args[0].kind == "other":
                return FALSE
            if name in ("str", "repr") and args and args[0].kind == "other":
                return OTHER
            if name in ("int", "float", "complex") and args and args[0].kind == "other":
                raise MustRaise("ValueError", e)
            if name in ("getattr",) and len(args) == 2 and args[1].kind == "other":
                self.tests += 1
                raise MustRaise("AttributeError", e)
            if name == "getattr" and len(args) == 2 and "<getattr>" in env:
                return env["<getattr>"]
            if name == "isinstance" and args and args[0].kind == "map":
                return const(dotted(e.args[1]) in ("dict", "collections.abc.Mapping", "Mapping"))
            if name == "getattr" and len(args) == 3 and args[1].kind == "other":
                return args[2]
            if name == "hasattr" and len(args) == 2 and args[1].kind == "other":
                return FALSE
            if name in ("any", "all") and len(args) == 1 and args[0].kind == "seq" and args[0].val is not None:
                ts = [truth(x) for x in args[0].val]
                if name == "any":
                    return TRUE if True in ts else (UNK if None in ts else FALSE)
                return FALSE if False in ts else (UNK if None in ts else TRUE)
            if name in ("list", "tuple", "set", "frozenset", "sorted") and len(args) == 1 and args[0].kind in ("seq", "dict") and args[0].val is not None:
                return V("seq", args[0].val)
            if name in ("len", "print", "list", "tuple", "set", "dict", "bool", "type", "id", "sorted"):
                return UNK
        if isinstance(f, ast.Attribute):
            r = self.ev(f.value, env, ctx)
            if r.kind == "other":
                self.tests += 1
                if name in ("startswith", "endswith", "isdigit", "isnumeric"):
                    return FALSE
                return OTHER if name in STRSAFE else UNK
            if r.kind == "const" and isinstance(r.val, str) and name in ("format", "join") and tainted:
                return OTHER
            if r.kind == "const" and isinstance(r.val, str) and name in ("lower", "upper", "strip", "startswith", "endswith") and all(a.kind == "const" for a in args):
                return const(getattr(r.val, name)(*[a.val for a in args]))
            if r.kind == "dict" and name == "get" and args and self.foreign(args[0]):
                self.tests += 1
                return args[1] if len(args) > 1 else NONE
            if r.kind == "dict" and name == "get" and args and r.items is not None and literal(args[0]) and all(literal(k) for k in r.val):
                hits = [v for k, v in zip(r.val, r.items) if value(k) == value(args[0])]
                return hits[0] if hits else args[1] if len(args) > 1 else NONE
            if r.kind == "dict" and name == "pop" and len(args) == 1 and self.foreign(args[0]):
                raise MustRaise("KeyError", e)
            if r.kind in ("dict", "seq") and name == "index" and args and args[0].kind == "other":
                raise MustRaise("ValueError", e)
            if r.kind == "map" and name in ("items", "keys", "values"):
                return {"items": V("iter", V("seq", list(r.val))), "keys": V("iter", r.val[0]), "values": V("iter", r.val[1])}[name]
            if r.kind == "map" and name == "copy":
                return r
            if r.kind == "dict" and name in ("keys", "copy"):
                return r
            if dotted(f) in ("np.ndim", "numpy.ndim") and args and args[0].kind == "other":
                return const(0)
        if not isinstance(f, (ast.Name, ast.Attribute)):
            self.ev(f, env, ctx)
        outs = []
        for fi, cls, selfbound, env0 in self.targets(f, env, ctx, tainted):
            bind = self.arguments(fi, args, kws, e, selfbound, env)
            if isinstance(f, ast.Attribute) and (dotted(f.value) == "self" or (isinstance(f.value, ast.Call) and dotted(f.value.func) == "super")):
                bind.update({k: v for k, v in env.items() if k.startswith(".self.")})
            if bind is None:
                return UNK
            outs.append(self.function(fi, bind, cls, env0))
        if outs and all(not o[0] for o in outs):
            raise MustRaise(outs[0][3] or "Exception", e)
        live = [o for o in outs if o[0]]
        if live:
            v = live[0][1]
            for o in live[1:]:
                v = join(v, o[1])
            return v if v is not None else UNK
        return UNK

    def targets(self, f, env, ctx, tainted):
        """Package functions a call may reach: (function, class context, is self bound, closure environment)."""
        if not tainted and not (self.attrs or self.calls or any(v.kind == "other" for k, v in env.items() if k[0] == ".")):
            if not (isinstance(f, ast.Name) and f.id in env and env[f.id].kind == "func"):
                return []
        fi = ctx["fi"]
        if isinstance(f, ast.Name):
            if f.id in env:
                if env[f.id].kind == "func":
                    node, owner = env[f.id].val
                    return [(Nested(node, owner), ctx["cls"], False, env)]
                return []
            r = self.pkg.lookup(fi.module, f.id)
            return self.as_target(r)
        d = dotted(f)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and dotted(f.value.func) == "super" and ctx["cls"] is not None:
                m = self.pkg.find_method(ctx["cls"], f.attr, after=fi.cls)
                return [(m, ctx["cls"], True, None)] if m else []
            if isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and ctx["cls"] is not None:
                m = self.pkg.find_method(ctx["cls"], f.attr)
                if m is not None:
                    return [(m, ctx["cls"], not m.is_static, None)]
                return []
            if d and d.split(".")[0] not in env:
                r = self.pkg.resolve(fi.module, d)
                if r is not None:
                    return self.as_target(r)
            if tainted and f.attr not in GENERIC:
                ms = [(m, c, True, None) for c in all_classes(self.pkg) for m in [c.methods.get(f.attr)] if m is not None]
                return ms if len(ms) <= 12 else []
        return []

    def as_target(self, r):
        if isinstance(r, FuncInfo):
            return [(r, r.cls, False, None)]
        if isinstance(r, ClassInfo):
            m = self.pkg.find_method(r, "__init__")
            return [(m, r, True, None)] if m else []
        return []

    def arguments(self, fi, args, kws, e, selfbound, env):
        a = fi.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        bind = {}
        if selfbound and names:
            bind[names[0]] = UNK
            names = names[1:]
        elif not selfbound and names and names[0] in ("self", "cls") and fi.cls is not None and args:
            pass
        star = any(isinstance(x, ast.Starred) for x in e.args)
        for p in names + [p.arg for p in a.kwonlyargs]:
            bind[p] = UNK
        if not star:
            for p, v in zip(names, args):
                bind[p] = v
            # defaults of parameters that get no argument
            if not any(k.arg is None for k in e.keywords):
                defs = dict(zip([p.arg for p in a.posonlyargs + a.args][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
                defs.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
                for p in names[len(args):] + [p.arg for p in a.kwonlyargs]:
                    if p in defs and p not in kws and isinstance(defs[p], ast.Constant):
                        bind[p] = const(defs[p].value)
        for k, v in kws.items():
            if k in bind:
                bind[k] = v
        if a.vararg:
            bind[a.vararg.arg] = V("seq", args[len(names):]) if not star and len(args) > len(names) else UNK
        if a.kwarg:
            bind[a.kwarg.arg] = kws[None] if None in kws and kws[None].kind == "map" else UNK
        for k in ("<absent>", "<getattr>"):
            if k in env:
                bind[k] = env[k]
        return bind


def literal(v):
    return v.kind == "const" or (v.kind == "seq" and v.val is not None and all(literal(x) for x in v.val))


def value(v):
    return v.val if v.kind == "const" else tuple(value(x) for x in v.val)


GENERIC = {"get", "copy", "update", "append", "extend", "format", "join", "split", "info", "debug", "warning", "error", "debugv", "infov", "critical", "output", "timing", "timingv", "__init__", "items", "values", "keys", "write"}


class ModFunc:
    def __init__(self, module):
        self.module, self.cls = module, None


class Nested(FuncInfo):
    def __init__(self, node, owner):
        FuncInfo.__init__(self, owner.module, node, cls=owner.cls, name=getattr(node, "name", "<lambda>"), parent=owner if isinstance(owner, FuncInfo) else None)


def all_classes(pkg):
    if not hasattr(pkg, "_all_classes"):
        out = []
        for m in pkg.modules.values():
            todo = list(m.classes.values())
            while todo:
                c = todo.pop()
                out.append(c)
                todo.extend(c.inner.values())
        pkg._all_classes = out
    return pkg._all_classes


def local_names(fn):
    out, glob = set(), set()
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out - glob


# choice -> (description, [(function, parameters / attributes / calls that hold it)])
P, A, C = "param", "attr", "call"
CHOICES = [
    ("truncation of bath orbitals", [("core.bath.bno.BNO_Threshold.__init__", P, "type")]),
    ("bath orbital type", [("core.bath.bno.BNO_Bath.__init__", P, "occtype"), ("core.bath.ewdmet.EwDMET_Bath_RHF.__init__", P, "occtype"),
                           ("core.bath.full.Full_Bath_RHF.__init__", P, "occtype"), ("core.bath.r2bath.R2_Bath_RHF.__init__", P, "occtype")]),
    ("bath type", [("core.qemb.fragment.Fragment.make_bath", C, ("_get_bath_option", "bathtype")), ("core.qemb.fragment.Fragment.make_cluster", C, ("_get_bath_option", "bathtype"))]),
    ("projection of MP2 bath", [("core.bath.bno.MP2_BNO_Bath._get_dmet_projector_weights", A, "project_dmet_mode")]),
    ("unit of R2 bath", [("core.bath.r2bath.R2_Bath_RHF.get_bath", P, "unit")]),
    ("bosonic bath type", [("core.qemb.fragment.Fragment.make_bosonic_bath_target", A, "bosonic_bath_options.bathtype"), ("core.qemb.fragment.Fragment.make_bosonic_cluster", A, "bosonic_bath_options.bathtype")]),
    ("bosonic target orbitals", [("core.bosonic_bath.qba_rpa.RPA_Boson_Target_Space.get_c_target", A, "target_orbitals"), ("core.bosonic_bath.qba_rpa.RPA_Boson_Target_Space._get_target_orbitals", A, "target_orbitals")]),
    ("bosonic local projection", [("core.bosonic_bath.qba_rpa.RPA_Boson_Target_Space.get_c_loc", A, "local_projection")]),
    ("bosonic truncation", [("core.bosonic_bath.bbath.Boson_Threshold.__init__", P, "type")]),
    ("correlation function", [("core.qemb.corrfunc.get_corrfunc_mf", P, "kind"), ("core.qemb.corrfunc.get_corrfunc", P, "kind"), ("core.qemb.corrfunc.get_corrfunc_unrestricted", P, "kind")]),
    ("atomic projection", [("core.qemb.qemb.Embedding._get_atom_projectors", P, "projection"), ("core.qemb.corrfunc.get_corrfunc_mf", P, "projection"), ("core.qemb.corrfunc.get_corrfunc", P, "projection"), ("core.qemb.corrfunc.get_corrfunc_unrestricted", P, "projection")]),
    ("overlap key", [("core.qemb.fragment.Fragment.get_overlap.<locals>._get_coeff", P, "key")]),
    ("external RPA correction", [("core.qemb.qemb.Embedding.build_screened_eris", A, "opts.ext_rpa_correction"), ("core.qemb.fragment.Fragment.get_local_rpa_correction", A, "opts.ext_rpa_correction")]),
    ("screening", [("solver.hamiltonian.RClusterHamiltonian._add_screening", A, "opts.screening")]),
    ("symmetry type", [("core.qemb.qemb.Embedding.create_symmetric_fragments", A, "=symmetry.type")]),
    ("symmetry unit", [("core.qemb.qemb.Embedding.create_symmetric_fragments.<locals>.to_bohr", P, "unit"), ("core.symmetry.tsymmetry.to_bohr", P, "unit")]),
    ("average", [("core.qemb.qemb.Embedding.get_average_cluster_size", P, "average")]),
    ("local orbitals", [("core.qemb.qemb.Embedding.get_lo_coeff", P, "local_orbitals"), ("core.qemb.qemb.Embedding.pop_analysis", P, "local_orbitals")]),
    ("boundary condition", [("core.symmetry.tsymmetry.reorder_atoms", P, "boundary"), ("core.symmetry.operation.SymmetryTranslation.boundary_phases", A, "boundary"),
                            ("lattmod.latt.Hubbard1D.__init__", P, "boundary"), ("lattmod.latt.Hubbard2D.__init__", P, "boundary")]),
    ("DIIS variable of Brueckner", [("core.scmf.brueckner.Brueckner_RHF.__init__", P, "diis_obj")]),
    ("canonicalization of Brueckner orbitals", [("misc.brueckner.update_mf", P, "canonicalize")]),
    ("solver", [("solver._get_solver_class", P, "solver"), ("solver.check_solver_config", P, "solver"), ("solver.get_solver_class", P, "solver"),
                ("core.qemb.qemb.Embedding.check_solver", P, "solver"), ("core.qemb.fragment.Fragment.check_solver", P, "solver"),
                ("ewf.fragment.Fragment.kernel", P, "solver"), ("dmet.fragment.DMETFragment.kernel", P, "solver"), ("edmet.fragment.EDMETFragment.kernel", P, "solver")]),
    ("solver without density matrix", [("ewf.ewf.EWF.make_rdm1", A, "solver"), ("ewf.ewf.EWF.make_rdm2", A, "solver")]),
    ("initial guess", [("solver.fci.FCI_Solver.kernel", A, "opts.init_guess"), ("solver.ccsd.RCCSD_Solver.generate_init_guess", A, "opts.init_guess")]),
    ("energy functional", [("ewf.ewf.EWF.get_e_corr", P, "functional"), ("ewf.ewf.EWF.get_e_corr", A, "opts.energy_functional", {"functional": NONE})]),
    ("density matrix of the energy", [("ewf.ewf.EWF.get_dm_corr_energy_e1", P, "dm1"), ("ewf.ewf.EWF.get_dm_corr_energy_e2", P, "dm2"), ("ewf.ewf.EWF.get_dm_corr_energy", P, "dm1"), ("ewf.ewf.EWF.get_dm_corr_energy", P, "dm2")]),
    ("projected axis", [("ewf.fragment.Fragment.get_fragment_energy", P, "axis1")]),
    ("order of opposite-spin amplitudes", [("ewf.ufragment.Fragment.get_fragment_energy", P, "c2ba_order"), ("ewf.urdm.make_rdm1_ccsd", P, "ba_order")]),
    ("external correction", [("ewf.fragment.Fragment.add_external_corrections", P, "correction_type")]),
    ("external correction of the solver", [("ewf.fragment.Fragment.add_external_corrections", A, "solver")]),
    ("stored wave function", [("ewf.fragment.Fragment.kernel", A, "opts.store_wf_type", {"solver": const("CCSD")})]),
    ("(T) projection", [("ewf.ccsd_t.calc_fragment_rccsd_t_energy", P, "project"), ("ewf.ccsd_t.calc_fragment_uccsd_t_energy", P, "project")]),
    ("double counting of intercluster MP2", [("ewf.icmp2.get_intercluster_mp2_energy_rhf", P, "project_dc"), ("ewf.icmp2.get_intercluster_mp2_energy_uhf", P, "project_dc")]),
    ("mixing variable", [("dmet.dmet.DMET.kernel", A, "opts.mixing_variable"), ("edmet.edmet.EDMET.kernel", A, "opts.mixing_variable")]),
    ("bosonic interaction", [("edmet.fragment.EDMETFragment.construct_boson_hamil", A, "opts.bosonic_interaction")]),
    ("exchange-correlation kernel", [("edmet.edmet.EDMET.run_exact_full_ac", P, "xc_kernel"), ("rpa.rpa.RPA.get_interaction_kernel", P, "xc_kernel"), ("rpa.rpa.RPA.kernel", P, "xc_kernel")]),
    ("projector of excitations", [("edmet.fragment.EDMETFragment.get_fragment_projector_ov", P, "proj"), ("edmet.ufragment.UEDMETFragment.get_fragment_projector_ov", P, "proj")]),
    ("integral deduction of RI-RPA", [("rpa.rirpa.RIRPA.ssRIRRPA._kernel_mom0", P, "integral_deduct"), ("rpa.rirpa.RIdRRPA.ssRIdRRPA._kernel_mom0", P, "integral_deduct")]),
    ("correction of the RI-RPA energy", [("rpa.rirpa.RIRPA.ssRIRRPA.kernel_energy", P, "correction", {".self.rixc": TRUTHY})]),
    ("counterpoise unit", [("misc.counterpoise.make_cp_mol", P, "unit", {"rmax": TRUTHY})]),
    ("unit cell", [("misc.solids.solids.rocksalt", P, "unitcell")]),
    ("molecule variants", [("misc.molecules.molecules.alkane", P, "numbering"), ("misc.molecules.molecules.ferrocene", P, "conformation")]),
    ("integral block", [("core.ao2mo.helper.get_block", P, "block")]),
    ("transformation driver", [("core.ao2mo.kao2gmo.kao2gmo_cderi", P, "driver")]),
    ("mpi library", [("mpi.interface.MPI_Interface.__init__", P, "mpi")]),
]


# combinations of choices that the function does not support: (what, function, values)
COMBINATIONS = [
    ("truncation by electron percentage of a bosonic bath", "core.bosonic_bath.bbath.Boson_Threshold.__init__", {"type": const("electron-percent")}),
    ("truncation by excited percentage of a bosonic bath", "core.bosonic_bath.bbath.Boson_Threshold.__init__", {"type": const("excited-percent")}),
    ("bosonic bath of an unrestricted embedding", "core.qemb.qemb.Embedding.build_bosonic_bath", {".self.spinsym": const("unrestricted")}),
    ("charge correlation of an unrestricted mean-field", "core.qemb.corrfunc.get_corrfunc_mf", {"kind": const("n,n"), ".emb.spinsym": const("unrestricted")}),
    ("charge correlation of an unrestricted mean-field", "core.qemb.corrfunc.get_corrfunc_mf", {"kind": const("dn,dn"), ".emb.spinsym": const("unrestricted")}),
    ("charge correlation of an unrestricted embedding", "core.qemb.corrfunc.get_corrfunc_unrestricted", {"kind": const("n,n")}),
    ("charge correlation of an unrestricted embedding", "core.qemb.corrfunc.get_corrfunc_unrestricted", {"kind": const("dn,dn")}),
    ("unrestricted coupled CCSD", "solver._get_solver_class_internal", {"solver": const("coupledCCSD"), "is_uhf": TRUE, "is_eb": FALSE}),
    ("screening without protocol", "solver.hamiltonian.RClusterHamiltonian._add_screening", {".self.opts.screening": NONE}),
    ("static use of frequency-dependent screening", "solver.hamiltonian.RClusterHamiltonian._add_screening", {".self.opts.screening": const("crpa_full")}),
    ("self-consistent DMET with MP2 bath", "dmet.dmet.DMET.kernel", {".self.opts.maxiter": const(10), ".self.opts.bath_options.bathtype": const("mp2"), "<only>": TRUE}),
    ("high-level integrals in a tailored cluster", "ewf.fragment.Fragment.add_external_corrections", {"correction_type": const("tailor"), "low_level_coul": FALSE}),
    ("high-level integrals in a tailored cluster", "ewf.fragment.Fragment.add_external_corrections", {"correction_type": const("delta-tailor"), "low_level_coul": FALSE}),
    ("external correction of an MP2 cluster", "ewf.fragment.Fragment.add_external_corrections", {".self.solver": const("MP2")}),
    ("periodic EDMET exchange-correlation kernel by name", "edmet.edmet.EDMET.run_exact_full_ac", {"xc_kernel": const("rpax")}),
]

# an option that does not exist: a key of the keyword arguments (or of a dictionary option) that is no field
NAMED, NESTED = V("map", (OTHER, UNK)), V("map", (UNK, V("map", (OTHER, UNK))))
OPTIONS = [
    ("core.util.OptionsBase.replace", NAMED), ("core.util.OptionsBase.replace", NESTED), ("core.qemb.qemb.Embedding.__init__", NAMED), ("core.qemb.qemb.Embedding.__init__", NESTED),
    ("core.qemb.qemb.Embedding.change_options", NAMED), ("core.qemb.qemb.Embedding.change_options", NESTED), ("core.qemb.fragment.Fragment.__init__", NAMED), ("core.qemb.fragment.Fragment.__init__", NESTED),
    ("core.qemb.fragment.Fragment.change_options", NAMED), ("core.qemb.fragment.Fragment.change_options", NESTED), ("solver.eb_fci.ebfci.REBFCI.__init__", NAMED),
]
COMBINATIONS += [("option that does not exist" if v is NAMED else "key of an option that does not exist", f, {"kwargs": v, "<absent>": TRUE, "<getattr>": V("map", (UNK, UNK))}) for f, v in OPTIONS]

EXEMPT = {
    "solver.hamiltonian.EB_RClusterHamiltonian._add_screening": "never screens: its bosons carry the screening",
    "rpa.rirpa.RIdRRPA.ssRIdRRPA.kernel_energy": "direct RPA has no exchange-correlation kernel to correct for",
}


def find_function(pkg, path):
    parts = path.split(".<locals>.")
    fi = pkg.resolve_abs("vayesta." + parts[0])
    if not isinstance(fi, FuncInfo):
        return None
    for p in parts[1:]:
        n = next((x for x in ast.walk(fi.node) if isinstance(x, ast.FunctionDef) and x.name == p), None)
        if n is None:
            return None
        fi = Nested(n, fi)
    return fi


def overriding(pkg, fi):
    """The function and those that override it in subclasses."""
    out = [fi]
    if fi.cls is None or fi.parent is not None:
        return out
    for c in all_classes(pkg):
        if c is not fi.cls and fi.cls in pkg.mro(c) and fi.name in c.methods and c.methods[fi.name] is not fi:
            out.append(c.methods[fi.name])
    return out


def analyse(prop, tier):
    pkg = Package()
    res = Result()
    n = tests = 0
    followed, missing, samples = set(), [], []
    todo = [(what, path, kind, key, given[0] if given else {}) for what, places in CHOICES for path, kind, key, *given in places]
    todo += [(what, path, None, None, given) for what, path, given in COMBINATIONS]
    for what, path, kind, key, given in todo:
        fi = find_function(pkg, path)
        if fi is None:
            missing.append(path)
            continue
        for f in [fi] if "<only>" in given else overriding(pkg, fi):
            if f.short in EXEMPT:
                continue
            a = f.node.args
            bind = {p.arg: UNK for p in a.posonlyargs + a.args + a.kwonlyargs}
            for x in (a.vararg, a.kwarg):
                if x is not None:
                    bind[x.arg] = UNK
            if kind == P and key not in bind or any(k[0] not in ".<" and k not in bind for k in given):
                if f is fi:
                    missing.append("%s(%s)" % (path, key))
                continue
            if kind == P:
                bind[key] = OTHER
            bind.update(given)
            it = Interp(pkg, attrs=[key] if kind == A else (), calls=[key] if kind == C else ())
            done, v, where, _ = it.function(f, bind, f.cls)
            n += 1
            tests += it.tests
            followed |= it.followed
            if not done:
                continue
            name = key if isinstance(key, str) else key[1] if key else ", ".join("%s=%r" % (k.lstrip("."), v.val) for k, v in sorted(given.items()) if k[0] != "<" and v.kind != "map") or "kwargs"
            what2 = "an unsupported value of %s (%s)" % (what, name) if kind else "unsupported: %s (%s)" % (what, name)
            res.findings.append(Finding("C12", "accepted", f.short, "%s=%s" % (what, name), f.loc(where), "%s does not raise: %r is reached" % (
                what2, ast.unparse(where).split("\n")[0][:70])))
    res.coverage = dict(choices=len(CHOICES), combinations=len(COMBINATIONS), places=n, decisions=tests, functions=sorted(followed)[:200], functions_followed=len(followed), missing=missing)
    res.floors = dict(places=60, decisions=100)
    res.explanation = "Every function listed in CHOICES (and every method overriding it) was interpreted with the choice set to a name the source does not mention; rule: no path completes normally, undecided tests followed both ways and calls that get the choice followed into the package."
    res.assumptions = ["a loop runs at least once", "a use of a variable that is unassigned on the path raises"]
    return res
