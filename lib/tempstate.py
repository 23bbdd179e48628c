"""C15: state that is changed temporarily is restored on every way out.

For every temporary change (a saved attribute that is replaced and put back, log indentation, an entry pushed on a
register around a yield, a lock, a file, setattr over saved values, a flag set by __enter__) the restoring statement must
be reached whatever the statements in between do: it stands in a finally block, in __exit__ before anything that may
raise or return, or nothing in between can raise."""
import ast

from harness import Finding, Result
from pkg import FuncInfo, Package, dotted

LOCKS = {"rma_lock": "rma_unlock", "Lock": "Unlock", "Lock_all": "Unlock_all", "acquire": "release", "lock": "unlock", "__enter__": "__exit__"}
PUSH = {"append": {"pop", "remove"}, "push": {"pop"}, "add": {"remove", "discard", "pop"}}
OPENERS = {"open", "h5py.File", "gzip.open", "tempfile.mkdtemp", "tempfile.mkstemp", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "io.open", "os.open", "mkdtemp", "mkstemp", "File"}
CLOSERS = {"close", "rmtree", "unlink", "remove", "cleanup"}
LOGGERS = {"debug", "debugv", "debugvv", "info", "infov", "warning", "error", "critical", "timing", "timingv", "output", "trace", "log", "deprecated", "fatal"}
SAFE_CALLS = {"len", "isinstance", "issubclass", "timer", "id", "str", "repr", "bool", "getattr", "hasattr", "list", "dict", "tuple", "set", "print", "locals", "type",
              "default_timer", "perf_counter", "time", "time_string", "callable", "super", "getLogger", "max", "min", "abs", "items", "keys", "values"}


def const_num(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, (int, float)):
        return -e.operand.value
    return e.value if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool) else None


def text(e):
    return ast.unparse(e)


def walk_local(node):
    """Nodes of a function without those of nested functions and classes."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            stack.extend(ast.iter_child_nodes(n))


def safe_expr(e):
    """Evaluating the expression cannot realistically raise."""
    if e is None:
        return True
    todo = [e]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Lambda):
            continue
        todo.extend(ast.iter_child_nodes(n))
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if isinstance(f, ast.Attribute) and (name in LOGGERS or name in ("changeIndentLevel", "setIndentLevel", "append", "__get__")):
                continue
            if name in SAFE_CALLS:
                continue
            return False
    return True


def safe(s):
    """The statement neither raises, nor leaves the block."""
    if isinstance(s, (ast.Pass, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
        return True
    if isinstance(s, ast.Expr):
        return safe_expr(s.value)
    if isinstance(s, ast.Assign):
        return safe_expr(s.value) and all(safe_expr(t) for t in s.targets)
    if isinstance(s, (ast.AugAssign, ast.AnnAssign)):
        return safe_expr(s.value)
    if isinstance(s, ast.Delete):
        return True
    if isinstance(s, ast.If):
        return safe_expr(s.test) and all(safe(x) for x in s.body + s.orelse)
    if isinstance(s, ast.For):
        return safe_expr(s.iter) and all(safe(x) for x in s.body + s.orelse)
    return False


def blocks(node):
    """(statement list, parent statement, field) of every block of a function, nested functions excluded."""
    stack = [(node, f) for f in ("body",)]
    while stack:
        n, f = stack.pop()
        lst = getattr(n, f, None)
        if not isinstance(lst, list) or not lst or not isinstance(lst[0], ast.stmt):
            continue
        yield lst, n, f
        for s in lst:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            for g in ("body", "orelse", "finalbody"):
                stack.append((s, g))
            for h in getattr(s, "handlers", []):
                stack.append((h, "body"))


class Key:
    """A temporary change: how to recognise the statements that make it and undo it."""

    def __init__(self, kind, what, release, acquire, construct=None, saved=None):
        self.kind, self.what, self.release, self.acquire = kind, what, release, acquire
        self.construct = construct or what
        self.saved = saved or set()


def calls_in(s):
    """Calls a simple statement performs directly (its own expression, an assigned value or a returned one)."""
    out = []
    if isinstance(s, (ast.Expr, ast.Assign, ast.Return, ast.AnnAssign)) and s.value is not None:
        v = s.value
        if isinstance(v, ast.Call):
            out.append(v)
        if isinstance(v, (ast.Yield,)) and isinstance(v.value, ast.Call):
            out.append(v.value)
    return out


def method_call(c):
    return (text(c.func.value), c.func.attr) if isinstance(c.func, ast.Attribute) else (None, c.func.id if isinstance(c.func, ast.Name) else None)


class Function:
    def __init__(self, fi, findings, counts, ctxmgr):
        self.fi, self.node, self.findings, self.counts = fi, fi.node, findings, counts
        self.ctxmgr = ctxmgr
        self.where = {}
        for lst, parent, field in blocks(self.node):
            for i, s in enumerate(lst):
                self.where[s] = (lst, i, parent, field)
        self.is_gen_cm = any(n.split(".")[-1] in ("contextmanager", "asynccontextmanager") for n in fi.decorator_names())
        self.helpers = {}
        if fi.cls is not None:
            selfname = fi.params()[0] if fi.params() else None
            for name, m in fi.cls.methods.items():
                if m.node is not self.node and selfname and m.params()[:1] == [selfname]:
                    self.helpers["%s.%s" % (selfname, name)] = m.node
        for name, m in getattr(fi.module, "functions", {}).items():
            self.helpers.setdefault(name, m.node)
        self.yields = [n for n in walk_local(self.node) if isinstance(n, (ast.Yield, ast.YieldFrom))]

    def calls_in(self, s):
        """Calls of a statement, and those of the straight-line helper it calls."""
        out = calls_in(s)
        for c in list(out):
            h = self.helpers.get(dotted(c.func) or "")
            if h is not None and h.name not in LOCKS and h.name not in LOCKS.values() and not h.decorator_list and all(isinstance(x, (ast.Expr, ast.Assign)) for x in h.body):
                for x in h.body:
                    out.extend(calls_in(x))
        return out

    def report(self, s, rule, con, msg):
        self.findings.append(Finding("C15", rule, self.fi.short, con, self.fi.loc(s), msg))

    # ------------------------------------------------------------- which temporary changes a function makes
    def keys(self):
        out = []
        stmts = list(self.where)
        # log indentation
        ind = {}
        for s in stmts:
            for c in self.calls_in(s):
                r, m = method_call(c)
                if m == "changeIndentLevel" and len(c.args) + len(c.keywords) == 1:
                    d = const_num(c.args[0] if c.args else c.keywords[0].value)
                    if d is not None and d:
                        ind.setdefault(abs(d), {}).setdefault(d > 0, []).append(s)
        for d, x in ind.items():
            if True in x:
                out.append(Key("indent", "the log indentation", set(x.get(False, [])), x[True], "changeIndentLevel(%s)" % d))
            elif self.node.name != "__exit__" and False in x:      # lowered first, raised later
                pass
        sets = sorted((s for s in stmts if any(method_call(c)[1] == "setIndentLevel" for c in self.calls_in(s))), key=lambda s: s.lineno)
        if len(sets) > 1:
            out.append(Key("indent", "the log indentation", set(sets[1:]), sets[:1], "setIndentLevel"))
        # saved and replaced attributes
        saves = {}
        for s in stmts:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
                p = self.attr_path(s.value)
                if p and (isinstance(s.targets[0], ast.Name)):
                    saves.setdefault(s.targets[0].id, []).append((p, s))
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts):
                for t, v in zip(s.targets[0].elts, s.value.elts):
                    p = self.attr_path(v)
                    if p and isinstance(t, ast.Name):
                        saves.setdefault(t.id, []).append((p, s))
        for v, lst in saves.items():
            for p, sv in lst:
                writes = [s for s in stmts if self.assigns(s, p)]
                rel = {s for s in writes if self.assigned_name(s, p) == v}
                acq = [s for s in writes if s not in rel and (s is sv or s.lineno > sv.lineno) and any(r.lineno > s.lineno for r in rel)]
                if rel and acq:
                    out.append(Key("attr", "%s" % p, rel, acq, p))
        # += and -= of the same amount
        aug = {}
        for s in stmts:
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Attribute) and isinstance(s.op, (ast.Add, ast.Sub)):
                aug.setdefault((text(s.target), text(s.value)), {}).setdefault(type(s.op), []).append(s)
        for (p, d), x in aug.items():
            if len(x) == 2:
                a, b = sorted(x.values(), key=lambda l: l[0].lineno)
                if all(self.where[s][0] is self.where[t][0] for s in a for t in b) or self.is_gen_cm:
                    out.append(Key("attr", p, set(b), a, p))
        # locks and the like
        for s in stmts:
            for c in self.calls_in(s):
                r, m = method_call(c)
                if m in LOCKS and r is not None and not r.startswith("super("):
                    rel = {t for t in stmts for d in self.calls_in(t) if method_call(d) == (r, LOCKS[m])}
                    if rel or (m in ("rma_lock", "Lock", "Lock_all", "acquire") and isinstance(s, (ast.Expr, ast.Assign)) and not all(t is s or safe(t) or isinstance(t, ast.Return) and safe_expr(t.value) for t in stmts)):
                        out.append(Key("lock", "%s.%s()" % (r, m), rel, [s], "%s.%s" % (r, m)))
        # files
        for s in stmts:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call) and dotted(s.value.func) in OPENERS:
                n = s.targets[0].id
                rel = {t for t in stmts for d in self.calls_in(t) if (method_call(d)[0] == n and method_call(d)[1] in CLOSERS) or (method_call(d)[1] in CLOSERS and any(isinstance(a, ast.Name) and a.id == n for a in d.args))}
                if rel or not self.escapes(n):
                    out.append(Key("file", "the file opened as %r" % n, rel, [s], n))
        # registers around a yield
        if self.is_gen_cm and self.yields:
            y = min(n.lineno for n in self.yields)
            for s in stmts:
                for c in self.calls_in(s):
                    r, m = method_call(c)
                    if m in PUSH and r is not None and "." in r and s.lineno < y:
                        rel = {t for t in stmts for d in self.calls_in(t) if method_call(d)[0] == r and method_call(d)[1] in PUSH[m]}
                        if rel:
                            out.append(Key("register", r, rel, [s], r))
                if s.lineno < y and isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Attribute):
                            p = text(t)
                            if any(k.kind == "attr" and k.what == p for k in out):
                                continue
                            rel = {u for u in stmts if u.lineno > y and self.assigns(u, p)}
                            out.append(Key("attr", p, rel, [s], p))
        # setattr over saved values
        sets = [s for s in stmts if any(method_call(c) == (None, "setattr") and len(c.args) == 3 for c in self.calls_in(s))]
        if sets:
            for obj in {text(self.setcall(s).args[0]) for s in sets}:
                mine = [s for s in sets if text(self.setcall(s).args[0]) == obj]
                saved = self.saved_maps(obj)
                rel = {s for s in mine if self.restores(s, saved)}
                acq = [s for s in mine if s not in rel]
                helper = saved and any(isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and any(isinstance(a, ast.Name) and a.id in saved for a in s.value.args) for s in stmts)
                if (rel or helper) and acq:
                    out.append(Key("attr", "attributes of %s" % obj, rel, acq, "setattr(%s)" % obj, set(saved)))
                    self.check_saved_first(obj, saved, acq)
                elif self.is_gen_cm and self.yields and acq and not rel:
                    out.append(Key("attr", "attributes of %s" % obj, set(), acq, "setattr(%s)" % obj))
        return out

    def setcall(self, s):
        return next(c for c in self.calls_in(s) if method_call(c) == (None, "setattr"))

    def saved_maps(self, obj):
        """Local containers filled with getattr(obj, ...): name -> statements that fill it."""
        out = {}
        for s in self.where:
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                has = any(isinstance(n, ast.Call) and method_call(n)[1] == "getattr" and n.args and text(n.args[0]) == obj for n in ast.walk(s.value))
                t = s.targets[0]
                if has and isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    out.setdefault(t.value.id, []).append(s)
                elif has and isinstance(t, ast.Name):
                    out.setdefault(t.id, []).append(s)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and method_call(s.value)[1] in ("append", "update", "setdefault", "add"):
                if any(isinstance(n, ast.Call) and method_call(n)[1] == "getattr" and n.args and text(n.args[0]) == obj for a in s.value.args for n in ast.walk(a)):
                    out.setdefault(method_call(s.value)[0], []).append(s)
        return out

    def restores(self, s, saved):
        """The value set comes from a container of saved values."""
        v = self.setcall(s).args[2]
        if not isinstance(v, (ast.Name, ast.Subscript)):
            return False
        names = {n.id for n in ast.walk(v) if isinstance(n, ast.Name)}
        if names & set(saved):
            return True
        p = self.where[s][2]
        while p is not None and p is not self.node:
            if isinstance(p, ast.For):
                targets = {n.id for n in ast.walk(p.target) if isinstance(n, ast.Name)}
                if names & targets and any(isinstance(n, ast.Name) and n.id in saved for n in ast.walk(p.iter)):
                    return True
            p = self.where[p][2] if p in self.where else self.handler_parent(p)
        return False

    def handler_parent(self, h):
        for s in self.where:
            if isinstance(s, ast.Try) and h in s.handlers:
                return s
        return None

    def check_saved_first(self, obj, saved, acq):
        for name, fills in saved.items():
            for f in fills:
                lst, i, parent, _ = self.where[f]
                for a in acq:
                    b = a
                    while b in self.where and self.where[b][0] is not lst:
                        b = self.where[b][2]
                    if b in self.where and self.where[b][0] is lst and self.where[b][1] < i and a.lineno < f.lineno:
                        self.report(f, "saved-late", "setattr(%s)" % obj, "the original attribute of %s is saved after it has been replaced" % obj)

    def attr_path(self, e):
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            if d == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                return "%s.%s" % (text(e.args[0]), e.args[1].value)
            if d in ("copy.copy", "copy.deepcopy", "deepcopy", "list", "dict") and len(e.args) == 1:
                return self.attr_path(e.args[0])
            if isinstance(e.func, ast.Attribute) and e.func.attr == "copy" and not e.args:
                return self.attr_path(e.func.value)
            return None
        return text(e) if isinstance(e, ast.Attribute) and dotted(e) else None

    def assigns(self, s, p):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    if isinstance(x, ast.Attribute) and text(x) == p:
                        return True
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Attribute):
            return text(s.target) == p
        for c in self.calls_in(s):
            if method_call(c) == (None, "setattr") and len(c.args) == 3 and isinstance(c.args[1], ast.Constant):
                return "%s.%s" % (text(c.args[0]), c.args[1].value) == p
        return False

    def assigned_name(self, s, p):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Attribute) and text(t) == p and isinstance(s.value, ast.Name):
                    return s.value.id
                if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                    for x, v in zip(t.elts, s.value.elts):
                        if isinstance(x, ast.Attribute) and text(x) == p and isinstance(v, ast.Name):
                            return v.id
        for c in self.calls_in(s):
            if method_call(c) == (None, "setattr") and isinstance(c.args[2], ast.Name):
                return c.args[2].id
        return None

    def escapes(self, n):
        """The object is returned, stored, or used as a context manager."""
        for x in walk_local(self.node):
            if isinstance(x, (ast.With, ast.AsyncWith)) and any(any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(it.context_expr)) for it in x.items):
                return True
            if isinstance(x, (ast.Return, ast.Yield)) and x.value is not None and any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(x.value)):
                return True
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == n:
                return True
            if isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id == n for a in list(x.args) + [k.value for k in x.keywords]):
                return True
        return False

    # ------------------------------------------------------------- is the change undone on every way out
    def releases(self, s, key):
        """The statement undoes the change (directly, or in a loop over the saved values)."""
        if s in key.release:
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and key.saved:
            args = {a.id for a in s.value.args if isinstance(a, ast.Name)} | {k.value.id for k in s.value.keywords if isinstance(k.value, ast.Name)}
            if args & key.saved and method_call(s.value)[1] not in LOGGERS:
                return True
        if isinstance(s, ast.For):
            return any(self.releases(x, key) for x in s.body)
        if isinstance(s, ast.Try):
            return self.final_releases(s, key) or any(self.releases(x, key) for x in s.body[:1])
        return False

    def final_releases(self, t, key):
        return self.block_releases(t.finalbody, key)

    def block_releases(self, lst, key):
        """A block undoes the change before anything in it can go wrong."""
        for s in lst:
            if self.releases(s, key):
                return True
            if isinstance(s, ast.If):
                b, o = self.block_releases(s.body, key), self.block_releases(s.orelse, key)
                if b and (o or self.nothing_open(s.test, key)):
                    return True
                if b and self.leaves(s.body) and all(safe(x) for x in s.orelse):
                    continue
                if o and self.leaves(s.orelse) and all(safe(x) for x in s.body):
                    continue
            if not safe(s):
                return False
        return False

    def leaves(self, lst):
        return bool(lst) and isinstance(lst[-1], (ast.Return, ast.Raise))

    def nothing_open(self, test, key):
        """The condition only asks whether the thing was acquired at all."""
        return key.kind in ("file", "lock") and any(isinstance(n, ast.Constant) and n.value is None for n in ast.walk(test))

    def catches_all(self, t, key):
        """Every exception in the try body is caught by a handler that undoes the change."""
        for h in t.handlers:
            names = ["BaseException"] if h.type is None else [dotted(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            if "BaseException" in names or "Exception" in names:
                return self.block_releases(h.body, key)
        return False

    def covered(self, acq, key):
        """None if the change is undone on every way out, else (statement, reason)."""
        lst, i, parent, field = self.where[acq]
        while True:
            for s in lst[i + 1:]:
                if self.releases(s, key):
                    return None
                if isinstance(s, ast.Try):
                    if self.final_releases(s, key):
                        return None
                    if self.catches_all(s, key):
                        # normal way: the release may be in the body's end, the else block or after the statement
                        if self.block_any(s.body, key) or self.block_any(s.orelse, key):
                            return None
                        continue
                if isinstance(s, (ast.With, ast.AsyncWith)) and self.exit_callback(s, key):
                    return None
                if not safe(s):
                    return s, "is not undone if %s raises or leaves" % self.describe(s)
            if parent is self.node:
                return acq, "is not undone at the end of the function" if key.release else "is never undone"
            if isinstance(parent, ast.Try):
                if field in ("body", "orelse") and self.final_releases(parent, key):
                    return None
                if field == "body" and self.catches_all(parent, key) and self.block_any(parent.orelse, key):
                    return None
            if isinstance(parent, (ast.For, ast.While)) and not (isinstance(acq, ast.stmt) and self.loops_over(parent)):
                return parent, "is not undone in the iteration that makes it"
            if parent not in self.where:
                parent = self.handler_parent(parent)
                if parent is None:
                    return acq, "is not undone"
            lst, i, parent, field = self.where[parent]

    def loops_over(self, loop):
        """A loop that only replaces attributes one after the other."""
        return all(safe(s) or s in self.sets_ for s in loop.body)

    @property
    def sets_(self):
        return {s for s in self.where if any(method_call(c) == (None, "setattr") for c in self.calls_in(s))}

    def block_any(self, lst, key):
        return any(self.releases(s, key) or any(self.block_any(getattr(s, f, []) or [], key) for f in ("body", "orelse", "finalbody") if not isinstance(s, (ast.FunctionDef, ast.ClassDef))) for s in lst)

    def exit_callback(self, w, key):
        return any(isinstance(n, ast.Call) and method_call(n)[1] in ("callback", "enter_context", "push") for s in w.body for n in ast.walk(s))

    def describe(self, s):
        t = ast.unparse(s).strip().split("\n")[0]
        return "%r" % (t if len(t) < 60 else t[:57] + "...")

    def inside_protected(self, acq, key):
        """The change is made inside a try whose finally undoes it."""
        s = acq
        while s in self.where:
            lst, i, parent, field = self.where[s]
            if isinstance(parent, ast.Try) and field in ("body", "orelse") and self.final_releases(parent, key):
                return True
            s = parent if parent in self.where else (self.handler_parent(parent) if isinstance(parent, ast.ExceptHandler) else None)
            if s is None:
                return False
        return False

    def check(self):
        if self.node.name in ("__enter__", "__exit__", "__aenter__", "__aexit__"):
            return
        for k in self.keys():
            for a in k.acquire:
                self.counts["temporary_changes"] += 1
                if self.inside_protected(a, k):
                    continue
                r = self.covered(a, k)
                if r is None and isinstance(a, ast.Expr) and isinstance(a.value, ast.Yield):
                    r = a, "is not undone if the block raises"
                if r is not None:
                    s, why = r
                    self.report(a, "not-restored", k.construct, "the temporary change of %s %s" % (k.what, why))


def enter_exit(cls, findings, counts):
    """__enter__ and __exit__ of a class."""
    en, ex = cls.methods.get("__enter__"), cls.methods.get("__exit__")
    if en is None or ex is None:
        return
    counts["context_manager_classes"] += 1
    fe, fx = Function(en, findings, counts, ()), Function(ex, findings, counts, ())
    keys = []
    self_ = en.params()[0] if en.params() else "self"
    for s in fe.where:
        for c in fe.calls_in(s):
            r, m = method_call(c)
            if m == "changeIndentLevel" and c.args and (const_num(c.args[0]) or 0) > 0:
                d = const_num(c.args[0])
                rel = {t for t in fx.where for x in fx.calls_in(t) if method_call(x)[1] == m and x.args and const_num(x.args[0]) == -d}
                relin = {t for t in fe.where for x in calls_in(t) if method_call(x)[1] == m and x.args and const_num(x.args[0]) == -d}
                keys.append((s, Key("indent", "the log indentation", rel, [s], "changeIndentLevel(%s)" % d), relin))
            elif m in LOCKS and r is not None and not r.startswith("super("):
                rel = {t for t in fx.where for x in fx.calls_in(t) if method_call(x) == (r, LOCKS[m])}
                keys.append((s, Key("lock", "%s.%s()" % (r, m), rel, [s], "%s.%s" % (r, m)), set()))
        if isinstance(s, (ast.Assign, ast.AugAssign)):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if isinstance(t, ast.Attribute) and dotted(t):
                    p = text(t)
                    own = p.count(".") == 1 and p.startswith(self_ + ".")
                    flag = isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, bool)
                    rel = {u for u in fx.where if fx.assigns(u, p)}
                    off = flag and any(isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == t.attr for x in n.targets)
                                       and isinstance(n.value, ast.Constant) and n.value.value is (not s.value.value)
                                       for name, m in cls.methods.items() if name not in ("__enter__", "__exit__") for n in ast.walk(m.node))
                    if not own or (flag and rel) or off:
                        keys.append((s, Key("attr", p, rel, [s], p), {u for u in fe.where if u is not s and fe.assigns(u, p)}))
    for s, k, relin in keys:
        counts["temporary_changes"] += 1
        if not k.release:
            fe.report(s, "not-restored", k.construct, "__exit__ does not undo the change of %s" % k.what)
            continue
        if k.kind == "attr":
            for r in k.release:
                if isinstance(r, ast.Assign) and any(isinstance(n, ast.Attribute) and text(n) == k.what for n in ast.walk(r.value)):
                    fx.report(r, "not-restored", k.construct, "__exit__ computes %s from its current value instead of restoring the saved one" % k.what)
        if not fx.block_releases(fx.node.body, k) and not any(isinstance(t, ast.Try) and fx.final_releases(t, k) and all(safe(u) for u in fx.node.body[:i]) for i, t in enumerate(fx.node.body)):
            r = min(k.release, key=lambda x: x.lineno)
            fx.report(r, "not-restored", k.construct, "__exit__ can raise or return before it undoes the change of %s" % k.what)
        k2 = Key(k.kind, k.what, relin, [s], k.construct)
        lst, i, parent, field = fe.where[s]
        bad = None
        for u in lst[i + 1:]:
            if isinstance(u, ast.Try) and (fe.final_releases(u, k2) or fe.catches_all(u, k2)):
                continue
            if isinstance(u, ast.Return) and safe_expr(u.value):
                break
            if not safe(u):
                bad = u
                break
        if bad is not None and not fe.inside_protected(s, k2) and not any(
                isinstance(t, ast.Try) and any(x is s for x in ast.walk(t)) and fe.catches_all(t, k2) for t in fe.where):
            fe.report(s, "not-restored", k.construct, "if %s raises, __exit__ is not called and the change of %s is not undone" % (fe.describe(bad), k.what))


def analyse(prop, tier):
    pkg = Package()
    res = Result()
    counts = dict(functions=0, temporary_changes=0, context_managers=0, context_manager_classes=0, with_items=0)
    managers = set()        # names of functions and classes that give context managers
    funcs = []

    def collect(m, node, cls, parent):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(m, n, cls=cls, parent=parent)
                funcs.append(fi)
                collect(m, n, None, fi)
            elif isinstance(n, ast.ClassDef):
                collect(m, n, class_of(m, n), parent)
                if {"__enter__", "__exit__"} <= {x.name for x in n.body if isinstance(x, ast.FunctionDef)}:
                    managers.add((n.name, n))
            elif not isinstance(n, ast.Lambda):
                collect(m, n, cls, parent)
    classes = {}
    for m in pkg.modules.values():
        todo = list(m.classes.values())
        while todo:
            c = todo.pop()
            classes[c.node] = c
            todo.extend(c.inner.values())
    def class_of(m, n):
        from pkg import ClassInfo
        if n not in classes:
            c = classes[n] = ClassInfo(m, n)
            for x in n.body:
                if isinstance(x, ast.FunctionDef):
                    c.methods.setdefault(x.name, FuncInfo(m, x, cls=c))
        return classes[n]
    for m in pkg.modules.values():
        collect(m, m.tree, None, None)
    for fi in funcs:
        counts["functions"] += 1
        f = Function(fi, res.findings, counts, managers)
        if f.is_gen_cm:
            counts["context_managers"] += 1
            managers.add((fi.name, fi.node))
        f.check()
    for c in classes.values():
        enter_exit(c, res.findings, counts)
    # context managers that are created but not entered
    names = {n for n, d in managers}
    meth = {n for n, d in managers if isinstance(d, ast.FunctionDef) and any(d in c.node.body for c in classes.values())} | {"indent", "withIndentLevel"}
    top = names - meth
    for fi in funcs:
        for s in walk_local(fi.node):
            if isinstance(s, (ast.With, ast.AsyncWith)):
                counts["with_items"] += len(s.items)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                r, m = method_call(s.value)
                if (r is None and m in top) or (r is not None and m in meth):
                    res.findings.append(Finding("C15", "not-entered", fi.short, m, fi.loc(s), "the context manager %s is created but never entered" % m))
    seen, uniq = set(), []
    for f in res.findings:
        k = (f.key, f.loc)
        if k not in seen:
            seen.add(k)
            uniq.append(f)
    res.findings = uniq
    res.coverage = counts
    res.floors = dict(functions=800, temporary_changes=8, context_managers=4, context_manager_classes=2, with_items=30)
    res.explanation = "In every function, __enter__/__exit__ pair and generator context manager the temporary changes (saved and replaced attributes, log indentation, registers, locks, files, flags) were located; rule: the statement that undoes the change is in a finally block, or nothing between the change and it can raise, return or leave the loop, and __exit__ undoes it before anything else can fail."
    res.assumptions = ["logging calls and len/isinstance/timer calls do not raise"]
    return res
