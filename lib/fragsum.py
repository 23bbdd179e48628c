"""Abstract interpreter for quantities that are assembled from fragments.

Every value carries facets that describe, for *any* run with more than one MPI
process and any system, how it was obtained:

  deps   fragment loops whose current fragment the value depends on
  rk     may differ between MPI processes
  part   rank-local partial sum (contributions of the fragments of one rank)
  tnone  None because the rank is not the target of a reduction
  w      per fragment loop: how often a symmetry multiplicity was multiplied in
  sums   alternatives (one per path) of sets of SumRec: contributions of fragment loops
  cell   power of 1/ncells (None: any)
  zero   known to be zero

Package-internal calls are inlined; conditions on unknown values join both
branches, except conditions on values that decide fragment filters, which are
enumerated (`NeedSplit`).  `if mpi:` is taken; rank 0 / other rank and the three
cases of the reduction target are enumerated as scenarios.
"""
import ast
from pkg import FuncInfo, ClassInfo, Module, dotted, target_names

NOC = type("NOC", (), {"__repr__": lambda s: "NOC"})()
EMPTY = frozenset()
NOSUM = frozenset([EMPTY])

COLLECTIVES = {
    "allreduce", "reduce", "bcast", "gather", "allgather", "scatter", "alltoall", "barrier", "scan",
    "Allreduce", "Reduce", "Bcast", "Gather", "Allgather", "Scatter", "Alltoall", "Barrier", "Split", "Dup", "Create_group",
}


class NeedSplit(Exception):
    def __init__(self, key):
        self.key = key


class Budget(Exception):
    pass


class Loop:
    _n = 0

    def __init__(self, kind, node, func, filters=None, parent=None, include_self=None, maxgen=None, desc=""):
        Loop._n += 1
        self.uid = Loop._n
        self.kind, self.node, self.func, self.filters = kind, node, func, filters
        self.parent, self.include_self, self.maxgen, self.desc = parent, include_self, maxgen, desc

    @property
    def rank(self):
        return bool(self.filters and self.filters.get("rank"))

    def __repr__(self):
        return "<Loop %s %s %s>" % (self.kind, self.desc, self.filters)


class SumRec:
    """One accumulation site inside a fragment loop."""
    __slots__ = ("loop", "kind", "site", "filters", "func")

    def __init__(self, loop, kind, site, filters, func):
        self.loop, self.kind, self.site, self.filters, self.func = loop, kind, site, filters, func

    def key(self):
        return (self.loop.uid, self.kind, id(self.site), tuple(sorted((k, str(v)) for k, v in self.filters.items())))

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class V:
    __slots__ = ("kind", "const", "items", "deps", "rk", "part", "tnone", "w", "sums", "cell", "zero", "unk", "origin", "obj", "boolop", "accnest", "fresh")

    def __init__(self, kind="any", const=NOC, items=None, deps=EMPTY, rk=False, part=False, tnone=False, w=None, sums=NOSUM,
                 cell=None, zero=False, unk=False, origin=None, obj=None, boolop=None, accnest=None, fresh=False):
        self.kind, self.const, self.items, self.deps, self.rk, self.part, self.tnone = kind, const, items, deps, rk, part, tnone
        self.w, self.sums, self.cell, self.zero, self.unk, self.origin, self.obj = w or {}, sums, cell, zero, unk, origin, obj
        self.boolop, self.accnest, self.fresh = boolop, accnest, fresh

    def but(self, **kw):
        d = {s: getattr(self, s) for s in V.__slots__}
        d.update(kw)
        return V(**d)

    def interesting(self):
        return bool(self.part or self.tnone or self.deps or self.rk or self.kind in ("frag", "fragset") or self.sums != NOSUM
                    or (self.cell not in (None, 0))
                    or (isinstance(self.items, tuple) and any(i.interesting() for i in self.items)))

    def __repr__(self):
        return "V(%s%s%s%s%s deps=%d w=%s cell=%s sums=%d)" % (
            self.kind, "" if self.const is NOC else "=%r" % (self.const,), " part" if self.part else "", " rk" if self.rk else "",
            " tnone" if self.tnone else "", len(self.deps), {k.desc: set(v) for k, v in self.w.items()}, self.cell, len(self.sums))


def const(c):
    return V(const=c, kind="none" if c is None else "any", zero=(isinstance(c, (int, float)) and not isinstance(c, bool) and c == 0))


UNK = V(unk=True)


def sums_union(*ss):
    out = NOSUM
    for s in ss:
        if s == NOSUM:
            continue
        if out == NOSUM:
            out = s
            continue
        new = frozenset(a | b for a in out for b in s)
        if len(new) > 24:
            new = frozenset([frozenset().union(*new)])
        out = new
    return out


def sums_alt(a, b):
    r = a | b
    if len(r) > 24:
        r = frozenset([frozenset().union(*r)])
    return r


def wjoin(a, b):
    out = {}
    for l in set(a.w) | set(b.w) | (a.deps | b.deps if True else set()):
        s = frozenset()
        if l in a.deps or l in a.w:
            s |= a.w.get(l, frozenset([0]))
        if l in b.deps or l in b.w:
            s |= b.w.get(l, frozenset([0]))
        if s and s != frozenset([0]):
            out[l] = s
    return out


def wmul(vs, signs=None):
    out = {}
    loops = set()
    for v in vs:
        loops |= set(v.w)
    for l in loops:
        acc = {0}
        for i, v in enumerate(vs):
            sg = signs[i] if signs else 1
            acc = {x + sg * y for x in acc for y in v.w.get(l, (0,))}
        if acc != {0}:
            out[l] = frozenset(acc)
    return out


def cadd(*cs):
    t = None
    for c in cs:
        if c is None:
            continue
        t = c if t is None else t + c
    return t


def join(a, b, ctx=None, cond=None):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    crit = _critical(a, b)
    if crit and ctx is not None and cond is not None and len(ctx.assume) < 16:
        raise NeedSplit(cond)
    kind = a.kind if a.kind == b.kind else ("any" if "none" not in (a.kind, b.kind) else (a.kind if b.kind == "none" else b.kind))
    items = None
    if isinstance(a.items, tuple) and isinstance(b.items, tuple) and len(a.items) == len(b.items):
        items = tuple(join(x, y, ctx, cond) for x, y in zip(a.items, b.items))
    elif isinstance(a.items, dict) and isinstance(b.items, dict) and set(a.items) == set(b.items):
        items = {k: join(a.items[k], b.items[k], ctx, cond) for k in a.items}
    c = NOC
    if a.const is not NOC and b.const is not NOC and type(a.const) == type(b.const) and a.const == b.const:
        c = a.const
    obj = a.obj if a.obj is b.obj else (a.obj if b.obj is None else (b.obj if a.obj is None else (a.obj if a.obj == b.obj else None)))
    if kind == "closure" and obj is None and a.obj and b.obj and a.obj[0].node is b.obj[0].node:
        obj = a.obj
    if kind in ("frag", "fragset", "closure", "bound", "ref", "symgen", "zip", "enumerate", "vmeth") and obj is None:
        kind = "any"
    cell = a.cell if a.cell == b.cell else (a.cell if b.cell is None or b.zero else (b.cell if a.cell is None or a.zero else "mixed"))
    return V(kind=kind, const=c, items=items, deps=a.deps | b.deps, rk=a.rk or b.rk, part=a.part or b.part, tnone=a.tnone and b.tnone,
             w=wjoin(a, b), sums=sums_alt(a.sums, b.sums), cell=cell, zero=a.zero and b.zero, unk=a.unk or b.unk,
             origin=a.origin if a.origin == b.origin else None, obj=obj, boolop=a.boolop or b.boolop,
             accnest=a.accnest if a.accnest is not None else b.accnest, fresh=a.fresh and b.fresh)


def _critical(a, b):
    if a.kind == "fragset" and b.kind == "fragset" and a.obj != b.obj:
        return True
    if isinstance(a.items, dict) and isinstance(b.items, dict):
        keys = {"sym_parent", "mpi_rank", "contributes", "active", "maxgen"}
        if (set(a.items) ^ set(b.items)) & keys:
            return True
    if a.const is None and type(b.const) is int or b.const is None and type(a.const) is int:
        return True
    for x, y in ((a, b), (b, a)):
        if x.part and not y.part and not y.zero and not y.rk and not y.tnone and not y.unk and y.kind != "none" and not x.items:
            return True
        if x.sums != NOSUM and y.sums != NOSUM and _symkinds(x) != _symkinds(y):
            return True
    return False


def _symkinds(v):
    return frozenset((r.filters.get("sym"), r.kind) for alt in v.sums for r in alt)


class Env(dict):
    """locals; nest[name] = loops active when the variable was (first) bound"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.nest = {}
        self.mut = set()
        self.sites = {}

    def copy(self):
        e = Env(self)
        e.nest = dict(self.nest)
        e.mut = set(self.mut)
        e.sites = dict(self.sites)
        return e


class Frame:
    def __init__(self, func, self_v=None):
        self.func = func
        self.returns = []          # (V, node)
        self.self_v = self_v
        self.early_div = False


class Interp:
    def __init__(self, pkg, scenario, assume, report, stats, max_depth=8, budget=200000):
        self.pkg, self.scenario, self.assume, self.report, self.stats = pkg, scenario, assume, report, stats
        self.loops = []            # active Loop stack
        self.refine = {}           # loop -> extra filters proved by guards
        self.div = []              # stack of reasons for rank-dependent control
        self.masterish = 0         # >0 inside a branch only one rank takes
        self.stack = []            # call stack of FuncInfo
        self.max_depth = max_depth
        self.steps = 0
        self.budget = budget

    # ------------------------------------------------------------------ entry

    def run_entry(self, func, self_v, args=None):
        env = Env()
        a = func.node.args
        params = a.posonlyargs + a.args
        defaults = [None] * (len(params) - len(a.defaults)) + list(a.defaults)
        for p, d in list(zip(params, defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            env[p.arg] = self.entry_param(func, p.arg, d)
        if a.vararg:
            env[a.vararg.arg] = V(kind="tuple", items=())
        if a.kwarg:
            env[a.kwarg.arg] = V(kind="dict", items={})
        if self_v is not None and params:
            env[params[0].arg] = self_v
        for k, v in (args or {}).items():
            env[k] = v
        for k in env:
            env.nest[k] = ()
        return self.exec_func(func, env)

    def entry_param(self, func, name, default):
        if name == "mpi_target":
            t = self.scenario["target"]
            if t == "none":
                return const(None)
            return V(kind="target", unk=False)
        if name == "fragments":
            return const(None)
        return V(origin=name)

    def exec_func(self, func, env):
        if self.steps > self.budget:
            raise Budget()
        fr = Frame(func)
        self.stack.append(fr)
        ndiv = len(self.div)
        nm = self.masterish
        try:
            body = func.node.body if not isinstance(func.node, ast.Lambda) else None
            if body is None:
                r = self.eval(func.node.body, env)
                fr.returns.append((r, func.node.body))
                end = None
            else:
                end = self.block(body, env)
            if end is not None and not isinstance(func.node, ast.Lambda):
                self.flush_attrs(end)
                fr.returns.append((const(None), func.node))
                # implicit return
                fr.implicit = True
            res = None
            for r, _ in fr.returns:
                res = r if res is None else join(res, r)
            return res if res is not None else V(kind="never"), fr
        finally:
            del self.div[ndiv:]
            self.masterish = nm
            self.stack.pop()

    # ------------------------------------------------------------- statements
    # block returns the env at fall-through or None if control never falls through

    def block(self, stmts, env):
        for s in stmts:
            env = self.stmt(s, env)
            if env is None:
                return None
        return env

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            return m(s, env)
        return env

    def s_Expr(self, s, env):
        self.eval(s.value, env)
        return env

    def s_Pass(self, s, env):
        return env

    def s_Return(self, s, env):
        v = self.eval(s.value, env) if s.value is not None else const(None)
        self.stack[-1].returns.append((v, s))
        self.flush_attrs(env)
        self.exit_kind = "return"
        return None

    def s_Raise(self, s, env):
        self.exit_kind = "raise"
        return None

    def s_Continue(self, s, env):
        self._merge_loop("cont", env)
        self.exit_kind = "continue"
        return None

    def s_Break(self, s, env):
        self._merge_loop("brk", env)
        self.exit_kind = "break"
        return None

    def _merge_loop(self, which, env):
        if self.loopctl:
            self.loopctl[-1][which].append(env)

    loopctl = ()

    def s_Global(self, s, env):
        return env

    s_Nonlocal = s_Global
    s_Delete = s_Global

    def s_Assert(self, s, env):
        self.eval(s.test, env)
        return env

    def s_Import(self, s, env):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            self.bind(env, n, V(kind="ref", obj=("ext", a.name if a.asname else a.name.split(".")[0])))
        return env

    def s_ImportFrom(self, s, env):
        src = self.pkg._abs(self.stack[-1].func.module, s)
        for a in s.names:
            if a.name == "*":
                continue
            r = self.pkg.resolve_abs(src + "." + a.name)
            self.bind(env, a.asname or a.name, self.ref(r, src + "." + a.name))
        return env

    def s_FunctionDef(self, s, env):
        fi = FuncInfo(self.stack[-1].func.module, s, parent=self.stack[-1].func)
        self.bind(env, s.name, V(kind="closure", obj=(fi, env)))
        return env

    def s_ClassDef(self, s, env):
        return env

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env, s)
        return env

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env, s)
        return env

    def assign(self, t, v, env, site):
        if isinstance(t, ast.Name):
            # x = x + <term>   (accumulation written out)
            old = env.get(t.id)
            if old is not None and isinstance(site, ast.Assign) and self._selfadd(t.id, site.value):
                base, terms = self._split_self(t.id, site.value, env)
                v = self.accumulate(t.id, old, terms, env, site)
                self.setvar(env, t.id, v, keepnest=True)
                return
            if v.accnest is not None:
                self.setvar(env, t.id, v)
                env.nest[t.id] = v.accnest
                return
            if old is not None and v.boolop and not v.part:
                self.setvar(env, t.id, v, keepnest=True)
                return
            self.bind(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v.items, tuple) and len(v.items) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, i in zip(t.elts, v.items):
                    self.assign(e, i, env, site)
            else:
                if v.tnone:
                    self.use_none(v, site, "unpacked")
                el = self.element(v)
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, el, env, site)
        elif isinstance(t, ast.Subscript):
            base = t.value
            idx = self.eval(t.slice, env)
            bv = self.eval(base, env)
            if isinstance(base, ast.Name) and base.id in env:
                old = env[base.id]
                if old.tnone:
                    self.use_none(old, site, "item assigned")
                if old.kind == "dict":
                    key = idx.const if idx.const is not NOC else None
                    it = dict(old.items or {})
                    if isinstance(key, str):
                        it[key] = v
                    self.setvar(env, base.id, old.but(items=it, rk=old.rk or v.rk or bool(self.div), const=NOC), keepnest=True)
                else:
                    if old.kind == "list" and isinstance(old.items, tuple):
                        old = old.but(items=None)
                    self.mixcheck(old, v, site, store=True)
                    nv = V(kind=old.kind, deps=old.deps | v.deps, rk=old.rk or v.rk, part=old.part or v.part, w=wjoin(old, v),
                           sums=sums_union(old.sums, v.sums), cell=self.cjoin(old, v, site), zero=old.zero and v.zero,
                           unk=old.unk or v.unk, obj=old.obj)
                    self.setvar(env, base.id, nv, keepnest=True)
                    env.mut.add(base.id)
        elif isinstance(t, ast.Attribute):
            recv = self.eval(t.value, env)
            self.on_attr_store(recv, t.attr, v, site, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, site)

    def on_attr_store(self, recv, attr, v, site, env):
        t = None
        for x in (site.targets if isinstance(site, ast.Assign) else [getattr(site, "target", None)]):
            for y in ast.walk(x) if x is not None else ():
                if isinstance(y, ast.Attribute) and y.attr == attr and isinstance(y.value, ast.Name):
                    t = y
        if t is not None and recv.kind == "obj":
            env["%s.%s" % (t.value.id, attr)] = v.but(origin=None)
            env.nest["%s.%s" % (t.value.id, attr)] = tuple(self.loops)
            env.sites["%s.%s" % (t.value.id, attr)] = (recv, attr, site)
            return
        self.report.attr_store(self, recv, attr, v, site)

    def flush_attrs(self, env):
        for k, (recv, attr, site) in env.sites.items():
            if k in env:
                self.report.attr_store(self, recv, attr, env[k], site)

    def _selfadd(self, name, e):
        while isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            if isinstance(e.op, ast.Add) and isinstance(e.right, ast.Name) and e.right.id == name:
                return True
            e = e.left
            if isinstance(e, ast.Name) and e.id == name:
                return True
        return False

    def _split_self(self, name, e, env):
        terms = []
        while isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            if isinstance(e.right, ast.Name) and e.right.id == name:
                terms.append(self.eval(e.left, env))
                return name, terms
            terms.append(self.eval(e.right, env))
            e = e.left
        return name, terms

    def s_AugAssign(self, s, env):
        v = self.eval(s.value, env)
        t = s.target
        if isinstance(t, ast.Name):
            old = env.get(t.id, UNK)
            if isinstance(s.op, (ast.Add, ast.Sub)):
                nv = self.accumulate(t.id, old, [v], env, s)
            else:
                nv = self.binop(s.op, old, v, s)
                nv = nv.but(accnest=old.accnest)
            env.mut.add(t.id)
            self.setvar(env, t.id, nv, keepnest=True)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            name = t.value.id
            self.eval(t.slice, env)
            old = env.get(name, UNK)
            if isinstance(s.op, (ast.Add, ast.Sub)):
                nv = self.accumulate(name, old.but(kind="any", items=None) if old.kind in ("list", "tuple") else old, [v], env, s)
            else:
                nv = self.binop(s.op, old.but(zero=False), v, s)
            env.mut.add(name)
            if old.kind != "dict":
                self.setvar(env, name, nv, keepnest=True)
        elif isinstance(t, ast.Attribute):
            recv = self.eval(t.value, env)
            old = self.getattr(recv, t.attr, t, env)
            nv = self.binop(s.op, old, v, s)
            self.on_attr_store(recv, t.attr, nv, s, env)
        else:
            if isinstance(t, ast.Subscript):
                self.eval(t.value, env)
        return env

    def accumulate(self, name, old, terms, env, site):
        """old += sum(terms): contribution records for every loop the variable outlives"""
        nest = env.nest.get(name, ())
        outer = [l for l in self.loops if l not in nest]
        res = old
        islist = old.kind == "list" and any(t.kind == "list" for t in terms)
        for v in terms:
            if v.tnone:
                self.use_none(v, site, "added")
            if old.tnone:
                self.use_none(old, site, "updated")
            recs = set()
            for l in outer:
                if l.kind != "frag" or l not in v.deps:
                    continue
                counts = v.w.get(l, frozenset([0]))
                exps = [c for c in outer if c.kind == "sym" and c.parent is l]
                for n in counts:
                    if not exps:
                        k = {0: "self", 1: "full"}.get(n, "weight%d" % n)
                    else:
                        c = exps[-1]
                        if len(exps) > 1:
                            k = "nested"
                        elif c.maxgen == "zero":
                            k = "self" if c.include_self else "none"
                            if n:
                                k = "full" if (k == "self" and n == 1) else "over"
                        elif n:
                            k = "over"
                        else:
                            k = {True: "full", False: "children", None: "unknown"}[c.include_self]
                            if c.maxgen == "other":
                                k = "unknown"
                    filt = dict(l.filters or {})
                    filt.update(self.refine.get(l, {}))
                    recs.add(SumRec(l, k, site, filt, self.stack[-1].func))
            part = any(r.filters.get("rank") for r in recs)
            if islist:
                pass
            elif part or v.part:
                # adding rank-local contributions to something every rank holds in full
                if not old.part and not old.zero and not old.rk and not old.unk and not old.deps and not self.masterish and not old.tnone:
                    self.report.mix(self, old, v, site, "the accumulator already holds a value that every rank has in full")
            elif res.part and not v.rk and not v.zero and not v.unk and not self.masterish and not v.deps:
                self.report.mix(self, res, v, site, "a value that every rank holds in full is added to a rank-local partial sum")
            if recs:
                self.stats["accumulations"].add((self.stack[-1].func.short, site.lineno))
            sums = sums_union(res.sums, v.sums)
            if recs:
                sums = sums_union(sums, frozenset([frozenset(recs)]))
            frag_recs = bool(recs)
            vdeps = frozenset(d for d in v.deps if d not in outer)
            vw = {l: c for l, c in v.w.items() if l not in outer}
            cell = self.cjoin(res, v if not (frag_recs and v.cell is None) else v.but(cell=0), site)
            res = V(kind="any" if res.kind in ("none",) else res.kind, deps=(res.deps - frozenset(outer)) | vdeps, rk=res.rk or v.rk or part, part=res.part or v.part or part,
                    w=wjoin(res.but(w={l: c for l, c in res.w.items() if l not in outer}, deps=res.deps - frozenset(outer)), v.but(w=vw, deps=vdeps)),
                    sums=sums, cell=cell, zero=res.zero and v.zero, unk=res.unk or v.unk, obj=res.obj, accnest=nest,
                    items=res.items if isinstance(res.items, tuple) and isinstance(v.items, tuple) and False else None)
        return res

    def bind(self, env, name, v):
        env[name] = v
        env.nest[name] = tuple(self.loops)
        env.mut.discard(name)

    def setvar(self, env, name, v, keepnest=False):
        env[name] = v
        if not keepnest or name not in env.nest:
            env.nest.setdefault(name, tuple(self.loops))

    # --- control flow

    def s_If(self, s, env):
        c = self.eval(s.test, env)
        t = self.truth(c, s.test, env)
        rk = c.rk
        if t is not None:
            branch, other = (s.body, s.orelse) if t else (s.orelse, s.body)
            nd = len(self.div)
            if rk:
                self.div.append("condition '%s' (line %d)" % (ast.unparse(s.test)[:60], s.lineno))
                self.masterish += 1
            nref = self._guard_refine(s.test, t, env)
            r = self.block(branch, env)
            if rk:
                del self.div[nd]
                self.masterish -= 1
                # did the branch not taken leave the function? then other ranks are gone
                if r is not None and self._leaves(other):
                    self._mark_div(s)
                elif r is not None and self._leaves(branch, partial=True):
                    self._mark_div(s)
            if r is not None or not other:
                if nref and r is None:
                    pass
            return r
        # unknown condition
        key = self.condkey(c, s.test)
        e1, e2 = env.copy(), env.copy()
        nd = len(self.div)
        if rk:
            self.div.append("condition '%s' (line %d)" % (ast.unparse(s.test)[:60], s.lineno))
            self.masterish += 1
        nd1 = len(self.div)
        ref0 = dict(self.refine)
        self._guard_refine(s.test, True, env)
        r1 = self.block(s.body, e1)
        kept = self.div[nd1:] if r1 is not None else []
        del self.div[nd1:]
        k1 = getattr(self, "exit_kind", None) if r1 is None else None
        ref1 = self.refine
        self.refine = dict(ref0)
        self._guard_refine(s.test, False, env)
        r2 = self.block(s.orelse, e2)
        k2 = getattr(self, "exit_kind", None) if r2 is None else None
        ref2 = self.refine
        kept += self.div[nd1:] if r2 is not None else []
        self.div[nd:] = kept
        if rk:
            self.masterish -= 1
        if r1 is None and r2 is None:
            self.refine = ref0
            return None
        if r1 is None or r2 is None:
            self.refine = ref2 if r1 is None else ref1
            if rk and (k1 or k2) in ("return", "continue", "break"):
                # own-rank guards (`if x.mpi_rank != mpi.rank: continue`) restrict the loop, they do not end it
                self._mark_div(s)
            return r2 if r1 is None else r1
        self.refine = ref0
        return self.joinenv(r1, r2, key)

    def _leaves(self, stmts, partial=False):
        """may leave the function normally"""
        for x in stmts:
            for n in ast.walk(x):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    continue
                if isinstance(n, ast.Return):
                    return True
        return False

    def _mark_div(self, s):
        self.div.append("early exit under '%s' (line %d)" % (ast.unparse(s.test)[:60], s.lineno))

    def _guard_refine(self, test, truth, env):
        """learn filters on the current fragment from `if x.contributes:` and the like"""
        for cond, tv in self._atoms(test, truth):
            f = self._filter_cond(cond, tv, env)
            if f:
                loop, upd = f
                d = dict(self.refine.get(loop, {}))
                d.update(upd)
                self.refine[loop] = d
        return False

    def _atoms(self, test, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            yield from self._atoms(test.operand, not truth)
        elif isinstance(test, ast.BoolOp):
            if (isinstance(test.op, ast.And) and truth) or (isinstance(test.op, ast.Or) and not truth):
                for v in test.values:
                    yield from self._atoms(v, truth)
        else:
            yield test, truth

    def _filter_cond(self, cond, tv, env, var=None, loop=None):
        def fragof(e):
            if isinstance(e, ast.Name) and e.id in env and env[e.id].kind == "frag":
                return env[e.id].obj
            return None
        if isinstance(cond, ast.Attribute):
            l = fragof(cond.value)
            if l is not None and cond.attr in ("contributes", "active"):
                return l, {"contrib" if cond.attr == "contributes" else "active": tv}
            if isinstance(cond.value, ast.Attribute) and cond.value.attr == "opts" and cond.attr == "auxiliary":
                l = fragof(cond.value.value)
                if l is not None:
                    return l, {"aux": tv}
            if isinstance(cond.value, ast.Attribute) and cond.value.attr == "flags":
                l = fragof(cond.value.value)
                if l is not None:
                    return l, {"flag_" + cond.attr: tv}
        if isinstance(cond, ast.Compare) and len(cond.ops) == 1:
            op, left, right = cond.ops[0], cond.left, cond.comparators[0]
            eq = isinstance(op, (ast.Eq, ast.Is))
            ne = isinstance(op, (ast.NotEq, ast.IsNot))
            if not (eq or ne):
                return None
            for a, b in ((left, right), (right, left)):
                if isinstance(a, ast.Attribute):
                    l = fragof(a.value)
                    if l is None:
                        continue
                    holds = tv if eq else not tv
                    if a.attr == "mpi_rank" and holds:
                        bv = self.eval(b, env)
                        if bv.kind == "rank":
                            return l, {"rank": True}
                    if a.attr == "sym_parent" and isinstance(b, ast.Constant) and b.value is None:
                        return l, {"sym": "parents" if holds else "nonparents"}
        return None

    def truth(self, v, node, env):
        if v.const is not NOC:
            try:
                return bool(v.const)
            except Exception:
                return None
        if v.kind in ("mpi",):
            return True
        if v.kind in ("frag", "closure", "ref", "bound"):
            return True
        if v.kind == "dict" and v.items == {} and v.origin == "emptykw":
            return False
        k = self.condkey(v, node)
        if k is not None and k in self.assume:
            return self.assume[k]
        return None

    def condkey(self, v, node):
        if v.origin is None and not v.rk and not v.deps and node is not None and not self.loops:
            return "@%s:%s" % (self.stack[-1].func.short, ast.unparse(node))
        return v.origin

    def joinenv(self, a, b, key):
        if a is None:
            return b
        if b is None:
            return a
        out = Env()
        for k in set(a) | set(b):
            if k in a and k in b:
                out[k] = join(a[k], b[k], self, key) if a[k] is not b[k] else a[k]
            else:
                out[k] = (a.get(k) or b.get(k))
            na, nb = a.nest.get(k), b.nest.get(k)
            out.nest[k] = na if nb is None else (nb if na is None else (na if len(na) <= len(nb) else nb))
        out.mut = a.mut | b.mut
        out.sites = dict(a.sites)
        out.sites.update(b.sites)
        return out

    def s_For(self, s, env):
        it = self.eval(s.iter, env)
        return self.run_loop(s, it, env, lambda e, el: self.assign(s.target, el, e, s), s.body, s.orelse)

    def make_loop(self, s, it):
        """returns (Loop or None, element V)"""
        f = self.stack[-1].func
        if it.kind == "fragset":
            fl = it.obj
            if fl.get("symchildren") is not None:
                l = Loop("sym", s, f, parent=fl["symchildren"], include_self=fl.get("include_self", False), maxgen=fl.get("maxgen", "none"),
                         desc="%s line %d" % (f.short, getattr(s, "lineno", 0)))
                d = frozenset([l, fl["symchildren"]]) | it.deps
                el = V(kind="frag", obj=l, deps=d, rk=it.rk)
                return l, el
            l = Loop("frag", s, f, filters=fl, desc="%s line %d" % (f.short, getattr(s, "lineno", 0)))
            self.stats["loops"].add((f.short, getattr(s, "lineno", 0)))
            el = V(kind="frag", obj=l, deps=frozenset([l]) | it.deps, rk=bool(fl.get("rank")) or it.rk)
            return l, el
        if it.kind == "symgen":
            o = it.obj
            l = Loop("sym", s, f, parent=o["parent"], include_self=o["include_self"], maxgen=o["maxgen"], desc="%s line %d" % (f.short, getattr(s, "lineno", 0)))
            self.stats["symloops"].add((f.short, getattr(s, "lineno", 0)))
            d = frozenset([l, o["parent"]]) | it.deps
            fr = V(kind="frag", obj=l, deps=d, rk=it.rk)
            if o["narr"] == 0:
                el = fr
            elif o["narr"] == 1:
                el = V(kind="tuple", items=(fr, V(deps=d, rk=it.rk)))
            elif o["narr"] is None:
                el = V(kind="tuple", items=(fr, V(deps=d, rk=it.rk)))
            else:
                el = V(kind="tuple", items=(fr, V(kind="tuple", items=tuple(V(deps=d, rk=it.rk) for _ in range(o["narr"])), deps=d)))
            return l, el
        if it.kind == "enumerate":
            l, el = self.make_loop(s, it.obj)
            idx = V(kind="idx", obj=l, deps=el.deps if l is not None and l.kind == "frag" else EMPTY, rk=False)
            return l, V(kind="tuple", items=(idx, el), deps=el.deps)
        if it.kind == "zip":
            fs = [x for x in it.obj if x.kind in ("fragset", "symgen", "enumerate")]
            if len(fs) >= 1:
                main = fs[0]
                l, el = self.make_loop(s, main)
                els = []
                for x in it.obj:
                    if x is main:
                        els.append(el)
                    elif x.kind == "symwlist":
                        els.append(V(deps=frozenset([l]) if l else EMPTY, w={l: frozenset([1])} if l else {}))
                    elif x.kind == "childlists":
                        els.append(V(kind="childlist", obj=l, deps=frozenset([l]) if l else EMPTY))
                    else:
                        els.append(self.element(x))
                return l, V(kind="tuple", items=tuple(els))
            return None, V(kind="tuple", items=tuple(self.element(x) for x in it.obj))
        if it.kind == "childlists":
            return None, V(kind="childlist", obj=None)
        return None, self.element(it)

    def element(self, v):
        if isinstance(v.items, tuple) and v.items:
            r = None
            for i in v.items:
                r = i if r is None else join(r, i)
            return r
        if v.kind == "fragset":
            return V(kind="any", deps=v.deps, rk=v.rk)
        if v.kind in ("list", "tuple", "dict", "set") and v.items is None and v.obj is not None and isinstance(v.obj, V):
            return v.obj
        return V(kind="any", deps=v.deps, rk=v.rk, part=v.part, w=v.w, sums=v.sums, cell=v.cell, zero=v.zero, unk=v.unk)

    def run_loop(self, s, it, env, bindel, body, orelse):
        if isinstance(it.items, tuple) and it.kind in ("tuple", "list") and 0 < len(it.items) <= 4 and any(
            i.kind in ("fragset", "frag", "mpi", "closure", "bound", "dict") for i in it.items
        ):
            # literal collection of interesting values: unroll
            for el in it.items:
                self.loopctl = list(self.loopctl) + [{"cont": [], "brk": []}]
                bindel(env, el)
                out = self.block(body, env)
                ctl = self.loopctl.pop()
                for x in ctl["cont"] + ctl["brk"]:
                    out = self.joinenv(out, x, None)
                if out is None:
                    return None
                env = out
            return self.block(orelse, env) if orelse else env
        l, el = self.make_loop(s, it)
        rank_dep = it.rk or (l is not None and l.kind == "frag" and l.rank)
        if it.kind == "any" and it.rk:
            rank_dep = True
        if l is not None:
            self.loops.append(l)
        ndiv = len(self.div)
        if rank_dep:
            self.div.append("loop over the fragments of the own rank (line %d)" % s.lineno)
        cur = env
        try:
            for _ in range(2):
                body_env = cur.copy()
                self.loopctl = list(self.loopctl) + [{"cont": [], "brk": []}]
                ref0 = dict(self.refine)
                nd = len(self.div)
                bindel(body_env, el)
                out = self.block(body, body_env)
                del self.div[nd:]
                self.refine = ref0
                ctl = self.loopctl.pop()
                nxt = None
                for x in ctl["cont"] + ctl["brk"]:
                    nxt = self.joinenv(nxt, x, None)
                nxt = self.joinenv(out, nxt, None) if out is not None else nxt
                if nxt is None:
                    nxt = cur
                # zero iterations possible; join, but a variable accumulated in the loop keeps the loop's records
                cur = self.joinloop(cur, nxt)
        finally:
            if l is not None:
                self.loops.pop()
                self.refine.pop(l, None)
            del self.div[ndiv:]
        if l is not None:
            for k, v in list(cur.items()):
                cur[k] = self.leave(v, l)
        if orelse:
            return self.block(orelse, cur)
        return cur

    def joinloop(self, a, b):
        out = Env()
        for k in set(a) | set(b):
            if k in a and k in b:
                va, vb = a[k], b[k]
                if va is vb:
                    out[k] = va
                else:
                    j = join(va, vb)
                    # the path through the body subsumes the empty loop for the pairing of contributions
                    if vb.sums != va.sums:
                        j = j.but(sums=vb.sums)
                    out[k] = j
            else:
                out[k] = a[k] if k in a else b[k]
            na, nb = a.nest.get(k), b.nest.get(k)
            out.nest[k] = na if nb is None else (nb if na is None else (na if len(na) <= len(nb) else nb))
        out.mut = a.mut | b.mut
        out.sites = dict(a.sites)
        out.sites.update(b.sites)
        return out

    def leave(self, v, l):
        """after the loop a value that depended on the current fragment"""
        if l not in v.deps and l not in v.w and not isinstance(v.items, tuple):
            return v
        rk = v.rk or (l.kind == "frag" and l.rank)
        items = v.items
        if isinstance(items, tuple):
            items = tuple(self.leave(i, l) for i in items)
        return v.but(deps=v.deps - {l}, w={k: c for k, c in v.w.items() if k is not l}, rk=rk if l in v.deps else v.rk, items=items)

    def s_While(self, s, env):
        c = self.eval(s.test, env)
        return self.run_loop(s, V(rk=c.rk), env, lambda e, el: None, s.body, s.orelse)

    def s_With(self, s, env):
        for it in s.items:
            v = self.eval(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, V(deps=v.deps, rk=v.rk), env, s)
        return self.block(s.body, env)

    s_AsyncWith = s_With

    def s_Try(self, s, env):
        pre = env.copy()
        r = self.block(s.body, env)
        if r is not None and s.orelse:
            r = self.block(s.orelse, r)
        for h in s.handlers:
            he = pre.copy()
            if h.name:
                self.bind(he, h.name, V())
            x = self.block(h.body, he)
            if x is not None:
                r = self.joinenv(r, x, None) if r is not None else x
        if s.finalbody:
            if r is not None:
                r = self.block(s.finalbody, r)
            else:
                self.block(s.finalbody, pre)
        return r

    # ------------------------------------------------------------ expressions

    def eval(self, e, env):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.mixture([self.eval(x, env) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)])
        return m(e, env)

    def mixture(self, vs, **kw):
        deps = EMPTY
        rk = part = unk = False
        for v in vs:
            deps |= v.deps
            rk |= v.rk
            part |= v.part
            unk |= v.unk
        d = dict(deps=deps, rk=rk, part=part, unk=unk, sums=sums_union(*[v.sums for v in vs]) if vs else NOSUM, w=wmul(vs))
        d.update(kw)
        return V(**d)

    def e_Constant(self, e, env):
        return const(e.value)

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        f = self.stack[-1].func
        p = f
        # closures: handled via env chaining at definition time
        r = self.pkg.lookup(f.module, e.id)
        if f.module.imports.get(e.id) == "vayesta.mpi.mpi" or (isinstance(r, tuple) and r[0] == "expr" and r[1].name == "vayesta.mpi" and e.id == "mpi"):
            return V(kind="mpi")
        return self.ref(r, e.id)

    def ref(self, r, name):
        if name == "vayesta.mpi.mpi":
            return V(kind="mpi")
        if isinstance(r, FuncInfo):
            return V(kind="ref", obj=r)
        if isinstance(r, ClassInfo):
            return V(kind="ref", obj=r)
        if isinstance(r, Module):
            return V(kind="ref", obj=r)
        if isinstance(r, tuple) and r[0] == "ext":
            return V(kind="ref", obj=r)
        if isinstance(r, tuple) and r[0] == "expr":
            if isinstance(r[2], ast.Constant):
                return const(r[2].value)
            if isinstance(r[2], ast.Lambda):
                return V(kind="closure", obj=(FuncInfo(r[1], r[2], name=name), Env()))
            return V()
        return V(kind="ref", obj=("ext", "builtins." + name))

    def e_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            items = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.eval(x.value, env)
                    if isinstance(v.items, tuple):
                        items += list(v.items)
                    else:
                        return self.mixture(items + [v], kind="tuple")
                else:
                    items.append(self.eval(x, env))
        else:
            items = [self.eval(x, env) for x in e.elts]
        m = self.mixture(items)
        return m.but(kind="tuple", items=tuple(items), w={})

    def e_List(self, e, env):
        return self.e_Tuple(e, env).but(kind="list", accnest=None)

    def e_Set(self, e, env):
        return self.mixture([self.eval(x, env) for x in e.elts], kind="set")

    def e_Dict(self, e, env):
        items = {}
        vs = []
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, env)
            vs.append(vv)
            if k is None:
                if isinstance(vv.items, dict):
                    items.update(vv.items)
                continue
            kk = self.eval(k, env)
            if isinstance(kk.const, str):
                items[kk.const] = vv
        m = self.mixture(vs)
        return V(kind="dict", items=items, deps=m.deps, rk=m.rk, unk=m.unk)

    def e_JoinedStr(self, e, env):
        return V()

    def e_Lambda(self, e, env):
        return V(kind="closure", obj=(FuncInfo(self.stack[-1].func.module, e, name="<lambda>", parent=None), env))

    def e_IfExp(self, e, env):
        c = self.eval(e.test, env)
        t = self.truth(c, e.test, env)
        if t is not None:
            return self.eval(e.body if t else e.orelse, env)
        a, b = self.eval(e.body, env), self.eval(e.orelse, env)
        r = join(a, b, self, self.condkey(c, e.test))
        if c.rk:
            r = r.but(rk=True)
        return r

    def e_BoolOp(self, e, env):
        vs = [self.eval(v, env) for v in e.values]
        isand = isinstance(e.op, ast.And)
        # short circuit on constants
        known = []
        for i, v in enumerate(vs):
            t = self.truth(v, e.values[i], env)
            if t is not None and t != isand:
                if all(k is not None for k in known):
                    return v if v.const is not NOC else V(const=t, rk=v.rk)
                # some earlier operand unknown: still decided for `and False` / `or True`
                return V(const=(not isand), rk=any(x.rk for x in vs[: i + 1]))
            known.append(t)
        rest = [v for v, t in zip(vs, known) if t is None]
        if not rest:
            return vs[-1]
        if len(rest) == 1:
            r = rest[0]
            return r.but(rk=any(v.rk for v in vs), boolop=("and" if isand else "or") if len(vs) > 1 else r.boolop)
        m = self.mixture(vs)
        if not isand and len(vs) == 2:
            # `a or b` as a default value
            return join(vs[0], vs[1]).but(rk=m.rk, boolop="or" if any(v.boolop for v in vs) else None)
        return V(deps=m.deps, rk=m.rk, unk=m.unk, boolop="and" if isand else "or", sums=m.sums)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, e.operand, env)
            if t is not None:
                return V(const=not t, rk=v.rk)
            return V(rk=v.rk, deps=v.deps, origin=("not " + v.origin if v.origin and not v.origin.startswith("not ") else (v.origin[4:] if v.origin else None)))
        if v.tnone:
            self.use_none(v, e, "used in arithmetic")
        if v.const is not NOC and isinstance(v.const, (int, float)) and isinstance(e.op, ast.USub):
            return const(-v.const)
        return v.but(origin=None, accnest=None)

    def e_Compare(self, e, env):
        vs = [self.eval(e.left, env)] + [self.eval(c, env) for c in e.comparators]
        m = self.mixture(vs)
        if len(vs) == 2:
            a, b = vs
            op = e.ops[0]
            r = self.compare(op, a, b)
            if r is not None:
                return r
            for x, y in ((a, b), (b, a)):
                if x.origin and y.const is not NOC and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                    o = "%s == %r" % (x.origin, y.const)
                    if isinstance(op, (ast.IsNot, ast.NotEq)):
                        o = "not " + o
                    return V(rk=m.rk, deps=m.deps, origin=o)
        return V(rk=m.rk, deps=m.deps, unk=m.unk)

    def compare(self, op, a, b):
        isin = isinstance(op, (ast.In, ast.NotIn))
        neg = isinstance(op, (ast.NotIn, ast.NotEq, ast.IsNot))
        if isin and isinstance(b.items, tuple):
            rk = False
            unknown = False
            for x in b.items:
                r = self.eq(a, x)
                if r is None:
                    unknown = True
                elif r[0]:
                    return V(const=(not neg), rk=r[1] if not rk else rk)
                else:
                    rk |= r[1]
            if unknown:
                return None
            return V(const=neg, rk=rk)
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            r = self.eq(a, b)
            if r is None:
                return None
            return V(const=(r[0] != neg), rk=r[1])
        return None

    def eq(self, a, b):
        """(truth, rank-dependent) or None"""
        for x, y in ((a, b), (b, a)):
            if x.kind == "target":
                if y.kind == "rank":
                    return (self.scenario["target"] == "mine", True)
                if y.const is None:
                    return (False, False)
            if x.kind == "rank" and isinstance(y.const, int) and not isinstance(y.const, bool):
                if y.const == 0:
                    return (self.scenario["master"], True)
                return None
            if x.kind == "rank" and y.const is None:
                return (False, False)
            if y.const is None and y.kind == "none" and x.kind in ("frag", "fragset", "mpi", "dict", "list", "tuple", "symgen", "closure") and not x.tnone:
                return (False, False)
            if x.tnone and y.const is None:
                return (True, True)
        if a.const is not NOC and b.const is not NOC:
            try:
                return (bool(a.const == b.const), a.rk or b.rk)
            except Exception:
                return None
        if a.origin and b.const is not NOC:
            k = "%s == %r" % (a.origin, b.const)
            if k in self.assume:
                return (self.assume[k], a.rk)
        return None

    def e_BinOp(self, e, env):
        a, b = self.eval(e.left, env), self.eval(e.right, env)
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, site):
        for x in (a, b):
            if x.tnone and not (isinstance(op, ast.Mod)):
                self.use_none(x, site, "used in arithmetic")
        if isinstance(op, ast.Mod) and isinstance(a.const, str):
            return V(deps=b.deps, rk=b.rk)
        if a.const is not NOC and b.const is not NOC and isinstance(a.const, (int, float)) and isinstance(b.const, (int, float)):
            try:
                r = {ast.Add: lambda: a.const + b.const, ast.Sub: lambda: a.const - b.const, ast.Mult: lambda: a.const * b.const}.get(type(op), lambda: NOC)()
                if r is not NOC:
                    return const(r)
            except Exception:
                pass
        if isinstance(op, (ast.Add, ast.Sub)):
            if a.kind == "nchild" and b.const == 1:
                return self.symfactor(a.obj, a.deps, a.rk)
            if b.kind == "nchild" and a.const == 1:
                return self.symfactor(b.obj, b.deps, b.rk)
            if a.kind in ("list", "tuple") and b.kind in ("list", "tuple") and isinstance(a.items, tuple) and isinstance(b.items, tuple):
                return self.mixture([a, b]).but(kind=a.kind, items=a.items + b.items, w={})
            if a.kind == "fragset" or b.kind == "fragset":
                return V(rk=a.rk or b.rk)
            self.mixcheck(a, b, site)
            return V(deps=a.deps | b.deps, rk=a.rk or b.rk, part=a.part or b.part, w=wjoin(a, b), sums=sums_union(a.sums, b.sums),
                     cell=self.cjoin(a, b, site), zero=a.zero and b.zero, unk=a.unk or b.unk)
        if isinstance(op, (ast.Mult, ast.MatMult)):
            if (a.kind == "list" and a.items is not None) and not isinstance(op, ast.MatMult) and isinstance(b.const, int):
                return a.but(items=a.items * b.const) if b.const <= 8 else a
            if (b.kind == "list" and b.items is not None) and not isinstance(op, ast.MatMult) and isinstance(a.const, int):
                return b.but(items=b.items * a.const) if a.const <= 8 else b
            c = cadd(a.cell if not a.zero else None, b.cell if not b.zero else None)
            if a.part and b.part:
                self.report.product(self, a, b, site)
            return V(deps=a.deps | b.deps, rk=a.rk or b.rk, part=a.part or b.part, w=wmul([a, b]), sums=sums_union(a.sums, b.sums),
                     cell=c, zero=a.zero or b.zero, unk=a.unk or b.unk)
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            c = a.cell
            if b.cell is not None:
                c = (a.cell or 0) - b.cell if a.cell != "mixed" else "mixed"
            return V(deps=a.deps | b.deps, rk=a.rk or b.rk, part=a.part or b.part, w=wmul([a, b], [1, -1]), sums=sums_union(a.sums, b.sums),
                     cell=c, zero=a.zero, unk=a.unk or b.unk)
        return self.mixture([a, b])

    def mixcheck(self, a, b, site, store=False):
        if self.masterish:
            return
        for x, y in ((a, b), (b, a)):
            if x.part and not y.part and not y.rk and not y.zero and not y.unk and not y.deps and y.const is NOC or (
                x.part and not y.part and isinstance(y.const, (int, float)) and not isinstance(y.const, bool) and y.const != 0 and not store
            ):
                if store and x is b:
                    # storing a partial sum into a fresh array of a known value
                    if y.zero or y.fresh:
                        continue
                if store and y is b:
                    pass
                self.report.mix(self, x, y, site, "a value that every rank holds in full is combined with a rank-local partial sum")
                return

    def cjoin(self, a, b, site):
        ca, cb = a.cell, b.cell
        if a.zero:
            return cb
        if b.zero:
            return ca
        if ca is None or (a.const is not NOC):
            return cb
        if cb is None or (b.const is not NOC):
            return ca
        if ca == cb:
            return ca
        self.report.cellmix(self, a, b, site)
        return "mixed"

    def symfactor(self, loop, deps, rk):
        if loop is None:
            return V(kind="symw")
        self.stats["weights"].add((self.stack[-1].func.short, loop.desc))
        return V(deps=deps | frozenset([loop]), w={loop: frozenset([1])}, rk=rk)

    def e_Attribute(self, e, env):
        if isinstance(e.value, ast.Name) and ("%s.%s" % (e.value.id, e.attr)) in env:
            return env["%s.%s" % (e.value.id, e.attr)]
        v = self.eval(e.value, env)
        return self.getattr(v, e.attr, e, env)

    def getattr(self, v, attr, e, env):
        if v.kind == "mpi":
            if attr == "rank":
                return V(kind="rank", rk=True)
            if attr == "is_master":
                return V(const=self.scenario["master"], rk=True)
            if attr == "world":
                return V(kind="world")
            if attr == "enabled":
                return const(True)
            if attr == "disabled":
                return const(False)
            if attr == "MPI":
                return V(kind="MPI")
            return V(kind="mpimeth", obj=attr)
        if v.kind == "world":
            return V(kind="worldmeth", obj=attr)
        if v.kind == "MPI":
            return V(kind="mpiop", const=attr)
        if v.kind == "frag":
            l = v.obj
            if attr in ("results", "_results"):
                self.report.remote(self, v, attr, e)
            if attr == "symmetry_factor":
                return self.symfactor(l if l.kind == "frag" else l, v.deps, v.rk)
            if attr == "n_symmetry_children":
                return V(kind="nchild", obj=l, deps=v.deps, rk=v.rk)
            if attr == "base":
                return self.report.emb_of_frag(self)
            if attr == "mpi_rank":
                return V(deps=v.deps, kind="fragrank")
            if attr in ("id", "name", "sym_parent", "sym_op", "log", "c_frag", "c_env", "cluster", "solver", "opts", "flags", "active", "contributes", "mf", "mol"):
                return V(deps=v.deps, rk=False if not l.rank else v.rk, kind="fragattr", obj=attr)
            f = self.report.frag_method(self, v, attr)
            if f is not None:
                if f.is_property:
                    if self.report.inline_frag(f):
                        return self.inline(f, [v], {}, e, env)
                    return V(deps=v.deps, rk=v.rk)
                return V(kind="bound", obj=(f, v), deps=v.deps, rk=v.rk)
            return V(kind="fragattr", obj=attr, deps=v.deps, rk=v.rk)
        if v.kind == "obj":
            return self.obj_attr(v, attr, e, env)
        if v.kind == "ref":
            r = self.pkg.member(v.obj, attr) if not isinstance(v.obj, FuncInfo) else None
            if isinstance(v.obj, Module) and v.obj.name == "vayesta.mpi" and attr == "mpi":
                return V(kind="mpi")
            if r is None:
                return V()
            return self.ref(r, attr)
        if v.tnone:
            self.use_none(v, e, "attribute '%s' read" % attr)
            return V()
        if attr == "mpi" and v.kind == "any":
            return V(kind="mpi")
        if attr == "world" and v.kind in ("any", "fragattr"):
            return V(kind="world")
        if attr in ("T", "real", "imag"):
            return v.but(origin=None, accnest=None, kind="any" if v.kind == "fragattr" else v.kind)
        if attr in ("shape", "dtype", "ndim", "size"):
            return V(deps=v.deps, rk=False)
        if attr in ("append", "extend", "clear", "copy", "items", "values", "keys", "update", "transpose", "trace", "sum", "dot", "reshape", "conj", "astype", "get"):
            return V(kind="vmeth", obj=(v, attr, e.value if isinstance(e, ast.Attribute) else None), deps=v.deps, rk=v.rk)
        org = (v.origin + "." + attr) if v.origin else None
        return V(deps=v.deps, rk=v.rk, unk=v.unk, origin=org, part=v.part, sums=v.sums, w=v.w, kind="fragattr" if v.kind == "fragattr" else "any", obj=attr if v.kind == "fragattr" else None)

    def obj_attr(self, v, attr, e, env):
        cls = v.obj
        if attr == "fragments":
            return self.mk_fragset({"sym": "all"}, e)
        if attr in ("mf", "mol", "log", "symmetry", "register"):
            if attr == "log":
                return V(kind="log")
            return V(kind="any", origin="self." + attr)
        h = self.report.obj_attr(self, v, attr)
        if h is not None:
            return h
        f = self.pkg.find_method(cls, attr)
        if f is not None:
            if f.is_property:
                if attr == "ncells":
                    return V(cell=-1)
                return self.inline(f, [v], {}, e, env)
            return V(kind="bound", obj=(f, v))
        r = self.pkg.class_attr(cls, attr)
        if isinstance(r, (ClassInfo, FuncInfo)):
            return V(kind="ref", obj=r)
        return V(origin="self." + attr)

    def mk_fragset(self, filters, e):
        return V(kind="fragset", obj=filters, rk=bool(filters.get("rank")))

    def e_Subscript(self, e, env):
        v = self.eval(e.value, env)
        i = self.eval(e.slice, env)
        if v.tnone:
            self.use_none(v, e, "indexed")
            return V()
        if isinstance(v.items, tuple) and isinstance(i.const, int) and not isinstance(i.const, bool):
            try:
                return v.items[i.const]
            except IndexError:
                return V()
        if isinstance(v.items, dict) and isinstance(i.const, str) and i.const in v.items:
            return v.items[i.const]
        if v.kind == "symwlist" and i.kind == "idx" and i.obj is not None:
            return self.symfactor(i.obj, i.deps, False)
        if v.kind == "fragset":
            return V(kind="any", deps=v.deps, rk=v.rk)
        if v.kind == "rma":
            return V(deps=i.deps)
        if v.kind in ("tuple", "list") and isinstance(v.items, tuple) and v.items:
            el = self.element(v)
            return el.but(deps=el.deps | i.deps, origin=None)
        return V(kind="any", deps=v.deps | i.deps, rk=v.rk or i.rk, part=v.part, w=v.w, sums=v.sums, cell=v.cell, zero=v.zero, unk=v.unk)

    def e_Slice(self, e, env):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.eval(x, env)
        return V()

    def e_Starred(self, e, env):
        return self.eval(e.value, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env, e)
        return v

    def _comp(self, e, env, elts):
        env = env.copy()
        pushed = []
        rank = False
        info = None
        ndiv = len(self.div)
        for g in e.generators:
            it = self.eval(g.iter, env)
            l, el = self.make_loop(e, it)
            if l is not None:
                self.loops.append(l)
                pushed.append(l)
            if it.rk:
                rank = True
                self.div.append("comprehension over the fragments of the own rank (line %d)" % e.lineno)
            self.assign(g.target, el, env, e)
            for c in g.ifs:
                self.eval(c, env)
                self._guard_refine(c, True, env)
            info = (it, l, g)
        vals = [self.eval(x, env) for x in elts]
        out = []
        for v in vals:
            recs = set()
            for l in pushed:
                if l.kind == "frag" and l in v.deps:
                    for n in v.w.get(l, frozenset([0])):
                        exps = [c for c in pushed if c.kind == "sym" and c.parent is l]
                        if not exps:
                            k = {0: "self", 1: "full"}.get(n, "weight%d" % n)
                        else:
                            c = exps[-1]
                            k = "over" if n else ({True: "full", False: "children", None: "unknown"}[c.include_self] if c.maxgen == "none" else ("self" if c.include_self else "none"))
                        filt = dict(l.filters or {})
                        filt.update(self.refine.get(l, {}))
                        recs.add(SumRec(l, k, e, filt, self.stack[-1].func))
            part = any(r.filters.get("rank") for r in recs)
            vv = v
            for l in pushed:
                vv = self.leave(vv, l)
            out.append(vv.but(sums=sums_union(vv.sums, frozenset([frozenset(recs)])) if recs else vv.sums, part=vv.part or part,
                              rk=vv.rk or rank or part, origin=None, cell=vv.cell if not recs or vv.cell is not None else 0))
        filt_extra = {}
        for l in pushed:
            filt_extra.update(self.refine.get(l, {}))
            self.refine.pop(l, None)
        for l in pushed:
            self.loops.remove(l)
        del self.div[ndiv:]
        return vals, out, info, rank, filt_extra

    def e_ListComp(self, e, env):
        vals, out, info, rank, extra = self._comp(e, env, [e.elt])
        it, l, g = info
        v = vals[0]
        if v.kind == "frag" and l is not None and v.obj is l and l.kind == "frag" and isinstance(e.elt, ast.Name) and len(e.generators) == 1:
            f = dict(l.filters)
            f.update(extra)
            return self.mk_fragset(f, e)
        if it.kind == "childlists" and v.kind == "symw":
            return V(kind="symwlist")
        o = out[0]
        return V(kind="list", obj=o, deps=o.deps, rk=o.rk or rank, part=o.part, sums=o.sums, w=o.w, unk=o.unk, cell=o.cell)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return self.e_ListComp(e, env).but(kind="set")

    def e_DictComp(self, e, env):
        vals, out, info, rank, extra = self._comp(e, env, [e.key, e.value])
        return V(kind="dict", items=None, deps=out[1].deps, rk=rank or out[1].rk)

    # ----------------------------------------------------------------- calls

    def e_Call(self, e, env):
        fv = self.eval(e.func, env)
        args, star = [], False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                if isinstance(v.items, tuple):
                    args += list(v.items)
                else:
                    star = True
                    args.append(v)
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v.items, dict):
                    kw.update(v.items)
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return self.call(fv, args, kw, e, env)

    def use_none(self, v, site, how):
        self.report.tnone_use(self, v, site, how)

    def collective(self, name, site):
        self.stats["collectives"].add((self.stack[-1].func.short, name, site.lineno))
        if self.div:
            self.report.divergent(self, name, site, self.div[-1])

    def reduce_val(self, v, target, op, site, name):
        """result of a (all)reduce of v"""
        self.stats["reductions"].add((self.stack[-1].func.short, site.lineno))
        self.report.reduction(self, v, op, site, name)
        if v.tnone:
            self.use_none(v, site, "reduced")
        if target is None or target.const is None:
            return self.reduced(v)
        mine = None
        if target.kind == "target":
            mine = self.scenario["target"] == "mine"
        elif isinstance(target.const, int):
            mine = self.scenario["master"] if target.const == 0 else None
        elif target.kind == "rank":
            mine = True
        if mine is False:
            return V(kind="none", tnone=True, rk=True)
        return self.reduced(v)

    def reduced(self, v):
        items = v.items
        if isinstance(items, tuple):
            items = tuple(self.reduced(i) for i in items)
        return V(kind=v.kind if v.kind in ("tuple", "list") else "any", deps=v.deps, sums=v.sums, w=v.w, cell=v.cell, zero=v.zero, unk=v.unk, items=items)

    def call(self, fv, args, kw, e, env):
        allv = list(args) + list(kw.values())
        # --- MPI
        if fv.kind == "worldmeth":
            n = fv.obj
            if n in COLLECTIVES:
                self.collective("world." + n, e)
                if n in ("allreduce", "reduce"):
                    op = kw.get("op") or (args[1] if len(args) > 1 and args[1].kind == "mpiop" else None)
                    root = kw.get("root") if n == "reduce" else None
                    if n == "reduce" and root is None:
                        root = const(0)
                    return self.reduce_val(args[0] if args else UNK, root, op, e, n)
                if n == "gather":
                    root = kw.get("root", const(0))
                    if isinstance(root.const, int) and root.const == 0 and not self.scenario["master"]:
                        return V(kind="none", tnone=True, rk=True)
                    return V(rk=True)
                return V(unk=True)
            return V(rk=True)
        if fv.kind == "mpimeth":
            n = fv.obj
            if n == "nreduce":
                self.collective("nreduce", e)
                op = kw.get("op")
                t = kw.get("target")
                rs = [self.reduce_val(a, t, op, e, "nreduce") for a in args]
                if len(rs) == 1:
                    return rs[0]
                return self.mixture(rs).but(kind="tuple", items=tuple(rs), rk=False, w={})
            if n == "create_rma_dict":
                self.collective("create_rma_dict", e)
                return V(kind="rma")
            if n == "bcast":
                self.collective("bcast", e)
                return V()
            return V(rk=n not in ("get_new_tag",))
        if fv.kind == "log":
            return V()
        # --- methods of values
        if fv.kind == "vmeth":
            return self.vmeth(fv, args, kw, e, env)
        if fv.kind == "closure":
            fi, cenv = fv.obj
            return self.inline_closure(fi, cenv, args, kw, e, env)
        if fv.kind == "bound":
            f, recv = fv.obj
            return self.call_bound(f, recv, args, kw, e, env)
        if fv.kind == "fragattr" and fv.obj in ("loop_symmetry_children", "get_symmetry_children"):
            return V(deps=fv.deps)
        if fv.kind == "ref":
            o = fv.obj
            if isinstance(o, FuncInfo):
                return self.call_func(o, args, kw, e, env)
            if isinstance(o, ClassInfo):
                if o.name == "RMA_Dict":
                    return V(kind="rma")
                h = self.report.construct(self, o, args, kw)
                if h is not None:
                    return h
                return self.opaque(allv)
            if isinstance(o, tuple):
                return self.call_ext(o[1], args, kw, e, env)
        for a in allv:
            if a.tnone and not _is_logcall(e):
                self.use_none(a, e, "passed to %s" % ast.unparse(e.func)[:40])
        return self.opaque(allv + [V(deps=fv.deps, rk=fv.rk, unk=fv.unk, part=fv.part, sums=fv.sums, w=fv.w)])

    def opaque(self, vs):
        m = self.mixture(vs)
        return V(deps=m.deps, rk=m.rk, part=m.part, unk=m.unk, sums=m.sums, w=m.w)

    def vmeth(self, fv, args, kw, e, env):
        v, attr, node = fv.obj
        if attr == "append" and args:
            if isinstance(node, ast.Name) and node.id in env:
                a = args[0]
                old = env[node.id]
                if a.kind == "frag" or (isinstance(a.items, tuple) and not a.sums):
                    pass
                acc = self.accumulate(node.id, old.but(zero=True, kind="any", items=None), [a], env, e)
                el = old.obj if isinstance(old.obj, V) else None
                elv = a if el is None else join(el, a)
                self.setvar(env, node.id, acc.but(kind="list", obj=elv.but(sums=acc.sums, part=acc.part, rk=acc.rk)), keepnest=True)
                env.mut.add(node.id)
            return const(None)
        if attr == "clear" and v.kind == "rma":
            self.collective("RMA window free", e)
            return const(None)
        if attr == "copy":
            return v.but(origin=None, accnest=None)
        if attr == "update" and v.kind == "dict" and isinstance(node, ast.Name) and node.id in env:
            it = dict(v.items or {})
            for a in args:
                if isinstance(a.items, dict):
                    it.update(a.items)
            it.update(kw)
            self.setvar(env, node.id, v.but(items=it), keepnest=True)
            return const(None)
        if attr == "get" and v.kind == "dict" and args and isinstance(args[0].const, str) and isinstance(v.items, dict):
            return v.items.get(args[0].const, args[1] if len(args) > 1 else const(None))
        if attr in ("items", "values", "keys"):
            return V(kind="list", deps=v.deps, rk=v.rk)
        if attr in ("sum", "trace", "transpose", "reshape", "conj", "astype"):
            return V(deps=v.deps, rk=v.rk, part=v.part, w=v.w, sums=v.sums, cell=v.cell, zero=v.zero, unk=v.unk)
        if attr == "dot":
            return self.prod([v] + args, e)
        return self.opaque([v] + args + list(kw.values()))

    def prod(self, vs, e):
        for x in vs:
            if x.tnone:
                self.use_none(x, e, "contracted")
        c = None
        for x in vs:
            if x.const is NOC:
                c = cadd(c, x.cell)
        m = self.mixture(vs)
        return m.but(cell=c, kind="any", items=None)

    ZERO = {"zeros", "zeros_like"}
    SUMF = {"sum", "fsum", "trace", "einsum", "dot", "multi_dot", "tensordot", "matmul", "vdot", "inner", "outer"}
    PASS1 = {"array", "asarray", "ascontiguousarray", "real", "copy", "deepcopy", "transpose", "float", "squeeze", "hstack", "vstack", "stack", "concatenate", "block", "diag"}
    BOOL = {"all", "any"}
    DROP = {"len", "isinstance", "issubclass", "hasattr", "callable", "type", "repr", "str", "range", "id", "print", "format", "timer", "default_timer", "log_time", "time_string", "energy_string", "memory_string", "super", "ndim", "shape"}

    def call_ext(self, name, args, kw, e, env):
        base = name.split(".")[-1]
        allv = list(args) + list(kw.values())
        if base in self.ZERO:
            return V(zero=True, fresh=True)
        if base in ("empty", "empty_like"):
            return V(zero=True, fresh=True)
        if base in ("full",) and len(args) > 1:
            return V(zero=args[1].zero, fresh=True)
        if base == "dict" and name.startswith("builtins"):
            it = {}
            for a in args:
                if isinstance(a.items, dict):
                    it.update(a.items)
            it.update(kw)
            m = self.mixture(allv)
            return V(kind="dict", items=it, deps=m.deps, rk=m.rk)
        if base == "list" and name.startswith("builtins") or base == "tuple" and name.startswith("builtins") or base in ("sorted", "reversed"):
            if args and args[0].kind == "fragset":
                return args[0]
            if args:
                return args[0].but(kind="list" if base != "tuple" else "tuple", origin=None)
            return V(kind=base if base in ("list", "tuple") else "list", items=(), zero=True)
        if base == "enumerate":
            return V(kind="enumerate", obj=args[0], rk=args[0].rk) if args else V()
        if base == "zip":
            return V(kind="zip", obj=list(args), rk=any(a.rk for a in args))
        if base == "product" and "itertools" in name:
            return self.opaque(allv)
        if base == "getattr" and args and len(args) > 1 and isinstance(args[1].const, str):
            return self.getattr(args[0], args[1].const, e, env)
        if base == "len":
            if args and args[0].kind == "childlist":
                return V(kind="nchild", obj=args[0].obj, deps=args[0].deps)
            if args and args[0].kind == "fragset" and args[0].obj.get("symchildren") is not None:
                return V(kind="nchild", obj=args[0].obj["symchildren"], deps=args[0].deps, rk=args[0].rk)
            return V(rk=args[0].rk if args else False, deps=args[0].deps if args else EMPTY)
        if base == "isinstance":
            return V(rk=False)
        if base == "print" or base in self.DROP:
            return V(rk=any(a.rk for a in allv), deps=self.mixture(allv).deps)
        if base in self.BOOL:
            m = self.mixture(allv)
            return V(deps=m.deps, rk=m.rk, boolop="and" if base == "all" else "or")
        if base in ("sum", "fsum"):
            if args:
                a = args[0]
                if a.tnone:
                    self.use_none(a, e, "summed")
                if isinstance(a.items, tuple) and a.items:
                    r = a.items[0]
                    for x in a.items[1:]:
                        r = self.binop(ast.Add(), r, x, e)
                    return r.but(kind="any", origin=None)
                return V(deps=a.deps, rk=a.rk, part=a.part, w=a.w, sums=a.sums, cell=a.cell, zero=a.zero, unk=a.unk)
            return V()
        if base in self.SUMF:
            return self.prod([a for a in args if not isinstance(a.const, str)], e)
        if base in ("max", "min", "amax", "amin", "mean", "norm"):
            m = self.mixture(allv)
            return V(deps=m.deps, rk=m.rk, unk=m.unk)
        if base in self.PASS1 and args:
            a = args[0]
            if a.tnone:
                self.use_none(a, e, "passed to %s" % base)
            if a.kind in ("list", "tuple") and isinstance(a.items, tuple) and a.items:
                r = a.items[0]
                for x in a.items[1:]:
                    r = join(r, x)
                return r.but(kind="any", origin=None, items=None, deps=a.deps, w=self.mixture(list(a.items)).w if False else r.w)
            return V(deps=a.deps, rk=a.rk, part=a.part, w=a.w, sums=a.sums, cell=a.cell, zero=a.zero, unk=a.unk)
        for a in allv:
            if a.tnone and base not in ("info", "debug", "output", "timing"):
                self.use_none(a, e, "passed to %s" % base)
        return self.opaque(allv)

    def call_func(self, f, args, kw, e, env):
        util = f.module.name in ("vayesta.core.util", "vayesta.core.spinalg", "vayesta.core.linalg", "vayesta.core.helper")
        if util:
            if f.name in ("einsum", "dot"):
                return self.prod([a for a in args if not isinstance(a.const, str)], e)
            return self.call_ext(f.qualname, args, kw, e, env)
        h = self.report.func_hook(self, f, args, kw, e)
        if h is not None:
            return h
        if self.should_inline(f, args, kw):
            return self.inline(f, args, kw, e, env)
        for a in list(args) + list(kw.values()):
            if a.tnone:
                self.use_none(a, e, "passed to %s" % f.name)
        return self.opaque(list(args) + list(kw.values()))

    def should_inline(self, f, args, kw):
        if any(fr.func.node is f.node for fr in self.stack) or len(self.stack) > self.max_depth:
            return False
        return self.report.relevant(f) or any(a.interesting() for a in list(args) + list(kw.values()) if a.kind != "obj")

    def call_bound(self, f, recv, args, kw, e, env):
        name = f.name
        if recv.kind == "obj":
            if name == "get_fragments":
                return self.get_fragments(args, kw, e)
            if name == "get_symmetry_parent_fragments":
                return self.mk_fragset({"sym": "parents"}, e)
            if name == "get_symmetry_child_fragments":
                return V(kind="childlists")
            if name == "loop" and not args and not kw:
                return self.mk_fragset({"sym": "all"}, e)
            h = self.report.method_hook(self, recv, f, args, kw, e)
            if h is not None:
                return h
            if self.should_inline(f, args, kw):
                return self.inline(f, [recv] + args, kw, e, env)
            return self.opaque(args + list(kw.values()))
        if recv.kind == "frag":
            if name == "loop_symmetry_children":
                return self.sym_children(recv, args, kw, e)
            if name in ("get_symmetry_children",):
                mg = self.maxgen_of(kw.get("maxgen") or (args[0] if args else None))
                return V(kind="fragset", obj={"symchildren": self.root_loop(recv.obj), "include_self": False, "maxgen": mg}, deps=recv.deps, rk=recv.rk)
            if any(d.endswith("with_send") for d in f.decorator_names()):
                self.report.send(self, recv, f, e)
                return self.opaque([V(deps=recv.deps, rk=recv.rk)] + args + list(kw.values()))
            if self.report.inline_frag(f) and not any(fr.func.node is f.node for fr in self.stack) and len(self.stack) <= self.max_depth:
                return self.inline(f, [recv] + args, kw, e, env)
            for a in args + list(kw.values()):
                if a.tnone:
                    self.use_none(a, e, "passed to %s" % name)
            return self.opaque([V(deps=recv.deps, rk=recv.rk)] + args + list(kw.values()))
        return self.opaque([recv] + args + list(kw.values()))

    def root_loop(self, l):
        while l is not None and l.kind == "sym":
            l = l.parent
        return l

    def maxgen_of(self, v):
        if v is None or v.const is None:
            return "none"
        if v.const == 0 and v.const is not NOC:
            return "zero"
        return "other"

    def sym_children(self, recv, args, kw, e):
        names = ["arrays", "axes", "symtree", "maxgen", "include_self"]
        b = dict(zip(names, args))
        b.update(kw)
        arr = b.get("arrays")
        narr = 0
        if arr is not None and arr.const is not None or arr is not None and arr.const is NOC:
            narr = len(arr.items) if isinstance(arr.items, tuple) else None
        inc = b.get("include_self")
        inc = False if inc is None else (bool(inc.const) if inc.const is not NOC else None)
        return V(kind="symgen", obj={"parent": self.root_loop(recv.obj), "include_self": inc, "maxgen": self.maxgen_of(b.get("maxgen")), "narr": narr}, deps=recv.deps, rk=recv.rk)

    def get_fragments(self, args, kw, e):
        f = {"sym": "all"}
        b = dict(kw)
        if args:
            b.setdefault("fragments", args[0])
        if len(args) > 1:
            b.setdefault("options", args[1])
        if len(args) > 2:
            b.setdefault("flags", args[2])
        base = b.pop("fragments", None)
        if base is not None and base.kind == "fragset":
            f.update(base.obj)
        elif base is not None and base.const is not None:
            f["sym"] = "unknown"
        rk = False
        for k, v in b.items():
            if k == "sym_parent":
                if v.const is None and v.kind == "none":
                    f["sym"] = "parents"
                elif v.kind == "frag":
                    return V(kind="fragset", obj={"symchildren": self.root_loop(v.obj), "include_self": False, "maxgen": "other"}, deps=v.deps, rk=v.rk)
                else:
                    f["sym"] = "unknown"
            elif k == "mpi_rank":
                if v.kind == "rank":
                    f["rank"] = True
                elif v.rk:
                    f["rank"] = True
            elif k == "contributes":
                f["contrib"] = v.const if v.const is not NOC else "unknown"
            elif k == "active":
                f["active"] = v.const if v.const is not NOC else "unknown"
            elif k in ("flags", "options"):
                if isinstance(v.items, dict):
                    for kk, vv in v.items.items():
                        f[k[:-1] + "_" + kk] = vv.const if vv.const is not NOC else "unknown"
            elif k == "**":
                f["sym"] = "unknown"
                f["open"] = True
            else:
                f["x_" + k] = True
                f["partial"] = True
        self.stats["fragsets"].add((self.stack[-1].func.short, e.lineno))
        return self.mk_fragset(f, e)

    def bindargs(self, f, args, kw, caller_env, e):
        node = f.node
        a = node.args
        params = a.posonlyargs + a.args
        env = Env()
        names = [p.arg for p in params]
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        extra = {}
        for k, v in kw.items():
            if k in names or k in [p.arg for p in a.kwonlyargs]:
                env[k] = v
            else:
                extra[k] = v
        if a.vararg:
            env[a.vararg.arg] = V(kind="tuple", items=tuple(rest))
        if a.kwarg:
            env[a.kwarg.arg] = V(kind="dict", items={k: v for k, v in extra.items() if k != "**"}) if "**" not in extra else V(kind="dict", items=None, unk=True)
        defaults = [None] * (len(params) - len(a.defaults)) + list(a.defaults)
        for p, d in list(zip(params, defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if p.arg not in env:
                if d is not None:
                    env[p.arg] = self.eval(d, Env())
                else:
                    env[p.arg] = V(unk=True)
        for k in env:
            env.nest[k] = tuple(self.loops)
        # arguments that are plain variables keep the variable's nest (in-place accumulation in helpers)
        back = {}
        if isinstance(e, ast.Call) and caller_env is not None:
            off = len(args) - len([x for x in e.args]) if not any(isinstance(x, ast.Starred) for x in e.args) else None
            if off is not None:
                for i, x in enumerate(e.args):
                    j = i + off
                    if isinstance(x, ast.Name) and j < len(names) and x.id in caller_env:
                        env.nest[names[j]] = caller_env.nest.get(x.id, ())
                        back[names[j]] = x.id
            for k in e.keywords:
                if k.arg and isinstance(k.value, ast.Name) and k.arg in env and k.value.id in caller_env:
                    env.nest[k.arg] = caller_env.nest.get(k.value.id, ())
                    back[k.arg] = k.value.id
        return env, back

    def inline(self, f, args, kw, e, caller_env):
        if any(fr.func.node is f.node for fr in self.stack) or len(self.stack) > self.max_depth:
            return self.opaque(list(args) + list(kw.values()))
        env, back = self.bindargs(f, args, kw, caller_env, e)
        saved = self.loopctl
        self.loopctl = []
        final = {}
        try:
            res, fr = self.exec_func(f, env)
        finally:
            self.loopctl = saved
        for p, n in back.items():
            if p in env.mut and env[p].kind not in ("dict",) and caller_env is not None:
                caller_env[n] = env[p].but(accnest=None)
        res = self.decorate(f, res, e)
        if res.accnest is not None and any(l not in self.loops for l in res.accnest):
            res = res.but(accnest=None)
        return res.but(origin=None) if res.kind != "never" else V()

    def inline_closure(self, fi, cenv, args, kw, e, env):
        if any(fr.func.node is fi.node for fr in self.stack) or len(self.stack) > self.max_depth:
            return self.opaque(list(args) + list(kw.values()))
        new, back = self.bindargs(fi, args, kw, env, e)
        full = Env(cenv)
        full.nest = dict(cenv.nest)
        for k in new:
            full[k] = new[k]
            full.nest[k] = new.nest[k]
        saved = self.loopctl
        self.loopctl = []
        try:
            res, fr = self.exec_func(fi, full)
        finally:
            self.loopctl = saved
        # nonlocal writes
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Nonlocal):
                for k in n.names:
                    if k in full and k in cenv:
                        cenv[k] = full[k]
        return res.but(origin=None) if res.kind != "never" else V()

    def decorate(self, f, res, e):
        for d in f.decorators:
            t = d.func if isinstance(d, ast.Call) else d
            n = dotted(t) or ""
            if n.endswith("with_allreduce") or n.endswith("with_reduce"):
                op = None
                target = None
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg == "op":
                            op = V(kind="mpiop", const=(dotted(k.value) or "").split(".")[-1])
                        if k.arg == "root":
                            target = self.eval(k.value, Env())
                if n.endswith("with_reduce") and target is None:
                    target = const(0)
                self.collective(n, e)
                res = self.reduce_val(res, target, op, e, n + " on " + f.name)
            elif n.endswith("only_master"):
                if not self.scenario["master"]:
                    res = V(kind="none", tnone=True, rk=True)
        return res


def _is_logcall(e):
    f = e.func
    while isinstance(f, ast.Attribute):
        if f.attr == "log":
            return True
        f = f.value
    return False
