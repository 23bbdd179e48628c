"""Runs the fragment-sum interpreter over the public entry points of the embedding
classes, in every MPI scenario, and turns what it sees into findings for C01-C06."""
import ast
import re
from fragsum import Interp, V, NeedSplit, Budget, NOC, NOSUM, EMPTY, const, SumRec
from pkg import AnalysisError, ClassInfo, FuncInfo, dotted

KEYWORDS = ("get_fragments", ".fragments", "mpi", "symmetry_factor", "ncells", "loop_symmetry_children", "n_symmetry_children",
            "get_symmetry_children", "get_symmetry_parent_fragments", "contributes")

CELL1 = {"e_corr", "e_tot", "e_rpa"}       # attributes that hold per-cell energies
SUPER = {"e_tot", "energy_tot", "energy_nuc", "energy_elec", "e_nuc"}   # of the (folded) mean-field: whole supercell


class Finding:
    def __init__(self, prop, rule, func, construct, loc, msg, scen=""):
        self.prop, self.rule, self.func, self.construct, self.loc, self.msg, self.scen = prop, rule, func, construct, loc, msg, scen

    @property
    def key(self):
        return "%s|%s|%s|%s" % (self.prop, self.rule, self.func, self.construct)


def snip(node, n=70):
    try:
        s = ast.unparse(node)
    except Exception:
        s = type(node).__name__
    s = " ".join(s.split("\n")[0].split())
    return s[:n]


class Relevance:
    def __init__(self, pkg):
        self.pkg = pkg
        self.direct = {}
        names = {}
        for f in pkg.all_funcs:
            ids = set()
            calls = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute):
                    ids.add(n.attr)
                elif isinstance(n, ast.Name):
                    ids.add(n.id)
                if isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Name):
                        calls.add(n.func.id)
                    elif isinstance(n.func, ast.Attribute):
                        v = n.func.value
                        if isinstance(v, ast.Name) and v.id in ("self", "emb") or isinstance(v, ast.Call):
                            calls.add(n.func.attr)
            d = bool(ids & {"get_fragments", "fragments", "mpi", "symmetry_factor", "ncells", "loop_symmetry_children",
                            "n_symmetry_children", "get_symmetry_children", "get_symmetry_parent_fragments", "contributes"})
            names.setdefault(f.name, []).append(f)
            self.direct[f.node] = [d, calls]
        rel_names = {f.name for f in pkg.all_funcs if self.direct[f.node][0]}
        generic = {"__init__", "kernel", "copy", "get", "results", "__call__", "reset", "log", "info", "debug", "timer", "einsum", "dot", "write"}
        rel_names -= generic
        # names bound at class level to relevant functions (get_global_t1 = get_global_t1_rhf)
        changed = True
        while changed:
            changed = False
            for c in pkg.all_classes:
                for n, v in c.attrs.items():
                    d = dotted(v) if v is not None else None
                    if d and d.split(".")[-1] in rel_names and n not in rel_names:
                        rel_names.add(n)
                        changed = True
            for f in pkg.all_funcs:
                if f.name in rel_names or f.name in generic:
                    continue
                if f.module.name.startswith(("vayesta.ewf", "vayesta.core.qemb", "vayesta.dmet", "vayesta.edmet")) and self.direct[f.node][1] & rel_names:
                    rel_names.add(f.name)
                    changed = True
        self.rel_names = rel_names

    def __call__(self, f):
        if f.node in self.direct and self.direct[f.node][0]:
            return True
        return f.name in self.rel_names and f.module.name.startswith(("vayesta.ewf", "vayesta.core.qemb", "vayesta.dmet", "vayesta.edmet", "vayesta.mpi"))


class Report:
    def __init__(self, pkg, rel, cls, entry, scen):
        self.pkg, self.rel, self.cls, self.entry, self.scen = pkg, rel, cls, entry, scen
        self.found = []
        self.stores = []
        fc = pkg.class_attr(cls, "Fragment") if cls is not None else None
        if not isinstance(fc, ClassInfo):
            fc = None
        self.fragcls = fc or pkg.get_class("core.qemb.fragment.Fragment")

    def add(self, interp, prop, rule, site, msg, construct=None):
        f = interp.stack[-1].func if interp.stack else self.entry
        loc = "%s:%d" % (f.module.relpath, getattr(site, "lineno", f.node.lineno))
        chain = " <- ".join(fr.func.name for fr in reversed(interp.stack)) if interp.stack else self.entry.name
        self.found.append(Finding(prop, rule, f.short, construct or snip(site), loc, msg + "  [call path: %s; %s]" % (chain, self.scentext()), self.scen))

    def scentext(self):
        return ("rank 0" if self.scen["master"] else "rank > 0") + {"none": "", "mine": ", result requested on this rank", "other": ", result requested on another rank"}[self.scen["target"]]

    # --- hooks
    def attr_store(self, interp, recv, attr, v, site):
        self.stores.append((recv, attr, v, site, interp.stack[-1].func))
        if recv.kind == "obj" and attr in CELL1 | {"e_dmet", "_e_nonlocal"}:
            if v.part:
                self.add(interp, "C01", "part-stored", site, "'%s' is set to a rank-local partial sum that was never reduced over the MPI processes" % attr)
            if v.cell not in (1, None) and attr in CELL1:
                self.add(interp, "C06", "cell-store", site, "'%s' must hold an energy per unit cell but is set to a quantity divided %s times by the number of cells" % (attr, v.cell), construct="store " + attr)
            check_sums(self, interp, v, site)

    def mix(self, interp, a, b, site, msg):
        self.add(interp, "C01", "mix", site, msg + ": it is counted once per MPI process after the reduction")

    def product(self, interp, a, b, site):
        self.add(interp, "C01", "product", site, "two rank-local partial sums are multiplied before they are reduced")

    def cellmix(self, interp, a, b, site):
        self.add(interp, "C06", "cell-mix", site, "a quantity divided %s times by the number of cells is added to one divided %s times" % (a.cell, b.cell))

    def tnone_use(self, interp, v, site, how):
        self.add(interp, "C03", "none-used", site, "the reduction result, which is None on this rank, is %s" % how)

    def divergent(self, interp, name, site, reason):
        self.add(interp, "C02", "divergent", site, "collective '%s' is not reached by all MPI processes: %s" % (name, reason), construct=name)

    def reduction(self, interp, v, op, site, name):
        opn = op.const if op is not None and isinstance(op.const, str) else ("SUM" if op is None else None)
        vs = list(v.items) if isinstance(v.items, tuple) and v.items else [v]
        for x in vs:
            if x.boolop:
                want = {"and": "LAND", "or": "LOR"}[x.boolop]
                if opn not in (want, None, {"and": "MIN", "or": "MAX"}[x.boolop], {"and": "PROD", "or": "BOR"}[x.boolop], {"and": "BAND", "or": "BOR"}[x.boolop]):
                    self.add(interp, "C01", "reduction-op", site, "a logical '%s' over fragments is combined over the MPI processes with %s" % (x.boolop, opn))
                continue
            if x.part and opn not in ("SUM", None):
                self.add(interp, "C01", "reduction-op", site, "a sum over fragments is combined over the MPI processes with %s" % opn)
            if not x.part and not x.rk and not x.zero and not x.unk and opn in ("SUM", "PROD") and x.kind != "never":
                if x.sums != NOSUM or x.deps or x.const is NOC:
                    self.add(interp, "C01", "reduced-twice", site, "a value that every rank already holds in full is summed over the MPI processes (%s)" % name, construct="reduce " + name)

    def send(self, interp, recv, f, e):
        l = interp.root_loop(recv.obj)
        if l is not None and l.kind == "frag":
            filt = dict(l.filters or {})
            filt.update(interp.refine.get(l, {}))
            if filt.get("rank"):
                self.add(interp, "C02", "send-unmatched", e, "'%s' sends its result to the master process, but inside a loop over the own rank's fragments the master never receives it" % f.name, construct="send " + f.name)

    def remote(self, interp, v, attr, e):
        l = interp.root_loop(v.obj)
        if l is None or l.kind != "frag" or not l.filters or l.filters.get("open"):
            return
        filt = dict(l.filters)
        filt.update(interp.refine.get(l, {}))
        interp.stats["result_reads"].add((interp.stack[-1].func.short, getattr(e, "lineno", 0)))
        if not filt.get("rank") and self.parallel:
            self.add(interp, "C01", "remote-result", e, "the results of a fragment are read for fragments of all MPI processes, but a process only holds the results of its own fragments (loop: %s)" % l.desc)

    def emb_of_frag(self, interp):
        return V(kind="obj", obj=self.cls)

    def frag_method(self, interp, v, attr):
        return self.pkg.find_method(self.fragcls, attr)

    def inline_frag(self, f):
        if f.name in ("get_overlap", "results", "kernel", "make_bath", "make_cluster", "reset"):
            return False
        return self.rel.direct.get(f.node, [False])[0] and f.name not in ("loop_symmetry_children", "get_symmetry_children", "symmetry_factor", "n_symmetry_children")

    def obj_attr(self, interp, v, attr):
        if attr in CELL1 and not (self.pkg.find_method(v.obj, attr)):
            return V(cell=1)
        if attr in ("log",):
            return V(kind="log")
        return None

    def construct(self, interp, cls, args, kw):
        return None

    def func_hook(self, interp, f, args, kw, e):
        return None

    def method_hook(self, interp, recv, f, args, kw, e):
        return None

    def relevant(self, f):
        return self.rel(f)


def check_sums(rep, interp, v, site, where=None):
    for alt in v.sums:
        by = {}
        for r in alt:
            by.setdefault(r.loop, []).append(r)
        for loop, recs in by.items():
            kinds = {r.kind for r in recs}
            for r in recs:
                rep_site = r.site
                loc = "%s:%d" % (r.func.module.relpath, r.site.lineno)

                def add(prop, rule, msg):
                    rep.found.append(Finding(prop, rule, r.func.short, snip(r.site), loc, msg + " (loop: %s; %s)" % (loop.desc, rep.scentext()), rep.scen))
                f = r.filters
                sym = f.get("sym")
                if f.get("open"):
                    continue
                if r.kind in ("over", "nested") or r.kind.startswith("weight"):
                    add("C04", "overcount", "a contribution is multiplied by the symmetry multiplicity and also repeated for the symmetry children, or weighted more than once")
                elif sym == "parents":
                    if r.kind == "none":
                        add("C04", "undercount", "the loop over symmetry children runs over nothing")
                    elif r.kind == "self" and not kinds & {"children", "full"}:
                        add("C04", "undercount", "a sum over the symmetry-unique fragments neither weights the contribution by the number of equivalent fragments nor loops over them")
                    elif r.kind == "children" and "self" not in kinds:
                        add("C04", "undercount", "only the symmetry children are counted, not the symmetry-unique fragment itself")
                    elif r.kind == "full" and len(kinds) > 1 and False:
                        pass
                elif sym == "all":
                    if r.kind in ("full", "children"):
                        add("C04", "overcount", "a sum over all fragments also counts the symmetry children of each fragment")
                if rep.want_contrib and not (f.get("contrib") is True or (f.get("aux") is False and f.get("active") is True)):
                    add("C05", "not-contributing", "the sum does not exclude auxiliary and inactive fragments (filters: %s)" % ({k: v for k, v in f.items()}))
                if f.get("contrib") is False or f.get("active") is False or f.get("aux") is True:
                    add("C05", "not-contributing", "the sum runs over the fragments that must not contribute")


class Entry:
    def __init__(self, path, cls=None, cell=None, contrib=True, args=None, target=False, ret="sum", param="emb", fix=None, parallel=True, first=False, optional=False):
        self.path, self.cls, self.cell, self.contrib, self.args, self.ret, self.param, self.fix = path, cls, cell, contrib, args, ret, param, fix or {}
        self.parallel, self.first, self.optional = parallel, first, optional


def analyse_entry(pkg, rel, ent, stats, findings, log=None):
    func = pkg.get_func(ent.path)
    cls = pkg.get_class(ent.cls)
    params = [p.arg for p in func.node.args.posonlyargs + func.node.args.args + func.node.args.kwonlyargs]
    has_target = "mpi_target" in params or (func.node.args.kwarg is not None and ent.fix.get("target"))
    targets = ["none", "mine", "other"] if has_target else ["none"]
    runs = 0
    for master in (True, False):
        for tgt in targets:
            scen = {"master": master, "target": tgt}
            todo = [{}]
            nsplit = 0
            while todo:
                assume = todo.pop()
                rep = Report(pkg, rel, cls, func, scen)
                rep.want_contrib = ent.contrib
                rep.parallel = ent.parallel
                it = Interp(pkg, scen, assume, rep, stats)
                try:
                    args = {}
                    if func.cls is None:
                        args[params[0]] = V(kind="obj", obj=cls)
                        self_v = None
                    else:
                        self_v = V(kind="obj", obj=cls)
                    res, fr = it.run_entry(func, self_v, args)
                    it.stack.append(fr)
                    res = it.decorate(func, res, func.node)
                    it.stack.pop()
                except NeedSplit as ns:
                    nsplit += 1
                    if nsplit > 40 or len(assume) > 8:
                        raise AnalysisError("too many path splits in %s (%s)" % (ent.path, ns.key))
                    k = ns.key
                    base = k[4:] if k.startswith("not ") else k
                    for val in (True, False):
                        a = dict(assume)
                        a[base] = val
                        a["not " + base] = not val
                        todo.append(a)
                    continue
                except Budget:
                    raise AnalysisError("analysis budget exceeded in %s" % ent.path)
                runs += 1
                findings += rep.found
                stats["steps"] = stats.get("steps", 0) + it.steps
                check_result(pkg, rep, ent, func, res, fr, it, findings)
                if log:
                    log(ent.path, scen, assume, res)
    return runs


def check_result(pkg, rep, ent, func, res, fr, it, findings):
    vals = list(res.items) if isinstance(res.items, tuple) and res.items else [res]
    n0 = len(rep.found)
    loc = func.loc()

    def add(prop, rule, msg, construct="return value"):
        findings.append(Finding(prop, rule, func.short, construct, loc, msg + " (%s)" % rep.scentext(), rep.scen))
    if rep.scen["target"] == "other":
        for v in vals:
            if not (v.tnone or v.kind == "none" or v.kind == "never"):
                add("C03", "returns-value", "on a rank that is not the target of the reduction the function does not return None")
                break
        return
    if ent.ret != "any":
        for v in vals:
            if v.part:
                add("C01", "part-returned", "the returned value is a rank-local partial sum that was not reduced over the MPI processes")
                break
            if v.rk and not v.tnone and ent.ret == "sum":
                add("C01", "rank-dependent", "the returned value differs between the MPI processes")
                break
        if rep.scen["target"] == "mine" and any(v.tnone for v in vals):
            add("C03", "target-none", "the target rank does not receive the result")
    if ent.cell is not None:
        for v in vals[:1] if ent.first else vals:
            if v.cell != ent.cell and not v.zero and v.kind not in ("never", "none"):
                add("C06", "cell-return", "the returned energy is divided %s times by the number of cells instead of once" % (0 if v.cell is None else v.cell))
                break
    for v in vals:
        check_sums(rep, it, v, func.node)
    findings += rep.found[n0:]
