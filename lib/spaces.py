"""C10: the axes that a contraction, sum or block assignment identifies with each other run over the same orbital space and spin channel.

Every analysed function is interpreted abstractly (absint.Run with the tensor domain): the embedding, fragments, clusters, baths, integrals and
wave functions it works with are symbolic objects whose arrays carry the space and spin channel of each axis."""
import ast

from absint import Run, Unk, Ext, HObj, Api, Prim, Bound, Closure, Range, KNOWN, PathEnd, Budget, ClassInfo, FuncInfo, Module, explore, StarUnk, Env, Ctx
from tensor import Tensor, Arr, Ax, Dim, Idx, Many, WILD, ONE, unify, joined
from harness import Finding, Result

SP = {"r": (None,), "u": ("a", "b")}
AO = "ao"


class Tok:
    """Identity of a fragment; substituted when a quantity stored for one fragment is read for another one."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "f%s" % self.n

    def __eq__(self, o):
        return isinstance(o, Tok) and o.n == self.n

    def __hash__(self):
        return hash(("tok", self.n))


def sp(mode, f):
    return f(None) if mode == "r" else (f("a"), f("b"))


def orb(fam, part, s, ao=AO):
    return Arr([Ax(ao, None, s), Ax(fam, part, s)])


def mat(fam, p, q, s):
    return Arr([Ax(fam, p, s), Ax(fam, q, s)])


class Orb(Api):
    """Spatial orbitals (one spin channel) in a family."""

    def __init__(self, fam, s, cls):
        self.fam, self.s, self.cls = fam, s, cls

    def attr(self, run, name, node):
        f, s = self.fam, self.s
        if name == "coeff":
            return orb(f, "n", s)
        if name in ("coeff_occ", "coeff_vir"):
            return orb(f, name[6], s)
        if name in ("norb", "nocc", "nvir"):
            return Dim(Ax(f, {"norb": "n", "nocc": "o", "nvir": "v"}[name], s))
        if name in ("energy", "occ"):
            return Arr([Ax(f, "n", s)])
        if name == "copy":
            return Prim(lambda *a: self, "copy")
        if name == "nspin":
            return 1
        if name == "to_spin_orbitals":
            return Prim(lambda *a: SpinOrb(f, None), "to_spin")
        if name == "nelec":
            return Unk()
        if name in ("maxocc", "labels"):
            return Unk()
        return NotImplemented

    def set(self, run, name, value, node):
        pass


class SpinOrb(Api):
    def __init__(self, fam, cls, scls=None, spins=("a", "b")):
        self.fam, self.cls, self.scls = fam, cls, scls

    def attr(self, run, name, node):
        a, b = Orb(self.fam, "a", self.scls), Orb(self.fam, "b", self.scls)
        if name in ("alpha", "beta"):
            return a if name == "alpha" else b
        if name in ("norb", "nocc", "nvir", "nelec", "energy", "coeff", "coeff_occ", "coeff_vir", "occ", "labels", "maxocc"):
            return (a.attr(run, name, node), b.attr(run, name, node))
        if name in ("norba", "nocca", "nvira", "norbb", "noccb", "nvirb"):
            return (a if name[-1] == "a" else b).attr(run, name[:-1], node)
        if name == "copy":
            return Prim(lambda *x: self, "copy")
        if name == "nspin":
            return 2
        return NotImplemented

    def set(self, run, name, value, node):
        pass


class Log(Api):
    def attr(self, run, name, node):
        return Prim(lambda *a: None, "log")


class Mpi(Api):
    def attr(self, run, name, node):
        if name == "nreduce":
            return Prim(lambda r, a, k, n: a[0] if len(a) == 1 else tuple(a), "nreduce")
        if name == "create_rma_dict":
            return Prim(lambda r, a, k, n: a[0], "rma")
        if name == "world":
            return MpiWorld()
        if name in ("rank", "size", "is_master", "disabled", "enabled"):
            return Unk("mpi." + name)
        return Unk("mpi." + name)


class MpiWorld(Api):
    def attr(self, run, name, node):
        if name in ("allreduce", "reduce", "bcast", "allgather"):
            return Prim(lambda r, a, k, n: a[0] if a else Unk(), name)
        return Unk("mpi.world." + name)


class Cluster(Api):
    def __init__(self, sp_, fam, mode, cls):
        self.drv, self.fam, self.mode, self.cls = sp_, fam, mode, cls

    def attr(self, run, name, node):
        d = self.drv
        if name == "active_orbitals":
            return d.orbs(self.fam, self.mode)
        if name == "frozen_orbitals":
            return d.orbs(("frozen",) + self.fam[1:], self.mode)
        if name == "copy":
            return Prim(lambda *a: self, "copy")
        if name == "bosons":
            return Unk("bosons")
        if name == "inc_bosons":
            return Unk("inc_bosons")
        m = self.mode
        for pre, fam in (("_frozen", ("frozen",) + self.fam[1:]), ("_active", self.fam), ("", self.fam)):
            for n, part in (("norb", "n"), ("nocc", "o"), ("nvir", "v")):
                if name == n + pre:
                    return sp(m, lambda s: Dim(Ax(fam, part, s)))
            for n, part in (("c" + pre, "n"), ("c" + pre + "_occ", "o"), ("c" + pre + "_vir", "v")):
                if name == n and n != "c":
                    return sp(m, lambda s: orb(fam, part, s))
        if name == "coeff":
            return sp(m, lambda s: orb(self.fam, "n", s))
        if name in ("c_total", "c_total_occ", "c_total_vir"):
            return sp(m, lambda s: Arr([Ax(AO, None, s), Ax(("total",) + self.fam[1:], {"c_total": "n", "c_total_occ": "o", "c_total_vir": "v"}[name], s)]))
        if name in ("norb_total", "nocc_total", "nvir_total"):
            return sp(m, lambda s: Dim(Ax(("total",) + self.fam[1:], {"b": "n", "c": "o", "r": "v"}[name[3]] if name != "norb_total" else "n", s)))
        return NotImplemented


BLK = {"o": ("o", "a"), "v": ("v", "a"), "O": ("o", "b"), "V": ("v", "b"), "p": ("n", "a"), "P": ("n", "b")}


class Hamil(Api):
    def __init__(self, drv, fam, mode, cls):
        self.drv, self.fam, self.mode, self.cls = drv, fam, mode, cls

    def attr(self, run, name, node):
        f, m = self.fam, self.mode
        if name in ("get_eris_bare", "get_eris_screened"):
            return Prim(self.eris, name)
        if name == "get_cderi_bare":
            def cd(run, a, k, n):
                only = run.truth(k.get("only_ov", a[0] if a else False), n)
                return (sp(m, lambda s: Arr([Ax("aux"), Ax(f, "o" if only else "n", s), Ax(f, "v" if only else "n", s)])),
                        sp(m, lambda s: None if run.decide(("cderi_neg",), ("cderi_neg",)) else Arr([Ax("auxneg"), Ax(f, "o" if only else "n", s), Ax(f, "v" if only else "n", s)])))
            return Prim(cd, name)
        if name in ("get_fock", "get_integrals_fock"):
            return Prim(lambda *a: sp(m, lambda s: mat(f, "n", "n", s)), name)
        if name in ("get_heff", "get_h_eff"):
            return Prim(lambda *a: sp(m, lambda s: mat(f, "n", "n", s)), name)
        if name == "get_clus_mf_info":
            def info(r, a, k, n):
                ao = k.get("ao_basis", a[0] if a else False)
                if ao is not False:
                    return Unk()
                return (sp(m, lambda s: Dim(Ax(f, "n", s))), sp(m, lambda s: mat(f, "n", "n", s)), sp(m, lambda s: Arr([Ax(f, "n", s)])), Unk())
            return Prim(info, name)
        if name == "cluster":
            return Cluster(self.drv, f, m, self.drv.ccls[m])
        if name == "mo":
            return self.drv.orbs(f, m)
        if name == "_fragment":
            return self.drv.frag(f[1], m)
        if name == "orig_mf":
            return Mf(self.drv, m)
        if name in ("ncas", "nelec"):
            return sp(m, lambda s: Dim(Ax(f, "n", s))) if name == "ncas" else Unk()
        if name == "log":
            return Log()
        if name == "opts":
            return Unk("hamil.opts")
        if name == "v_ext":
            return None if run.decide(("v_ext",), ("v_ext",)) else sp(m, lambda s: mat(f, "n", "n", s))
        if name in ("_seris", "_eris"):
            return None if run.decide((name,), (name,)) else self.eris(run, (), {}, node)
        if name == "get_dummy_eri_object":
            return Prim(lambda *a: Eris(f, m), name)
        if name in ("c_total", "c_frozen"):
            return Unk()
        return NotImplemented

    def set(self, run, name, value, node):
        pass

    def eris(self, run, args, kw, node):
        b = kw.get("block", args[0] if args else None)
        f, m = self.fam, self.mode
        if b is None:
            if m == "r":
                return Arr([Ax(f, "n")] * 4)
            return tuple(Arr([Ax(f, "n", x), Ax(f, "n", x), Ax(f, "n", y), Ax(f, "n", y)]) for x, y in ("aa", "ab", "bb"))
        if isinstance(b, str) and len(b) == 4 and all(c in BLK for c in b):
            return Arr([Ax(f, BLK[c][0], BLK[c][1] if m == "u" else None) for c in b])
        return Unk()


class Mf(Api):
    def __init__(self, drv, mode):
        self.drv, self.mode = drv, mode

    def attr(self, run, name, node):
        m = self.mode
        e = self.drv.emb(m)
        if name in ("mo_coeff", "mo_energy", "mo_occ"):
            return e.attr(run, name, node)
        if name in ("get_fock", "get_veff", "make_rdm1"):
            return Prim(lambda *a: sp(m, lambda s: Arr([Ax(AO, None, s)] * 2)), name)
        if name in ("get_hcore", "get_ovlp"):
            return Prim(lambda *a: Arr([Ax(AO)] * 2), name)
        return Unk("mf." + name)


class Emb(Api):
    def __init__(self, drv, mode, cls):
        self.drv, self.mode, self.cls = drv, mode, cls
        self.vals = {}

    def set(self, run, name, value, node):
        pass

    def attr(self, run, name, node):
        m, d = self.mode, self.drv
        P = {"": "n", "_occ": "o", "_vir": "v"}
        if name.startswith("mo_coeff") and name[8:] in P:
            return sp(m, lambda s: orb("mo", P[name[8:]], s))
        if name.startswith("mo_energy") and name[9:] in P:
            return sp(m, lambda s: Arr([Ax("mo", P[name[9:]], s)]))
        if name.startswith("mo_occ") and name[6:] in P:
            return sp(m, lambda s: Arr([Ax("mo", P[name[6:]], s)]))
        if name in ("nmo", "nocc", "nvir"):
            return sp(m, lambda s: Dim(Ax("mo", {"nmo": "n", "nocc": "o", "nvir": "v"}[name], s)))
        if name in ("nmoa", "nocca", "nvira", "nmob", "noccb", "nvirb") and m == "u":
            return Dim(Ax("mo", {"nmo": "n", "nocc": "o", "nvir": "v"}[name[:-1]], name[-1]))
        if name == "nao":
            return Dim(Ax(AO))
        if name in ("get_ovlp", "get_hcore", "get_hcore_for_energy"):
            return Prim(lambda *a: Arr([Ax(AO)] * 2), name)
        if name in ("get_fock", "get_veff", "get_fock_for_energy", "get_veff_for_energy", "get_fock_for_bath", "get_exxdiv_matrix"):
            return Prim(lambda *a: sp(m, lambda s: Arr([Ax(AO, None, s)] * 2)), name)
        if name in ("get_exxdiv",):
            return Prim(lambda *a: (Unk(), sp(m, lambda s: Arr([Ax(AO, None, s)] * 2))), name)
        if name == "mf":
            return Mf(d, m)
        if name in ("log",):
            return Log()
        if name == "opts":
            return Unk("emb.opts")
        if name == "is_rhf":
            return m == "r"
        if name == "is_uhf":
            return m == "u"
        if name in ("get_fragments", "fragments", "loop", "_get_icmp2_fragments"):
            def frs(run, a, k, n):
                if isinstance(k.get("sym_parent"), Frag):
                    return Many(k["sym_parent"])
                d.ntok += 1
                return Many(d.frag(Tok(d.ntok), m))
            return Prim(frs, name) if name != "fragments" else frs(run, (), {}, node)
        if name in ("get_global_t1", "get_global_l1"):
            def t1(run, a, k, n):
                ao = run.truth(k.get("ao_basis", False), n)
                return sp(m, lambda s: Arr([Ax("mo", "o", s), Ax("mo", "v", s)])) if not ao else sp(m, lambda s: Arr([Ax(AO, None, s)] * 2))
            return Prim(t1, name)
        if name in ("get_global_t2", "get_global_l2"):
            def t2(run, a, k, n):
                if run.truth(k.get("ao_basis", False), n):
                    return Unk()
                if m == "r":
                    return Arr([Ax("mo", "o"), Ax("mo", "o"), Ax("mo", "v"), Ax("mo", "v")])
                return tuple(Arr([Ax("mo", "o", x), Ax("mo", "o", y), Ax("mo", "v", x), Ax("mo", "v", y)]) for x, y in ("aa", "ab", "bb"))
            return Prim(t2, name)
        if name in ("make_rdm1", "_make_rdm1_ccsd", "_make_rdm1_ccsd_global_wf", "_make_rdm1_ccsd_proj_lambda", "make_rdm1_demo", "_make_rdm1_mp2", "make_rdm1_ccsd"):
            def rdm1(run, a, k, n):
                ao = k.get("ao_basis", False)
                if isinstance(ao, Unk):
                    ao = run.truth(ao, n)
                return sp(m, lambda s: Arr([Ax(AO, None, s)] * 2) if ao else mat("mo", "n", "n", s))
            return Prim(rdm1, name)
        if name == "get_cderi":
            return Prim(self.cderi, name)
        if name == "get_eris_array_uhf":
            def eru(run, a, k, n):
                c1 = a[0]
                c2 = k.get("mo_coeff2", a[1] if len(a) > 1 else None)
                if c2 is None:
                    c2 = c1
                if not all(isinstance(x, (tuple, list)) and len(x) == 2 and all(isinstance(y, Arr) and y.axes for y in x) for x in (c1, c2)):
                    return Unk()
                return tuple(Arr([c1[i].axes[-1], c2[i].axes[-1], c1[j].axes[-1], c2[j].axes[-1]]) for i, j in ((0, 0), (0, 1), (1, 1)))
            return Prim(eru, name)
        if name == "get_eris_array":
            def er(run, a, k, n):
                c = a[0]
                cs = list(c) if isinstance(c, (tuple, list)) else [c] * 4
                if len(cs) != 4 or not all(isinstance(x, Arr) and x.axes for x in cs):
                    return Unk()
                return Arr([x.axes[-1] for x in cs])
            return Prim(er, name)
        if name == "has_df":
            return Unk("has_df")
        if name == "ncells":
            return Unk("ncells")
        r = Unk("emb." + name)
        if d.pkg.find_method(self.cls, name) or d.pkg.class_attr(self.cls, name):
            return NotImplemented
        return r

    def cderi(self, run, args, kw, node):
        c = args[0] if args else Unk()
        cs = list(c) if isinstance(c, (tuple, list)) else [c, c]
        if len(cs) != 2 or not all(isinstance(x, Arr) and x.axes and len(x.axes) == 2 for x in cs):
            return (Unk(), Unk())
        neg = None
        if run.decide(run.site(node), ("cderi_neg",)):
            neg = Arr([Ax("auxneg"), cs[0].axes[1], cs[1].axes[1]])
        return (Arr([Ax("aux"), cs[0].axes[1], cs[1].axes[1]]), neg)


class Results(Api):
    def __init__(self, drv, tok, mode):
        self.drv, self.tok, self.mode = drv, tok, mode

    def attr(self, run, name, node):
        d, m = self.drv, self.mode
        f = ("cluster", self.tok)
        if name == "wf":
            return d.wf(run, f, m, None)
        if name == "pwf":
            return d.wf(run, f, m, self.tok)
        if name == "dm1":
            return sp(m, lambda s: mat(f, "n", "n", s)) if not run.decide(run.site(node), ("res", name)) else None
        if name == "dm2":
            return None
        if name in ("n_active", "e_corr", "converged"):
            return Unk("res." + name)
        if name == "moms":
            return tuple(Arr([WILD, Ax(f, "n"), Ax(f, "n")]) for _ in range(2)) if m == "r" else Unk()
        return Unk("res." + name)

    def set(self, run, name, value, node):
        pass


class DmetBath(Api):
    def __init__(self, drv, tok, mode):
        self.drv, self.tok, self.mode = drv, tok, mode

    def attr(self, run, name, node):
        m = self.mode
        f = ("dmet", self.tok)
        if name in ("c_cluster_occ", "c_cluster_vir"):
            return sp(m, lambda s: orb(f, name[10], s))
        if name == "dmet_bath":
            return self
        if name in ("c_env_occ", "c_env_vir"):
            return sp(m, lambda s: orb(("env", self.tok), name[6], s))
        if name in ("c_dmet",):
            return sp(m, lambda s: orb(("dmetbath", self.tok), None, s))
        if name == "get_bath":
            def gb(run, a, k, n):
                return (sp(m, lambda s: orb(("bno", self.tok), None, s)), sp(m, lambda s: orb(("bnofrozen", self.tok), None, s)))
            return Prim(gb, name)
        if name in ("get_occupied_bath", "get_virtual_bath"):
            p = "o" if "occ" in name else "v"
            return Prim(lambda *a: (sp(m, lambda s: orb(("bno", self.tok), p, s)), sp(m, lambda s: orb(("bnofrozen", self.tok), p, s))), name)
        if name == "fragment":
            return self.drv.frag(self.tok, m)
        if name == "base":
            return self.drv.emb(m)
        if name == "log":
            return Log()
        return Unk("bath." + name)


class SymOp(Api):
    cls = None

    def attr(self, run, name, node):
        if name == "__call__":
            return Prim(lambda r, a, k, n: a[0], "symop")
        if name == "__class__":
            return Prim(lambda r, a, k, n: SymOp(), "symopcls")
        return Unk()


class Frag(Api):
    def __init__(self, drv, tok, mode, cls):
        self.drv, self.tok, self.mode, self.cls = drv, tok, mode, cls

    def set(self, run, name, value, node):
        pass

    def attr(self, run, name, node):
        d, m, t = self.drv, self.mode, self.tok
        f = ("cluster", t)
        if name in ("c_frag", "c_proj"):
            return sp(m, lambda s: orb(("frag", t), None, s))
        if name == "c_env":
            return sp(m, lambda s: orb(("fenv", t), None, s))
        if name == "cluster":
            return Cluster(d, f, m, d.ccls[m])
        if name in ("results", "_results"):
            return Results(d, t, m)
        if name == "hamil":
            return Hamil(d, f, m, d.hcls[m])
        if name == "get_overlap":
            return Prim(self.overlap, name)
        if name == "_csc_dot":
            return NotImplemented
        if name == "id":
            return FragId(t)
        if name in ("base",):
            return d.emb(m)
        if name == "mf":
            return Mf(d, m)
        if name == "log":
            return Log()
        if name in ("get_symmetry_parent",):
            return Prim(lambda *a: self, name)
        if name == "sym_parent":
            return Unk("sym_parent")
        if name in ("get_symmetry_operation",):
            return Prim(lambda *a: SymOp(), name)
        if name == "sym_op":
            return SymOp()
        if name == "loop_symmetry_children":
            def ch(run, a, k, n):
                arrs = a[0] if a else k.get("arrays")
                if arrs is None:
                    return Many(self)
                return Many((self, list(arrs) if isinstance(arrs, (tuple, list)) else Unk()))
            return Prim(ch, name)
        if name == "opts":
            return Unk("frag.opts")
        if name == "solver":
            return Unk("frag.solver")
        if name in ("sym_factor", "symmetry_factor"):
            return Unk("frag." + name)
        if name in ("_dmet_bath", "bath", "_bath_factory_occ", "_bath_factory_vir"):
            return DmetBath(d, t, m)
        if name == "canonicalize_mo":
            if run.stack and run.stack[-1].info is not None and run.stack[-1].info.name == name:
                return NotImplemented
            def can(run, a, k, n):
                out = []
                for i, s in enumerate(SP[m]):
                    cs = [x if m == "r" else (x[i] if isinstance(x, (tuple, list)) else x) for x in a if x is not None]
                    parts = {x.axes[1].part if isinstance(x, Arr) and x.axes and len(x.axes) == 2 else None for x in cs}
                    sps = {x.axes[1].spin if isinstance(x, Arr) and x.axes and len(x.axes) == 2 else None for x in cs}
                    kn = {p for p in parts if p in ("o", "v")}
                    part = next(iter(kn)) if len(kn) == 1 else None
                    ax = Ax(("canon", t) + tuple(sorted((x.axes[1].fam if isinstance(x, Arr) and x.axes else "?" for x in cs), key=repr)), part, next(iter(sps)) if len(sps) == 1 else None)
                    if len(cs) == 1 and isinstance(cs[0], Arr) and cs[0].axes and len(cs[0].axes) == 2:
                        out.append((Arr([Ax(AO, None, ax.spin), ax]), Arr([cs[0].axes[1], ax])))
                    else:
                        out.append((Arr([Ax(AO, None, ax.spin), ax]), Arr(None)))
                return out[0] if m == "r" else ((out[0][0], out[1][0]), (out[0][1], out[1][1]))
            return Prim(can, name)
        if name in ("get_fragment_mo_energy",):
            def moe(run, a, k, n):
                c = a[0] if a and a[0] is not None else sp(m, lambda s: orb(f, "n", s))
                if m == "r":
                    return Arr([c.axes[-1]]) if isinstance(c, Arr) and c.axes else Unk()
                return tuple(Arr([x.axes[-1]]) if isinstance(x, Arr) and x.axes else Unk() for x in c) if isinstance(c, (tuple, list)) and len(c) == 2 else Unk()
            if run.stack and run.stack[-1].info is not None and run.stack[-1].info.name == name:
                return NotImplemented
            return Prim(moe, name)
        if d.pkg.find_method(self.cls, name) or d.pkg.class_attr(self.cls, name):
            return NotImplemented
        return Unk("frag." + name)

    def coeff(self, key):
        t = self.tok
        if "frag" in key or "proj" in key:
            return ("frag", t), None
        part = "o" if "occ" in key else ("v" if "vir" in key else "n")
        if "mo" in key:
            return "mo", part
        if "cluster" in key:
            return ("cluster", t), part
        return None, None

    def overlap(self, run, args, kw, node):
        key = args[0] if args else kw.get("key")
        if not isinstance(key, str):
            return Unk()
        parts = key.split("|")
        l, r = self.coeff(parts[0]), self.coeff(parts[-1])
        return sp(self.mode, lambda s: Arr([Ax(l[0], l[1], s), Ax(r[0], r[1], s)]))


TSPIN = {1: ("a", "b"), 2: ("aa", "ab", "bb"), 3: ("aaa", "aba", "bab", "bbb"), 4: ("aaaa", "aaab", "abab", "abbb", "bbbb")}


def tn(fam, mode, n):
    """Amplitudes of excitation rank n, not projected: occupied axes before virtual ones, one array per spin case."""
    def arr(spins):
        return Arr([Ax(fam, "o", s) for s in spins] + [Ax(fam, "v", s) for s in spins])
    if mode == "r":
        return arr([None] * n) if n < 4 else (arr([None] * 4), arr([None] * 4))
    return tuple(arr(s) for s in TSPIN[n])


def chem(fam, mode, block):
    """Integrals in chemists' notation, e.g. block "ovov"; one array per spin case aaaa, aabb, bbbb."""
    if mode == "r":
        return Arr([Ax(fam, c) for c in block])
    return tuple(Arr([Ax(fam, c, s) for c, s in zip(block, (x, x, y, y))]) for x, y in ("aa", "ab", "bb"))


class FragId(Api):
    def __init__(self, tok):
        self.tok = tok


def subst(v, old, new, depth=0):
    """Replace a fragment's identity in a value."""
    def fam(f):
        if isinstance(f, tuple):
            return tuple(fam(x) for x in f)
        return new if f == old else f
    if isinstance(v, Arr):
        return Arr([Ax(fam(a.fam), a.part, a.spin) if a != ONE else ONE for a in v.axes] if v.axes is not None else None, v.src, v.deg, v.tag)
    if isinstance(v, Dim):
        return Dim(Ax(fam(v.ax.fam), v.ax.part, v.ax.spin))
    if isinstance(v, (tuple, list)) and depth < 6:
        return type(v)(subst(x, old, new, depth + 1) for x in v)
    if isinstance(v, Orb):
        return Orb(fam(v.fam), v.s, v.cls)
    if isinstance(v, SpinOrb):
        return SpinOrb(fam(v.fam), v.cls, v.scls)
    if isinstance(v, HObj):
        o = HObj(v.cls)
        o.fields = {k: subst(x, old, new, depth + 1) for k, x in v.fields.items()} if depth < 6 else dict(v.fields)
        return o
    return v


class Packed(Api):
    """A packed wave function (its unpacking is checked by C09)."""

    def __init__(self, wf):
        self.wf = wf


class Space(Api):
    """Cluster made from given orbitals."""

    def __init__(self, drv, o, v, mode):
        self.drv, self.o, self.v, self.mode, self.cls = drv, o, v, mode, None

    def attr(self, run, name, node):
        def per(f):
            return f(self.o, self.v) if self.mode == "r" else tuple(f(o, v) for o, v in zip(self.o, self.v))
        if name in ("c_active_occ", "c_occ"):
            return self.o
        if name in ("c_active_vir", "c_vir"):
            return self.v
        if name in ("c_active", "coeff"):
            return per(lambda o, v: Arr([o.axes[0], joined((o.axes[-1], v.axes[-1]))]))
        if name in ("nocc_active", "nocc"):
            return per(lambda o, v: Dim(o.axes[-1]))
        if name in ("nvir_active", "nvir"):
            return per(lambda o, v: Dim(v.axes[-1]))
        return Unk()


class Spaces(Tensor):
    def __init__(self, pkg):
        super().__init__(pkg)
        self.ntok = 0
        self.named = {"mpi": Mpi(), "log": Log()}
        g = pkg.get_class
        self.cls = {}
        self.ccls = {"r": g("core.types.cluster.ClusterRHF"), "u": g("core.types.cluster.ClusterUHF")}
        self.hcls = {"r": g("solver.hamiltonian.RClusterHamiltonian"), "u": g("solver.hamiltonian.UClusterHamiltonian")}
        self.ecls = {"r": g("ewf.ewf.EWF"), "u": g("ewf.uewf.UEWF")}
        self.fcls = {"r": g("ewf.fragment.Fragment"), "u": g("ewf.ufragment.Fragment")}
        self.scls = g("core.types.orbitals.SpatialOrbitals")
        self.spcls = g("core.types.orbitals.SpinOrbitals")
        self.rets = {}
        self.wfkind = "CCSD"
        self.cur = None

    # objects

    def emb(self, mode):
        return Emb(self, mode, self.ecls[mode])

    def frag(self, tok, mode):
        return Frag(self, tok, mode, self.fcls[mode])

    def orbs(self, fam, mode):
        return Orb(fam, None, self.scls) if mode == "r" else SpinOrb(fam, self.spcls, self.scls)

    def amps(self, fam, mode, tok, rank, four=None):
        """Amplitudes of excitation rank 1 or 2; projected on the fragment's orbitals if tok."""
        def occ(s):
            return Ax(("frag", tok), None, s) if tok is not None else Ax(fam, "o", s)
        if rank == 1:
            return sp(mode, lambda s: Arr([occ(s), Ax(fam, "v", s)]))
        if mode == "r":
            return Arr([occ(None), Ax(fam, "o"), Ax(fam, "v"), Ax(fam, "v")])
        blocks = ("aa", "ab", "ba", "bb") if tok is not None else ("aa", "ab", "bb")
        return tuple(Arr([occ(x), Ax(fam, "o", y), Ax(fam, "v", x), Ax(fam, "v", y)]) for x, y in blocks)

    def wf(self, run, fam, mode, tok):
        kind = self.wfkind
        c = HObj(self.pkg.get_class("core.types.wf.%s.%s%s_WaveFunction" % (kind.lower(), "R" if mode == "r" else "U", kind)))
        c.fields["mo"] = self.orbs(fam, mode)
        p = None
        if tok is not None:
            p = sp(mode, lambda s: Arr([Ax(("frag", tok), None, s), Ax(fam, "o", s)]))
        c.fields["projector"] = p
        c.fields["as_ccsdtq"] = Prim(lambda *a: self.ccsdtq(fam, mode), "as_ccsdtq")
        if kind == "CCSD":
            for n, r in (("t1", 1), ("t2", 2), ("l1", 1), ("l2", 2)):
                c.fields[n] = self.amps(fam, mode, tok, r)
        elif kind == "MP2":
            c.fields["t2"] = self.amps(fam, mode, tok, 2)
        elif kind == "FCI":
            c.fields["ci"] = Arr(None)
        elif kind == "RDM":
            c.fields["dm1"] = sp(mode, lambda s: mat(fam, "n", "n", s))
            two = [Arr([Ax(fam, "n", x), Ax(fam, "n", x), Ax(fam, "n", y), Ax(fam, "n", y)]) for x, y in (("aa", "ab", "bb") if mode == "u" else [(None, None)])]
            c.fields["dm2"] = two[0] if mode == "r" else tuple(two)
        elif kind == "CISD":
            c.fields["c0"] = Arr(())
            for n, r in (("c1", 1), ("c2", 2)):
                c.fields[n] = self.amps(fam, mode, tok, r)
        return c

    def ccsdtq(self, fam, mode):
        c = HObj(self.pkg.get_class("core.types.wf.ccsdtq.%sCCSDTQ_WaveFunction" % ("R" if mode == "r" else "U")))
        c.fields["mo"] = self.orbs(fam, mode)
        for n in range(1, 5):
            c.fields["t%d" % n] = tn(fam, mode, n)
        return c

    # hooks

    def start(self, run):
        super().start(run)
        self.ntok = 0

    def override(self, run, r):
        if isinstance(r, FuncInfo):
            o = self.over.get(r.short)
            if o is not None:
                return o
            if r.short == "core.util.brange":
                return Prim(lambda run, a, k, n: [slice(0, a[1 if len(a) > 1 else 0], None)] if a and isinstance(a[1 if len(a) > 1 else 0], (Dim, int)) else Unk(), "brange")
            if r.name == "pack" and ".types.wf." in r.module.name:
                return Prim(lambda run, a, k, n: Packed(a[0]), "pack")
            if r.name == "from_coeffs" and r.short.endswith("Cluster.from_coeffs"):
                return Prim(self.from_coeffs, "from_coeffs")
            if r.name == "unpack" and ".types.wf." in r.module.name:
                return Prim(lambda run, a, k, n: a[1].wf if len(a) > 1 and isinstance(a[1], Packed) else Unk(), "unpack")
            if r.name in ("log_time", "replace_attr", "energy_string", "time_string", "timer", "memory_string"):
                return Prim(lambda *a: Unk(), r.name)
        return None

    def from_coeffs(self, run, a, k, n):
        if len(a) != 4:
            return Unk()
        o, v = a[0], a[1]
        if isinstance(o, Arr) and isinstance(v, Arr) and o.axes and v.axes:
            return Space(self, o, v, "r")
        if isinstance(o, (tuple, list)) and isinstance(v, (tuple, list)) and len(o) == len(v) == 2 and all(isinstance(x, Arr) and x.axes for x in tuple(o) + tuple(v)):
            return Space(self, tuple(o), tuple(v), "u")
        return Unk()

    def hashable(self, k):
        if isinstance(k, FragId):
            return ("fid", k.tok)
        return super().hashable(k)

    def dict_get(self, run, d, k, node):
        h = run.hashable(k)
        if h is None:
            vals = list(d.values())
            return vals[0] if len(vals) == 1 else NotImplemented
        if h in d:
            return d[h]

        def pat(x):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "fid":
                return "FID"
            if isinstance(x, tuple):
                return tuple(pat(y) for y in x)
            return x

        def tok(x):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "fid":
                return x[1]
            if isinstance(x, tuple):
                for y in x:
                    t = tok(y)
                    if t is not None:
                        return t
            return None
        for kk, v in reversed(list(d.items())):
            if pat(kk) == pat(h) and tok(kk) is not None:
                if isinstance(v, Packed):
                    return Packed(subst(v.wf, tok(kk), tok(h)))
                return subst(v, tok(kk), tok(h))
        return Unk()

    def dict_has(self, run, d, k, node):
        h = run.hashable(k)
        if h is None:
            return run.decide(run.site(node))
        if h in d:
            return True
        v = self.dict_get(run, d, k, node)
        return not (isinstance(v, Unk) and v.key is None)

    def typeof(self, run, v):
        if isinstance(v, SymOp):
            return Prim(lambda r, a, k, n: SymOp(), "symop")
        return Unk()

    def iterate(self, run, v, node):
        r = super().iterate(run, v, node)
        return r

    def pair(self, run, node, a, b, what):
        if what.startswith("elementwise") and a.fam == AO and b.fam == AO and a.spin != b.spin:
            return Ax(AO, None, None)
        return super().pair(run, node, a, b, what)

    def on_return(self, run, ctx, value):
        if ctx.info is None:
            return
        self.check_return(run, ctx, value)

    def sig(self, v):
        """Spin signature of an array, e.g. 'ab' for an alpha-beta pair; None if not known."""
        if not isinstance(v, Arr) or v.axes is None or not v.axes:
            return None
        s = [a.spin for a in v.axes if a.spin in ("a", "b")]
        return "".join(s) if len(s) == len(v.axes) else None

    def check_return(self, run, ctx, value):
        if not isinstance(value, (tuple, list)) or ctx.info is None:
            return
        sg = [self.sig(x) for x in value]
        n = [len(x.axes) if isinstance(x, Arr) and x.axes is not None else -1 for x in value]
        if len(set(n)) != 1 or n[0] < 1 or any(s is None for s in sg):
            return
        node = ctx.func
        msg = None
        if len(sg) == 2 and set(sg[0]) == {"b"} and set(sg[1]) == {"a"}:
            msg = "the two spin channels are returned in the order (beta, alpha)"
        elif len(sg) == 3 and n[0] in (2, 4) and (set(sg[0]) != {"a"} or set(sg[2]) != {"b"} or set(sg[1]) != {"a", "b"} or sg[1][0] != "a"):
            if len(set(sg)) > 1:
                msg = "the spin blocks are returned in the order (%s) instead of (aa, ab, bb)" % ", ".join(sg)
        elif len(sg) == 4 and n[0] == 4 and len(set(sg)) > 1 and sg[0] in ("aaaa", "bbbb"):
            if set(sg[0]) != {"a"} or set(sg[3]) != {"b"}:
                msg = "the spin blocks are returned in the order (%s)" % ", ".join(sg)
        if msg:
            k = ("spin", ctx.info.short, "return value")
            self.findings.setdefault(k, ("%s:%d" % (ctx.mod.relpath, node.lineno), msg))


GENERIC = {"canon", "eig", "svd", "new", "cat", "span", "bno", "bnofrozen", "dmet", "dmetbath", "total", "frozen", "env", "fenv"}


def summary(run, obj, name, args, kw, node):
    """What the summary of an object says about one of its methods or properties, if it has one."""
    try:
        v = obj.attr(run, name, node)
    except (PathEnd, Budget):
        raise
    except Exception:
        return None
    if isinstance(v, Prim):
        return v.fn(run, args, kw, node)
    return v if isinstance(v, (Arr, tuple, list)) else None


def compare(dom, run, node, got, want):
    """Axes of a returned value against those its callers assume."""
    if isinstance(got, (tuple, list)) and isinstance(want, (tuple, list)):
        if len(got) == len(want):
            for g, w in zip(got, want):
                compare(dom, run, node, g, w)
        return
    if not isinstance(got, Arr) or not isinstance(want, Arr) or got.axes is None or want.axes is None or len(got.axes) != len(want.axes):
        return

    def gen(a):
        return isinstance(a.fam, tuple) and a.fam and a.fam[0] in GENERIC
    for g, w in zip(got.axes, want.axes):
        if g == ONE or w == ONE:
            continue
        if gen(g) or gen(w):
            g, w = Ax(None, g.part, g.spin), Ax(None, w.part, w.spin)
        dom.pair(run, node, g, w, "return value")


def run_entry(dom, pkg, fi, mk_args, budget=24, maxsteps=60000, maxdepth=14):
    """Interpret one function on the paths within the budget; returns (paths, complete, nodes)."""
    stat = {"err": []}

    def mk(prefix):
        run = Run(pkg, dom, prefix, maxsteps=maxsteps, maxdepth=maxdepth)
        dom.start(run)
        run.stack.append(Ctx(fi.module, Env(), None, None, None, None))
        try:
            args, kw, *want = mk_args(run)
            v = run.call(fi, list(args), kw, fi.node)
            if want and want[0] is not None:
                run.stack.append(Ctx(fi.module, Env(), fi.node, None, None, fi))
                compare(dom, run, ast.copy_location(ast.Name("return_value"), fi.node), v, want[0])
                run.stack.pop()
            if args and isinstance(args[0], (Emb, Frag, Hamil)) and fi.params()[:1] == ["self"]:
                w = summary(run, args[0], fi.name, args[1:], kw, fi.node)
                if w is not None:
                    run.stack.append(Ctx(fi.module, Env(), fi.node, None, None, fi))
                    compare(dom, run, ast.copy_location(ast.Name("return_value"), fi.node), v, w)
                    run.stack.pop()
        except (PathEnd, Budget):
            pass
        stat["nodes"] = max(stat.get("nodes", 0), run.steps)
        stat.setdefault("calls", set()).update(run.calls)
        return run
    n, done = explore(mk, budget)
    return n, done, stat


# --- entry points

class Eris(Api):
    """Integrals object with one attribute per block (PySCF's _ChemistsERIs or DummyERIs)."""

    def __init__(self, fam, mode, full=True):
        self.fam, self.mode, self.full = fam, mode, full
        self.cls = None

    def attr(self, run, name, node):
        f, m = self.fam, self.mode
        if len(name) == 4 and all(c in BLK for c in name):
            if m == "r" and name.lower() != name:
                return Unk()
            if not self.full and ("vv" in (name[:2].lower(), name[2:].lower())):
                return Unk()
            return Arr([Ax(f, BLK[c][0], BLK[c][1] if m == "u" else None) for c in name])
        if name in ("get_ovvv", "get_ovVV", "get_OVvv", "get_OVVV"):
            b = name[4:]
            return Prim(lambda *a: Arr([Ax(f, BLK[c][0], BLK[c][1] if m == "u" else None) for c in b]), name)
        if name == "fock":
            return sp(m, lambda s: mat(f, "n", "n", s))
        if name == "focka" or name == "fockb":
            return mat(f, "n", "n", name[-1])
        if name == "nocc":
            return sp(m, lambda s: Dim(Ax(f, "o", s)))
        if name == "mo_energy":
            return sp(m, lambda s: Arr([Ax(f, "n", s)]))
        if name == "mo_coeff":
            return sp(m, lambda s: orb(f, "n", s))
        return Unk("eris." + name)

    def set(self, run, name, value, node):
        pass


def gamma1(fam, mode):
    def f(run, a, k, n):
        return tuple(sp(mode, lambda s: mat(fam, p, q, s)) for p, q in ("oo", "ov", "vo", "vv"))
    return f


def classes():
    return [("ewf.ewf.EWF", "r", "emb"), ("ewf.uewf.UEWF", "u", "emb"), ("ewf.fragment.Fragment", "r", "frag"), ("ewf.ufragment.Fragment", "u", "frag"),
            ("dmet.fragment.DMETFragment", "r", "frag"), ("dmet.ufragment.UDMETFragment", "u", "frag"),
            ("solver.hamiltonian.RClusterHamiltonian", "r", "hamil"), ("solver.hamiltonian.UClusterHamiltonian", "u", "hamil"),
            ("solver.hamiltonian.EB_RClusterHamiltonian", "r", "hamil"), ("solver.hamiltonian.EB_UClusterHamiltonian", "u", "hamil"),
            ("core.bath.bno.MP2_BNO_Bath", "r", "bath"), ("core.bath.bno.UMP2_BNO_Bath", "u", "bath"),
            ("core.bath.dmet.DMET_Bath_RHF", "r", "bath"), ("core.bath.dmet.DMET_Bath_UHF", "u", "bath"),
            ("core.types.wf.ccsd.RCCSD_WaveFunction", "r", "wf"), ("core.types.wf.ccsd.UCCSD_WaveFunction", "u", "wf"),
            ("core.types.wf.mp2.RMP2_WaveFunction", "r", "wf"), ("core.types.wf.mp2.UMP2_WaveFunction", "u", "wf"),
            ("core.types.wf.cisd.RCISD_WaveFunction", "r", "wf"), ("core.types.wf.cisd.UCISD_WaveFunction", "u", "wf"),
            ("core.types.wf.rdm.RRDM_WaveFunction", "r", "wf"), ("core.types.wf.rdm.URDM_WaveFunction", "u", "wf"),
            ("core.types.wf.fci.RFCI_WaveFunction", "r", "wf"), ("core.types.wf.fci.UFCI_WaveFunction", "u", "wf"),
            ]


FUNCS = ["ewf.amplitudes", "ewf.urdm", "ewf.rdm", "ewf.icmp2", "core.qemb.rdm", "ewf.ccsd_t", "solver.ccsdtq", "core.qemb.corrfunc", "core.qemb.self_energy", "core.ao2mo.helper", "solver.coupling",
         "core.types.wf.t_to_c", "core.types.wf.project", "core.eris", "core.types.wf.helper"]


def mode_of(name):
    last = name.split(".")[-1]
    return "u" if ("uhf" in last or "uccsd" in last or ".urdm." in name or "unrestricted" in last) else "r"


def method(pkg, name):
    c = pkg.get_class(name.rsplit(".", 1)[0])
    if c is None:
        return None
    m = pkg.find_method(c, name.rsplit(".", 1)[1])
    return m if m is not None and m.cls is c else None


def entries(dom, pkg):
    out = []
    typed = typed_functions(dom)
    for k, (args, want) in typed.items():
        fi = method(pkg, k.split(":")[0]) if "Solver." in k else None
        if fi is not None:
            out.append((k, fi, lambda run, args=args, want=want: (list(args), {}, want)))
    for modname in FUNCS:
        m = pkg.modules.get("vayesta." + modname) or pkg.modules.get(modname)
        if m is None:
            continue
        for n, fi in m.funcs.items():
            for k, (args, want) in typed.items():
                if k.split(":")[0] == fi.short:
                    out.append((k, fi, lambda run, args=args, want=want: (list(args), {}, want)))
            if any(k.split(":")[0] == fi.short for k in typed):
                continue
            out.append(("%s" % fi.short, fi, func_args(dom, fi, mode_of(fi.short))))
    for cn, mode, kind in classes():
        c = pkg.get_class(cn)
        if c is None:
            continue
        seen = set()
        for k in pkg.mro(c):
            if k.module.name.split(".")[-1] in ("scf", "lattmf"):
                continue
            for n, fi in k.methods.items():
                fi = fi[0] if isinstance(fi, (list, tuple)) else fi
                if n in seen or n.startswith("__") or n in SKIP:
                    continue
                seen.add(n)
                if fi.is_setter or fi.is_static:
                    continue
                for lab, mk in method_args(dom, pkg, c, mode, kind, fi):
                    out.append(("%s:%s%s" % (cn, fi.short, lab), fi, mk))
    return out


SKIP = {"log", "change_options", "log_info", "write_cumulative_results", "print_clusters", "print_results", "plot3d",
        "get_symmetry_error",    # adds and subtracts the spin channels of the fragment on purpose
        "_add_screening"}        # only analysed on the inputs add_screening gives it
# methods of wave functions that are defined for projected ones
PROJECTED = {"restore", "as_ccsd", "as_cisd", "copy", "pack", "rotate", "rotate_ov", "multiply"}


def typed_functions(dom):
    """Functions whose parameters are typed one by one: name -> arguments, expected result."""
    x, y = ("cluster", Tok(0)), ("cluster", Tok(1))
    out = {}
    for m, suf in (("r", "rhf"), ("u", "uhf")):
        t = {n: tn(x, m, n) for n in range(1, 5)}
        for n in range(1, 5):
            out["core.types.wf.t_to_c.t%d_%s" % (n, suf)] = ([t[i] for i in range(1, n + 1)], t[n])
        fov = sp(m, lambda s: mat(x, "o", "v", s))
        order = ("ovov", "vvov", "ooov", "ovoo") if m == "r" else ("ooov", "ovov", "ovvv", "vvov", "ovoo")
        v = tuple(chem(x, m, b) for b in order)
        fx = dom.frag(Tok(0), m)
        out["solver.ccsdtq.t_residual_" + suf] = ([Unk("solver"), fx, t[1], t[2], t[3], t[4], fov, v, Unk("t3v")], (t[1], t[2]))
        out["solver.ccsdtq.t2_residual_%s_t3v" % suf] = ([Unk("solver"), fx, t[3], v], t[2])
        ro, rv = (sp(m, lambda s: Arr([Ax(x, p, s), Ax(y, p, s)])) for p in "ov")
        cxs = sp(m, lambda s: Arr([Ax(x, "o", s), Ax(AO, None, s)]))
        out["solver.coupling._get_delta_t2_from_t3v:" + m] = ([chem(x, m, b) for b in ("ovvv", "vvov", "ooov", "ovoo")] + [dom.frag(Tok(1), m), ro, rv, cxs, Unk("projectors")], t[2])
        fock = sp(m, lambda s: Arr([Ax(AO, None, s)] * 2))
        out["solver.coupling._integrals_for_extcorr:" + m] = ([fx, fock], None)
        out["solver.coupling._get_delta_t_for_extcorr:" + m] = ([fx, fock, Unk("solver")], (t[1], t[2]))
        out["solver.coupling._get_delta_t_for_delta_tailor:" + m] = ([fx], (t[1], t[2]))
        out["solver.coupling.transform_amplitude:1" + m] = ([t[1], ro, rv], tn(y, m, 1))
        out["solver.coupling.transform_amplitude:2" + m] = ([t[2], ro, rv], tn(y, m, 2))
        pr = sp(m, lambda s: mat(x, "o", "o", s))
        out["solver.coupling.project_t2:" + m] = ([t[2], pr, Unk("projectors")], t[2])
        out["solver.coupling.externally_correct:" + m] = ([SolverApi(dom, m), Unk("corr")], None)
        out["solver.coupling.couple_ccsd_iterations:" + m] = ([SolverApi(dom, m), Unk("frags")], None)
        out["solver.coupling.tailor_with_fragments:" + m] = ([SolverApi(dom, m), Unk("frags"), Unk("project")], None)
        er = Eris(x, m)
        whole = chem(x, m, "nnnn")
        out["core.ao2mo.helper.get_full_array_" + suf] = ([er], whole)
        out["core.ao2mo.helper.get_full_array:" + m] = ([er], whole)
        for b in ("ooov", "ovov") if m == "r" else ("ooOV", "ovov", "OVVV", "ovVV"):
            out["core.ao2mo.helper.get_block:%s%s" % (m, b)] = ([er, b], Hamil(dom, x, m, None).eris(None, (b,), {}, None))
        e = sp(m, lambda s: Arr([Ax(x, "n", s)]))
        cd, cn = (sp(m, lambda s: Arr([Ax(n), Ax(x, "o", s), Ax(x, "v", s)])) for n in ("aux", "auxneg"))
        name = "solver.mp2.%sMP2_Solver.make_t2:" % ("R" if m == "r" else "U")
        out[name + "eris"] = ([Unk("self"), e, chem(x, m, "ovov")], t[2])
        out[name + "cderi"] = ([Unk("self"), e, None, cd, cn], t[2])
        if m == "u":
            out["solver.mp2.UMP2_Solver.get_ov_eris"] = ([Unk("self"), chem(x, m, "nnnn"), sp(m, lambda s: Dim(Ax(x, "o", s)))], chem(x, m, "ovov"))
        p = sp(m, lambda s: Arr([Ax(("frag", Tok(0)), None, s), Ax(x, "o", s)]))
        out["core.types.wf.project.project_%s1" % ("c" if m == "r" else "uc")] = ([t[1], p], dom.amps(x, m, Tok(0), 1))
        out["core.types.wf.project.project_%s2" % ("c" if m == "r" else "uc")] = ([t[2], p], dom.amps(x, m, Tok(0), 2))
    return out


class SolverApi(Api):
    def __init__(self, drv, mode):
        self.drv, self.mode, self.cls = drv, mode, None

    def attr(self, run, name, node):
        if name == "hamil":
            return Hamil(self.drv, ("cluster", Tok(0)), self.mode, self.drv.hcls[self.mode])
        if name == "log":
            return Log()
        return Unk("solver." + name)


def func_args(dom, fi, mode):
    def mk(run):
        args, kw = [], {}
        a = fi.node.args
        pos = a.posonlyargs + a.args
        nd = len(pos) - len(a.defaults)
        for i, x in enumerate(pos):
            v = typed_param(dom, x.arg, mode)
            if v is None and fi.cls is not None and ".bath." in fi.module.name:
                v = bath_param(dom, x.arg, mode)
            if v is None:
                if i >= nd and x.arg in KEEPDEFAULT:
                    break
                v = Unk("p." + x.arg)
            if i < nd:
                args.append(v)
            else:
                kw[x.arg] = v
        return args, kw
    return mk


def bath_param(dom, name, mode):
    f = ("cluster", Tok(0))
    if name == "actspace":
        return Cluster(dom, f, mode, dom.ccls[mode])
    if name == "fock":
        return sp(mode, lambda s: Arr([Ax(AO, None, s)] * 2))
    return None


KEEPDEFAULT = {"ba_order", "with_t1", "block", "c2ba_order", "axis1"}


def typed_param(dom, name, mode):
    if name in ("emb", "embedding"):
        return dom.emb(mode)
    if name in ("fragment", "frag", "parent", "child"):
        return dom.frag(Tok(0), mode)
    if name == "hamil":
        return None
    return None


def method_args(dom, pkg, c, mode, kind, fi):
    t0 = Tok(0)

    def base(run):
        t = t0
        if kind == "emb":
            return Emb(dom, mode, c)
        if kind == "frag":
            return Frag(dom, t, mode, c)
        if kind == "hamil":
            return Hamil(dom, ("cluster", t), mode, c)
        if kind == "bath":
            o = HObj(c)
            f = o.fields
            f["fragment"] = dom.frag(t, mode)
            f["dmet_bath"] = DmetBath(dom, t, mode)
            f["occtype"] = "virtual" if run.decide(("occtype",), ("occtype",)) else "occupied"
            f["c_buffer"] = None
            f["canonicalize"] = (Unk("can0"), Unk("can1"))
            f["project_dmet_order"] = Unk("pdo")
            f["project_dmet_mode"] = Unk("pdm")
            f["ecorr"] = Unk()
            f["dmet_threshold"] = Unk()
            return o
        if kind == "wf":
            dom.wfkind = {"ccsd": "CCSD", "mp2": "MP2", "cisd": "CISD", "rdm": "RDM", "fci": "FCI"}[c.module.name.split(".")[-1]]
            try:
                return dom.wf(run, ("cluster", t), mode, t if fi.name == "restore" or fi.name in PROJECTED and run.decide(("wfproj",), ("wfproj",)) else None)
            finally:
                dom.wfkind = "CCSD"
        raise ValueError(kind)

    def mk(run):
        s = base(run)
        args, kw = func_args(dom, fi, mode)(run)
        if args:
            args[0] = s
        else:
            args = [s]
        if fi.is_classmethod:
            args[0] = c
        if kind == "wf" and "projector" in fi.params():
            i = fi.params().index("projector")
            if fi.name == "restore":
                kw.pop("projector", None)
            elif i < len(args):
                args[i] = sp(mode, lambda s: Arr([Ax(("frag", t0), None, s), Ax(("cluster", t0), "n" if ".rdm" in c.module.name else "o", s)]))
        return args, kw

    def with_kw(**v):
        def mk2(run):
            args, kw = mk(run)
            kw.update({k: (x(run) if callable(x) else x) for k, x in v.items()})
            n = [p for p in fi.params()]
            for i, p in enumerate(n):
                if p in kw and i < len(args):
                    args[i] = kw.pop(p)
            return args, kw
        return mk2
    cl = ("cluster", Tok(0))
    if kind == "frag" and fi.name == "get_fragment_energy":
        out = []
        for ax, tok in (("fragment", Tok(0)), ("cluster", None)):
            out.append(("[%s]" % ax, with_kw(axis1=ax, c1=lambda run, tok=tok: None if run.decide(("c1",), ("c1",)) else dom.amps(cl, mode, tok, 1),
                                             c2=dom.amps(cl, mode, tok, 2), c2ba_order="ba", fock=None, hamil=None)))
        return out
    if fi.name in ("get_eris_bare", "get_eris_screened"):
        blocks = ["ovov", "ovvo", "oooo", "vvvv", "ooov", "ovvv"] if mode == "r" else ["ovov", "ovOV", "OVov", "OVOV", "ooVV", "VOvo", "vVvV"[:0] or "OVVO"]
        return [("", with_kw(block=None))] + [("[%s]" % b, with_kw(block=b)) for b in blocks]
    if fi.name == "get_cderi_bare":
        return [("[%s]" % x, with_kw(only_ov=x)) for x in (True, False)]
    return [("", mk)]


# --- the check

def _work(job):
    pkg, budget, part, n = job
    dom = Spaces(pkg)
    rows, failed = [], []
    for i, (label, fi, mk) in enumerate(entries(dom, pkg)):
        if i % n != part:
            continue
        try:
            paths, done, stat = run_entry(dom, pkg, fi, mk, budget=budget)
        except RecursionError:
            failed.append((label, "recursion"))
            continue
        except Exception as e:
            failed.append((label, repr(e)[:200]))
            continue
        rows.append((label, fi.short, paths, done, sorted(stat.get("calls", ()), key=str)))
    return dom.findings, dom.contr, rows, failed


def analyse(prop, tier):
    import multiprocessing as mp
    from pkg import Package
    pkg = Package()
    n = 8
    budget = 150 if tier == "quick" else 3000
    with mp.get_context("fork").Pool(n) as pool:
        parts = pool.map(_work, [(pkg, budget, i, n) for i in range(n)], chunksize=1)
    res = Result()
    contr, rows, failed, find = {}, [], [], {}
    for f, c, r, x in parts:
        for k, v in f.items():
            find.setdefault(k, v)
        for k, v in c.items():
            s = contr.setdefault(k, [0, 0])
            s[0] += v[0]
            s[1] += v[1]
        rows += r
        failed += x
    for (rule, func, cons), (loc, msg) in sorted(find.items()):
        res.findings.append(Finding(prop, rule, func, cons, loc, msg))
    known = {k for k, v in contr.items() if v[1]}
    mods = sorted({k[1] for k in known})
    res.coverage = dict(entries=len(rows), paths=sum(r[2] for r in rows), entries_explored_completely=sum(1 for r in rows if r[3]),
                        sites=len(contr), sites_typed=len(known), functions=len({k[0] for k in known}), modules=mods,
                        identified_axes=sum(v[0] for v in contr.values()), identified_axes_known=sum(v[1] for v in contr.values()),
                        entries_given_up=[list(x) for x in failed],
                        sample_sites=sorted("%s:%d %s" % (k[1], k[2], k[0]) for k in known)[::40])
    res.floors = dict(entries=900, sites=1700, sites_typed=1500, functions=140)
    res.explanation = ("Every function and method of the listed modules is interpreted abstractly on its paths (up to %d per function): embeddings, fragments, clusters, baths, "
                       "integrals and wave functions are symbolic, an array is known by the orbital space (AO, MO, fragment, cluster occupied or virtual, ... of which fragment), and spin "
                       "channel of each axis; calls between package functions are followed. Every site where two axes are identified (einsum, dot, @, tensordot, + and -, block assignment, "
                       "stacking, spin-resolved return values) is an obligation: the two axes must not be known to run over different spaces or spin channels." % budget)
    res.assumptions = ["What objects outside the analysed function return is summarised in lib/spaces.py (for example that cluster.c_active is AO x cluster); the package's own implementations of these summaries are analysed against them.",
                       "An axis whose space is not known conflicts with nothing; loops over fragments run once with a symbolic fragment; paths beyond the budget are not followed."]
    return res
