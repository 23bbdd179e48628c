"""Tensor domain of the abstract interpreter: an array is known by the orbital space and spin channel of each of
its axes, by the components it was computed from, and by its power of the reference coefficient."""
import ast

from absint import Unk, Ext, HObj, Api, Prim, Bound, Closure, Range, KNOWN, PathEnd, ClassInfo, FuncInfo, Module


class Ax:
    """Space of one array axis: family (ao, mo, cluster of a fragment, ...), part (o, v, n = both), spin (a, b, r = spin-free); None = not known."""
    __slots__ = ("fam", "part", "spin")

    def __init__(self, fam=None, part=None, spin=None):
        self.fam, self.part, self.spin = fam, part, spin

    def __eq__(self, o):
        return isinstance(o, Ax) and (self.fam, self.part, self.spin) == (o.fam, o.part, o.spin)

    def __hash__(self):
        return hash((self.fam, self.part, self.spin))

    def __repr__(self):
        f = self.fam
        f = "?" if f is None else (f if isinstance(f, str) else "-".join(str(x) for x in f))
        return f + {None: "", "n": "", "o": ".occ", "v": ".vir"}.get(self.part, "." + str(self.part)) + {None: "", "r": "", "a": ".alpha", "b": ".beta"}[self.spin]

    @property
    def known(self):
        return self.fam is not None or self.part is not None or self.spin in ("a", "b")


WILD = Ax()
ONE = Ax("one")


def unify(a, b):
    """(merged axis, reason of the conflict or None, rule)"""
    if a is ONE or a == ONE:
        return b, None, None
    if b is ONE or b == ONE:
        return a, None, None
    why = rule = None
    if a.spin in ("a", "b") and b.spin in ("a", "b") and a.spin != b.spin:
        why, rule = "spin channels differ", "spin"
    elif a.fam is not None and b.fam is not None and a.fam != b.fam:
        why, rule = "orbital spaces differ", "space"
    elif a.part is not None and b.part is not None and a.part != b.part:
        why, rule = "occupied/virtual parts differ", "space"
    spin = a.spin if a.spin in ("a", "b") else (b.spin if b.spin is not None else a.spin)
    return Ax(a.fam if a.fam is not None else b.fam, a.part if a.part is not None else b.part, spin), why, rule


def part(ax, p):
    """Occupied or virtual part of a whole space."""
    if p in ("o", "v") and isinstance(ax.fam, tuple) and ax.fam and ax.fam[0] == "span":
        return Ax(ax.fam[1] if p == "o" else ax.fam[2], p, ax.spin)
    return Ax(ax.fam, p, ax.spin)


def joined(axs):
    """Axis of two stacked axes."""
    if axs and all(x == axs[0] for x in axs[1:]) and len(axs) == 1:
        return axs[0]
    spin = axs[0].spin if len({x.spin for x in axs}) == 1 else None
    if len(axs) != 2:
        fams = {x.fam for x in axs}
        return Ax(axs[0].fam if len(fams) == 1 and None not in {x.part for x in axs} and len({x.part for x in axs}) > 1 else None, axs[0].part if len({x.part for x in axs}) == 1 else None, spin)
    a, b = axs
    if (a.part, b.part) == ("o", "v"):
        if a.fam == b.fam:
            return Ax(a.fam, "n", spin)
        return Ax(("span", a.fam, b.fam) if a.fam is not None and b.fam is not None else None, "n", spin)
    if a.fam is not None and b.fam is not None and a.fam != b.fam:
        return Ax(("cat", a.fam, b.fam), a.part if a.part == b.part else None, spin)
    return Ax(None, a.part if a.part == b.part else None, spin)


def subset(idx, ax):
    """Conflict of using an index that runs over `idx` on an axis `ax` (a part may index the whole space)."""
    if idx.part is not None and ax.part == "n" and idx.part in ("o", "v"):
        ax = part(ax, idx.part)
    return unify(idx, ax)[1:]


class Arr:
    __slots__ = ("axes", "src", "deg", "tag")

    def __init__(self, axes=None, src=frozenset(), deg=None, tag=None):
        self.axes = tuple(axes) if axes is not None else None
        self.src, self.deg, self.tag = src, deg, tag

    def __repr__(self):
        return "Arr(%s%s)" % (list(self.axes) if self.axes is not None else "?", (" " + ",".join(sorted(map(str, self.src)))) if self.src else "")

    @property
    def ndim(self):
        return None if self.axes is None else len(self.axes)


class Dim:
    __slots__ = ("ax",)

    def __init__(self, ax):
        self.ax = ax

    def __repr__(self):
        return "Dim(%r)" % (self.ax,)


class Idx:
    __slots__ = ("ax",)

    def __init__(self, ax):
        self.ax = ax


class Diag:
    __slots__ = ("ax",)

    def __init__(self, ax):
        self.ax = ax


class Many:
    """A sequence of unknown length whose elements all look like `item`."""
    __slots__ = ("item",)

    def __init__(self, item):
        self.item = item

    def __repr__(self):
        return "Many(%r)" % (self.item,)


def split_einsum(subs):
    """Parses 'subs' of (nested, decorated) einsum: returns (operands tree, output) where a leaf is a tuple of labels."""
    labels = []

    def lab(s):
        out = []
        i = 0
        while i < len(s):
            c = s[i]
            i += 1
            if c == " ":
                continue
            if c.isalpha():
                t = c
                while i < len(s) and not s[i].isalpha() and s[i] not in " .":
                    t += s[i]
                    i += 1
                out.append(t)
            elif c == ".":
                out.append("...") if not out or out[-1] != "..." else None
                continue
            else:
                raise ValueError(s)
        return tuple(out)

    op, cl = "([{", ")]}"

    def top(s, sep):
        parts, d, cur = [], 0, ""
        i = 0
        while i < len(s):
            if s[i] in op:
                d += 1
            elif s[i] in cl:
                d -= 1
            if d == 0 and s.startswith(sep, i):
                parts.append(cur)
                cur = ""
                i += len(sep)
                continue
            cur += s[i]
            i += 1
        parts.append(cur)
        return parts

    def term(s):
        s = s.strip()
        if s and s[0] in op:
            if s[-1] not in cl:
                raise ValueError(s)
            return expr(s[1:-1])
        return lab(s)

    def expr(s):
        lr = top(s, "->")
        ins = [term(x) for x in top(lr[0], ",")]
        out = lab(lr[1]) if len(lr) == 2 else None
        return ["expr", ins, out]
    return expr(subs)


def leaves(t):
    if isinstance(t, tuple):
        return [t]
    return [y for x in t[1] for y in leaves(x)]


class Vec(list):
    """One-dimensional array of Python numbers."""


class Tensor:
    """Domain hooks used by absint.Run."""

    def __init__(self, pkg):
        self.pkg = pkg
        self.findings = {}
        self.contr = {}        # contraction sites: (func, line, col) -> [pairs, known pairs]
        self.prims = {}
        self.named = {}
        self.fresh = 0
        self.over = {"core.util.einsum": Prim(self.p_einsum, "einsum"), "core.util.dot": Prim(self.p_dot, "dot"),
                     "core.util.hstack": Prim(self.p_hstack, "hstack")}

    # --- reports

    def conflict(self, run, node, rule, msg, construct=None):
        c = run.stack[-1]
        func = run.funcname()
        cons = construct or ast.unparse(node)
        if isinstance(node, (ast.Assign, ast.AugAssign)) and construct is None:
            cons = ast.unparse(node)
        cons = " ".join(cons.split())[:150]
        k = (rule, func, cons)
        if k not in self.findings:
            self.findings[k] = (run.where(node), msg)

    def pair(self, run, node, a, b, what):
        """Two axes are identified with each other."""
        m, why, rule = unify(a, b)
        c = run.stack[-1]
        k = (run.funcname(), c.mod.relpath, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        s = self.contr.setdefault(k, [0, 0])
        s[0] += 1
        if a.known and b.known:
            s[1] += 1
        if why:
            self.conflict(run, node, rule, "%s: %r against %r in %s" % (why, a, b, what))
        return m

    def new(self, like=WILD, kind="new"):
        self.fresh += 1
        return Ax((kind, self.fresh), like.part, like.spin)

    def start(self, run):
        self.fresh = 0

    # --- hooks with simple answers

    def override(self, run, r):
        if isinstance(r, FuncInfo):
            return self.over.get(r.short)
        return None

    def known_truth(self, v):
        if isinstance(v, (Arr, Diag, Range)):
            return None
        return None

    def equal(self, run, a, b, node):
        for x, y in ((a, b), (b, a)):
            if y is None and isinstance(x, (Arr, Dim, Idx, Many)):
                return False
            if isinstance(y, str) and isinstance(x, (Arr, Dim)):
                return False
        if isinstance(a, HObj) or isinstance(b, HObj):
            if isinstance(a, KNOWN) or isinstance(b, KNOWN):
                return False
        return None

    def compare_eq(self, run, a, b, node):
        if isinstance(a, Vec) and isinstance(b, (int, float)):
            return Vec([(x == b if isinstance(x, (int, float)) else Unk()) for x in a])
        if isinstance(a, Arr) or isinstance(b, Arr):
            return Unk()
        return NotImplemented

    def order(self, run, op, a, b, node):
        if isinstance(a, Arr) and a.axes is not None and a.axes:
            return Arr(a.axes)
        ka, kb = run.key_of(a), run.key_of(b)
        return Unk("%s%s%s" % (ka, type(op).__name__, kb)) if ka and kb else Unk()

    def call_unknown(self, run, f, args, kw, node):
        if isinstance(f, Unk) and f.key:
            ks = [run.key_of(a) for a in args]
            if not kw and all(ks):
                return Unk("%s(%s)" % (f.key, ",".join(ks)))
        return Unk()

    def construct(self, run, cls, args, kw, node):
        return NotImplemented

    def on_return(self, run, ctx, value):
        pass

    def on_setfield(self, run, o, name, value):
        pass

    def on_raise(self, run, s):
        pass

    def missing(self, run, o, name, node):
        return Unk()

    def setattr(self, run, o, name, value, node):
        pass

    def hashable(self, k):
        if isinstance(k, Dim):
            return ("dim", k.ax)
        if isinstance(k, (HObj, Api, ClassInfo, FuncInfo, Module)):
            return ("id", id(k))
        if isinstance(k, Ext):
            return k.path
        return None

    def bad_index(self, run, v, i, node):
        pass

    def bad_unpack(self, run, vals, n, node):
        pass

    def index_seq(self, run, v, i, node):
        if isinstance(i, Unk) and v and all(isinstance(x, Arr) for x in v):
            return self.joinall(v)
        return Unk()

    def joinall(self, vs):
        vs = list(vs)
        if not vs or not all(isinstance(x, Arr) and x.axes is not None for x in vs) or len({len(x.axes) for x in vs}) != 1:
            return Unk()
        axes = []
        for axs in zip(*[x.axes for x in vs]):
            a = axs[0]
            axes.append(Ax(a.fam if all(x.fam == a.fam for x in axs) else None, a.part if all(x.part == a.part for x in axs) else None,
                           a.spin if all(x.spin == a.spin for x in axs) else None))
        return Arr(axes, frozenset().union(*[x.src for x in vs]), vs[0].deg if all(x.deg == vs[0].deg for x in vs) else None)

    def dict_get(self, run, d, k, node):
        return NotImplemented

    def dict_set(self, run, d, k, v, node):
        return NotImplemented

    def dict_has(self, run, d, k, node):
        h = run.hashable(k)
        if h is None:
            return run.decide(run.site(node))
        return h in d

    def loopindex(self, run, dim):
        return Idx(dim.ax) if isinstance(dim, Dim) else Unk()

    def iterate(self, run, v, node):
        if isinstance(v, Arr):
            return [Arr(v.axes[1:], v.src, v.deg)] if v.axes else None
        if isinstance(v, Many):
            return [v.item]
        return None

    def typeof(self, run, v):
        return Unk()

    def hasattr(self, run, v, name):
        if isinstance(v, (Arr, Dim)):
            return name in ("shape", "T", "ndim", "copy", "__len__", "size", "dtype") if isinstance(v, Arr) else False
        return None

    def length(self, run, v):
        if isinstance(v, Arr) and v.axes:
            return Dim(v.axes[0])
        return Unk("len(%s)" % v.key) if isinstance(v, Unk) and v.key else Unk()

    def range2(self, run, args):
        if len(args) == 2 and isinstance(args[0], Dim) and isinstance(args[1], Dim):
            a, b = args[0].ax, args[1].ax
            if a.part == "o" and b.part == "n":
                return Range(Dim(Ax(b.fam, "v", b.spin)))
        if len(args) == 2 and isinstance(args[1], Dim):
            return Range(args[1])
        return Unk()

    def unpack(self, run, v, n, node):
        if isinstance(v, Arr) and v.axes and n is not None:
            return [Arr(v.axes[1:], v.src, v.deg) for _ in range(n)]
        if isinstance(v, Many) and n is not None:
            return [v.item] * n
        if isinstance(v, Range) and isinstance(v.dim, int):
            return list(range(v.dim))
        return None

    def isinst(self, run, v, p):
        if isinstance(v, Arr):
            if p.endswith("ndarray"):
                return v.axes is None or len(v.axes) > 0
            return False
        if isinstance(v, Dim):
            return p in ("builtins.int", "numpy.integer") or Unk()
        if isinstance(v, KNOWN) or isinstance(v, (tuple, list, dict)):
            if p in ("numpy.ndarray",):
                return False
            if p in ("numpy.integer", "numpy.floating", "numbers.Number"):
                return isinstance(v, (int, float)) and p == "numbers.Number"
        if isinstance(v, HObj):
            return False if p in ("numpy.ndarray",) else Unk()
        return Unk()

    def many(self, run, out, node):
        return Many(out[0]) if out else Unk()

    # --- arithmetic

    def unary(self, run, op, v, node):
        if isinstance(v, Arr):
            return Arr(v.axes, v.src, v.deg)
        return Unk()

    def seq_times(self, run, a, b, node):
        return Unk()

    def arith_dim(self, op, a, b):
        if isinstance(a, Dim) and isinstance(b, Dim):
            x, y = a.ax, b.ax
            if isinstance(op, ast.Add):
                return Dim(joined((x, y) if (x.part, y.part) != ("v", "o") else (y, x)))
            if isinstance(op, ast.Sub) and x.part == "n" and y.part in ("o", "v"):
                return Dim(part(x, "v" if y.part == "o" else "o"))
        return None

    def binop(self, run, op, a, b, node):
        if isinstance(a, Dim) or isinstance(b, Dim):
            r = self.arith_dim(op, a, b)
            if r is not None:
                if isinstance(a, Dim) and isinstance(b, Dim) and isinstance(op, (ast.Add, ast.Sub)) and {a.ax.spin, b.ax.spin} == {"a", "b"}:
                    if a.ax.fam is not None and a.ax.fam == b.ax.fam and None not in (a.ax.part, b.ax.part) and a.ax.part != b.ax.part:
                        self.conflict(run, node, "spin", "spin channels differ: %r combined with %r" % (a, b))
                return r
            if not isinstance(a, Arr) and not isinstance(b, Arr):
                return Unk()
        if isinstance(op, ast.MatMult):
            return self.dot2(run, a, b, node)
        if isinstance(a, Arr) and isinstance(b, Arr):
            axes = self.broadcast(run, a, b, node)
            src = a.src | b.src
            deg = None
            if isinstance(op, (ast.Add, ast.Sub)):
                deg = a.deg if a.deg == b.deg else None
                if a.deg is not None and b.deg is not None and a.deg != b.deg:
                    self.degree(run, node, a, b)
            elif a.deg is not None and b.deg is not None:
                if isinstance(op, ast.Mult):
                    deg = a.deg + b.deg
                elif isinstance(op, ast.Div):
                    deg = a.deg - b.deg
            return Arr(axes, src, deg)
        # arrays stacked over the spin channels are represented by tuples
        ta, tb = (isinstance(x, tuple) and 2 <= len(x) <= 4 and all(isinstance(y, Arr) for y in x) for x in (a, b))
        if ta and (isinstance(b, (Arr, int, float, Unk)) or tb and len(a) == len(b)) and not isinstance(b, bool) or tb and isinstance(a, (Arr, int, float, Unk)):
            if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) and not (isinstance(op, (ast.Add, ast.Mult)) and (ta and tb or isinstance(a, int) or isinstance(b, int))):
                n = len(a) if ta else len(b)
                return tuple(self.binop(run, op, a[i] if ta else a, b[i] if tb else b, node) for i in range(n))
        if isinstance(a, Arr) or isinstance(b, Arr):
            x, y = (a, b) if isinstance(a, Arr) else (b, a)
            if isinstance(y, (tuple, list)):
                return Unk()
            deg = x.deg
            if x.deg is not None and isinstance(op, ast.Div) and x is b:
                deg = -x.deg
            elif x.deg is not None and isinstance(op, ast.Pow):
                deg = x.deg * b if isinstance(b, int) else None
            elif isinstance(y, Unk):
                deg = None
            return Arr(x.axes, x.src, deg)
        return Unk()

    def degree(self, run, node, a, b):
        pass

    def broadcast(self, run, a, b, node, what="elementwise operation"):
        if a.axes is None:
            return b.axes if b.axes is None or len(b.axes) > 0 else None
        if b.axes is None:
            return a.axes if len(a.axes) > 0 else None
        n = max(len(a.axes), len(b.axes))
        x = (ONE,) * (n - len(a.axes)) + a.axes
        y = (ONE,) * (n - len(b.axes)) + b.axes
        return tuple(self.pair(run, node, p, q, what) if p != ONE and q != ONE else (q if p == ONE else p) for p, q in zip(x, y))

    # --- attributes and methods of arrays

    def getattr(self, run, v, name, node):
        if isinstance(v, Arr):
            return self.arr_attr(run, v, name, node)
        if isinstance(v, (Dim, Idx, Diag, Many, Range)):
            return Unk()
        if isinstance(v, (Closure, Bound, FuncInfo, Prim)):
            return Unk()
        return NotImplemented

    def arr_attr(self, run, v, name, node):
        ax = v.axes
        if name == "T":
            return Arr(ax[::-1] if ax is not None else None, v.src, v.deg, ("T", v.tag) if v.tag else None)
        if name == "shape":
            return tuple(Dim(x) for x in ax) if ax is not None else Unk()
        if name == "ndim":
            return len(ax) if ax is not None else Unk()
        if name in ("size",):
            return Dim(ax[0]) if ax is not None and len(ax) == 1 else Unk()
        if name in ("real", "imag"):
            return Arr(ax, v.src, v.deg)
        if name in ("dtype", "flags", "nbytes", "itemsize"):
            return Unk()
        return Bound(Prim(lambda run, a, k, n, nm=name: self.arr_method(run, nm, a[0], list(a[1:]), k, n), name), v)

    def arr_method(self, run, name, v, args, kw, node):
        ax = v.axes
        if name in ("copy", "astype", "conj", "conjugate", "view"):
            if name == "view" and args and not isinstance(args[0], Ext):
                return Arr(ax, v.src, v.deg, v.tag)
            return Arr(ax, v.src, v.deg, v.tag)
        if name == "transpose":
            return self.p_transpose(run, [v] + ([tuple(args)] if len(args) > 1 else args), kw, node)
        if name == "swapaxes" and ax is not None and all(isinstance(x, int) for x in args):
            l = list(ax)
            i, j = args
            l[i], l[j] = l[j], l[i]
            return Arr(l, v.src, v.deg)
        if name == "dot":
            return self.dot2(run, v, args[0], node)
        if name == "reshape":
            sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
            return self.reshape(run, v, sh, node)
        if name in ("ravel", "flatten"):
            return Arr([WILD], v.src, v.deg, ("flat", v.tag) if v.tag else None)
        if name in ("sum", "mean", "max", "min", "prod", "trace", "any", "all", "item", "argmax", "argmin"):
            axis = kw.get("axis", args[0] if args else None)
            if axis is None or ax is None:
                return Arr((), v.src, v.deg)
            if isinstance(axis, int) and -len(ax) <= axis < len(ax):
                l = list(ax)
                del l[axis]
                return Arr(l, v.src, v.deg)
            return Arr(None, v.src, v.deg)
        if name == "diagonal" and ax is not None and len(ax) == 2:
            return Arr([ax[0]], v.src, v.deg)
        if name in ("fill", "sort", "tofile", "setflags"):
            return None
        return Unk()

    def reshape(self, run, v, sh, node):
        ax = []
        for x in sh if isinstance(sh, (tuple, list)) else [sh]:
            if isinstance(x, Dim):
                ax.append(x.ax)
            elif isinstance(x, Unk) or isinstance(x, int) or x is None:
                ax.append(WILD)
            else:
                ax.append(WILD)
        return Arr(ax, v.src, v.deg)

    def shape_axes(self, sh):
        if isinstance(sh, Dim):
            return [sh.ax]
        if isinstance(sh, (tuple, list)):
            return [x.ax if isinstance(x, Dim) else WILD for x in sh]
        if isinstance(sh, int):
            return [WILD]
        return None

    def p_transpose(self, run, args, kw, node):
        v = args[0]
        if not isinstance(v, Arr):
            return Unk()
        perm = args[1] if len(args) > 1 else kw.get("axes")
        if perm is None:
            return Arr(v.axes[::-1] if v.axes is not None else None, v.src, v.deg)
        if v.axes is None or not isinstance(perm, (tuple, list)) or not all(isinstance(x, int) for x in perm) or len(perm) != len(v.axes):
            return Arr(None, v.src, v.deg)
        return Arr([v.axes[i] for i in perm], v.src, v.deg)

    # --- contraction

    def dot2(self, run, a, b, node):
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            r = a if isinstance(a, Arr) else b
            return Arr(None, r.src if isinstance(r, Arr) else frozenset())
        src = a.src | b.src
        deg = a.deg + b.deg if a.deg is not None and b.deg is not None else None
        if a.axes is None and b.axes is None:
            return Arr(None, src, deg)
        if (a.axes is not None and len(a.axes) == 0) or (b.axes is not None and len(b.axes) == 0):
            return Arr(None, src, deg)
        if a.axes is None:
            return Arr([WILD, b.axes[-1]] if len(b.axes) == 2 else None, src, deg)
        if b.axes is None:
            return Arr([a.axes[0], WILD] if len(a.axes) == 2 else None, src, deg)
        ia = a.axes[-1]
        if len(b.axes) == 1:
            self.pair(run, node, ia, b.axes[0], "matrix product")
            return Arr(a.axes[:-1], src, deg)
        self.pair(run, node, ia, b.axes[-2], "matrix product")
        return Arr(a.axes[:-1] + b.axes[:-2] + b.axes[-1:], src, deg)

    def p_dot(self, run, args, kw, node):
        args = [a for a in args if a is not None]
        if not args:
            return Unk()
        if any(isinstance(a, (tuple, list)) for a in args):
            return Unk()
        acc = args[0]
        if len(args) == 1:
            return acc
        for x in args[1:]:
            acc = self.dot2(run, acc, x, node)
        return acc

    def p_einsum(self, run, args, kw, node):
        if not args or not isinstance(args[0], str):
            return Unk()
        try:
            tree = split_einsum(args[0])
        except ValueError:
            return Unk()
        ops = list(args[1:])
        if len(leaves(tree)) != len(ops):
            if any(type(o).__name__ == "StarUnk" for o in ops):
                return Unk()
            self.conflict(run, node, "space", "einsum string %r has %d operands, %d are given" % (args[0], len(leaves(tree)), len(ops)))
            return Unk()
        it = iter(ops)

        def ev(t, outer):
            """(value, labels)"""
            if isinstance(t, tuple):
                return next(it), t
            subs = []
            for i, x in enumerate(t[1]):
                subs.append(ev(x, None))
            out = t[2]
            if out is None:
                alls = [l for _, ls in subs for l in ls]
                out = tuple(sorted(l for l in set(alls) if alls.count(l) == 1))
                if outer is not None:
                    out = tuple(l for l in dict.fromkeys(alls) if l in outer)
            return self.contract(run, node, args[0], subs, out), out

        def need(t, rest):
            pass
        # a parenthesised group without its own output keeps the labels used outside it
        def prep(t, outside):
            if isinstance(t, tuple):
                return
            for i, x in enumerate(t[1]):
                if isinstance(x, list):
                    oth = set(outside)
                    for j, y in enumerate(t[1]):
                        if j != i:
                            for l in leaves(y) if isinstance(y, list) else [y]:
                                oth |= set(l)
                    if t[2] is not None:
                        oth |= set(t[2])
                    if x[2] is None:
                        inn = [l for lf in leaves(x) for l in lf]
                        if t[2] is None and not outside:
                            pass
                        x[2] = tuple(l for l in dict.fromkeys(inn) if l in oth)
                    prep(x, oth)
        prep(tree, set())
        return ev(tree, None)[0]

    def contract(self, run, node, text, subs, out):
        seen, src = {}, frozenset()
        deg = 0
        rest = []                   # the axes under the ellipsis
        for v, labs in subs:
            if isinstance(v, Arr):
                src |= v.src
                deg = deg + v.deg if deg is not None and v.deg is not None else None
                if v.axes is None:
                    if "..." in labs:
                        rest = None
                    continue
                if "..." in labs:
                    i = labs.index("...")
                    tail = len(labs) - i - 1
                    if len(v.axes) < i + tail:
                        self.conflict(run, node, "rank", "an array of %d axes is contracted as %r of einsum(%r)" % (len(v.axes), "".join(labs), text))
                        continue
                    mid = list(v.axes[i:len(v.axes) - tail])
                    if rest is not None:
                        n = max(len(rest), len(mid))
                        x, y = [ONE] * (n - len(rest)) + rest, [ONE] * (n - len(mid)) + mid
                        rest = [self.pair(run, node, p, q, "the ellipsis of einsum(%r)" % text) if p != ONE and q != ONE else (q if p == ONE else p) for p, q in zip(x, y)]
                    pairs = list(zip(labs[:i], v.axes[:i])) + (list(zip(labs[i + 1:], v.axes[len(v.axes) - tail:])) if tail else [])
                elif len(labs) != len(v.axes):
                    self.conflict(run, node, "rank", "an array of %d axes is contracted as %r of einsum(%r)" % (len(v.axes), "".join(labs), text))
                    continue
                else:
                    pairs = list(zip(labs, v.axes))
                for l, ax in pairs:
                    if l in seen:
                        seen[l] = self.pair(run, node, seen[l], ax, "index %r of einsum(%r)" % (l, text))
                    else:
                        seen[l] = ax
            else:
                deg = None
                if "..." in labs:
                    rest = None
        if "..." in out:
            if rest is None:
                return Arr(None, src, deg)
            axes = []
            for l in out:
                axes += rest if l == "..." else [seen.get(l, WILD)]
            return Arr(axes, src, deg)
        return Arr([seen.get(l, WILD) for l in out], src, deg)

    def p_tensordot(self, run, args, kw, node):
        a, b = args[0], args[1]
        axes = kw.get("axes", args[2] if len(args) > 2 else 2)
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            return Arr(None)
        src = a.src | b.src
        deg = a.deg + b.deg if a.deg is not None and b.deg is not None else None
        if a.axes is None or b.axes is None:
            return Arr(None, src, deg)
        if isinstance(axes, int):
            ia, ib = list(range(len(a.axes) - axes, len(a.axes))), list(range(axes))
        elif isinstance(axes, (tuple, list)) and len(axes) == 2:
            ia, ib = [list(x) if isinstance(x, (tuple, list)) else [x] for x in axes]
        else:
            return Arr(None, src, deg)
        if not all(isinstance(x, int) for x in ia + ib):
            return Arr(None, src, deg)
        try:
            for x, y in zip(ia, ib):
                self.pair(run, node, a.axes[x], b.axes[y], "tensordot")
            ra = [i for i in range(len(a.axes)) if i not in [x % len(a.axes) for x in ia]]
            rb = [i for i in range(len(b.axes)) if i not in [x % len(b.axes) for x in ib]]
        except IndexError:
            return Arr(None, src, deg)
        return Arr([a.axes[i] for i in ra] + [b.axes[i] for i in rb], src, deg)

    def p_hstack(self, run, args, kw, node):
        if len(args) == 1 and isinstance(args[0], (tuple, list)):
            args = args[0]
        args = [a for a in args if a is not None]
        if len(args) == 1 and isinstance(args[0], Arr):
            return args[0]
        return self.stack(run, args, -1, node)

    def stack(self, run, args, axis, node):
        arrs = [a for a in args if isinstance(a, Arr)]
        src = frozenset().union(*[a.src for a in arrs]) if arrs else frozenset()
        if not arrs or len(arrs) != len(args) or any(a.axes is None for a in arrs) or len({len(a.axes) for a in arrs}) != 1:
            return Arr(None, src)
        n = len(arrs[0].axes)
        if n == 0 or not -n <= axis < n:
            return Arr(None, src)
        axis %= n
        out = []
        for i in range(n):
            axs = [a.axes[i] for a in arrs]
            acc = axs[0]
            if i == axis:
                out.append(joined(axs))
            else:
                for x in axs[1:]:
                    acc = self.pair(run, node, acc, x, "stacking")
                out.append(acc)
        return Arr(out, src)

    # --- indexing

    def select(self, run, v, i, node):
        """Axes selected by indexing array v with i (None if not known)."""
        if v.axes is None:
            return None
        idx = list(i) if isinstance(i, tuple) else [i]
        out, axes = [], list(v.axes)
        flat = []
        for x in idx:
            if isinstance(x, IxGrid):
                flat.extend(x.items)
            else:
                flat.append(x)
        idx = flat
        nreal = sum(1 for x in idx if x is not None and x is not Ellipsis and not isinstance(x, Diag)) + 2 * sum(1 for x in idx if isinstance(x, Diag))
        pos = 0
        for x in idx:
            if x is None:
                out.append(ONE)
                continue
            if x is Ellipsis:
                k = len(axes) - nreal
                out.extend(axes[pos:pos + max(k, 0)])
                pos += max(k, 0)
                continue
            if isinstance(x, Diag):
                for j in range(2):
                    if pos + j < len(axes):
                        why, rule = subset(x.ax, axes[pos + j])
                        if why:
                            self.conflict(run, node, rule, "%s: diagonal over %r on axis %r" % (why, x.ax, axes[pos + j]))
                if pos < len(axes):
                    out.append(axes[pos])
                pos += 2
                continue
            if pos >= len(axes):
                return None
            ax = axes[pos]
            pos += 1
            if isinstance(x, (int,)) and not isinstance(x, bool):
                continue
            if isinstance(x, Idx):
                why, rule = subset(x.ax, ax)
                if why:
                    self.conflict(run, node, rule, "%s: loop index over %r on axis %r" % (why, x.ax, ax))
                continue
            if isinstance(x, slice):
                out.append(self.slice_ax(run, ax, x, node))
                continue
            if isinstance(x, Arr):
                if x.axes is not None and len(x.axes) == 1:
                    self.pair(run, node, ax, x.axes[0], "index array") if x.axes[0].known else None
                    out.append(ax)
                    continue
                return None
            if isinstance(x, (list,)):
                out.append(ax)
                continue
            if isinstance(x, Unk):
                return None if len(idx) == 1 or True else None
            return None
        out.extend(axes[pos:])
        return out

    def slice_ax(self, run, ax, s, node):
        lo, hi = s.start, s.stop
        if isinstance(lo, int) and lo == 0 and not isinstance(lo, bool):
            lo = None
        if lo is None and hi is None:
            return ax
        for d in (lo, hi):
            if isinstance(d, Dim):
                a = Ax(d.ax.fam, None, d.ax.spin)
                m, why, rule = unify(a, Ax(ax.fam, None, ax.spin))
                if why and not (rule == "space"):
                    self.conflict(run, node, rule, "%s: slice bound %r on axis %r" % (why, d.ax, ax))
        if isinstance(ax.fam, tuple) and ax.fam and ax.fam[0] == "cat" and ax.part != "n":
            d = lo if hi is None else hi
            if (lo is None) != (hi is None) and isinstance(d, Dim):
                if d.ax.fam == ax.fam[1]:
                    return Ax(ax.fam[1] if lo is None else ax.fam[2], ax.part, ax.spin)
                if d.ax.fam == ax.fam[2]:
                    self.conflict(run, node, "space", "orbital spaces differ: slice bound %r on axis %r" % (d.ax, ax))
        if hi is None and isinstance(lo, Dim) and lo.ax.part == "o" and ax.part == "n":
            return part(ax, "v")
        if isinstance(lo, Dim) and isinstance(hi, Dim) and lo.ax.part == "o" and hi.ax.part == "n" and ax.part == "n":
            return part(ax, "v")
        if lo is None and isinstance(hi, Dim) and hi.ax.part in ("o",) and ax.part == "n":
            return part(ax, "o")
        if lo is None and isinstance(hi, Dim):
            if ax.part in ("o", "v") and hi.ax.part in ("o", "v") and ax.part != hi.ax.part:
                self.conflict(run, node, "space", "occupied/virtual parts differ: slice bound %r on axis %r" % (hi.ax, ax))
                return ax
            if ax.part == "n" and hi.ax.part == "v":
                return Ax(ax.fam, None, ax.spin)
            if ax.fam is not None and hi.ax.fam is not None and ax.fam != hi.ax.fam:
                return Ax(None, ax.part, ax.spin)
            return ax
        return Ax(ax.fam if ax.part != "n" else None, None if ax.part == "n" else ax.part, ax.spin)

    def index(self, run, v, i, node):
        if isinstance(v, Many):
            return v.item if not isinstance(i, slice) else v
        if isinstance(v, Ext) and v.path in ("numpy.s_", "numpy.index_exp"):
            return i
        if not isinstance(v, Arr):
            return Unk()
        if isinstance(i, Unk) and v.axes is not None and len(v.axes) >= 1:
            return Arr(None, v.src, v.deg)
        ax = self.select(run, v, i, node)
        return Arr(ax, v.src, v.deg)

    def store(self, run, o, i, v, node, t):
        if isinstance(o, Arr) and isinstance(v, Arr):
            ax = self.select(run, o, i, node)
            if ax is not None and v.axes is not None:
                # orbitals may be rotated in place
                rot = tuple(a if not (isinstance(a.fam, tuple) and a.fam[0] in ("eig", "svd")) else Ax(None, a.part, a.spin) for a in v.axes)
                self.broadcast(run, Arr([a for a in ax if a != ONE]), Arr(rot), node, "assignment to a block")
        elif isinstance(o, Arr):
            self.select(run, o, i, node)

    def augstore(self, run, o, i, op, v, node, t, r):
        self.store(run, o, i, v, node, t)

    # --- external functions

    def ext(self, run, path, args, kw, node):
        p = path
        for pre in ("numpy.linalg.", "numpy.", "scipy.linalg.", "builtins."):
            if p.startswith(pre):
                p = p[len(pre):]
                break
        else:
            r = self.ext_other(run, path, args, kw, node)
            return r
        f = getattr(self, "x_" + p.replace(".", "_"), None)
        if f is not None:
            return f(run, args, kw, node)
        if p in ("asarray", "array", "ascontiguousarray", "asfortranarray", "abs", "conj", "conjugate", "real", "sqrt", "negative", "copy", "require", "absolute",
                 "exp", "log", "sign", "nan_to_num", "clip", "round", "rint", "around"):
            v = args[0]
            if isinstance(v, Arr):
                return Arr(v.axes, v.src, v.deg if p not in ("sqrt", "exp", "log", "sign") else None, v.tag if p in ("asarray", "array", "copy", "require", "ascontiguousarray") else None)
            if isinstance(v, (tuple, list)):
                if p in ("asarray", "array") and v and all(isinstance(x, (bool, int, float, Unk)) for x in v) and any(isinstance(x, (int, float)) for x in v):
                    return Vec(v)
                if p in ("asarray", "array") and v and all(isinstance(x, Arr) for x in v):
                    j = self.joinall(v)
                    return Arr([WILD] + list(j.axes), j.src, j.deg) if isinstance(j, Arr) and j.axes is not None else Unk()
                return Unk() if p not in ("copy",) else v
            return v if p in ("asarray", "array", "copy", "int", "float") else Unk()
        if p in ("zeros", "empty", "ones", "full"):
            sh = args[0] if args else kw.get("shape")
            ax = self.shape_axes(sh)
            return Arr(ax, frozenset(), None) if ax is not None else Arr(None)
        if p in ("zeros_like", "empty_like", "ones_like", "full_like"):
            v = args[0]
            return Arr(v.axes) if isinstance(v, Arr) else Unk()
        if p in ("all", "any") and isinstance(args[0], (list, tuple)) and len(args) == 1:
            vals = [x if isinstance(x, (bool, int, float)) else None for x in args[0]]
            if p == "all" and any(x is not None and not x for x in vals):
                return False
            if p == "any" and any(vals):
                return True
            return (p == "all") if None not in vals else Unk()
        if p in ("max", "min", "amax", "amin") and isinstance(args[0], (list, tuple)) and args[0] and all(isinstance(x, (int, float)) for x in args[0]):
            return max(args[0]) if "max" in p else min(args[0])
        if p in ("ndim",):
            v = args[0]
            if isinstance(v, Arr):
                return len(v.axes) if v.axes is not None else Unk()
            if isinstance(v, (tuple, list)) and v and isinstance(v[0], Arr) and v[0].axes is not None:
                return len(v[0].axes) + 1
            return 0 if isinstance(v, (int, float)) else Unk()
        if p in ("add", "subtract", "multiply", "divide", "true_divide"):
            op = {"add": ast.Add(), "subtract": ast.Sub(), "multiply": ast.Mult()}.get(p, ast.Div())
            return run.binop(op, args[0], args[1], node)
        return Unk()

    def ext_other(self, run, path, args, kw, node):
        if path == "copy.copy" or path == "copy.deepcopy":
            return self.pycopy(run, args[0], path.endswith("deepcopy"))
        return Unk()

    def pycopy(self, run, v, deep):
        if isinstance(v, HObj):
            m = self.pkg.find_method(v.cls, "__copy__") if not deep else None
            if m is not None:
                return run.call(m, [v], {}, None)
            o = HObj(v.cls)
            o.fields = {k: (self.pycopy(run, x, True) if deep else x) for k, x in v.fields.items()}
            return o
        if isinstance(v, tuple):
            return tuple(self.pycopy(run, x, deep) for x in v) if deep else v
        if isinstance(v, list):
            return [self.pycopy(run, x, deep) for x in v] if deep else list(v)
        return v

    def x_dot(self, run, args, kw, node):
        return self.dot2(run, args[0], args[1], node) if len(args) >= 2 else Unk()

    x_matmul = x_dot

    def x_multi_dot(self, run, args, kw, node):
        return self.p_dot(run, list(args[0]), {}, node) if isinstance(args[0], (tuple, list)) else Unk()

    def x_einsum(self, run, args, kw, node):
        return self.p_einsum(run, args, kw, node)

    def x_tensordot(self, run, args, kw, node):
        return self.p_tensordot(run, args, kw, node)

    def x_transpose(self, run, args, kw, node):
        return self.p_transpose(run, args, kw, node)

    def x_hstack(self, run, args, kw, node):
        return self.p_hstack(run, [args[0]] if args else [], kw, node)

    def x_vstack(self, run, args, kw, node):
        return self.stack(run, args[0], 0, node) if isinstance(args[0], (tuple, list)) else Unk()

    def x_concatenate(self, run, args, kw, node):
        axis = kw.get("axis", args[1] if len(args) > 1 else 0)
        return self.stack(run, args[0], axis, node) if isinstance(args[0], (tuple, list)) and isinstance(axis, int) else Unk()

    def x_eye(self, run, args, kw, node):
        d = args[0]
        return Arr([d.ax, d.ax]) if isinstance(d, Dim) and len(args) == 1 else Arr([WILD, WILD])

    x_identity = x_eye

    def x_ndim(self, run, args, kw, node):
        v = args[0]
        if isinstance(v, Arr):
            return len(v.axes) if v.axes is not None else Unk()
        if isinstance(v, (tuple, list)):
            if v and isinstance(v[0], Arr) and v[0].axes is not None:
                return len(v[0].axes) + 1
            return 1
        if isinstance(v, (int, float)):
            return 0
        return Unk()

    def x_isscalar(self, run, args, kw, node):
        v = args[0]
        if isinstance(v, Arr):
            return v.axes is not None and len(v.axes) == 0
        if isinstance(v, (int, float, str, Dim)):
            return True
        if isinstance(v, (tuple, list)) or v is None:
            return False
        return Unk()

    def x_all(self, run, args, kw, node):
        if isinstance(args[0], (tuple, list)) and all(run.known_truth(x) is not None for x in args[0]):
            return all(run.known_truth(x) for x in args[0])
        return Unk()

    def x_any(self, run, args, kw, node):
        if isinstance(args[0], (tuple, list)) and all(run.known_truth(x) is not None for x in args[0]):
            return any(run.known_truth(x) for x in args[0])
        return Unk()

    def x_sum(self, run, args, kw, node):
        v = args[0]
        if isinstance(v, Arr):
            return self.arr_method(run, "sum", v, list(args[1:]), kw, node)
        if isinstance(v, (tuple, list)):
            return run.builtin("sum", [v], {}, node)
        return Unk()

    def x_trace(self, run, args, kw, node):
        v = args[0]
        if isinstance(v, Arr) and v.axes is not None and len(v.axes) == 2:
            self.pair(run, node, v.axes[0], v.axes[1], "trace")
        return Arr((), v.src if isinstance(v, Arr) else frozenset())

    def x_norm(self, run, args, kw, node):
        axis = kw.get("axis", args[2] if len(args) > 2 else None)
        if axis is not None or "linalg" not in ast.unparse(node)[:60] and len(args) > 1:
            v = args[0]
            if isinstance(v, Arr) and v.axes is not None and isinstance(axis, int) and -len(v.axes) <= axis < len(v.axes):
                keep = [a for i, a in enumerate(v.axes) if i != axis % len(v.axes)]
                return Arr(keep, v.src)
            return Arr(None)
        return Arr((), args[0].src if isinstance(args[0], Arr) else frozenset())

    def x_svd(self, run, args, kw, node):
        v = args[0]
        if not isinstance(v, Arr) or v.axes is None or len(v.axes) != 2:
            return Unk()
        a, b = v.axes
        n = self.new(Ax(None, a.part if a.part == b.part else None, a.spin if a.spin == b.spin else None), "svd")
        if kw.get("full_matrices", True) is not False:
            n1, n2 = self.new(n, "svd"), self.new(n, "svd")
            return (Arr([a, n1], v.src), Arr([WILD], v.src), Arr([n2, b], v.src))
        return (Arr([a, n], v.src), Arr([n], v.src), Arr([n, b], v.src))

    def x_eigh(self, run, args, kw, node):
        v = args[0]
        if isinstance(v, Arr) and v.axes is not None and len(v.axes) == 2:
            self.pair(run, node, v.axes[0], v.axes[1], "eigenvalue problem")
            n = self.new(v.axes[0] if v.axes[0].part != "n" else Ax(None, None, v.axes[0].spin), "eig")
            return (Arr([n], v.src), Arr([v.axes[0], n], v.src))
        return Unk()

    def x_eigvalsh(self, run, args, kw, node):
        return Arr([WILD], args[0].src if isinstance(args[0], Arr) else frozenset())

    def x_inv(self, run, args, kw, node):
        v = args[0]
        return Arr(v.axes[::-1] if v.axes is not None else None, v.src) if isinstance(v, Arr) else Unk()

    x_pinv = x_inv

    def x_diag_indices(self, run, args, kw, node):
        return Diag(args[0].ax) if isinstance(args[0], Dim) else Diag(WILD)

    def x_diag_indices_from(self, run, args, kw, node):
        v = args[0]
        return Diag(v.axes[0]) if isinstance(v, Arr) and v.axes else Diag(WILD)

    def x_diag(self, run, args, kw, node):
        v = args[0]
        if isinstance(v, Arr) and v.axes is not None:
            return Arr([v.axes[0], v.axes[0]] if len(v.axes) == 1 else v.axes[:1], v.src, v.deg)
        return Unk()

    def x_ix_(self, run, args, kw, node):
        return IxGrid(list(args))

    def x_arange(self, run, args, kw, node):
        return Arr([args[0].ax]) if len(args) == 1 and isinstance(args[0], Dim) else Unk()

    def x_swapaxes(self, run, args, kw, node):
        return self.arr_method(run, "swapaxes", args[0], list(args[1:]), kw, node) if isinstance(args[0], Arr) else Unk()

    def x_expand_dims(self, run, args, kw, node):
        return Arr(None)

    def x_reshape(self, run, args, kw, node):
        return self.reshape(run, args[0], args[1], node) if isinstance(args[0], Arr) and len(args) > 1 else Unk()

    def x_block_diag(self, run, args, kw, node):
        if len(args) == 2 and all(isinstance(x, Arr) and x.axes is not None and len(x.axes) == 2 for x in args):
            out = []
            for x, y in zip(args[0].axes, args[1].axes):
                m, why, rule = unify(Ax(x.fam, None, x.spin), Ax(y.fam, None, y.spin))
                if why and rule == "spin":
                    self.conflict(run, node, rule, "%s: %r against %r in block_diag" % (why, x, y))
                out.append(Ax(x.fam if x.fam == y.fam else None, "n" if (x.part, y.part) == ("o", "v") else None, m.spin if not why else None))
            return Arr(out, args[0].src | args[1].src)
        return Arr([WILD, WILD], frozenset().union(*[x.src for x in args if isinstance(x, Arr)]))

    def x_outer(self, run, args, kw, node):
        a, b = args[:2]
        if isinstance(a, Arr) and isinstance(b, Arr) and a.axes is not None and b.axes is not None and len(a.axes) == len(b.axes) == 1:
            return Arr(a.axes + b.axes, a.src | b.src)
        return Arr(None)

    def x_where(self, run, args, kw, node):
        return Unk()

    def x_append(self, run, args, kw, node):
        return Arr([WILD], frozenset().union(*[x.src for x in args if isinstance(x, Arr)]))


class IxGrid:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


for _n in ("newaxis",):
    pass
