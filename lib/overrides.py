"""C18: an overriding method accepts every call its base-class method accepts, with the same default values."""
import ast

from pkg import Package, dotted
from harness import Finding, Result
from members import Sig, transparent
from namecheck import Check

# default values that differ between a restricted class and its unrestricted version because orbitals hold two electrons
# in one and one in the other: parameter -> (restricted, unrestricted)
SPIN_SCALED = {"norm": ("2", "1")}
SKIP = {"__init__", "__new__", "__init_subclass__", "__class_getitem__"}


def same_default(pkg, a, fa, b, fb):
    if ast.unparse(a) == ast.unparse(b):
        return True
    for x, y in ((a, b),):
        dx, dy = dotted(x), dotted(y)
        if dx and dy and pkg.resolve(fa.module, dx) is not None and pkg.resolve(fa.module, dx) == pkg.resolve(fb.module, dy):
            return True
    try:
        return ast.literal_eval(a) == ast.literal_eval(b)
    except Exception:
        return False


def refuses(f):
    """The method only raises: it is not offered by the class."""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return bool(body) and isinstance(body[0], ast.Raise)


def compare(ck, g, f):
    """Why the override g of f does not accept what f accepts: list of (kind, construct, message)."""
    out = []
    bf, bg = not f.is_static, not g.is_static
    sf, sg = Sig(f, bf), Sig(g, bg)
    used = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
    ignores_var = sf.var and f.node.args.vararg.arg not in used
    ignores_kw = sf.kw and f.node.args.kwarg.arg not in used

    def takes(name):
        return name in sg.pos or name in sg.kwonly or (sg.kw and ck.forwarded(g, name))
    for i, p in enumerate(sf.pos):
        if i < len(sg.pos):
            if sg.pos[i] != p:
                if p.startswith("_") or sg.pos[i].startswith("_"):
                    continue
                if takes(p):
                    out.append(("order", p, "parameter %r is in position %d in %s, but %r is there in the override" % (p, i + 1, f.short, sg.pos[i])))
                else:
                    out.append(("name", p, "parameter %r of %s is called %r in the override" % (p, f.short, sg.pos[i])))
        elif not sg.var:
            if not takes(p):
                out.append(("missing", p, "parameter %r of %s is not accepted" % (p, f.short)))
            else:
                out.append(("position", p, "parameter %r of %s is no longer accepted by position" % (p, f.short)))
        elif not takes(p):
            if not (sg.var and p in sf.req):
                out.append(("missing", p, "parameter %r of %s is not accepted by keyword" % (p, f.short)))
    for p in sf.kwonly:
        if not takes(p):
            out.append(("missing", p, "keyword %r of %s is not accepted" % (p, f.short)))
    if sf.var and not sg.var and not ignores_var:
        out.append(("var", "*args", "%s takes any number of positional arguments, the override does not" % f.short))
    if sf.kw and not sg.kw and not ignores_kw:
        out.append(("kw", "**kwargs", "%s takes further keywords, the override does not" % f.short))
    for p in sg.req:
        if p not in sf.req and not (sf.var and p not in sf.pos) and p not in sf.pos[: len(sg.req)] or (p in sf.defaults):
            if p in sf.pos or p in sf.kwonly:
                out.append(("required", p, "parameter %r is optional in %s and required in the override" % (p, f.short)))
            elif not any(o[0] == "name" for o in out):
                out.append(("required", p, "the override requires a parameter %r which %s does not have" % (p, f.short)))
    for p in sg.kwreq:
        if p not in sf.kwreq and p not in sf.req:
            out.append(("required", p, "the override requires the keyword %r" % p))
    for p, d in sf.defaults.items():
        if p in sg.defaults and not same_default(ck.pkg, d, f, sg.defaults[p], g):
            if SPIN_SCALED.get(p) == (ast.unparse(d), ast.unparse(sg.defaults[p])):
                continue
            out.append(("default", p, "default of %r is %s in %s and %s in the override" % (p, ast.unparse(d), f.short, ast.unparse(sg.defaults[p]))))
    return out


def analyse(prop, tier):
    pkg = Package()
    ck = Check(pkg)
    res = Result()
    n = nsig = 0
    for c in pkg.all_classes:
        table = dict(c.methods)
        for name in c.attrs:
            if name not in table:
                g = pkg._attr_func(c, name)
                if g is not None:
                    table[name] = g
        for name, g in table.items():
            if name in SKIP:
                continue
            f = pkg.find_method(c, name, after=c)
            if f is None or f is g or (name in c.methods and f.cls is c):
                continue
            n += 1
            if f.is_property or g.is_property:
                if f.is_property != g.is_property:
                    res.findings.append(Finding("C18", "property", g.short, name, g.loc(), "%s is %s, the override is %s" % (
                        f.short, "a property" if f.is_property else "a method", "a property" if g.is_property else "a method")))
                continue
            if refuses(f) or refuses(g):
                continue
            if f.is_static != g.is_static or f.is_classmethod != g.is_classmethod:
                res.findings.append(Finding("C18", "binding", g.short, name, g.loc(), "%s and its override bind differently (static/class method)" % f.short))
                continue
            if not transparent(f) or not transparent(g):
                continue
            nsig += 1
            for kind, con, msg in compare(ck, g, f):
                res.findings.append(Finding("C18", "narrower-" + kind if kind != "default" else "default-differs", g.short, con, g.loc(), msg))
    res.coverage = {"classes": len(pkg.all_classes), "overrides": n, "signatures_compared": nsig}
    res.floors = {"overrides": 300, "signatures_compared": 150}
    res.explanation = "Every method of a derived class was compared with the method of the nearest base class it overrides; rule: it accepts every positional and keyword call the base accepts, with the same defaults, and stays a property/static/class method if the base is one."
    res.assumptions = ["constructors are not substitutable and are not compared", "methods that only raise are not offered by their class"]
    return res
