"""Generate data/sigs.json.gz: signatures of the library functions the package may call by a dotted name.
Run once with /opt/venv/bin/python; the checks only read the committed result."""
import gzip, importlib, inspect, json, os, sys, warnings
warnings.simplefilter("ignore")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mods = json.load(gzip.open(os.path.join(here, "data", "ext.json.gz")))["mods"]
out = {}
K = inspect.Parameter
for m in mods:
    if not m.split(".")[0] in ("numpy", "scipy", "pyscf", "h5py", "copy", "itertools", "functools", "os", "ebcc") or m.startswith("numpy.core"): continue
    if m.startswith("pyscf") and m.count(".") > 3: continue
    try: M = importlib.import_module(m)
    except BaseException: continue
    d = {}
    for n in dir(M):
        if n.startswith("_"): continue
        try: f = getattr(M, n)
        except BaseException: continue
        if inspect.ismodule(f): continue
        if inspect.isclass(f):
            continue
        if not callable(f): continue
        try: s = inspect.signature(f)
        except BaseException: continue
        if getattr(f, "__wrapped__", None) is not None and "args" in str(s): pass
        pos, req, kwo, kwr, var, kw = [], [], [], [], 0, 0
        for p in s.parameters.values():
            if p.kind in (K.POSITIONAL_ONLY, K.POSITIONAL_OR_KEYWORD):
                pos.append(p.name)
                if p.default is K.empty: req.append(p.name)
            elif p.kind == K.KEYWORD_ONLY:
                kwo.append(p.name)
                if p.default is K.empty: kwr.append(p.name)
            elif p.kind == K.VAR_POSITIONAL: var = 1
            else: kw = 1
        if var and kw: continue
        d[n] = [pos, req, kwo, kwr, var, kw]
    if d: out[m] = d
b = json.dumps(out, sort_keys=True).encode()
open(os.path.join(here, "data", "sigs.json.gz"), "wb").write(gzip.compress(b, mtime=0))
print(len(out), sum(map(len, out.values())), len(b), os.path.getsize(os.path.join(here, "data", "sigs.json.gz")))
