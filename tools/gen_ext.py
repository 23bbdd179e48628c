"""Generate data/ext.json.gz: names that the installed third-party libraries and the standard library define.
Run once with /opt/venv/bin/python; the checks only read the committed result."""
import ast, builtins, gzip, importlib, json, os, pkgutil, sys, types, warnings
warnings.simplefilter("ignore")
names = set(); mods = {}
SP = "/opt/venv/lib/python3.12/site-packages"
for lib in ("pyscf", "ebcc", "numpy", "scipy", "h5py", "cvxpy", "matplotlib", "plotly", "threadpoolctl"):
    for d, ds, fs in os.walk(os.path.join(SP, lib)):
        ds[:] = [x for x in ds if x not in ("tests", "test", "__pycache__")]
        for f in fs:
            if not f.endswith((".py", ".pyi")): continue
            if lib == "ebcc" and "codegen" in d: continue
            try: t = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
            except Exception: continue
            for n in ast.walk(t):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)): names.add(n.name)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store): names.add(n.attr)
                elif isinstance(n, ast.ClassDef):
                    pass
            for c in ast.walk(t):
                if isinstance(c, ast.ClassDef):
                    for s in c.body:
                        if isinstance(s, ast.Assign):
                            for x in s.targets:
                                for y in ast.walk(x):
                                    if isinstance(y, ast.Name): names.add(y.id)
                        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name): names.add(s.target.id)
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "setattr" and len(c.args) > 1 and isinstance(c.args[1], ast.Constant):
                    names.add(str(c.args[1].value))
for o in [getattr(builtins, n) for n in dir(builtins)] + [types.FunctionType, types.MethodType, types.ModuleType, types.TracebackType, types.FrameType, types.CodeType]:
    names.update(dir(o))
for m in ("logging", "argparse", "collections", "contextlib", "copy", "dataclasses", "functools", "itertools", "os", "os.path", "sys", "re", "time", "timeit", "datetime", "tempfile", "string", "subprocess", "typing", "types", "abc", "cProfile", "pstats", "ctypes", "json", "pickle", "inspect", "math", "operator", "gc", "resource", "psutil", "random", "shutil", "pathlib", "traceback", "threading", "io", "platform", "importlib", "warnings", "enum", "unittest", "numbers", "multiprocessing"):
    try: M = importlib.import_module(m)
    except Exception: continue
    mods[m] = sorted(dir(M))
    for n in dir(M):
        o = getattr(M, n, None)
        if isinstance(o, type): names.update(dir(o))
import numpy, scipy, pyscf
names.update(dir(numpy.ndarray)); names.update(dir(numpy.dtype)); names.update(dir(numpy.finfo)); names.update(dir(numpy.float64)); names.update(dir(numpy.random.RandomState)); names.update(dir(numpy.random.Generator))
def walk(p):
    M = importlib.import_module(p); mods[p] = sorted(set(dir(M)))
    if hasattr(M, "__path__"):
        subs = []
        for i in pkgutil.iter_modules(M.__path__):
            if i.name.startswith("_") or i.name in ("tests", "test", "conftest", "f2py", "distutils", "testing"): continue
            subs.append(i.name)
            try: walk(p + "." + i.name)
            except BaseException as e: mods[p + "." + i.name] = None
        mods[p] = sorted(set(dir(M)) | set(subs))
for p in ("numpy", "scipy.linalg", "scipy.optimize", "scipy.special", "scipy.sparse", "scipy.integrate", "scipy.spatial", "pyscf", "ebcc", "h5py"):
    try: walk(p)
    except BaseException as e: print(p, e)
mods["scipy"] = sorted(set(dir(scipy)) | set(scipy.__all__))
mods["cvxpy"] = sorted(dir(importlib.import_module("cvxpy")))
out = {"names": sorted(n for n in names if not n.startswith("__") or n.endswith("__")), "mods": {k: v for k, v in sorted(mods.items())}}
b = json.dumps(out).encode()
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "ext.json.gz"), "wb") as fh:
    fh.write(gzip.compress(b, mtime=0))
print(len(names), len(mods), len(b))
