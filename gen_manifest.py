#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
FRAG = "abstract interpretation of the source (fragment-sum dataflow)"
CLAIM = {
 "C01": (FRAG, "Sound for the interpreted subset over all entry points listed in lib/fragprops.py; trusts numpy/pyscf calls to be pure and the meaning of the MPI and fragment-filter primitives."),
 "C02": (FRAG, "Every collective reached from the listed entry points is under rank-independent control; one known finding (unmatched send) is listed."),
 "C03": (FRAG, "All functions with a target rank reached from the entry points; non-target and target scenario interpreted separately."),
 "C04": (FRAG, "Every accumulation in a fragment loop that reaches a result; trusts symmetry_factor and loop_symmetry_children."),
 "C05": (FRAG, "Every accumulation in a fragment loop that reaches a result is filtered by contributes; DMET/EDMET self-consistency kernels excluded."),
 "C06": (FRAG, "Power of 1/ncells of every returned energy; trusts that mean-field energies refer to the folded supercell."),
 "C10": ("type inference for array axes (orbital space and spin channel of every index; abstract interpretation)", "Every function of the modules named in the evidence, on all paths up to a budget per function; an axis whose space is not known conflicts with nothing; pyscf calls are summarised."),
 "C12": ("abstract interpretation of dispatch on names (choice set to a name that matches nothing)", "All functions listed in lib/choices.py (choices, unsupported combinations, unknown option names) and the methods overriding them; undecided tests are followed both ways, loops are taken to run at least once."),
 "C14": ("abstract interpretation of convergence flags (implication at every exit)", "All paths of the listed kernels with loops run 0 to 2 times and two symbolic elements per fragment collection; trusts the flags PySCF and EBCC solvers set themselves."),
 "C15": ("effect analysis of temporary state (release on every path, exceptions included)", "Temporary changes are recognised by their pattern (saved and put back, pushed and popped, locked and unlocked, raised and lowered); logging calls are taken not to raise."),
 "C16": ("comparison of ctypes call sites with the C declarations (clang syntax tree; element type and layout dataflow)", "Every call through a loaded library; array lengths are compared only through the row length the kernel uses."),
 "C17": ("data-race analysis of OpenMP regions on clang's syntax tree (effect analysis, index disjointness)", "All parallel regions of the C sources, also of libraries the build leaves out; distinct pointer parameters are assumed not to overlap, and a thread-private array is taken to be initialised by a loop that stores to it with loop indices only."),
 "C18": ("signature comparison over the class hierarchy", "Every overriding method and every class-level alias; constructors are not compared; listed differences are known findings."),
 "C19": ("name resolution, attribute tables, definite assignment and call matching", "Attributes are resolved through the class where the receiver's class is known, otherwise against all names that exist in the package and its libraries; dynamic attributes of third-party objects are trusted."),
}
PENDING = "no check built yet for this property"
NUM = "quantifies over floating-point results of whole calculations (integrals, iterative solvers, eigenproblems); no static argument in reach bounds them"
NA = {i: NUM for i in ("C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27")}
NA_EXTRA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CLAIM:
        t, n = CLAIM[i]
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s" % i, thorough_cmd="python3 checks/run.py %s --tier thorough" % i, technique=t, level="other", level_note=n))
na = [dict(property=i, reason=NA.get(i, NA_EXTRA.get(i, PENDING))) for i in ids if i not in CLAIM]
m = dict(version=1, setup_cmd="python3 -c \"import ast, sys; assert sys.version_info >= (3, 9)\"", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
