#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe))))

EWF = "vayesta/ewf/"; Q = "vayesta/core/qemb/"
p("C01", "Parallel runs return the same totals as a serial run",
  "Energies, density matrices and amplitudes that are assembled as a sum over fragments have the same value for any number of MPI processes as in a serial run. "
  "Each process' share of such a sum is combined over the processes exactly once, after the process' own sum is complete and before anything held by all processes is added to it or the total is returned.",
  ["configurations", "inputs"], "every number of MPI processes, every assignment of fragments to processes, every combination of options of the summing functions",
  "The test environment has no MPI library: every test runs with one process, where a partial sum equals the total.",
  [EWF+"ewf.py", EWF+"rdm.py", EWF+"urdm.py", EWF+"amplitudes.py", EWF+"icmp2.py", Q+"qemb.py", Q+"rdm.py", "vayesta/mpi/interface.py"],
  [("reduction of rank-local sums", "MPI_Interface.nreduce / with_allreduce / world.allreduce in vayesta/mpi/interface.py and its callers"),
   ("rank filter of fragment loops", "Embedding.get_fragments(mpi_rank=...) in vayesta/core/qemb/qemb.py")],
  ["e_corr, get_proj_corr_energy, make_rdm1, make_rdm2, get_global_t1/t2, get_dmet_energy"])
p("C02", "All MPI processes take part in the same collective operations",
  "In a parallel run every process performs the same sequence of collective operations (reductions, broadcasts, gathers, barriers, creation of shared windows). "
  "No collective operation is performed by only some of the processes because of their rank, the fragments they own, or an earlier exit that depends on either.",
  ["schedules", "configurations"], "every number of MPI processes and every assignment of fragments to processes, including processes without any fragment",
  "A process that skips a collective deadlocks only with two or more processes; the tests have one.",
  [EWF+"ewf.py", EWF+"uewf.py", EWF+"rdm.py", EWF+"urdm.py", EWF+"amplitudes.py", EWF+"icmp2.py", Q+"qemb.py", Q+"fragment.py", "vayesta/solver/coupling.py", "vayesta/mpi/scf.py", "vayesta/mpi/rma.py"],
  [("collectives outside rank-dependent control flow", "callers of mpi.world.* / mpi.nreduce / mpi.create_rma_dict")])
p("C03", "Processes other than the target rank return nothing and do not fail",
  "When a result is requested on one MPI process only, the other processes return None without an error and without computing with the result they did not receive; the target process returns the complete result.",
  ["configurations"], "every choice of the target process, every option combination of the functions with a target-process argument",
  "With one process the target is always the only process; the non-target path is never executed by tests.",
  [EWF+"rdm.py", EWF+"urdm.py", EWF+"amplitudes.py", EWF+"ewf.py", EWF+"uewf.py", Q+"qemb.py", Q+"rdm.py"],
  [("early exit of non-target ranks", "`if mpi_target not in (None, mpi.rank): return None` after a reduction")])
p("C04", "Each fragment is counted once, with or without symmetry reduction",
  "A sum over fragments counts every fragment of the system exactly once, whether symmetry-related fragments are calculated explicitly or represented by their symmetry-unique parent. "
  "A sum over the symmetry-unique fragments either multiplies each contribution by the number of symmetry-equivalent fragments or loops over the equivalent fragments, never neither and never both; a sum over all fragments does neither.",
  ["inputs", "configurations"], "every system, symmetry group and fragmentation; with use of symmetry on and off",
  "Most tests have no symmetry-related fragments (weight one), and only a few quantities are compared with and without symmetry.",
  [EWF+"ewf.py", EWF+"rdm.py", EWF+"urdm.py", EWF+"amplitudes.py", EWF+"icmp2.py", Q+"qemb.py", Q+"corrfunc.py", Q+"self_energy.py", Q+"fragment.py", "vayesta/dmet/dmet.py"],
  [("symmetry weight", "Fragment.symmetry_factor"), ("symmetry expansion", "Fragment.loop_symmetry_children"), ("parent filter", "Embedding.get_fragments(sym_parent=None)")])
p("C05", "Auxiliary and inactive fragments do not enter expectation values",
  "Fragments marked as auxiliary or inactive never contribute to energies, density matrices, amplitudes, correlation functions or self-energies of the whole system; all other fragments do.",
  ["inputs", "configurations"], "every mixture of active, inactive and auxiliary fragments",
  "Almost all tests have only active, non-auxiliary fragments, for which every filter selects the same set.",
  [EWF+"ewf.py", EWF+"rdm.py", EWF+"urdm.py", EWF+"amplitudes.py", EWF+"icmp2.py", Q+"qemb.py", Q+"rdm.py", Q+"corrfunc.py", Q+"self_energy.py", Q+"fragment.py"],
  [("contribution filter", "Embedding.get_fragments(contributes=True)"), ("definition", "Fragment.contributes")])
p("C06", "Energies are reported per unit cell, divided exactly once",
  "For periodic systems every energy returned by the embedding classes refers to one unit cell. Quantities of the whole supercell are divided by the number of cells exactly once, and a per-cell quantity is never added to a supercell quantity.",
  ["inputs"], "every number of k-points / cells and every option of the energy functions",
  "Molecular tests have one cell, where the division is by one; the few periodic tests touch only some energy functions.",
  [EWF+"ewf.py", EWF+"icmp2.py", Q+"qemb.py", "vayesta/dmet/dmet.py", "vayesta/edmet/edmet.py"],
  [("normalisation", "division by Embedding.ncells")], ["e_mf, e_nuc, e_corr, e_tot, get_*_energy"])
p("C07", "The user's mean-field and molecule objects are never modified",
  "No calculation changes the mean-field or molecule object that the user passed in, nor the arrays stored on it (orbital coefficients, energies, occupations, overlap, core Hamiltonian); results needed on a changed mean-field are written to a copy, unless the caller explicitly asked for an in-place update.",
  ["histories", "inputs"], "every sequence of public calls on every class that accepts a mean-field",
  "A test that runs one calculation on a fresh mean-field never looks at it again; sharing one mean-field between calculations is ordinary use.",
  [Q+"qemb.py", Q+"uqemb.py", "vayesta/core/foldscf.py", "vayesta/core/scmf/", "vayesta/misc/brueckner.py", "vayesta/dmet/pdmet.py", "vayesta/lattmod/latt.py"],
  [("copy of the mean-field", "Embedding.init_mf"), ("copies of overlap etc.", "Embedding.get_ovlp and friends")])
p("C08", "Stored and cached arrays are not changed by later computations",
  "Arrays held in a wave function, cluster, Hamiltonian or cache, and arrays passed as function arguments, keep their value when another quantity is computed from them; in-place arithmetic is applied only to arrays that the same computation created, unless the function is documented or requested to work in place.",
  ["histories", "inputs"], "every order of public calls on the same objects",
  "Corruption shows only when a second quantity is computed from the same object in a particular order; tests evaluate one order.",
  ["vayesta/core/types/wf/", "vayesta/core/types/ebwf/", "vayesta/core/types/cluster.py", "vayesta/solver/hamiltonian.py", Q+"fragment.py", Q+"qemb.py", Q+"rdm.py", EWF+"rdm.py", EWF+"urdm.py", EWF+"icmp2.py", EWF+"ccsd_t.py", "vayesta/core/vpyscf/"],
  [("copy before in-place update", "wf.copy(), np.array(...), .copy() at the start of in-place code")])
p("C09", "Copying, sending or converting a wave function keeps every component",
  "Copying a wave function, packing it to send it to another process and unpacking it there, and converting it between its restricted and unrestricted forms preserves every component: no component is dropped, exchanged with another one, or taken from the wrong spin channel.",
  ["inputs"], "every wave-function type with every optional component present or absent",
  "Packing is used only with MPI; tests convert a few types with all components present.",
  ["vayesta/core/types/wf/", "vayesta/core/types/ebwf/ebcc.py", "vayesta/core/types/cluster.py", "vayesta/core/types/orbitals.py", "vayesta/core/types/bosonic_orbitals.py"],
  [("pack/unpack/copy", "methods of the wave-function and orbital classes")])
p("C10", "Contractions pair like with like: occupied/virtual and alpha/beta",
  "In the functions of the embeddings, fragments, clusters, baths, integrals and wave functions, whenever two arrays are contracted, added, assigned into each other or projected, the indices that are identified with each other run over the same orbital space "
  "(atomic orbitals, mean-field, fragment or cluster orbitals, occupied or virtual, auxiliary functions), belong to the same fragment, and, in spin-unrestricted calculations, run over the same spin channel; and spin-resolved results are returned in the declared order of the channels.",
  ["inputs"], "every spin-polarised system and every option combination of the spin-unrestricted functions",
  "With equal numbers of alpha and beta orbitals a swapped channel has valid shapes, and tests of unrestricted code often use closed-shell references.",
  [EWF+"rdm.py", EWF+"urdm.py", EWF+"fragment.py", EWF+"ufragment.py", EWF+"ewf.py", EWF+"uewf.py", EWF+"amplitudes.py", EWF+"icmp2.py", EWF+"ccsd_t.py", Q+"fragment.py", Q+"ufragment.py", Q+"qemb.py", Q+"uqemb.py", Q+"rdm.py", Q+"corrfunc.py", Q+"self_energy.py",
   "vayesta/core/types/wf/", "vayesta/core/types/cluster.py", "vayesta/core/bath/", "vayesta/core/ao2mo/helper.py", "vayesta/core/eris.py", "vayesta/core/screening/screening_crpa.py", "vayesta/solver/hamiltonian.py", "vayesta/solver/coupling.py", "vayesta/solver/ccsdtq.py", "vayesta/core/vpyscf/uccsd_rdm.py"],
  [("einsum/dot contractions", "the listed modules"), ("spin-resolved tuples", "U* classes")])
p("C11", "Options take effect, and unknown options are rejected",
  "An option or keyword argument that the user sets reaches the code it controls: every declared option is read, a value accepted by a public function is used or forwarded, and it is forwarded to the parameter of the same meaning. "
  "A misspelled or unknown option raises an error instead of being ignored.",
  ["configurations"], "every option of every embedding, fragment, bath and solver class, every keyword argument of the public functions",
  "Tests set a small fraction of the options, and an ignored option leaves a valid result.",
  [Q+"qemb.py", Q+"fragment.py", EWF+"ewf.py", EWF+"fragment.py", "vayesta/core/util.py", "vayesta/core/bath/", "vayesta/solver/"],
  [("OptionsBase.replace", "vayesta/core/util.py")])
p("C12", "An unsupported choice raises an error instead of being ignored",
  "When a named choice (solver, bath type, truncation, screening, energy functional, correlation function, projection, initial guess, boundary condition, external correction, ...) is not one of the supported values, or an option or option key does not exist, an error is raised; the calculation never continues with a default or without the requested step.",
  ["inputs", "configurations"], "every value of every named choice, including misspelled ones",
  "Tests pass supported values; an unsupported value that is silently accepted fails no test.",
  [Q+"qemb.py", Q+"fragment.py", Q+"corrfunc.py", EWF+"ewf.py", EWF+"fragment.py", "vayesta/core/bath/", "vayesta/core/screening/", "vayesta/core/fragmentation/", "vayesta/core/types/", "vayesta/solver/"],
  [("final else: raise", "dispatch chains on strings")])
p("C13", "No stale results after a reset, a rerun or a changed mean-field",
  "After a calculation is reset, run again or given new orbitals, every quantity computed afterwards is computed from the current fragments, baths, clusters and orbitals; nothing that was cached before is served.",
  ["histories"], "every sequence of kernel, reset, update of the mean-field and evaluation of quantities",
  "Tests evaluate quantities after a single run of a fresh object.",
  [Q+"qemb.py", Q+"fragment.py", Q+"uqemb.py", EWF+"ewf.py", EWF+"fragment.py", "vayesta/core/util.py", "vayesta/solver/hamiltonian.py"],
  [("reset", "Embedding.reset, Fragment.reset"), ("cache invalidation", "cache_clear calls")])
p("C14", "Unconverged calculations are never reported as converged",
  "The convergence flag set by a cluster solver, stored in a fragment's results, or set by an embedding, by a self-consistency driver (DMET, EDMET, SCMF, QP-EWDMET) or by the chemical potential search is true only if every iterative step whose outcome that calculation used reported convergence: a cluster solver, a fragment (auxiliary ones included), or a fixed-point loop or root search that stops without converging makes the flag of everything built on it false, on every MPI process, also when the calculation is repeated. The user's own mean-field calculation and solvers used only to make an initial guess are not part of the flag.",
  ["inputs", "fault_sequences"], "every solver and every iteration that may fail to converge",
  "Test systems converge.",
  ["vayesta/solver/", EWF+"ewf.py", EWF+"fragment.py", "vayesta/dmet/dmet.py", "vayesta/edmet/", "vayesta/core/scmf/scmf.py", Q+"fragment.py"],
  [("converged flags", "ClusterSolver.converged, Fragment.Results.converged, EWF.kernel")])
p("C15", "Temporary changes are undone when an error is raised",
  "State that is changed temporarily (attributes replaced for the duration of a block, log indentation, locked or allocated windows, temporary files) is restored or released on every way out of the block, including exceptions.",
  ["fault_sequences"], "every exception at every statement between a temporary change and its restoration",
  "Tests do not inject failures inside such blocks.",
  ["vayesta/core/util.py", "vayesta/core/vlog.py", "vayesta/core/fragmentation/fragmentation.py", Q+"qemb.py", EWF+"ewf.py", "vayesta/mpi/rma.py", "vayesta/dmet/dmet.py"],
  [("context managers", "replace_attr, log.indent, sym_register, RMA lock")])
p("C16", "Calls into the compiled library match its functions",
  "Every call from Python into the compiled kernels passes as many arguments as the kernel takes, each of the kind (integer, floating point, boolean, pointer) and element type the kernel declares, in contiguous arrays whose element type is fixed before the call.",
  ["inputs"], "every call of a compiled kernel on every input",
  "A wrong integer width or element type corrupts memory only for some sizes; some kernels are never called by tests.",
  ["vayesta/libs/", "vayesta/core/ao2mo/kao2gmo.py", EWF+"ccsd_t.py", "vayesta/core/foldscf.py"],
  [("ctypes calls", "libcore.*, libewf.*")])
p("C17", "Compiled kernels give the same result for any number of threads",
  "The compiled kernels have no data race: inside a parallel region, memory visible to several threads is written only at locations owned by one thread, in a critical or atomic section, or through a reduction, and work arrays and scalars used by an iteration are private to its thread.",
  ["schedules"], "every number of threads and every interleaving",
  "A race shows only for some schedules; tests run one schedule.",
  ["vayesta/libs/core/src/j3c_jk.c", "vayesta/libs/core/src/j3c_kao2gmo.c", "vayesta/libs/ewf/src/ccsd_t_emb.c", "vayesta/libs/df/src/df_jk.c"],
  [("OpenMP clauses", "#pragma omp in vayesta/libs/*/src/*.c")])
p("C18", "Spin-unrestricted classes accept what their restricted bases accept",
  "A method of a spin-unrestricted or otherwise derived class can be called in every way its base-class method can: it accepts the same positional and keyword arguments with the same defaults, so that code written for the base class works for the derived class.",
  ["programs"], "every call that is valid for the base class",
  "Tests call derived classes with a few argument combinations.",
  [Q+"uqemb.py", Q+"ufragment.py", EWF+"uewf.py", EWF+"ufragment.py", "vayesta/core/types/wf/", "vayesta/solver/", "vayesta/core/bath/"],
  [("overriding methods", "U* classes")])
p("C19", "Every code path refers only to functions, variables and arguments that exist",
  "No public call fails because the code refers to an undefined variable, a missing attribute or module member, or calls one of its own functions with arguments that function does not accept.",
  ["inputs", "configurations"], "every path through every function of the package",
  "Python resolves names at run time: a wrong name on a path no test takes is invisible to tests.",
  ["vayesta/"], [("name resolution", "all modules")])
NA = [
("C20", "With a complete bath the embedding reproduces the full-system result",
 "When the bath space of every fragment is complete, energies and density matrices equal those of the solver applied to the whole system, up to convergence thresholds.",
 ["inputs"], "every molecule or crystal, basis set, fragmentation and solver", "Tests sample a few systems.",
 [EWF+"ewf.py", Q+"qemb.py", "vayesta/core/bath/"], [("projection and partitioning", "EWF energy and density-matrix functions")]),
("C21", "Global density matrices conserve the electron number",
 "The trace of the one-particle density matrix equals the number of electrons, and partial traces of the two-particle density matrix are consistent with it, whenever the fragments cover the system.",
 ["inputs"], "every system and fragmentation", "Tests sample a few systems.",
 [EWF+"rdm.py", EWF+"urdm.py", Q+"rdm.py"], [("symmetrisation and partitioning", "make_rdm1, make_rdm2")]),
("C22", "Cluster orbitals are orthonormal and span fragment and environment",
 "Cluster and frozen orbitals of every fragment together form an orthonormal basis with the correct number of electrons.",
 ["inputs"], "every system, fragmentation and bath type", "Tests sample a few systems; a run-time check covers the executed case.",
 ["vayesta/core/bath/", Q+"fragment.py"], [("orthonormality check", "_check_orthonormal")]),
("C23", "Unrestricted and restricted calculations agree for closed-shell systems",
 "For a closed-shell reference the unrestricted classes return the same energies and density matrices as the restricted ones.",
 ["inputs"], "every closed-shell system", "Tests sample a few systems.",
 [EWF+"uewf.py", Q+"uqemb.py"], [("U* classes", "vayesta")]),
("C24", "Numerical-integration moments are within their error estimate",
 "RPA moments and correlation energies obtained by numerical integration deviate from the exact values by less than the reported error estimate.",
 ["inputs"], "every system and number of quadrature points", "Tests sample a few systems.",
 ["vayesta/rpa/rirpa/"], [("error estimate", "NI_eval")]),
("C25", "Folded k-point calculations equal the explicit supercell",
 "Orbitals, integrals and energies of a k-point sampled mean-field folded to its supercell equal those of an explicit supercell calculation.",
 ["inputs"], "every crystal and k-point mesh", "Tests sample a few crystals.",
 ["vayesta/core/foldscf.py", "vayesta/core/ao2mo/kao2gmo.py"], [("folding", "fold_scf")]),
("C26", "Self-consistent schemes stop at a fixed point",
 "A self-consistent scheme that reports convergence has reached orbitals and potentials that the next iteration leaves unchanged within the threshold.",
 ["inputs", "histories"], "every system", "Tests sample a few systems.",
 ["vayesta/core/scmf/", "vayesta/dmet/dmet.py", "vayesta/edmet/edmet.py"], [("convergence test", "SCMF.kernel, DMET.kernel")]),
("C27", "Energies are invariant to rotations within fragment and bath spaces",
 "Energies do not depend on the choice of basis within the fragment, bath, occupied and virtual spaces of a cluster.",
 ["inputs"], "every unitary rotation", "Tests use one basis.",
 [EWF+"fragment.py", "vayesta/solver/"], [("projectors", "get_fragment_projector")]),
]
for x in NA: p(*x)
if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P))
