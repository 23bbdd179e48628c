"""C01-C06: the fragment-sum analysis over the public entry points of the embedding classes."""
import collections
from pkg import Package, AnalysisError
from embdriver import Entry, Relevance, analyse_entry
from harness import Result

R = "ewf.ewf.EWF"
U = "ewf.uewf.UEWF"

ENERGY = ["get_wf_corr_energy", "get_ccsd_t_corr_energy", "get_dm_corr_energy", "get_dm_corr_energy_e1", "get_dm_corr_energy_e2",
          "get_ccsd_corr_energy", "get_fbc_energy", "get_wf_energy", "get_dm_energy", "get_ccsd_energy", "get_dmet_elec_energy",
          "get_dmet_energy", "get_e_corr", "_get_dm_corr_energy_old", "_get_dm_energy_old", "get_intercluster_mp2_energy",
          "e_mf", "e_nuc", "e_tot", "e_nonlocal", "kernel"]
OTHER = ["_all_converged", "t1_diagnostic", "communicate_clusters"]
FUNCS_R = ["ewf.amplitudes.get_global_t1_rhf", "ewf.amplitudes.get_global_t2_rhf", "core.qemb.rdm.make_rdm1_demo_rhf",
           "core.qemb.rdm.make_rdm2_demo_rhf", "ewf.rdm.make_rdm1_ccsd", "ewf.rdm.make_rdm1_ccsd_global_wf",
           "ewf.rdm.make_rdm1_ccsd_proj_lambda", "ewf.rdm.make_rdm2_ccsd_global_wf", "ewf.rdm.make_rdm2_ccsd_proj_lambda",
           "core.qemb.corrfunc.get_corrfunc", "core.qemb.corrfunc.get_corrfunc_mf", "core.qemb.self_energy.make_self_energy_moments",
           "core.qemb.self_energy.make_self_energy_1proj", "core.qemb.self_energy.make_self_energy_2proj"]
FUNCS_U = ["ewf.amplitudes.get_global_t1_uhf", "ewf.amplitudes.get_global_t2_uhf", "core.qemb.rdm.make_rdm1_demo_uhf",
           "core.qemb.rdm.make_rdm2_demo_uhf", "ewf.urdm.make_rdm1_ccsd", "ewf.urdm.make_rdm1_ccsd_global_wf",
           "ewf.urdm.make_rdm2_ccsd_global_wf", "ewf.urdm.make_rdm2_ccsd_proj_lambda", "core.qemb.corrfunc.get_corrfunc_unrestricted"]


def entries():
    out = []
    for c in (R, U):
        out += [Entry(c + "." + m, c, cell=1) for m in ENERGY]
        out += [Entry(c + "." + m, c) for m in OTHER]
        out.append(Entry(c + ".get_exxdiv", c, cell=1, ret="any", first=True))
    out += [Entry(m, R, parallel="self_energy" not in m) for m in FUNCS_R]
    out += [Entry(m, U) for m in FUNCS_U]
    out.append(Entry("dmet.dmet.DMET.kernel", "dmet.dmet.DMET", contrib=False, ret="any", parallel=False))
    out.append(Entry("edmet.edmet.EDMET.kernel", "edmet.edmet.EDMET", contrib=False, ret="any", parallel=False))
    return out


RULES = {
    "C01": "Abstract interpretation of every entry point on rank 0 and on rank > 0 with the values {rank-local partial sum, replicated, rank-dependent}: a partial sum must pass through exactly one sum-reduction before it is returned, stored or combined non-linearly; a replicated value must not be sum-reduced or added to a partial sum.",
    "C02": "Every collective (reduction, broadcast, barrier, RMA window creation/free, or a call containing one) must be reached under rank-independent control: not inside a loop over the own rank's fragments, a branch on the rank, or after a rank-dependent early exit.",
    "C03": "With a target rank given: on the other ranks the entry point returns None and never computes with the None a reduction returned; the target rank gets the value.",
    "C04": "Every contribution accumulated in a fragment loop is counted with its symmetry multiplicity exactly once: all fragments unweighted, or symmetry-unique fragments weighted by symmetry_factor or repeated over loop_symmetry_children(include_self).",
    "C05": "Every fragment sum that reaches a returned quantity runs over fragments filtered by contributes (active and not auxiliary).",
    "C06": "Energies carry the power of 1/ncells: every returned energy has exactly one, and only equal powers are added.",
}
ASSUME = ["Python semantics of the interpreted subset; calls into numpy/pyscf/solvers are pure functions of their arguments",
          "fragments are distributed so that every symmetry-unique fragment belongs to exactly one rank (Fragment.mpi_rank) and its children share that rank",
          "primitives whose contract is listed as undecided have their documented meaning"]


def analyse(prop, tier):
    pkg = Package()
    rel = Relevance(pkg)
    res = Result()
    stats = collections.defaultdict(set)
    stats["steps"] = 0
    runs = 0
    samples = []
    undecided = []
    for e in entries():
        try:
            n = analyse_entry(pkg, rel, e, stats, res.findings)
        except AnalysisError as err:
            undecided.append("%s: %s" % (e.path, err))
            continue
        except Exception as err:
            undecided.append("%s: the interpreter does not handle a construct here (%r)" % (e.path, err))
            continue
        runs += n
        if len(samples) < 6:
            samples.append("%s on %s: %d abstract executions" % (e.path, e.cls, n))
    import primitives
    pf, pseen, pund = primitives.check(pkg)
    res.findings += pf
    cov = {k: len(v) for k, v in stats.items() if k != "steps"}
    if len(undecided) > 6:
        raise AnalysisError("%d entry points could not be analysed: %s" % (len(undecided), "; ".join(undecided)))
    cov.update(undecided_entry_points=undecided, primitive_contracts=pseen, undecided_primitives=pund, entry_points=len(entries()) - len(undecided), abstract_executions=runs, abstract_steps=stats["steps"], samples=samples, rule=RULES[prop])
    res.coverage = cov
    res.explanation = "Flow- and path-sensitive abstract interpretation of the source (no execution). " + RULES[prop]
    res.assumptions = ASSUME
    res.floors = {"entry_points": 60}
    return res
