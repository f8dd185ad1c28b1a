N = {}
def n(i, oracle, why, notes="", cost=""):
    N[i] = dict(oracle=oracle, why=why, notes=notes, cost=cost)

n("C01", "the documented formulas on plain floats, branch by branch", "tests evaluate a few arrays at nominal parameters; here every bound and break is probed at, next to, inside and outside, in every array form, after every in-place change of parameters", cost="quick 6 s, thorough 1 min")
n("C02", "the requested total, and the adaptive reference integral of the formula", "tests normalise in one unit and with one particle; here the four constructors x units x particles x parameters", cost="quick 12 s")
n("C03", "analytic derivative of each branch, and of the interpolant", "the tests compare at one set of parameters", cost="quick 6 s, thorough 80 s")
n("C04", "own interpolants in log-log space built from the samples", "patterns of null samples, norms changed later, other units", cost="quick 4 s")
n("C05", "a reference region whose derived quantities are functions of the base attributes only", "tests look at a freshly built blob; a stale quantity needs a history of assignments", cost="quick 20 s, thorough 5 min")
n("C06", "the value of the same query on newly built objects; bitwise copies of the arguments", "needs at least two queries, or two objects, and looking at the arguments afterwards", cost="quick 20 s")
n("C07", "identically configured objects built from scratch, and the reference model", "needs a history of mutations between two evaluations", cost="quick 50 s")
n("C08", "own emissivity integral on the documented grid (trapezoids or log-log)", "families x integrators x self-absorption x attributes on live objects; radio to beyond the cut-off", "thick-thin scans cross every switch of the attenuation", cost="quick 15 s")
n("C09", "own double integral with the Jones kernel", "same, over the Thomson, Klein-Nishina and forbidden regimes", cost="quick 15 s, thorough 30 s")
n("C10", "own integrals for the five photon fields, angular grids included", "same; positions around the shell and far away", "the emission at the edge of the shell is singular at r = R_line, excluded", cost="quick 40 s")
n("C11", "the value of each frequency asked alone; the reshaped flat result", "tests always pass one sorted 1-D array", cost="quick 15 s, thorough 20 s")
n("C12", "the result with base units", "tests use cgs; a missing conversion is a factor that only other units show", cost="quick 35 s, thorough 5 min")
n("C13", "the SED itself, own search of the maximum, own integral", "orders of frequencies with ties, limits in mixed units", cost="quick 35 s")
n("C14", "documented formulas, with the SSC integral on the documented grid", "shapes and histories of the region", "the Thomson limit is tested within 6 %, the documented grid being coarse", cost="quick 15 s")
n("C15", "independent balance: both time scales evaluated from their definitions at the Lorentz factor returned", "over all regions and targets in the alphabet", cost="quick 10 s")
n("C16", "own expressions, with the angles of the photons signed", "distances inside the reprocessing radius, on live targets, for moving and fast regions", "known finding, see above", cost="quick 7 s")
n("C17", "Shakura-Sunyaev relations, Planck law, line list", "parameters changed on live targets, units, all lines", "known finding, see above", cost="quick 10 s")
n("C18", "own path integrals of own cross section", "distances around and crossing the shell, grids, live targets", cost="quick 35 s")
n("C19", "path integrals with three-dimensional vectors", "viewing angles from nearly null to beyond 90 degrees, crossing of the shell", cost="quick 40 s")
n("C20", "own integral on the reference synchrotron spectrum", "live region, distribution changed in place", cost="quick 9 s")
n("C21", "the exact expression in extended precision with its series", "opacities from denormal to overflowing the exponential", cost="quick 20 s")
n("C22", "own reader of the tables", "every node of every table, every order of building and using the models", cost="quick 10 s")
n("C23", "explicit three-dimensional vectors", "every side of the target, units, broadcasting", cost="quick 30 s")
n("C24", "closed expressions (extended precision near cancellations)", "indices close to -1, null segments, values close to thresholds", cost="quick 20 s")
n("C25", "the simulator of mc/evol.py; analytic solutions under refinement of the step", "tests check a few slopes; here every bin, rate and share is compared after every step for every combination of processes", cost="quick 40 s, thorough 3 min")
n("C26", "the simulator; invariants on the real steps alone", "total times, steps and limits such that every limit is the active one; last steps from 1e-9 to nearly 1", "relative escape limited to 0.5 by design", cost="quick 50 s")
n("C27", "the simulator; invariants on the real bins", "bins converging, diverging, crossing bounds, repeated, merged", cost="quick 40 s")
n("C28", "the simulator, one density per subgroup; equivalences on the real code", "all assignments of functions to subgroups", cost="quick 55 s")
n("C29", "the simulator's log of states; values kept from the callback", "every call of every rate function is matched to the state of a bin", cost="quick 25 s, thorough 40 s")
n("C30", "the validity predicate of the documentation", "pairs of options, and full products of those that depend on one another", cost="quick 40 s, thorough 2 min")
n("C31", "the same evolution in one run; conserved numbers", "every composition of the steps, every sequence of evolutions of one region", cost="quick 40 s, thorough 5 min")
n("C32", "own composition of the reference SEDs for the parameters", "parameters changed on live models, shapes and units of the energies, use by gammapy's own classes", cost="quick 45 s")
n("C33", "own composition of the reference SEDs", "lists, arrays, orders of targets, sherpa's ways of setting parameters, agreement with the other backend", cost="quick 45 s")
n("C34", "own conversion of the attributes of the objects", "sequences of settings, copies, units", cost="quick 48 s")
n("C35", "own reader of the ECSV files", "every order and subset of the systematics, every range between cuts", cost="quick 30 s")
n("C36", "own list of the curves expected on each axes", "every sequence of drawings and changes on two figures of two axes (depth 2 quick, 3 thorough), and products for families, deviations, sample files, directories, comparison figures", cost="quick 11 s, thorough 60 s")
n("C37", "the value of the same computation alone, on new objects", "every preemption point of each computation is visited by a controlled scheduler (mc/sched.py): only one thread runs, and it hands over after a given number of lines of agnpy; tests never preempt anything", "a thread waiting on a lock held by a stopped one lets all of them run freely: still a legal schedule", cost="quick 57 s")
n("C38", "the value of the same computation on new objects; the distributions passed through by the complete evolution", "every line of every computation is a point of failure; tests do not look at objects after a failure", "two fixes of the region came from it", cost="quick 35 s")
n("C39", "the value of the same computation on new objects with the same changes", "copy, change and use in every order", cost="quick 20 s")
n("C40", "the settings before the computation; the value under the usual settings", "the settings are compared after each point at which a computation can be stopped; tests do not look at the process", "statements restoring something (`try`, `with`, `finally`) are not interrupted themselves: no program survives that", cost="quick 18 s")
n("C41", "short arrays; new objects asked once; the reference simulator for the evolutions", "ladders of lengths, questions, objects, changes and steps, in one process; addresses of discarded objects are reused by new ones", "beyond the largest rung nothing is claimed", cost="quick 45 s")
import json, os
json.dump(N, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "design_notes.json"), "w"), indent=1)
