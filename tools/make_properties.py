"""writes /verif/properties.jsonl (kept as a script only to keep the long text editable)"""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=["agnpy/" + f for f in files],
                          mechanism=[dict(name=n, where="agnpy/" + w) for n, w in mech],
                          hook_needed=None))
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where="agnpy/" + c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)


SP, BL, TG = "spectra/spectra.py", "emission_regions/blob.py", "targets/targets.py"
SY, PS = "synchrotron/synchrotron.py", "synchrotron/proton_synchrotron.py"
SSC, EC = "compton/synchrotron_self_compton.py", "compton/external_compton.py"
AB, EB = "absorption/targets_absorption.py", "absorption/ebl_absorption.py"
TE, TU = "time_evolution/time_evolution.py", "time_evolution/_time_evolution_utils.py"

prop("C01", "Particle distributions take their analytic value at every Lorentz factor",
     "Evaluating a power law, broken power law, log parabola, or exponentially cut-off (broken) power law returns its documented formula at every Lorentz factor within the closed interval of its bounds (the lower index applying up to and including the break) and exactly zero, in density units, outside it. "
     "Boundary values that differ from a bound only by rounding count as inside; the value at one Lorentz factor depends neither on the other elements of the input, nor on its shape (scalar, any number of dimensions), order or integer/float type, and the input array is not modified. "
     "Direct parametric evaluation and calling the object agree, for electrons and protons alike, and reflect the current values of the parameters.",
     ["inputs", "configurations"], "every distribution family, parameter values (indices around 1, breaks on/off the interval, narrow and wide bounds), Lorentz factor arrays of any shape, order and type, at, just in/out of the bounds and of the break",
     "tests compare each family at one or two parameter sets with increasing float 1-D arrays well inside the bounds; shapes, rounding at the bounds, exact break, input mutation and mutated parameters are never varied together",
     [SP], [("evaluate of each distribution", SP), ("boundary rounding correction", SP)], ["value of the called distribution", "static evaluate", "input array afterwards"])

prop("C02", "Normalised distributions integrate back to the requested total",
     "A distribution built from a total number density, a total energy density, a total energy in a volume, or its value at unit Lorentz factor yields that very quantity (with the rest energy of its own particle, and in whatever compatible units it was given) when integrated between its bounds or evaluated at one. "
     "Integrating a distribution over any sub-interval and with any power of the Lorentz factor uses that distribution's parameters, its own bounds for limits left out and its chosen integration rule, and agrees with the analytic integral to the accuracy of the documented 200-point logarithmic grid.",
     ["inputs", "configurations"], "every family x particle mass x normalisation kind x units x integrator x limits x power",
     "tests use a few fixed parameter sets, mostly electrons and cgs units, and compare with loose tolerances",
     [SP], [("from_total_density, from_total_energy_density, from_total_energy, from_density_at_gamma_1", SP), ("integrate / integral", SP)])

prop("C03", "Self-absorption integrand is the exact derivative of the distribution",
     "For every particle distribution the synchrotron self-absorption integrand equals the square of the Lorentz factor times the derivative of the density over the square of the Lorentz factor, everywhere inside the bounds (with the one-sided derivative of the lower branch at a break), and zero outside them. "
     "It depends only on the current parameters and the Lorentz factor, not on the shape or order of the input, and is consistent between parametric evaluation and the object.",
     ["inputs", "configurations"], "every family x parameters x Lorentz factors (bounds, break, outside)",
     "tests check one parameter set per family with a numerical derivative and loose tolerance",
     [SP], [("evaluate_SSA_integrand of each distribution", SP)])

prop("C04", "Interpolated and empty distributions honour their samples and bounds",
     "A distribution built by interpolation reproduces its samples (times its current norm) at the sample points, interpolates in log-log space between them with the chosen interpolator, ignores null samples when setting its bounds, is zero outside its bounds, and rejects densities in other units. "
     "The empty distribution is zero, in density units, for every input, in every operation a distribution supports. Both can be used anywhere a parametric distribution can: emission region, synchrotron with or without self-absorption, Compton processes, integration.",
     ["inputs", "configurations"], "sample grids with null head/tail samples, power-law / curved samples, interpolators, norm changes, input shapes; the uses of a distribution",
     "tests interpolate one sampled power law and one file; null samples, other interpolators and use of the empty distribution in each process are not enumerated",
     [SP], [("InterpolatedDistribution", SP), ("EmptyDistribution", SP)])

prop("C05", "Emission-region quantities always follow the current base attributes",
     "After any sequence of changes of the base attributes of an emission region (radius, redshift, Doppler factor, bulk Lorentz factor, magnetic field, electron and proton distributions and their parameters, grid sizes, viewing angle), every derived quantity (volume, variability time, luminosity distance, velocity, viewing angle, integration grids, particle totals, energy densities and energies, magnetic energy density, equipartition, jet powers, synchrotron photon energy density) equals its documented formula evaluated on the current attributes, including the contribution of protons when present. "
     "Nothing depends on the history of changes nor on which quantities were read in between; invalid Doppler factors are rejected and asking for protons when there are none raises an error.",
     ["histories", "inputs", "configurations"], "all operation sequences up to a depth over setters, starting from several regions; all attribute combinations within a deviation bound",
     "tests read quantities of freshly built blobs, never after setter sequences, nearly always without protons",
     [BL], [("derived properties", BL), ("set_delta_D, z, n_e, n_p setters", BL)],
     state=[("R_b, z, d_L, delta_D, Gamma, B, n_e, n_p, grid sizes", "base attributes", BL)])

prop("C06", "Queries have no side effects and separate objects share no state",
     "Computing any value (spectra, SEDs, loss rates, opacities, fluxes, energy densities, constraints, printing) leaves every input array and every object involved unchanged, so repeating any query after any other queries returns the identical value. "
     "Objects created separately, including with default arguments, never affect each other: changing one leaves every value computed from the others unchanged.",
     ["histories", "configurations"], "all sequences of queries and mutations of a first object up to a depth, with a second object as witness; every default argument",
     "tests never query twice, never look at the arrays they passed in, and never build two objects with defaults and mutate one",
     [BL, SP, SY, SSC, EC, AB, TG], [("static evaluators operating on arguments", SY), ("default arguments", BL)])

prop("C07", "Processes, constraints and opacities are live views of their sources",
     "A radiative process, constraint or absorption object built on an emission region and/or target always computes with the current attributes of these: after any sequence of changes to the region, its particle distribution or the target (or their replacement by others), its results equal those of an identical object freshly built afterwards; what a target derives at construction from its parameters stays as constructed. "
     "This includes settings of the process itself (integrator, self-absorption switch, angular grids, distance) changed after construction.",
     ["histories", "configurations"], "every process/constraint/absorption kind x every attribute change of its sources, sequences up to a depth",
     "tests build everything anew for each case; stale copies taken at construction are invisible to them",
     [SY, PS, SSC, EC, AB, "constraints/spectral_constraints.py"], [("sed_flux reads blob attributes at call time", SY), ("same", SSC), ("same", EC), ("same", AB)])

prop("C08", "Synchrotron SEDs equal the documented emissivity integral",
     "The synchrotron SED of electrons and of protons equals the documented integral of the single-particle emissivity over the particle distribution (own mass and Compton wavelength of the particle), with Doppler boosting, luminosity distance and redshift conversion, and, when self-absorption is requested, multiplied by the slab/sphere attenuation of the documented opacity, equal to one where the opacity is negligible. "
     "The delta-function approximation equals its documented closed form. This holds for every distribution, integration rule, magnetic field, redshift, Doppler factor and size, in the observer frame at any frequency.",
     ["inputs", "configurations"], "distributions x integrators x blob parameters x self-absorption x frequencies across optically thick/thin, below/above the cut-off",
     "tests compare with a couple of literature curves within 10-30 percent, or two code paths with each other at one parameter set",
     [SY, PS, BL, "utils/conversion.py"], [("Synchrotron.evaluate_sed_flux, evaluate_tau_ssa, delta approximation", SY), ("ProtonSynchrotron.evaluate_sed_flux", PS)])

prop("C09", "Synchrotron self-Compton SED equals the documented Compton integral",
     "The synchrotron self-Compton SED equals the documented double integral of the isotropic full Klein-Nishina kernel over the particle distribution and the comoving synchrotron photon density (itself computed with the same region and, if requested, self-absorption), including zero emission outside the kinematic limits. "
     "It holds for any distribution, integrator, integration grids and region parameters.",
     ["inputs", "configurations"], "distributions x integrators x ssa x blob parameters x grids x frequencies over Thomson, Klein-Nishina and forbidden regimes",
     "tests compare with one or two reference curves at 10-30 percent, in a limited frequency range",
     [SSC, "compton/kernels.py", BL], [("SynchrotronSelfCompton.evaluate_sed_flux", SSC), ("isotropic_kernel", "compton/kernels.py")])

prop("C10", "External Compton SED equals the documented integral for every target",
     "The external Compton SED on the CMB, a monochromatic point source behind the jet, a Shakura-Sunyaev disk, a spherical shell broad line region and a ring dust torus equals the documented integral of the head-on Compton kernel over the particle distribution and the photon field of that target as seen at the distance of the emission region and in the frame external to it, for every viewing angle, redshift and Doppler factor. "
     "For a single source direction it scales linearly with the luminosity and reprocessed fraction of the target, and an unsupported target is refused.",
     ["inputs", "configurations"], "targets x target parameters x distances x blob parameters x distributions x integrators x angular grids x frequencies",
     "tests compare a single configuration per target with digitised literature curves at tens of percent, or cross-compare two targets in a limit",
     [EC, TG, "compton/kernels.py", "utils/geometry.py"], [("evaluate_sed_flux_* of each target", EC), ("compton_kernel", "compton/kernels.py")])

prop("C11", "SEDs and opacities are pointwise in frequency and keep the input's shape",
     "For every radiative process, thermal emission and absorption, the value at one frequency does not depend on which other frequencies are asked at the same time, their order, repetition or number, and the output has the shape of the input, be it a scalar, a list of points or a multi-dimensional array. "
     "Frequencies may be given in any unit convertible to Hz.",
     ["inputs"], "all processes x orderings, sub-selections, duplications, shapes and units of a frequency alphabet",
     "tests always pass one increasing 1-D array in Hz",
     [SY, PS, SSC, EC, AB, EB, TG], [("axes reshaping and final reshape", "utils/math.py"), ("evaluate_sed_flux", SY)])

prop("C12", "Results do not depend on the units in which inputs are expressed",
     "Expressing any input (radii, distances, masses, magnetic fields, densities, normalisations, times, frequencies, luminosities, temperatures) in another compatible unit yields the same physical result, in the documented output unit, for every calculation. "
     "Magnetic fields may be in any unit of the Gauss or Tesla family.",
     ["inputs", "configurations"], "each input quantity of each process/target/evolution replaced by an equal quantity in another unit, all combinations within a deviation bound",
     "tests nearly always use cgs units",
     [BL, TG, EC, AB, SY, "utils/conversion.py", TE], [("B_to_cgs", "utils/conversion.py"), ("unit conversions at construction", TG)])

prop("C13", "Luminosities, peaks and flux integrals derive from the same SED",
     "For every radiative process the SED luminosity is the SED flux times four pi times the squared luminosity distance, the peak flux and peak frequency, where provided, are the maximum of the computed SED and its first position, the differential energy flux is the SED over the squared photon energy, and integral flux and integral energy flux are the integrals of the differential flux and of flux density over the requested interval, on the requested number of logarithmic points. "
     "Interval limits may be given as frequencies, energies or wavelengths.",
     ["inputs", "configurations"], "all processes and thermal targets x intervals x units x number of points",
     "tests check one power-law synchrotron case",
     ["radiative_process/core.py", SY, SSC, EC], [("RadiativeProcess", "radiative_process/core.py"), ("sed_luminosity, sed_peak_flux, sed_peak_nu", SY)])

prop("C14", "Particle energy loss rates equal their documented formulas",
     "The energy loss rate of electrons by synchrotron, and by synchrotron self-Compton with and without Klein-Nishina suppression, is positive and equals the documented formula on the current region (magnetic field, synchrotron photon density integrated over the documented grid with the suppression applied only where relevant), for every Lorentz factor and shape. "
     "The suppressed rate never exceeds the Thomson rate, and tends to it for small Lorentz factors, within the accuracy of the integration grids.",
     ["inputs", "configurations"], "Lorentz factors across Thomson to deep Klein-Nishina x region parameters x distributions",
     "tests check a handful of values at one region",
     [SY, SSC], [("electron_energy_loss_rate", SY), ("electron_energy_loss_rate, electron_energy_loss_rate_thomson", SSC)])

prop("C15", "Spectral constraints are where the compared time scales balance",
     "Each maximum or break Lorentz factor given by the spectral constraints is the one at which the acceleration (or escape/ballistic) time scale equals the loss time scale or size limit it is named after, evaluated with the current region and, for external Compton, with the energy density of the target at the requested distance in the comoving frame. "
     "It scales accordingly with magnetic field, acceleration coefficient, radius and target parameters.",
     ["inputs", "configurations"], "all constraints x region parameters x targets x distances",
     "tests check each constraint with a single region at percent tolerance",
     ["constraints/spectral_constraints.py", TG], [("SpectralConstraints", "constraints/spectral_constraints.py")])

prop("C16", "Target photon energy densities equal their documented expressions",
     "The energy density of every target (CMB, point source, disk, broad line region, dust torus) at any distance along the jet, including inside the reprocessing radius (not on the shell itself, where it diverges), equals the documented expression in the lab frame and, when an emission region is given, the one boosted to its comoving frame with the actual angles of the incoming photons. "
     "It is elementwise in the distance (any shape and unit) and linear in luminosity and reprocessed fraction.",
     ["inputs", "configurations"], "targets x parameters x distances inside/outside/at the radius x with/without region",
     "tests compare a few distances, outside the radius, in limiting cases",
     [TG, "utils/geometry.py"], [("u() of each target", TG)])

prop("C17", "Targets' derived physics and thermal SEDs follow their parameters",
     "Quantities derived from the parameters of a target (Eddington luminosity fraction, accretion rate, gravitational radius, disk radii in both units, disk temperature and emissivity profiles, dimensionless line energy and temperature, default torus radius, named lines of the broad line region) equal their documented formulas. "
     "The thermal (black-body) SEDs of disk and torus equal the documented Planck-law integrals, or are normalised to the target's luminosity when the normalised version is requested; invalid radii are refused.",
     ["inputs", "configurations"], "target parameters x radii units x radii at the inner/outer edge x frequencies x redshift",
     "tests check one set of parameters each",
     [TG], [("SSDisk", TG), ("RingDustTorus", TG), ("SphericalShellBLR", TG), ("lines_dictionary", TG)])

prop("C18", "On-axis gamma-gamma opacity of targets equals the documented integral",
     "For a source observed along the jet axis, the optical depth on a point source, disk, broad line region shell and dust torus ring equals the documented path integral of the pair-production cross section over the photon field of that target from the given distance outwards, is zero (or negligible) below the pair-production threshold, non-negative, and scales linearly with luminosity and reprocessed fraction. "
     "It holds for every redshift, distance, target parameter and integration grid; unsupported targets are refused.",
     ["inputs", "configurations"], "targets x parameters x distances x redshift x grids x frequencies around the threshold",
     "tests compare one configuration per target with digitised curves at tens of percent",
     [AB, TG, "utils/geometry.py"], [("evaluate_tau_* of each target", AB), ("sigma", AB)])

prop("C19", "Off-axis gamma-gamma opacity follows the true photon geometry",
     "For a source observed at an angle from the jet axis, the optical depth on the point source, the dust torus ring and the broad line region shell equals the documented path integral with the actual distances and angles between the gamma ray and target photons along the tilted path, and tends to the on-axis value as the angle tends to zero. "
     "The path step and range follow the documented grid, and the region close to the shell is excluded as documented.",
     ["inputs", "configurations"], "targets x viewing angles x distances x grids x frequencies",
     "tests check convergence to on-axis for one or two configurations, loosely",
     [AB, "utils/geometry.py"], [("evaluate_tau_*_mu_s", AB), ("phi_mu_re_ring, phi_mu_re_shell", "utils/geometry.py")])

prop("C20", "Opacity on the region's own synchrotron photons equals its integral",
     "The gamma-gamma optical depth on the synchrotron photons of the emission region equals the documented integral of the angle-averaged cross section over the comoving synchrotron photon density times the documented path length, is non-negative and follows the region's current parameters with self-absorbed synchrotron photons. ",
     ["inputs", "configurations"], "region parameters x distributions x ssa x frequencies across the threshold",
     "tests compare one configuration",
     [AB, BL], [("evaluate_tau_blob", AB), ("angle-averaged cross section", AB)])

prop("C21", "Attenuation factors are probabilities with the right limits",
     "The attenuation returned for an absorber is the exponential of minus the optical depth, and, for absorption within the emitting region, one minus that exponential over the optical depth; both lie between zero and one, tend to one for vanishing (including exactly null) and to zero for huge optical depths, decrease monotonically, and are finite and accurate to rounding for every optical depth in between. ",
     ["inputs"], "optical depths from 0 and denormal scale to overflow scale, through real targets and real optical depth arrays; EBL included",
     "tests look at ordinary optical depths of a few configurations; the limits are not reached",
     [AB, EB], [("Absorption.absorption, absorption_homogeneous", AB)])

prop("C22", "EBL absorption reproduces its tables and is a probability",
     "The EBL absorption of every bundled model reproduces its tabulated values at the table's redshifts and energies, is between zero and one, lies between the neighbouring tabulated values elsewhere in the table, and outside the table no value is made up (it is not a number). "
     "It is elementwise in frequency for any shape and unit and unknown models are refused.",
     ["inputs", "configurations"], "all models x all table nodes (energies x redshifts), mid-points, values outside the table",
     "tests compare one or two models at few redshifts with a reference file",
     [EB], [("EBL", EB)])

prop("C23", "Geometry functions agree with three-dimensional vectors",
     "Distances, cosines and azimuths between the gamma ray (or emission region) and elements of a spherical shell or a ring, and the cosine between two directions, equal the ones obtained from explicit three-dimensional position vectors, for every position along the path, every angle and either side of the shell, element by element with broadcasting. "
     "Cosines stay within [-1, 1] (to rounding) and distances are non-negative, down to the contact with the target.",
     ["inputs"], "grids of angles (including poles), radii, distances, path lengths, viewing angles, in any length units",
     "tests check a few special positions",
     ["utils/geometry.py"], [("cos_psi, x_re_shell, mu_star_shell, x_re_ring, *_mu_s, phi_mu_re_*", "utils/geometry.py")])

prop("C24", "Numeric kernels, cross sections and conversions are exact",
     "The log-log integration rule is exact for piecewise power laws of any index (including -1 and segments touching zero) along any axis, units and broadcasting included; power-law integrals, Compton kernels, the single-electron synchrotron functions, the pair-production cross section and the frequency/energy/magnetic field conversions equal their documented formulas over their whole domain and vanish outside it. ",
     ["inputs"], "piecewise power laws x axes x dimensions; kernel arguments over and beyond the kinematic range; conversions x mass x redshift x Doppler factor",
     "tests integrate a couple of power laws and evaluate kernels only inside SED comparisons",
     ["utils/math.py", "compton/kernels.py", "utils/conversion.py", SY, AB], [("trapz_loglog, power_law_integral, axes_reshaper", "utils/math.py"), ("isotropic_kernel, compton_kernel", "compton/kernels.py"), ("R, calc_x", SY), ("sigma", AB)])

prop("C25", "Fixed-step time evolution follows the documented numerical scheme",
     "With fixed steps, each bin of the evolved electron distribution moves by the sum of the energy change rates at its Lorentz factor times the step (Euler), or by the average of the rates before and after a trial step (Heun), its density scaling with the inverse of the widening of a narrow bin around it plus the relative and absolute injection times the step, with energy change functions given alone, as list or as named dictionary all equivalent. "
     "The result agrees with an independent implementation of this scheme after any number of steps, and with the analytic solution as the step tends to zero.",
     ["histories", "configurations", "inputs"], "all combinations within a deviation bound of energy change / relative / absolute injection functions (built-in loss and acceleration functions included), methods, steps, initial distributions and grids",
     "tests follow a few scenarios and compare with analytic solutions at percent level",
     [TE, TU], [("TimeEvolution.evaluate", TE), ("recalc_gamma_bins_and_density", TU), ("synchrotron_loss, ssc_loss, fermi_acceleration", TE)],
     state=[("bins, densities, rates, elapsed time", "state advanced at each step", TE)])

prop("C26", "Time accounting and automatic steps respect the total time and limits",
     "The evolution ends exactly at the requested total time, whatever its unit and the step (the last step being shortened), reports strictly increasing elapsed times whose differences are the steps actually taken, and advances each bin for precisely that time even when rates of slow bins are recalculated less often. "
     "With automatic steps, no step exceeds what the configured limits on relative energy change, density change, and absolute injection allow for the rates in use, nor lets more than half of the particles of a bin escape by relative escape.",
     ["histories", "configurations"], "total times x step durations (dividing or not) x limits x rates x recalculation of slow rates on/off",
     "tests check the final result of few auto-step scenarios with tolerances of percent; per-step limits are never observed",
     [TE], [("step selection", TE), ("maximum time per bin", TE), ("slow rate recalculation", TE)])

prop("C27", "Bins stay ordered, within bounds, and merge without losing the spectrum",
     "After every step the Lorentz factors of the bins are strictly increasing and positive and, if bounds were given, within them; bins moving beyond the bounds are removed, a new bin is added at a bound when the outermost bin has crept away from it by at least the configured distance while moving away from it, and bins other than the outermost closer than the merging distance are merged into one at their geometric mean with the density of the distribution there. "
     "Densities, subgroup splits and rates remain associated to their own bin through merging, removal and addition.",
     ["histories", "configurations"], "gain and loss processes x bounds x creep distance x merge distance (or none) x grids with close bins x methods x step modes, all steps observed",
     "tests check a few scenarios' final state",
     [TE, TU], [("sort and merge, remove, add bins and mappings", TE), ("sort_and_merge_duplicates, remap, combine_mapping", TU)])

prop("C28", "Subgroups of processes act on their own share of the density",
     "When processes are split in subgroups, each subgroup evolves its own share of the density with the sum of its own functions only (a function may belong to several subgroups), the shares summing to one in every bin at every step, and the total density being the sum of the densities of the subgroups interpolated at the bins of the first. "
     "A single subgroup with all functions is equivalent to no subgroups, subgroups with identical functions are equivalent to one, and the initial share defaults to everything in the first subgroup.",
     ["histories", "configurations"], "partitions of the functions into up to three subgroups x initial shares x methods x step modes",
     "tests cover a couple of two-subgroup scenarios",
     [TE, TU], [("subgroup grouping of rates", TU), ("per-subgroup step and interpolation", TE)])

prop("C29", "Callback, result, blob and rate functions all see the same state",
     "The state handed to the user callback after each step, the returned result and the distribution installed in the emission region are mutually consistent: same Lorentz factors and densities (the region's distribution takes those values), energy change and injection rates listed under their own names and kinds and equal to what each function gives for that state, and last callback equal to the returned result. "
     "Every rate function is called with Lorentz factors, densities and subgroup shares that correspond element by element.",
     ["histories", "configurations"], "every step of every explored evolution (methods, subgroups, bounds, step modes)",
     "tests use the callback for plots or one assertion; rate dictionaries are not compared with functions",
     [TE, TU], [("callback and result construction", TE), ("recalc_new_rates", TU), ("update_distribution", TU)])

prop("C30", "Time evolution accepts all documented configurations and rejects others",
     "Every documented way of configuring the evolution (functions alone, list, tuple, dictionary; default or custom Lorentz factors; bounds; step in any time unit or automatic; either method; subgroups with or without initial shares) is accepted and runs, whereas contradictory configurations (unknown method or step string, unsorted or out-of-bounds Lorentz factors, unknown or repeated function names, shares that do not sum to one or of the wrong size, slow-rate optimisation with fixed step or Heun method) raise an error at construction and leave the emission region untouched. "
     "Evolutions reaching impossible states (negative density, escape from empty bins, non-positive energies, collapse in a single bin) raise an error rather than returning.",
     ["inputs", "configurations"], "all combinations within a deviation bound of the constructor's options, valid and invalid",
     "tests check a few invalid options one at a time",
     [TE, TU], [("TimeEvolution.__init__ validation", TE), ("negative density / energy checks", TU)])

prop("C31", "Evolutions compose and conserve particles",
     "Running an evolution in several consecutive runs, each starting from the region and Lorentz factors left by the previous one, gives the same result as a single run over the total time with the same steps; with pure energy changes the total number of particles between given bins is conserved to the accuracy of the step, and it changes according to injection and escape otherwise. "
     "An evolution with null rates leaves the distribution unchanged at all its Lorentz factors, and linear processes scale with the initial density.",
     ["histories"], "all splits of a run into consecutive runs; step refinement; processes x methods",
     "tests have one two-part scenario",
     [TE, TU], [("evaluate from initial gamma array", TE)])

prop("C32", "The gammapy model wrappers return the SED of the underlying processes",
     "For any parameter values within their limits, the gammapy spectral models return, at energies given in any unit and array shape (scalars included), the differential flux corresponding to the sum of the SEDs that the library's static evaluations give for the same parameters: synchrotron (self-absorbed if requested) and self-Compton, and for the external Compton models also external Compton on the chosen targets, the normalised thermal emission of the disk and, if the torus is a target, of the torus; all multiplied by the norm parameter. "
     "Logarithmic parameters stand for their power of ten and the size follows from the variability time, Doppler factor and redshift. The value follows the current parameters after any sequence of changes, also through sky models, sums of models, datasets, integrals and linked parameters.",
     ["inputs", "histories", "configurations"], "distributions x models x targets x ssa x values of every parameter x shapes and units of energies x uses by gammapy",
     "tests evaluate one configuration per model",
     ["fit/gammapy_wrapper.py", "fit/core.py", "fit/models.py"], [("evaluate of the spectral models", "fit/gammapy_wrapper.py")])

prop("C33", "The sherpa model wrappers return the SED of the underlying processes",
     "For any parameter values within their limits, the sherpa regridded models return, at energies in eV given as arrays, lists or numbers, the same SED: that of the library's static evaluations for the same parameters (synchrotron, self-absorbed if requested, self-Compton, and for the external Compton models also external Compton on the chosen targets, thermal emission of the disk and, if a target, of the torus), and equal that of the gammapy model of the same configuration, parameters and unit norm, after any sequence of changes and through sherpa's own ways of setting parameters. The energies passed are left unchanged. "
     "For both backends the order in which targets are listed (or repeated) is irrelevant, and unsupported targets and backends are refused with a ValueError.",
     ["inputs", "histories", "configurations"], "distributions x models x target lists in every order x ssa x values of every parameter x shapes of energies x sherpa setters",
     "tests evaluate one configuration per model",
     ["fit/sherpa_wrapper.py", "fit/core.py", "fit/models.py"], [("calc of the models", "fit/sherpa_wrapper.py")])

prop("C34", "Fit parameters mirror the region and targets they are set from",
     "Every model of both backends exposes exactly the parameters of its particle distribution, region and targets under their names and units, with logarithmic ones being the decimal logarithm of the physical value, initialised from the distribution given, grouped as spectral, emission-region and target parameters (gammapy), with those of the distribution's shape and normalisation, Doppler factor, magnetic field and variability time free by default, the others frozen. Setting them from an emission region and/or target objects stores exactly the values of these, so that the model then returns the SED of these very objects. "
     "Any sequence of settings from objects, of single parameters and of evaluations leads to the values last set, and models of the same distribution, and (deep) copies of a model, are independent.",
     ["histories", "configurations"], "distributions x wrappers x targets x sequences of settings, copies and evaluations",
     "tests set from one blob each",
     ["fit/core.py", "fit/gammapy_wrapper.py", "fit/sherpa_wrapper.py"], [("get_spectral_parameters_from_n_e, make_emission_region_parameters_dict, make_targets_parameters_dict", "fit/core.py"), ("set_emission_region_parameters_from_blob, set_targets_parameters_from_targets", "fit/gammapy_wrapper.py")])

prop("C35", "Flux points load with their values, systematics and energy selection",
     "Loading a file of flux points in the documented format into either fitting backend keeps every point with its energy, SED and errors, and selects for the fit those within the requested energy range: for sherpa the points whose energy is within the limits (included), for gammapy, per instrument, those whose whole energy bin, as gammapy derives it (midway between the points), is. Errors are the quadratic sum of the statistical error (the mean of lower and upper one for sherpa, kept apart in gammapy) and of the systematic fraction given for that instrument times the SED, null for instruments not listed; sherpa stores both separately. "
     "The result does not depend on the order or subset in which systematics are listed, on listed instruments that are not in the file, nor on the units of the energy limits; the file and the dictionary are not changed.",
     ["inputs", "configurations"], "files x ordered subsets of instruments with systematics x energy ranges x units",
     "tests load one file with one full systematics dictionary",
     ["fit/data.py"], [("load_gammapy_flux_points, load_sherpa_flux_points, add_systematic_errors_gammapy_flux_points", "fit/data.py")])

prop("C36", "Figures and comparison utilities show the values computed",
     "Plotting a particle distribution draws on the axes given, or on the current ones, exactly one new logarithmic curve: the Lorentz factors given, or the default ones, and the values of the distribution in cm-3 times the requested power of the Lorentz factor; plotting an SED draws the frequencies and values passed. Axes are labelled, returned, and the curves drawn before, the other axes, the choice of the current axes, the distribution and the arrays passed do not change; curves drawn do not follow later changes of the distribution. "
     "The validation utilities agree with these: a deviation is accepted exactly when all the relative differences within the range (limits included) are within the tolerance, sample files are read with their units, comparison figures contain the reference, the compared values and their relative difference, and the directory made for them is emptied without removing anything else.",
     ["inputs", "histories", "configurations"], "sequences of drawings on several axes, changes of the distribution and of the current axes; families x grids x powers; deviations x ranges x tolerances; states of the directories",
     "tests draw nothing, or only write figures to a directory",
     ["spectra/spectra.py", "utils/plot.py", "utils/validation_utils.py"], [("plot of the distributions", "spectra/spectra.py"), ("plot_sed", "utils/plot.py"), ("check_deviation, make_comparison_plot, clean_and_make_dir", "utils/validation_utils.py")])

prop("C37", "Computations in several threads do not disturb one another",
     "Anything that computes without being asked to change an object (distributions, SEDs, opacities, energy densities, energy losses, constraints, geometry and kernels, derived quantities of regions and targets, models of the fit wrappers, loading of flux points, construction of objects) returns the values it returns alone, whatever other computations are executed by other threads meanwhile and wherever it is preempted by them: computations on the same objects with other arguments, on objects sharing a region or a target, and on other objects altogether. "
     "The values of the objects read by another thread in the middle of a computation are those they were given. Evolutions of different regions do not disturb one another either.",
     ["schedules", "inputs"], "pairs and triples of computations, on the same, on connected and on separate objects x places where they are preempted",
     "tests run one computation at a time, from its start to its end: temporary changes of an object and work arrays shared between calls are invisible to them",
     [SY, SSC, EC, AB, EB, SP, BL, TG, "compton/kernels.py", "utils/math.py", TE], [("evaluate_* static functions, with no state", SY), ("values computed from the live attributes at each access", BL), ("wrappers passing parameters by value", "fit/gammapy_wrapper.py")],
     ["result of each computation", "attributes read by the other threads"])

prop("C38", "Interrupted or failed computations leave the objects usable and correct",
     "When a computation is stopped at any point, by the user or by an exception, the exception reaches the caller, the region, targets, processes, models and arguments are as before, and the same or another computation on them afterwards returns what it would have returned on new objects. "
     "An evolution stopped at any point, or by an exception raised by a function of rates or by the callback (which is passed on unchanged), leaves the region with one of the distributions it goes through when it is not stopped, everything else unchanged; evaluating it again, or a new one, from the initial distribution gives the complete result. "
     "A change of a region that is refused (invalid redshift, viewing angle) leaves it as it was, with all its quantities consistent with one another.",
     ["crash points", "histories", "inputs"], "computations x points at which they are stopped x what is computed afterwards; calls of functions and callback that raise; values refused",
     "tests only look at computations that complete, and at exceptions without looking at the objects afterwards",
     [SY, SSC, EC, AB, BL, TE, TU, "fit/gammapy_wrapper.py", "fit/sherpa_wrapper.py"], [("setter of the redshift, set_delta_D", BL), ("update_distribution: the only change made by an evolution", TU), ("evaluate", TE)],
     ["objects after the interruption", "results of later computations", "exception received"], [("_z, d_L", "redshift and its distance", BL)])

prop("C39", "Copies and pickles are equivalent to and independent of the original",
     "A deep copy or a pickled and restored copy of any object (distribution, emission region, target, process, opacity, EBL model, constraints, model of the fit wrappers, result of an evolution), alone or together with the objects it refers to, has the same class and settings and computes the same values as the original, whether or not it had been used before, and keeps following the copied region and targets. "
     "Later changes, even in place, of the one do not affect the other; assigning attributes of a shallow copy of a region does not change the original. An evolution of a copy leaves the original as it was and gives the same result.",
     ["histories", "configurations"], "objects x ways of copying x uses before the copy x changes afterwards of the one or of the other",
     "tests neither copy nor pickle any object",
     [SP, BL, TG, SY, SSC, EC, AB, EB, TE], [("plain attributes and interpolators held by the objects", SP), ("regions and targets referred to by the processes", EC)],
     ["values computed by copy and original", "class of the copy"])

prop("C40", "Computations leave the process as they found it and do not depend on it",
     "A computation (construction, query, spectrum, opacity, model evaluation, loading of flux points, figure, evolution), complete, repeated, refused or stopped at any point by the user or by an exception of a function given by the user, leaves as they were: the error modes, print options and random state of numpy, the random state of Python, the filters of warnings, the loggers, the working directory, the environment, the import path, the registry of units, the default cosmology, the parameters of matplotlib (figures: only the one drawn on), the open files, and the public constants and default arguments of agnpy. "
     "Its answer is the same whatever those settings are (random seeds, error modes other than raise, directory, print options, enabled units and equivalencies, warnings, logging, environment), when the objects are made and when they are asked.",
     ["crash points", "configurations", "histories"], "computations x points at which they are stopped, or settings of the process",
     "tests compare values, in one process with one configuration, and never the process afterwards",
     [SP, BL, TG, SY, SSC, EC, AB, EB, TE, TU, "fit/gammapy_wrapper.py", "fit/sherpa_wrapper.py", "utils/math.py", "utils/plot.py"], [("module-level grids and constants", "utils/math.py"), ("evaluate", TE)],
     ["settings of the process", "public constants of agnpy", "values under different settings"], [("nu_to_integrate, gamma_e_to_integrate", "module-level grids", "utils/math.py")])

prop("C41", "Answers do not depend on the amount of use nor on the length of arrays",
     "Each value of an array of any length (frequencies, Lorentz factors, distances, angles, energies) is the one computed for it alone or in a short array. An object asked any number of different questions, changed any number of times, one among any number of other objects, alive or discarded, gives the same answers as a new one that is asked once. "
     "An evolution follows the documented scheme up to any number of steps, fixed or automatic, and gives the same result however many times it is evaluated from the same distribution.",
     ["histories", "configurations", "inputs"], "lengths of arrays, numbers of questions, of objects, of changes and of steps, each on a ladder",
     "tests use one short array, few objects and few steps: what is done in blocks, kept in bounded stores, or identified by an address, shows only beyond a size",
     [SP, BL, TG, SY, SSC, EC, AB, EB, TE, TU, "fit/gammapy_wrapper.py", "fit/sherpa_wrapper.py", "utils/math.py", "utils/geometry.py"], [("evaluation on arrays", SY), ("the loop over the steps", TE), ("references to region and targets", EC)],
     ["elements of long answers", "answers of used objects", "state after each step"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
