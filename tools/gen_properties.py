#!/usr/bin/env python3
"""writes /verif/properties.jsonl (development-time)"""
import json, os
P = []
def add(id, title, statement, over, q, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})
S = "qcd-sme/src/"
TH = S + "low_level/oneloop/thermal/mod.rs"
NUM = "The unit tests compare a few dozen input points against numbers recorded from the code itself; the claim is about every input."
add("C01", "The exported C interface computes exactly what the native library computes",
    "Every function the library exports to C and Python returns, for every argument, the value of the native function it is named after (real and complex versions alike), with the arguments in the documented order. Reading or writing a setting through the exported interface is reading or writing the library's setting.",
    ["inputs"], "every exported function, every real or complex argument in its domain, every value of the settings it reads",
    "No test calls the exported functions; a swapped argument, wrong polarisation or wrong instance is invisible to the native tests.",
    [S + "low_level/oneloop/thermal/mod.rs", S + "low_level/oneloop/ghost.rs", S + "low_level/oneloop/gluon.rs", S + "ym", S + "qcd", S + "common", S + "consts.rs"],
    [("ffi modules forwarding to the native functions", "mod ffi in each file")])
add("C02", "The vacuum one-loop functions equal their closed forms",
    "For every squared momentum in its domain, real or complex, each vacuum one-loop function of the ghost, the gluon and the quark loop, and each variant taking precomputed logarithms, equals the published closed form. The variants with precomputed logarithms use the logarithms they are given, on whichever branch the caller chose: they are the closed form with those in place of the principal values, and agree with the plain ones when given these.",
    ["inputs"], "all s > 0 and all complex s off the branch cuts; all gauge parameters and additive constants", NUM,
    [S + "low_level/oneloop/ghost.rs", S + "low_level/oneloop/gluon.rs"], [("inlined closed forms", "mod inlines")])
add("C03", "Vacuum functions have the right ultraviolet running and infrared limits",
    "As the momentum grows every vacuum function approaches its one-loop logarithm with the beta-function coefficient, and as it vanishes it approaches the analytic expansion (finite mass, finite constants or the known pole). The two limits hold with the stated coefficients in any gauge.",
    ["inputs"], "the limits s to infinity and s to 0+, all other arguments arbitrary", "Tests evaluate finite momenta only; a limit is a statement about all of them.",
    [S + "low_level/oneloop/ghost.rs", S + "low_level/oneloop/gluon.rs"], [("inlined closed forms", "mod inlines")])
add("C04", "Vacuum dressing functions and propagators obey their defining algebra",
    "The inverse dressing function is the one-loop function plus the gauge parameter times its gauge part plus the additive constant (and the quark loop), the dressing function is its inverse and the propagator is the dressing function over the squared momentum. The Landau-gauge functions are the general ones at vanishing gauge parameter.",
    ["inputs", "configurations"], "all momenta (real and complex), gauge parameters, constants, quark masses and field configurations", NUM,
    [S + "ym/ghost.rs", S + "ym/gluon.rs", S + "qcd/gluon.rs"], [("dressing_inv, dressing, propagator and their Landau versions", "ym and qcd modules")])
add("C05", "Quark families enter additively, weighted by flavours over colours",
    "With no quarks every QCD gluon function is the pure Yang-Mills one; each family adds a contribution proportional to its flavours over the number of colours, independent of the other families and of their order, and splitting a degenerate family changes nothing. A configuration with a single family gives what the same masses and numbers give as global settings.",
    ["inputs", "configurations"], "all kinematics and masses, configurations of up to three families, vacuum and thermal, both polarisations, zero temperature included", "Tests use one or two fixed configurations at one setting of the number of colours.",
    [S + "qcd/gluon.rs", S + "qcd/thermal.rs", S + "qcd/types.rs"], [("sum over quark families", "qcd/gluon.rs, qcd/thermal.rs")])
add("C06", "An explicit field configuration is authoritative",
    "A result computed with an explicit field configuration depends on nothing but the arguments: changing the global number of colours, flavours or quark mass does not change it. A configuration whose fields were modified after construction behaves as one built with the modified values.",
    ["inputs", "histories", "configurations"], "all kinematics, masses, prior settings and modification of any field", "Tests never change the settings between building and using a configuration.",
    [S + "qcd/thermal.rs", S + "qcd/gluon.rs", S + "qcd/types.rs"], [("number of colours taken from the configuration", "qcd/thermal.rs"), ("per-family weights derived from the public fields", "qcd/types.rs")],
    [("field configuration", "colours, gluon mass, list of (flavours, mass)", "qcd/types.rs")])
add("C07", "Settings hold exactly what was last written and nothing else changes them",
    "Each global setting reads back the last value written to it, independently of the others, and starts at its documented value; non-positive tolerances and regulators are rejected. No computation changes a setting, gives a different answer because of an earlier computation, or depends on a setting that is not one of its documented inputs.",
    ["inputs", "histories"], "all sequences of up to three assignments, followed by any computation with any arguments, and any computation after any other call of it", "Tests run each function once with the defaults; history dependence needs sequences.",
    [S + "consts.rs"], [("settings getters and setters", "consts.rs"), ("default method built from the settings on each call", "consts.rs")],
    [("settings", "colours, flavours, quark mass, tolerance, iterations, Matsubara regulator", "consts.rs")])
add("C08", "Thermal distributions satisfy their exact identities and bounds",
    "The Bose and Fermi distributions, their combined and zero-chemical-potential versions and their zero-temperature limits are the textbook functions of energy, inverse temperature and chemical potential, with the right range and reflection identities. Energies and the Fermi momentum are the relativistic ones.",
    ["inputs"], "all energies, inverse temperatures, chemical potentials, masses and momenta", NUM,
    [S + "common/thermal.rs", S + "common/mod.rs", S + "low_level/common/mod.rs"], [("distribution functions", "common/thermal.rs")])
add("C09", "Thermal one-loop integrands equal their reference expressions",
    "For every loop momentum and every external momentum, each thermal one-loop integrand (tadpoles, two-mass and derivative types, scalar, longitudinal and transverse) equals an independent expression derived from the sum over residues with the angular integral done in closed form. This holds for general kinematics, at vanishing frequency and at vanishing momentum.",
    ["inputs"], "all loop momenta, frequencies, momenta, masses and temperatures, real and complex frequency", NUM,
    [TH, S + "low_level/oneloop/thermal/"], [("integrand formulas", TH)])
add("C10", "Integrands for special masses are the general ones at those masses",
    "Each integrand specialised to one or two vanishing masses, or to equal masses, is what the general two-mass integrand gives in that case (its limit where the formula is singular). The general integrands are symmetric under exchange of the two lines.",
    ["inputs"], "all loop momenta, external momenta, masses and temperatures; three kinematics", "The tests check each specialisation against its own recorded numbers, never one against another for all arguments.",
    [TH], [("specialised integrands for massless lines", TH)])
add("C11", "Derivative integrands are mass derivatives of the integrals",
    "Each derivative-type integrand is, up to a total derivative in the loop momentum, the derivative of the corresponding integrand with respect to the squared mass of its doubled line, and second-derivative ones are the derivative of those.",
    ["inputs"], "all loop momenta, external momenta, masses and temperatures; scalar, longitudinal and transverse", NUM,
    [TH], [("derivative integrands", TH)])
add("C12", "Zero-momentum functions are the limit of the general ones",
    "As the spatial momentum goes to zero at fixed frequency every general thermal integrand tends to the dedicated zero-momentum one, and the longitudinal and transverse gluon functions become equal.",
    ["inputs"], "all frequencies, masses, temperatures, loop momenta and chemical potentials, in the limit", "A limit cannot be sampled; tests compare isolated points with loose tolerances.",
    [TH, S + "low_level/oneloop/thermal/"], [("zero_momentum modules", TH)])
add("C13", "Zero-frequency functions are the limit of the general ones",
    "As the frequency goes to zero at fixed spatial momentum every general thermal integrand tends to the dedicated zero-Matsubara one.",
    ["inputs"], "all momenta, masses, temperatures, loop momenta and chemical potentials, in the limit", "A limit cannot be sampled; tests compare isolated points with loose tolerances.",
    [TH, S + "low_level/oneloop/thermal/"], [("zero_matsubara modules", TH)])
add("C14", "Reality, evenness and reflection symmetry of thermal functions",
    "At real Euclidean frequency every thermal integrand is real; as a function of complex frequency it is even and takes conjugate values at conjugate frequencies, and the real and complex entry points agree on real arguments. Quark contributions are even in the chemical potential.",
    ["inputs"], "all frequencies (real and complex), momenta, masses, temperatures, chemical potentials and loop momenta", "Tests evaluate a handful of complex points and never the mirrored ones.",
    [TH, S + "low_level/oneloop/thermal/"], [("generic real/complex implementations", TH)])
add("C15", "Self-energy and polarisation integrands equal the one-loop theory",
    "The thermal integrands of the ghost self-energy and of the gluon polarisation (glue and quark parts, longitudinal and transverse, all three kinematics, finite and zero temperature) equal an independent evaluation of the one-loop diagrams of the screened massive expansion.",
    ["inputs"], "all loop momenta, external momenta, masses, temperatures and chemical potentials", NUM,
    [S + "low_level/oneloop/thermal/ghost.rs", S + "low_level/oneloop/thermal/gluon.rs"], [("sums of one-loop integrals with momentum-dependent coefficients", "thermal/ghost.rs, thermal/gluon.rs")])
add("C16", "Integrated functions integrate the stated integrand with the chosen method",
    "Every integrated thermal function is the quadrature, over the whole half line (or the Fermi sphere at zero temperature), of exactly the integrand function of the same name and arguments. It uses the given method, and without one the default method built from the current tolerance and iteration settings.",
    ["inputs", "histories"], "all arguments and methods, and all values of the tolerance and iteration settings", "Tests integrate a few points with one method each, and cannot tell a mishandled setting from a correct one.",
    [S + "low_level/oneloop/thermal/ghost.rs", S + "low_level/oneloop/thermal/gluon.rs", S + "qcd/thermal.rs", S + "consts.rs"], [("change of variables to a finite interval", "thermal/ghost.rs, thermal/gluon.rs"), ("default method", "consts.rs")])
add("C17", "Thermal dressing functions compose vacuum and thermal parts correctly",
    "The inverse thermal dressing function is the vacuum one at the Euclidean squared momentum plus the properly normalised thermal part of the self-energy over that squared momentum; the dressing function is its inverse and the propagator is the dressing function over the squared momentum. This holds for ghost and gluon, both polarisations, all kinematics and field contents.",
    ["inputs", "configurations"], "all kinematics, masses, temperatures, chemical potentials, constants and field contents", NUM,
    [S + "ym/thermal.rs", S + "qcd/thermal.rs"], [("dressing_inv with vacuum and thermal part", "ym/thermal.rs, qcd/thermal.rs")])
add("C18", "Zero-temperature quark matter functions are the degenerate limit",
    "At zero temperature quark contributions have the integrand of the finite-temperature ones with the sharp Fermi sea in place of the thermal distribution, vanish when the chemical potential does not exceed the mass, and are even in it.",
    ["inputs"], "all momenta, masses and chemical potentials", NUM,
    [S + "low_level/oneloop/thermal/gluon.rs", S + "qcd/thermal.rs", S + "common/thermal.rs"], [("zero-temperature versions", "thermal/gluon.rs, qcd/thermal.rs")])
add("C19", "Charge density and chemical potential",
    "The quark charge density is the degeneracy times the momentum integral of particle minus antiparticle distributions, odd in the chemical potential and even in the mass, and at zero temperature the volume of the Fermi sphere. The zero-temperature chemical potential is the exact inverse of the zero-temperature density.",
    ["inputs"], "all masses, temperatures, chemical potentials and densities", NUM,
    [S + "qcd/thermal.rs"], [("charge density and its inverse", "qcd/thermal.rs, module quark")])
add("C20", "Root finding, residues and spectral functions do what they say for any function",
    "For an arbitrary function the root finder follows the secant iteration from the two given points, stops exactly when the tolerance is met or the iteration budget is used, and reports the point, its value and success accordingly. The residue and the spectral function are the stated difference quotients, exact for a simple pole and for the discontinuity of the given function.",
    ["inputs", "histories"], "all function values at all queried points, all starting points, tolerances and budgets (iterations bounded)", "Tests run the utilities on two or three functions; the claim is for any function.",
    [S + "utils.rs"], [("secant iteration", "utils.rs"), ("symmetric difference quotient", "utils.rs")])
add("C21", "A point of the phase diagram is classified by the phase boundary",
    "A chemical potential and temperature are classified as deconfined exactly when they lie above the piecewise linear curve through the given boundary points, or beyond its last chemical potential; points on the axes are compared with the axis intercepts. Plateaus are classified like any other segment.",
    ["inputs"], "all boundaries of up to six points with strictly increasing chemical potentials, all chemical potentials and temperatures", "Tests use one boundary and a few points.",
    ["tc_long_prop/src/lib.rs"], [("search of the segment and linear interpolation", "is_deconfined_phase")])
add("C22", "Critical temperature search and phase boundary post-processing",
    "The critical temperature is the temperature of the first largest value of the given table; the phase boundary is cut at its first vanishing temperature, keeping every point before it in order; and the boundary parametrisation is the polynomial with the given coefficients.",
    ["inputs"], "all tables of up to five entries with arbitrary values", "Tests use one table.",
    ["tc_long_prop/src/lib.rs"], [("arg max search, split, polynomial", "find_critical_temperature, reduce_phase_boundary, parametric_phase_diagram")])
add("C23", "Kinematics and distributions never turn into NaN in double precision",
    "In double precision arithmetic, for every finite argument up to 1e100 in size, the energy, the Fermi momentum at and above threshold, the occupation numbers, and the zero-temperature quark density and chemical potential are numbers, not NaN, and stay in their range. The threshold itself gives exactly zero, occupation numbers lie between 0 and 1 (2 when summed over both signs) and vanish at very large energies instead of overflowing.",
    ["inputs"], "all IEEE doubles within the stated magnitudes, including signed zeros, subnormals and values one rounding step from the threshold", "Tests evaluate moderate arguments; overflow of an intermediate and cancellation at the threshold appear only at particular bit patterns.",
    [S + "common/mod.rs", S + "common/thermal.rs", S + "qcd/thermal.rs"], [("guarded and rearranged formulas", "fermi_momentum, fermi_distribution, bose_distribution, energy")])
add("C24", "The critical temperature analysis selects the right constants and grid",
    "For a chemical potential and temperature the analysis uses the corrected quark masses exactly when the point is in the deconfined phase, together with the additive constant that keeps the renormalised quark loop unchanged; otherwise the plain configuration with the given constant. The temperature, chemical potential and momentum grids contain every equally spaced point of the configured range, end included, once and in order.",
    ["inputs", "configurations"], "all points of the phase diagram, constants, masses, up to three quark families, boundaries of up to two points, grids of up to five steps", "No test runs this code.",
    ["tc_long_prop/src/bin/physical_tc.rs"], [("configuration, phase selection and grids", "Config")])
add("C25", "The critical temperature analysis plots and returns what the library computes",
    "For every chemical potential of the configured grid, the infrared-limit curve has one value per temperature of the grid: the real part of the longitudinal propagator at the first momentum, renormalised at the renormalisation point, with inverse temperature 1/(T m), the zero-temperature propagator at zero temperature, and the corrected data beyond the boundary. The propagator curves have the same values for every momentum, longitudinal and transverse, and so do their data files. The phase diagram lists, for each chemical potential, the temperature maximising the first of these, and the second derivative by central differences of two grid steps.",
    ["inputs", "configurations"], "all constants, masses, frequencies and grid values, grids of up to four temperatures, three chemical potentials and three momenta; phase diagrams of two temperatures and up to six chemical potentials, over all their maximum patterns", "No test runs this code.",
    ["tc_long_prop/src/bin/physical_tc.rs"], [("curves, renormalisation, phase diagram", "compute_ir_limit, compute_propagators, compute_transverse_propagators, compute_phase_diagram")])
add("C30", "Quadrature accuracy and floating-point error of the integrated functions",
    "The value returned by an integrated function is within its tolerance of the exact integral.",
    ["inputs"], "all arguments and tolerances", "Tests compare a few integrals with recorded numbers of the same rule.",
    [S + "low_level/oneloop/thermal/"], [("adaptive Gauss-Kronrod rule of a dependency", "peroxide")])
add("C31", "Concurrent use of the library while settings change",
    "A computation running while another thread changes a setting returns a result for the settings before or after the change.",
    ["schedules"], "all interleavings", "Tests run sequentially with respect to settings.",
    [S + "consts.rs"], [("unsynchronised global settings", "consts.rs")])
add("C32", "The Python package returns what the library computes",
    "Each function of the Python package returns, for every argument, the value of the exported library function of the same name, with its arguments in the same order; complex arguments and results keep both parts.",
    ["inputs"], "all functions of the package, all real and complex arguments", "There are no tests of the Python package.",
    ["python/pyqcd_sme_so.pyx", "python/qcd_sme/"], [("Cython wrappers", "python/pyqcd_sme_so.pyx")])
add("C33", "Example and analysis programs write files and plots that match the library",
    "The data files written by the programs contain the values the library computes, labelled correctly (what physical_tc plots and returns is C25).",
    ["inputs", "configurations"], "all configurations", "No test runs the programs.",
    ["qcd-sme/examples/", "tc_long_prop/src/bin/"], [("plotting and output code", "examples, bin")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
