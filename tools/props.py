#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "legume/"
P = []


def p(id, title, statement, over, qtext, why, files, mechanism, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[L + f for f in files],
                               mechanism=[dict(name=mechanism,
                                               where=", ".join(L + f for f in
                                                               files))],
                               **({"state": [dict(name=kw["state"],
                                                  where=L + files[0])]}
                                  if "state" in kw else {}))))


p("C01", "Shape Fourier coefficients, area and membership are exact",
  "For every shape primitive (circle, rotated ellipse, simple polygon, square, hexagon, shape given by polar Fourier coefficients), at any placement and after any sequence of rotations about its centre of mass, the plane-wave coefficient returned for any wavevector equals the integral of exp(-i g.r) over the region the shape covers, and the area is the value at g = 0. "
  "The point-membership test reports exactly that region. Clockwise polygons and polar expansions with a negative radius are rejected.",
  ["inputs", "histories"], "every shape, parameter value, vertex order/starting vertex, wavevector set and rotation sequence",
  "tests/test_shapes.py evaluates one polygon against another shape; edge-parallel, axis-parallel and degenerate cases each take a different branch and are not sampled",
  ["phc/shapes.py"], "closed-form Fourier transforms with special cases for g_x = 0, g = 0 and edges parallel to an axis or normal to g")

p("C02", "Structure-building histories yield the structure that was described",
  "After any sequence of adding layers, quantum wells and shapes, layers stack contiguously upwards from z = 0 in call order, the upper cladding starts where the last layer ends, and the average permittivity of every layer and cladding is its background plus the area-weighted contrast of its shapes. "
  "The permittivity reported at any point is that of the shape (or its lattice image) covering the point in the layer containing that height, else the layer background, and the reported bounds are the extreme permittivities present. "
  "Operations with invalid arguments are rejected and leave the structure unchanged, and the structure can always be printed.",
  ["histories", "inputs"], "every sequence of building operations, valid and invalid, on every lattice",
  "tests build one fixed structure each and only look at band frequencies; orders of calls, rejected calls, claddings and skew lattices are never compared",
  ["phc/phc.py", "phc/layer.py", "phc/lattice.py"], "PhotCryst.add_layer/add_shape/add_qw/get_eps/get_eps_bounds and ShapesLayer bookkeeping of eps_avg",
  state="layers, claddings, quantum wells and their shapes")

p("C03", "Lattice vectors, areas, grids and Brillouin-zone paths are consistent",
  "For every pair of primitive vectors the reciprocal vectors are dual to them (b_i.a_j = 2 pi delta_ij) and the cell and zone areas are |a1 x a2| and (2 pi)^2/|a1 x a2|. "
  "A Brillouin-zone path through any list of named or explicit points visits them in order, with the requested number of equal steps per segment, and its labels, point indexes, normalised arc-length positions and wavevector angles (with the requested convention at Gamma) all describe that same list; a single integer step count applies to every segment. "
  "Visualisation grids span the requested number of periods of the lattice. Named points not defined for the lattice, too few points and inconsistent step lists are rejected.",
  ["inputs", "configurations"], "every lattice, list of points, step counts and Gamma convention",
  "tests use a path on the square and hexagonal lattices only to feed solvers; labels, indexes, angles and rejection are not asserted",
  ["phc/lattice.py"], "Lattice.__init__, xy_grid, bz_path, _parse_point")

p("C04", "The plane-wave basis and permittivity expansion match the structure",
  "With circular truncation the basis contains exactly the reciprocal vectors inside the cutoff circle, and with parallelogram truncation exactly the index box of the requested size; both are closed under inversion and free of duplicates. "
  "In every layer and cladding, and for 2D crystals, the expansion coefficient used for a reciprocal vector is the exact Fourier coefficient of the structure's permittivity (the average at G = 0), so the two truncations agree on common vectors and the real-space permittivity obtained from the expansion is the truncated Fourier series of the real structure.",
  ["inputs", "configurations"], "every lattice, cutoff, truncation rule and set of non-overlapping shapes",
  "tests fix one cutoff per lattice and compare only a few eigenfrequencies, which hardly depend on a missing or misplaced outer vector",
  ["gme/gme.py", "pwe/pwe.py", "phc/layer.py", "utils.py", "primitives.py"], "GuidedModeExp._init_reciprocal_tbt/_abs, compute_eps_ft paths, toeplitz_block, ftinv, get_eps_xy")

p("C05", "Slab guided modes are complete, exact and correctly normalised",
  "For every planar multilayer and in-plane wavevector, the guided-mode solver returns for each polarisation all guided modes requested and only those: each frequency satisfies the multilayer dispersion relation, none is skipped, they are ordered, lie between the light lines of the claddings and of the highest index, and a mode below cutoff is reported as absent rather than replaced by another. "
  "The field coefficients describe a field that satisfies the interface conditions, decays in both claddings and has unit norm.",
  ["inputs", "configurations"], "every layer stack (permittivities, thicknesses, asymmetric claddings), wavevector, polarisation and mode number",
  "tests/test_guided_modes.py checks a handful of frequencies of two stacks; missed or duplicated roots and normalisation depend on the stack and wavevector",
  ["gme/slab_modes.py", "utils.py"], "guided_modes bracketing + root finding, AB_matrices, normalization_coeff")

p("C06", "Photonic-crystal-slab frequencies equal the exact guided-mode projection",
  "For every slab structure, wavevector and choice of guided-mode indexes, the computed eigenfrequencies are the ascending square roots of the eigenvalues of the Hermitian Maxwell operator of the structure projected on the chosen guided modes of the effective slab at every basis wavevector. "
  "In particular a structure without lateral modulation returns exactly its folded guided modes, and modes below cutoff simply do not take part.",
  ["inputs", "configurations"], "every layer stack with shapes, k-point, truncation, list of guided-mode indexes and effective-permittivity choice",
  "tests compare a few frequencies of single-layer slabs with stored numbers; other index lists, multilayers, claddings with shapes and cutoff situations are not reached",
  ["gme/gme.py", "gme/matrix_elements.py", "gme/slab_modes.py"], "GuidedModeExp.run / _construct_mat and the te-te, te-tm, tm-te, tm-tm matrix elements")

p("C07", "Spectra respect every exact symmetry of Maxwell's equations",
  "The computed frequencies, radiative linewidths and quality factors do not change under transformations that leave the physics unchanged: splitting a layer, turning the structure upside down, translating or mirroring all shapes, rotating structure and wavevector together, changing the primitive vectors of the same lattice, shifting or reversing the wavevector consistently with the basis; and frequencies scale exactly under a change of length unit or of a common permittivity factor.",
  ["inputs", "configurations"], "every structure, wavevector and every transformation in the symmetry group, and compositions of them",
  "no test applies a transformation to a structure and compares the two results",
  ["gme/gme.py", "gme/matrix_elements.py", "gme/slab_modes.py", "pwe/pwe.py", "phc/shapes.py"], "whole solver pipeline")

p("C08", "Equivalent solver options give the same answer",
  "Options that select how a result is computed do not change it: dense and iterative eigensolvers, exact and interpolated guided-mode frequencies (within the interpolation step), parallelogram and circular truncation on the same vectors, one or many k-points per run, number of requested modes, order of the eigenvalues, TE- or TM-only calculations taken together versus joint ones where they decouple, verbosity, and the plain or differentiable numeric backend. "
  "Unsupported option values are rejected.",
  ["configurations", "inputs"], "every combination of option values, on several structures",
  "tests run one option combination per structure",
  ["gme/gme.py", "pwe/pwe.py", "backend.py", "print_backend.py", "print_utils.py"], "GuidedModeExp.run option handling and backend dispatch")

p("C09", "Mirror-symmetry separation splits the spectrum exactly",
  "For a structure symmetric about the vertical plane containing the wavevector, the odd and even runs together reproduce the unseparated spectrum (frequencies, losses and fields), the combined run is their sorted union with each mode carrying the correct parity label, and dense and sparse separation agree. "
  "A mode's reported parity is the parity of its fields under the mirror. Wavevectors or structures for which the separation is not defined are rejected.",
  ["configurations", "inputs"], "every symmetric structure, mirror direction, k-point, option combination",
  "tests/test_even_odd_separation.py compares two lattices with one index list; dimension imbalance between parities, run order and labels are not exercised",
  ["gme/gme.py"], "GuidedModeExp kz_symmetry machinery: _separate_hamiltonian_dense/sparse, symmetry matrices, symms")

p("C10", "Radiative losses equal the golden-rule coupling to the claddings",
  "The imaginary part of every mode equals the perturbative coupling to all propagating outgoing channels of both claddings summed over polarisation and diffraction order: it is never negative, vanishes when no channel is open, and is the same whether computed within the run, afterwards, or mode by mode. "
  "The reported channel couplings are those amplitudes (their squared moduli add up to the loss), and the reported s/p unbalance is determined by them.",
  ["inputs", "configurations"], "every structure, k-point (above and below the light lines), mode and diffraction order",
  "tests compare a few imaginary parts with stored numbers for symmetric single-layer slabs",
  ["gme/gme.py", "gme/slab_modes.py", "gme/matrix_elements.py"], "compute_rad, compute_rad_sp, run_im, rad_modes")

p("C11", "Returned slab fields are the eigenmodes and satisfy Maxwell's equations",
  "Field components returned at any height, for any mode, are those of the computed eigenvector: H is divergence-free and tangentially continuous, D and E follow from it by Ampere's law and the permittivity expansion, the magnetic field has unit norm, and real-space maps are the cell-periodic part of the Bloch mode. "
  "In-plane maps and vertical cross-sections agree with each other and with the plane-wave components, for any subset of components requested.",
  ["inputs", "configurations"], "every structure, k-point, mode, height, component subset and slice position",
  "no test looks at fields",
  ["gme/gme.py"], "ft_field_xy, get_field_xy/xz/yz, get_eps_xy")

p("C12", "2D plane-wave-expansion bands and fields solve the 2D Maxwell problem",
  "For every 2D crystal, polarisation and wavevector the computed frequencies are the sorted eigenfrequencies of the plane-wave Maxwell operator of the truncated permittivity; in a uniform medium they are |k+G|/sqrt(eps), an effective background replaces the layer's when requested, and they scale and transform as Maxwell's equations demand. "
  "Returned fields belong to the eigenvector, are mutually consistent (H, D, E) and are mapped to their cell-periodic part; a missing or unknown polarisation is rejected.",
  ["inputs", "configurations"], "every lattice, shape set, polarisation, k-point and mode",
  "the stable tests never run the 2D solver",
  ["pwe/pwe.py"], "PlaneWaveExp.run, compute_eps_inv, ft_field_xy, get_field_xy, get_eps_xy")

p("C13", "Results depend on the last request, not on the history of the object",
  "Whatever sequence of runs, loss computations, field and permittivity queries, backend switches and rejected calls has been made on a solver object, the results of the next run or query equal those of a fresh object given the same request, repeated queries return the same values, and no stale quantity of an earlier run is reported as belonging to the later one. "
  "Arguments passed by the caller (arrays, lists, option dictionaries, structures) are never modified.",
  ["histories"], "every sequence of public calls with changing options on one object",
  "every test performs exactly one run on a fresh object",
  ["gme/gme.py", "pwe/pwe.py", "exc/exc.py", "pol/pol.py", "backend.py"], "attributes cached on GuidedModeExp, PlaneWaveExp, ExcitonSchroedEq, HopfieldPol; global backend object",
  state="cached matrices, index lists, losses and eigenvectors on the solver objects; active backend")

p("C14", "Automatic gradients equal the true derivatives",
  "With the differentiable backend, the gradient of any computed frequency, loss or field-derived scalar with respect to shape parameters, permittivities and layer thicknesses (and wavevectors in the 2D solver) equals its numerical derivative, and every differentiable building block has the exact adjoint of its derivative. "
  "The documented approximate gradient is exact where it claims to be, and values computed while differentiating equal the plain ones.",
  ["inputs", "configurations"], "every differentiable operation, argument position and shape, and every parameter of the structure",
  "tests check one rectangular lattice and two matrix primitives; most primitives, arguments and parameters have no gradient test",
  ["primitives.py", "utils.py", "backend.py", "gme/gme.py", "phc/shapes.py", "pwe/pwe.py"], "custom vjps in primitives.py; gradients='exact'/'approx'")

p("C15", "Exciton states solve the periodic Schroedinger equation of the well",
  "For every quantum well and potential landscape the computed energies are the ascending eigenvalues of the plane-wave Schroedinger operator with the exciton mass, the exciton energy, and the potential of all shapes in the layer that contains the well; a free exciton has the parabolic folded dispersion. "
  "Wavefunctions and potential maps returned are the normalised inverse transforms (cell-periodic part), and loss and oscillator strength data are passed through unchanged.",
  ["inputs", "configurations"], "every lattice, well position, mass, potential sign, number of shapes and truncation",
  "tests/test_polariton.py uses one well with one circular potential",
  ["exc/exc.py", "phc/layer.py"], "ExcitonSchroedEq.run, compute_exc_ft, get_pot_xy, get_wavef_xy")

p("C16", "Polaritons are the eigenmodes of the coupled photon-exciton system",
  "For every structure with quantum wells the reported polariton energies are the positive-energy eigenvalues, sorted by real part, of the Hopfield matrix built from the photonic modes, the exciton states of every well and their couplings; without oscillator strength they are exactly the union of photon and exciton energies. "
  "Photonic and excitonic fractions lie in [0,1] and add up to one, losses are never negative, and identical wells couple with their summed strength.",
  ["inputs", "configurations"], "every structure, number, position and parameters of wells, k-point and mode count",
  "tests/test_polariton.py compares one structure with stored numbers",
  ["pol/pol.py", "exc/exc.py", "gme/gme.py"], "HopfieldPol.run, coupling and fraction computation")

p("C17", "Optimisers follow their documented update rule, bounds and bookkeeping",
  "For every objective, start point, number of epochs, step and decay setting, bounds (also one-sided) and callback, the iterates of the gradient optimiser are those of the Adam recursion, never leave the bounds after the start, and the recorded objective history, current parameters and epoch counter (also as seen by the callback and by the objective) match the evaluations actually made, in order; the quasi-Newton optimiser never returns a point worse than its start or outside the bounds. "
  "The caller's start point is not modified, the optimiser object may be passed to the objective in either method, and repeated or alternating optimisations are independent of earlier ones.",
  ["histories", "inputs"], "every sequence of optimisation calls and option combination",
  "no test touches the optimiser",
  ["minimize.py"], "Minimize.adam, Minimize.lbfgs, objective/parameter bookkeeping",
  state="optimiser parameter/objective histories")

p("C18", "Exported mask layouts reproduce the structure's shapes",
  "For every crystal, the exported layout file contains, on the layout layer numbered like each crystal layer, exactly one outline per shape of that layer: polygons with the vertices of the original, circles within the given tolerance, in the requested unit, whatever was exported before; nothing is dropped or duplicated. "
  "Tracing a raster yields the outlines at every requested level, positioned on the lattice cell, with the cell boundary if and only if requested. Shapes that cannot be exported are refused, without writing a file.",
  ["inputs", "configurations"], "every shape kind, layer, lattice, unit, tolerance, raster, level and option",
  "no test touches the exporter",
  ["gds.py"], "generate_gds, generate_gds_raster")

p("C19", "Plots show the computed data",
  "Every band, permittivity, structure, field, wavefunction and polariton plot draws exactly the numbers held by the solver: frequencies against the requested abscissa (index, arc length, or wavevector), colours equal to quality factors, losses or fractions, light cone at the cladding light line, and maps equal to the corresponding real-space data on the axes' extent. "
  "Plotting never changes the solver's results, and requests that cannot be satisfied are rejected.",
  ["inputs", "configurations"], "every plot function, option combination, structure and solver state",
  "no test calls a plotting function",
  ["viz.py"], "bands, pol_bands, eps_xy/xz/yz, eps_ft, structure, field, wavef, calculate_x")

p("C20", "Numeric building blocks compute what they document for every argument",
  "Inverse transforms, block-Toeplitz assembly, root search, bracketing searches, star products, unit conversions, nearest-value lookup, height-to-layer lookup and the wavenumbers, dispersion function and radiative states of multilayers return the mathematically defined result for every admissible argument, on every backend, including empty, single-element, unsorted and boundary arguments.",
  ["inputs"], "every admissible argument within the domain of each helper",
  "tests exercise the helpers only indirectly with one shape each",
  ["utils.py", "primitives.py", "backend.py", "gme/slab_modes.py"], "ftinv, toeplitz_block, fsolve, find_nearest, extend, RedhefferStar, z_to_lind, from_freq_to_e, chi, rad_modes, D22s_vec, backend functions")

p("C21", "Calls mean the same with arguments omitted, named or by position",
  "In every public constructor, solver run, query, plot, export and optimiser call, leaving out any combination of optional arguments is the same as passing their documented default values, and passing the leading arguments by position in the documented order is the same as passing them by name. "
  "Earlier calls do not change these defaults.",
  ["inputs", "configurations"], "every subset of omitted arguments and every positional prefix of every call",
  "tests give the options they need and never compare with an explicit default",
  ["gme/gme.py", "pwe/pwe.py", "exc/exc.py", "pol/pol.py", "phc/phc.py", "phc/shapes.py", "phc/layer.py", "phc/lattice.py", "viz.py", "gds.py", "minimize.py", "gme/slab_modes.py"], "call signatures of all public functions and methods, set_run_options")

p("C22", "Printed descriptions state the parameters of the object",
  "The printed description of every shape, lattice, structure, quantum well and solver object lists its parameters with their current values (within the printed digits and in the printed unit): for structures after any sequence of additions, with layers, shapes and wells in the order they were added, for solvers the options of the most recent run. "
  "Before a run only the options already fixed are listed.",
  ["inputs", "histories"], "every object, parameter value and run history",
  "the tests never print an object",
  ["phc/shapes.py", "phc/layer.py", "phc/lattice.py", "phc/phc.py", "gme/gme.py", "pwe/pwe.py", "exc/exc.py", "pol/pol.py"], "__repr__ of shapes, layers, structures and solvers")

NOTES = {
    # id: (level, technique, note)
}
exec(open(os.path.join(V, "tools", "claims.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for q in P:
    i = q["id"]
    if i in CLAIMS:
        t, lvl, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="./run.sh %s --tier quick" % i,
                           thorough_cmd="./run.sh %s --tier thorough" % i,
                           technique=t, level=lvl, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(
            i, "check under construction; not claimed yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks,
               not_applicable=na, notes=MNOTES),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
