"""Source of properties.jsonl (run: python3 mkprops.py)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Every coil kind produces current x turns x unit response, in any state",
     "For every kind of coil the flux and both field components at any point equal the coil's present current times its unit-current response, and that response is the sum over the coil's present filaments of the unit-current loop response including the number of turns. "
     "This holds after any sequence of current, turns and position changes; point-wise, array and precomputed-response evaluation agree; evaluating never changes the coil. "
     "Moving a coil moves its whole cross-section rigidly, including what it reports as its position and outline; a coil with precalculated responses has the responses it was supplied with (moving it is not covered).",
     ["histories", "inputs"],
     "all coil kinds (point, shaped, filamentary, mirrored multi-coil, precalculated, solenoid), all sequences of current/turns/R/Z changes, all evaluation points",
     "unit tests evaluate one freshly built coil at a few points; none moves a coil and re-evaluates, or compares the precomputed path with direct evaluation after a history",
     ["freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/pre_calc_coil.py", "freegs/machine.py"],
     [("control response times current", "Coil.psi/Br/Bz, controlPsi/controlBr/controlBz"),
      ("position setters shifting filaments", "R/Z setters of ShapedCoil, FilamentCoil, MultiCoil, PreCalcCoil"),
      ("precomputed responses", "createPsiGreens / calcPsiFromGreens")],
     ["psi", "Br", "Bz", "controlPsi", "controlBr", "controlBz", "createPsiGreens", "calcPsiFromGreens", "R", "Z"])

prop("C02", "A circuit's current and control flag rule all of its coils",
     "After any circuit-level or machine-level operation the current in each coil of a circuit is the circuit current times that coil's multiplier, and every member coil has the circuit's control flag, whatever sequence of circuit, coil and machine operations came before; a member coil's current set directly is overridden by the next such operation or evaluation. "
     "The flux and field of the circuit are the multiplier-weighted sums of its members' responses at the circuit current. "
     "A mirrored pair is two coils at plus and minus the given height carrying the given current, in the same or opposite sense as requested.",
     ["histories", "configurations"],
     "all circuits of up to three coils with multipliers from {-1, 0, 1/2, 1, 2}, and all operation sequences up to the bound",
     "tests build one circuit and read it once",
     ["freegs/machine.py"],
     [("property setters propagate to members", "Circuit.current/control setters"),
      ("re-imposed multipliers on evaluation", "Circuit.psi/Br/Bz/calcPsiFromGreens"),
      ("mirrored pair factory", "MirroredCoil")],
     ["Circuit.current", "Circuit.control", "member coil current/control", "Circuit.psi/Br/Bz"])

prop("C03", "The control vector addresses exactly the controlled coils, in coil order",
     "The control responses, the list of control currents and current adjustments all refer to the same coils: exactly those with control enabled, in machine order. "
     "Setting or adjusting control currents changes exactly those coils by exactly those amounts, leaves every other coil untouched, and changes the flux and field everywhere by the control responses times the current changes.",
     ["configurations", "histories"],
     "all machines with up to four coil slots of every kind, all subsets of enabled controls, all sequences of set/adjust/toggle operations up to the bound",
     "tests use machines with all coils controlled; the mixed subsets and toggling histories are not reached",
     ["freegs/machine.py"],
     [("filtering on the control flag", "Machine.controlBr/controlBz/controlPsi/controlCurrents/setControlCurrents/controlAdjust"),
      ("superposition over coils", "Machine.psi/Br/Bz, createPsiGreens/calcPsiFromGreens")],
     ["controlCurrents", "controlPsi", "controlBr", "controlBz", "getCurrents", "psi", "Br", "Bz"])

prop("C04", "Coil forces are the Lorentz force of everything else plus the hoop force",
     "The force reported for each coil is its total current times the field of all other coils and the plasma at its centre times its circumference, plus the outward self (hoop) force, and is the same whether the coil stands alone or is part of a circuit. "
     "Without a plasma, the vertical forces on a set of single-turn-position coils sum to zero. "
     "Computing forces changes no current, position or field.",
     ["configurations", "histories"],
     "all machines of up to three coils over the coil kinds, alone or grouped into circuits, with and without plasma",
     "no test computes a force on a coil inside a circuit, or with a plasma present",
     ["freegs/coil.py", "freegs/machine.py", "freegs/equilibrium.py"],
     [("self-field exclusion and hoop force", "Coil.getForces"), ("dispatch", "Circuit.getForces, Machine.getForces, Equilibrium.getForces")],
     ["Coil.getForces", "Circuit.getForces", "Machine.getForces", "Equilibrium.getForces"])

prop("C05", "Total flux and field are always plasma plus present coils, on and off grid",
     "After any sequence of solves and coil current changes, the total flux on the grid equals the plasma flux plus the flux of the coils at their present currents, and point-wise evaluation of flux and field agrees with it: at grid points the same flux, and everywhere the field components are the derivatives of the flux. "
     "Normalised flux is zero at the magnetic axis and one on the plasma boundary found at the last solve. Coils are not moved after the equilibrium is created.",
     ["histories", "inputs"],
     "all sequences of (solve with a current distribution, set a coil current, adjust controls) up to the bound, on grids with unequal sizes",
     "tests solve once and look at one quantity",
     ["freegs/equilibrium.py", "freegs/machine.py"],
     [("spline rebuilt with plasma flux", "Equilibrium._updatePlasmaPsi"), ("precomputed coil responses", "Equilibrium.psi"), ("point-wise evaluation", "psiRZ/Br/Bz/plasmaBr/plasmaBz/psiN/psiNRZ")],
     ["psi", "psiRZ", "Br", "Bz", "Bpol", "psiN", "psiNRZ", "magneticAxis"])

prop("C06", "The linear solve satisfies the Grad-Shafranov equation and the boundary data",
     "For every toroidal current distribution the computed plasma flux satisfies the discretised Grad-Shafranov equation at every interior point and the boundary condition at every boundary point, at the requested order of accuracy, on every grid shape (fourth order needs at least 6 points each way). "
     "Flux functions that the stencil represents exactly are recovered exactly; the result is linear in the source; the reported plasma current is the integral of the current density.",
     ["inputs", "configurations"],
     "every unit source and boundary value on small grids (hence, by linearity, every source), all grid shapes 2^n+1, orders 2 and 4, several domains",
     "tests solve two smooth right-hand sides on square grids",
     ["freegs/gradshafranov.py", "freegs/equilibrium.py", "freegs/multigrid.py"],
     [("sparse operators", "GSsparse, GSsparse4thOrder, GSElliptic"), ("direct solve", "MGDirect"), ("assembly of source and boundary", "Equilibrium.solve")],
     ["Equilibrium.solve", "Equilibrium.callSolver", "plasmaCurrent", "plasma_psi"])

prop("C07", "The boundary condition is the flux of the plasma current in free space",
     "The free boundary condition gives every boundary point, including corners, the flux which the plasma current distribution alone would produce there in unbounded space, for every current distribution inside the domain. "
     "The von Hagenow variant gives the same values within its discretisation error, and the fixed boundary condition gives zero on the whole edge; none of them changes interior values of the flux or the current density.",
     ["inputs", "configurations"],
     "every unit current on the interior of small grids (hence, by linearity, all distributions), several grid shapes and domains",
     "no test examines boundary values",
     ["freegs/boundary.py"],
     [("Green's function area integral", "freeBoundary"), ("Green's function boundary integral", "freeBoundaryHagenow"), ("zero edge", "fixedBoundary")],
     ["boundary values after freeBoundary/freeBoundaryHagenow/fixedBoundary"])

prop("C08", "Multigrid solvers converge to the direct solution for every configuration",
     "For the second-order operators and every choice of levels, cycles, smoothing iterations (at least three per level) and coarse solver, the iterative solver moves towards the unique solution of the linear system and, with enough cycles, agrees with the direct solver. "
     "Coarse levels remove smooth errors that smoothing alone leaves. A solution of the system is left unchanged, boundary values are preserved, the initial guess passed in is not modified, and grids which cannot be coarsened still solve correctly.",
     ["configurations", "inputs"],
     "all combinations of level count 1-4, cycles, iterations, direct/iterative coarse level, grid shapes (including those which cannot be halved), Laplacian and Grad-Shafranov operators",
     "no test runs more than one multigrid level",
     ["freegs/multigrid.py", "freegs/equilibrium.py"],
     [("V-cycle construction", "createVcycle"), ("smoothing and correction", "MGJacobi, smoothVcycle, smoothMG"), ("grid transfer", "restrict, interpolate"), ("solver selection", "Equilibrium.setSolverVcycle")],
     ["createVcycle", "setSolverVcycle", "smoothMG", "restrict", "interpolate"])

prop("C09", "Magnetic axis and X-points are found, classified and ordered correctly",
     "For fields whose critical points are well resolved and at least four cells from the grid edge (curvatures within a factor four), every O-point and X-point is reported once, at the right location (to the documented 1 mT search tolerance) with the right flux, and nothing else is reported. "
     "O-points are ordered by distance from the domain centre, X-points by flux difference from the primary O-point, X-points hidden from the primary O-point (the flux on the straight line to it overshoots the X-point or undershoots the axis) are dropped unless asked for, and none of this depends on the sign or constant offset of the flux or on mirroring.",
     ["inputs"],
     "lattices of fields with one or two O-points and up to two X-points, over grid shapes, positions relative to the grid, elongation, tilt, sign and offset",
     "tests look at a handful of analytic fields",
     ["freegs/critical.py"],
     [("candidate search, Newton iteration, classification", "find_critical"), ("monotonicity filter and ordering", "find_critical")],
     ["find_critical", "Equilibrium.magneticAxis"])

prop("C10", "The core mask is exactly the region connected to the axis inside the boundary",
     "The core mask is one exactly on the grid points connected to the magnetic axis through points inside the boundary flux, without passing through the neighbourhood of an X-point, and in the neighbourhood of X-points exactly on those points inside the boundary flux; it is zero elsewhere. "
     "It does not depend on the sign of the flux, on mirroring, or on the order of X-points.",
     ["inputs"],
     "every in/out pattern on all small grids with every axis position and X-point placement",
     "tests never call the mask with anything but a smooth solved equilibrium",
     ["freegs/critical.py"],
     [("blocked flood fill and X-point revisit", "core_mask")],
     ["core_mask"])

prop("C11", "Plasma profiles meet their targets and give consistent current and pressure",
     "The toroidal current density is R p' + ff'/(mu0 R) inside the core and zero outside, with the profile's own p' and ff' evaluated at the normalised flux. "
     "Profiles constrained by total current reproduce that current exactly, and reproduce the requested axis pressure or poloidal beta. "
     "Pressure and R x toroidal field are the integrals of p' and ff' from the plasma edge, vanishing pressure and vacuum field at the edge, for scalars, lists and arrays of any shape. Without X-point or limiter only profiles vanishing at the edge are covered.",
     ["inputs", "configurations"],
     "all profile kinds over a lattice of parameters (current of either sign, pressure, beta, shape exponents, reference radius, vacuum field) and of flux fields (diverted, limited, no X-point)",
     "one test checks one profile's pressure",
     ["freegs/jtor.py"],
     [("constraint algebra", "ConstrainPaxisIp.Jtor, ConstrainBetapIp.Jtor"), ("specified profiles", "ProfilesPprimeFfprime"), ("edge integrals", "Profile.pressure, Profile.fpol")],
     ["Jtor", "pprime", "ffprime", "pressure", "fpol", "fvac"])

prop("C12", "Coil current control meets satisfiable constraints within its limits",
     "When the controlled coils can satisfy the X-point, isoflux and flux-value constraints, applying control makes them hold; when they cannot, the result is the regularised least-squares optimum. "
     "Current limits and the total current limit are respected whenever given and the result is then the best within them; uncontrolled coils and the plasma never change, and applying control again does not make things worse. "
     "Fitting to a target flux (or normalised flux) map recovers the currents which produced it, within any limits given (normalised-flux fits start from a field with a plasma boundary).",
     ["configurations", "inputs"],
     "all constraint sets of up to two X-points, isoflux pairs and flux values over small machines, all control subsets, with and without limits, from several starting currents",
     "tests apply one constraint set to one machine",
     ["freegs/control.py"],
     [("Tikhonov solve then bounded minimisation", "constrain.__call__"), ("map fitting", "ConstrainPsi2D, ConstrainPsiNorm2D and the bounded variants")],
     ["constrain", "ConstrainPsi2D", "ConstrainPsiNorm2D", "ConstrainPsi2DAdvanced", "ConstrainPsiNorm2DAdvanced"])

prop("C13", "The nonlinear solve stops exactly when converged, or raises",
     "The nonlinear solve returns normally only if on the last iteration both the flux and the boundary flux changed by less than the relative or absolute tolerance (and the plasma is limited, if waiting for that was requested), and returns at the first such iteration. "
     "Otherwise it continues, re-applying coil control and blending each step as documented, and raises an error once the iteration limit is exceeded. "
     "Limiter checking is switched on and off by the stated options, and the reported convergence history has one entry per iteration.",
     ["fault_sequences", "histories", "configurations"],
     "all sequences of solver answers (large/small flux change, boundary present/absent/changed, limited or not) up to the iteration bound, under all option combinations",
     "tests run a few convergent cases",
     ["freegs/picard.py"],
     [("Picard loop", "solve")],
     ["solve: return value, exceptions, calls made on the equilibrium, profile and control objects"])

prop("C14", "The optimiser returns the best candidate it evaluated, for every random outcome",
     "Whatever random choices are made, the optimiser returns a candidate whose score is the lowest of all scores it evaluated and reports per generation a population no member of which is worse than before, with the best score never increasing. "
     "Each trial changes at least one control, combines three distinct other candidates, and every candidate and control can be chosen. "
     "Candidates are independent copies: the object supplied and other candidates are never modified by a trial, and a failed solve counts as infinitely bad.",
     ["schedules", "inputs", "fault_sequences"],
     "all outcomes of every random draw for small populations and generation counts, over score tables including ties and failures",
     "tests run the optimiser with one fixed random seed",
     ["freegs/optimiser.py", "freegs/optimise.py"],
     [("differential evolution", "optimiser.optimise, mutate, pickUnique"), ("solve-and-measure wrapper", "optimise.optimise")],
     ["optimiser.optimise", "optimiser.pickUnique", "optimiser.mutate", "optimise.optimise", "monitor callback"])

prop("C15", "Optimiser controls respect their limits and measures report true extremes",
     "Setting a coil radius or height control always leaves the coil within the given minimum and maximum (zero is a limit like any other), at the requested value if that is allowed, and leaves other coils alone. "
     "The standard measures report the largest absolute coil current, the largest coil force including circuits and the plasma, infinity exactly when the plasma boundary crosses the wall, and weighted sums of measures.",
     ["inputs", "configurations"],
     "all combinations of limits and requested values from a small lattice including zero and negative numbers, over machines of each coil kind",
     "tests use one positive limit",
     ["freegs/optimise.py", "freegs/machine.py", "freegs/equilibrium.py"],
     [("clipping", "CoilRadius.set, CoilHeight.set"), ("measures", "max_abs_coil_current, max_coil_force, no_wall_intersection, weighted_sum")],
     ["CoilRadius", "CoilHeight", "max_abs_coil_current", "max_coil_force", "no_wall_intersection", "weighted_sum"])

prop("C16", "Saving and re-reading an equilibrium preserves it",
     "An equilibrium written to file and read back has the same grid, plasma flux, plasma current, boundary condition, wall, and the same coils and circuits with the same positions, turns, currents and control flags, so total flux and field are the same everywhere. "
     "This holds for every machine made of supported components and after any history of changes; a component which cannot be saved is refused with an error rather than altered.",
     ["histories", "configurations"],
     "all machines of up to three components of each kind (after moves and current changes), with and without wall, several grid shapes, both boundary conditions",
     "tests write and read one machine",
     ["freegs/dump.py", "freegs/machine.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py"],
     [("HDF5 datasets", "OutputFile.write_equilibrium/read_equilibrium"), ("record conversion", "to_numpy_array/from_numpy_array of each component")],
     ["OutputFile", "to_numpy_array", "from_numpy_array"])

prop("C17", "Exported G-EQDSK and DivGeo files describe the equilibrium",
     "An exported G-EQDSK file contains the equilibrium's grid extents, flux map (relative to the axis), axis location and boundary flux, plasma current, vacuum field, wall, plasma boundary lying on the boundary flux surface, and the p, f, p', ff' and q profiles on the normalised flux grid. "
     "A DivGeo file contains the same grid, field and flux relative to the boundary. "
     "Reading a G-EQDSK file back with the same machine recovers the domain, grid, plasma current, profiles, wall and reference radius, for every domain placement and grid shape.",
     ["configurations", "inputs"],
     "equilibria over grid shapes and domains (unequal sizes, off-centre), with and without wall, both signs of plasma current and field",
     "tests do not read what is written",
     ["freegs/geqdsk.py", "freegs/_divgeo.py", "freegs/divgeo.py"],
     [("assembly of file contents", "geqdsk.write"), ("reconstruction", "geqdsk.read"), ("DivGeo layout", "_divgeo.write")],
     ["geqdsk.write", "geqdsk.read", "divgeo.write"])

prop("C18", "Sensors report the true field, flux and enclosed current when enabled",
     "An enabled sensor reports, at each measurement, the field component along its angle, the flux at its location or the total toroidal current (every turn of every coil, plus plasma) inside its outline, for the present state of machine and plasma; with no plasma supplied only the coils count. "
     "A disabled sensor keeps its previous value, measuring changes nothing else, and measurements can be listed at any time.",
     ["histories", "configurations"],
     "all sequences of current changes, enable/disable and measurements up to the bound, over all sensor and coil kinds",
     "tests measure once per machine",
     ["freegs/machine.py"],
     [("measurement", "RogowskiSensor/PoloidalFieldSensor/FluxLoopSensor.get_measure"), ("fraction of a coil inside an outline", "inShape"), ("dispatch", "Machine.takeMeasurements/printMeasurements")],
     ["takeMeasurements", "printMeasurements", "measurement"])

prop("C19", "Polygon and quadrature routines are exact on every small polygon",
     "For every simple polygon, signed area and orientation are exact, triangulation produces triangles inside the polygon covering it exactly once, and quadrature points lie inside with positive weights summing to one and average linear functions exactly (quadratic and quartic where the rule allows). "
     "Intersection of two polylines or outlines is reported exactly when two of their segments properly cross, for open and closed curves and either argument order.",
     ["inputs"],
     "every simple polygon with vertices on a small lattice up to six vertices; every pair of short polylines on a small lattice, open and closed",
     "tests use a handful of shapes",
     ["freegs/polygons.py", "freegs/quadrature.py"],
     [("shoelace area", "polygons.area"), ("ear clipping", "polygons.triangulate"), ("segment crossing", "polygons.intersect"), ("triangle rules", "quadrature.triangle_quad, polygon_quad")],
     ["polygons.area", "polygons.clockwise", "polygons.triangulate", "polygons.intersect", "quadrature.polygon_quad"])

prop("C20", "Field-line tracing follows the field and stops at the wall or domain edge",
     "A traced field line stays on its flux surface, advances along the field at every point, and following it backward retraces it; the recorded length is the arc length. "
     "A line stops when it leaves the wall outline (or the domain when there is no wall) and goes on being reported there; points inside are never stopped and points outside always are.",
     ["inputs", "configurations"],
     "all points of a lattice against all simple wall outlines on a lattice, and starting points and directions over a family of equilibria",
     "no test traces a field line",
     ["freegs/fieldtracer.py"],
     [("field direction", "FieldTracer.fieldDirection"), ("inside test", "FieldTracer.wallDomain, eqDomain"), ("integration", "FieldTracer.follow, traceFieldLines")],
     ["FieldTracer.follow", "FieldTracer.updateEvolving", "traceFieldLines"])

prop("C21", "Reported plasma shape and global quantities agree with their definitions",
     "Each reported shape, volume, beta, inductance and energy quantity (the toroidal flux coordinate is C27) equals its documented definition evaluated on the equilibrium's own flux, field, boundary and core region. "
     "All of them are unchanged, and up/down quantities exchanged, when the equilibrium is mirrored vertically, and they respond as documented to reversing or scaling the currents and the field.",
     ["configurations", "inputs"],
     "every reported quantity over a family of equilibria (up-down symmetric and asymmetric, square and rectangular grids, both current signs)",
     "tests check one or two of the quantities on one equilibrium",
     ["freegs/equilibrium.py"],
     [("definitions", "Equilibrium shape/beta/inductance methods")],
     ["all shape, beta, inductance and energy methods of Equilibrium"])

prop("C22", "Changing resolution or domain preserves the equilibrium and its settings",
     "Refining, coarsening or moving to a new domain yields an equilibrium of the requested grid with the same machine, boundary condition, order, limiter setting, profiles and control, and the same plasma flux where the domains overlap, to interpolation accuracy. "
     "The original equilibrium is unchanged, and any sequence of these operations does the same.",
     ["histories", "configurations"],
     "all sequences of refine/coarsen/new-domain up to the bound on grids with unequal sizes, over all settings",
     "tests refine one square default equilibrium",
     ["freegs/equilibrium.py", "freegs/multigrid.py"],
     [("re-gridding", "refine, coarsen, newDomain")],
     ["refine", "coarsen", "newDomain"])

prop("C23", "The plasma boundary is chosen correctly between X-point and limiter",
     "With limiter checking on, the boundary flux is that of the first of X-point or wall contact met going outward from the axis, the plasma is reported limited exactly when it is the wall, and the reported contact point lies on the wall at that flux. Wall points vertically beyond 0.75 times the X-point height are ignored, as documented. "
     "The wall is examined all the way round its closed outline, whatever the sign of the flux, the grid shape or the placement of the wall; with checking off the X-point decides.",
     ["inputs", "configurations"],
     "lattice of flux fields (X-point heights, signs, grid shapes) and wall outlines (inside, outside and touching the separatrix, contact on any wall segment)",
     "tests run one limited case on a square grid with up-down symmetry",
     ["freegs/equilibrium.py", "freegs/machine.py"],
     [("boundary decision", "Equilibrium._updateBoundaryPsi"), ("wall sampling", "Machine.generate_limit_points")],
     ["psi_bndry", "is_limited", "Rlim", "Zlim", "psi_limit", "mask"])

prop("C24", "The elementary loop response is the exact flux and field of a current loop",
     "The unit-current flux equals the exact magnetic flux of a circular loop, is symmetric under exchanging source and observation points, mirror symmetric and translation invariant in height, positive and finite everywhere including at the source. "
     "The field components are its derivatives (divergence-free and curl-free away from the source), for scalars and arrays alike.",
     ["inputs"],
     "every pair of points on a lattice of radii and heights, scalar and array arguments in every position",
     "tests only compare a coil with itself",
     ["freegs/gradshafranov.py"],
     [("elliptic-integral formula with clipped modulus", "Greens"), ("centred differences", "GreensBr, GreensBz")],
     ["Greens", "GreensBr", "GreensBz"])

prop("C25", "Flux surfaces and safety factor are those of the equilibrium",
     "Points returned for the separatrix or any flux surface lie on that surface, on the first crossing going outward from the axis, spaced uniformly in poloidal angle, and in the requested number. "
     "The safety factor equals the surface average of the toroidal over poloidal field pitch on that surface relative to the plasma's own boundary, with the same value for scalar, list or array requests. Diverted and limited plasmas are covered.",
     ["inputs", "configurations"],
     "all directions and flux levels on a lattice over a family of analytic and solved equilibria of different grid shapes",
     "tests check one separatrix and two safety factor values",
     ["freegs/critical.py", "freegs/equilibrium.py"],
     [("ray search", "find_psisurface"), ("separatrix", "find_separatrix, Equilibrium.separatrix"), ("pitch integral", "find_safety, Equilibrium.q")],
     ["find_psisurface", "find_separatrix", "find_safety", "Equilibrium.q", "Equilibrium.separatrix", "innerOuterSeparatrix"])

prop("C26", "A full solve delivers the requested equilibrium and respects its symmetries",
     "A free-boundary solve that returns has the requested plasma current, pressure or beta target and vacuum field; its total flux satisfies the Grad-Shafranov equation with the profiles' current inside the core and no current outside; requested X-points, equal-flux pairs and flux values are met when enough coils are controlled. "
     "The same problem mirrored vertically, moved vertically together with its machine, with all currents reversed, with the toroidal field reversed, scaled, or with its coils listed in another order gives the correspondingly transformed equilibrium, coil currents, forces and safety factor.",
     ["configurations", "inputs"],
     "every problem of a lattice (machines, profiles, constraints, walls, boundary conditions, orders, grids, blending) in each transformed form",
     "tests solve two problems in one orientation and look at a few numbers",
     ["freegs/picard.py", "freegs/equilibrium.py", "freegs/control.py", "freegs/jtor.py", "freegs/boundary.py", "freegs/critical.py", "freegs/machine.py"],
     [("iteration", "picard.solve"), ("plasma flux", "Equilibrium.solve"), ("feedback", "constrain"), ("current", "Profile classes"), ("boundary", "freeBoundary, freeBoundaryHagenow")],
     ["freegs.solve", "Equilibrium", "constrain", "ConstrainPaxisIp", "ConstrainBetapIp", "ProfilesPprimeFfprime"])

prop("C27", "The toroidal flux coordinate of a surface is its enclosed toroidal flux",
     "The toroidal flux reported for a poloidal flux value is the integral of the toroidal field over the area inside that surface (divided by 4 pi^2, with the sign of q dpsi): zero on the axis, and the same number however the value is requested, alone or in an array in any order and with any other values. "
     "The normalised coordinate is the square root of its ratio to the value at the plasma boundary, 0 on the axis and 1 at the boundary, for either sign of the current and of the field, and for diverted and limited plasmas.",
     ["inputs", "configurations"],
     "configurations, grids, walls and signs, with every level and ordered pair of levels requested",
     "no test uses the toroidal flux",
     ["freegs/equilibrium.py", "freegs/critical.py"],
     [("integral of q", "Equilibrium.tor_flux"), ("normalisation", "Equilibrium.rhotor")],
     ["Equilibrium.tor_flux", "Equilibrium.rhotor"])

prop("C28", "Predefined machines start empty, are independent, and mirror up and down",
     "Every predefined machine, created at any time, beside or after any other machine whatever was done to those (currents, control flags, walls, coil lists, positions, sensors, use in an equilibrium), is the same machine: no current, unique coil names, finite responses. "
     "In the up/down symmetric ones every upper coil, its turns and connection mirror the lower coil, circuits give symmetric flux (the vertical control circuits antisymmetric), and walls and sensors map onto themselves. A filament coil's position is the middle of its filaments.",
     ["histories", "configurations"],
     "every machine beside and after every machine changed by every operation and pairs of operations; all coils, walls and sensors on a lattice of points",
     "tests create two of the machines once",
     ["freegs/machine.py", "freegs/filament_coil.py"],
     [("machine tables", "TestTokamak, TestTokamakLimited, TestTokamakSensor, DIIID, MAST, MAST_sym, TCV, MASTU_simple, MASTU")],
     ["EmptyTokamak", "TestTokamak", "TestTokamakLimited", "TestTokamakSensor", "DIIID", "MAST", "MAST_sym", "TCV", "MASTU_simple", "MASTU"])

prop("C29", "Equilibria in one session do not influence each other",
     "Whatever two pieces of work are done in one process, and however their steps interleave (creating machines and equilibria, solving, changing coils, control, measuring, saving, reading, exporting, changing resolution, tracing), each gives what it gives alone. "
     "A deep copy of an equilibrium reports the same as the original, behaves the same under the same operations, and no operation on one of them (currents, positions, control, solves, wall, sensors, profiles, solver) changes anything the other reports.",
     ["histories", "schedules"],
     "all interleavings of the steps of pairs of sessions; all sequences of operations on originals and copies",
     "tests run one equilibrium at a time",
     ["freegs/equilibrium.py", "freegs/machine.py", "freegs/optimiser.py", "freegs/jtor.py", "freegs/control.py", "freegs/multigrid.py", "freegs/boundary.py"],
     [("state", "Equilibrium, Machine, Circuit and coil attributes, default arguments"), ("copies", "copy.deepcopy in optimiser.mutate, optimiser.optimise and _copyProfiles"), ("solvers", "multigrid.createVcycle")],
     ["Equilibrium", "Machine", "copy.deepcopy of Equilibrium", "optimise"])

prop("C30", "Plots and printed tables show the equilibrium and leave it unchanged",
     "Plots draw on the axis given (or a new one) and return it: flux surfaces, separatrix, X- and O-points, wall, sensors, coil outlines and constraints lie where the equilibrium, machine and constraints have them, each only if asked for. "
     "The printed tables of forces, currents and measurements list every coil and sensor once with its values. No plotting or printing changes anything the equilibrium, machine or constraints report, and a solve that draws its progress gives the same result as one that does not.",
     ["configurations", "options"],
     "all coil kinds alone and in pairs, moved or not; equilibria of both signs with and without walls, limiters, sensors under all options; all ordered machines of up to four components",
     "tests do not draw or print",
     ["freegs/plotting.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/machine.py", "freegs/picard.py"],
     [("drawing", "plotEquilibrium, plotConstraints, plotCoils, plotSensors, coil plot methods"), ("tables", "printForces, printCurrents, printMeasurements"), ("progress", "picard.solve")],
     ["Equilibrium.plot", "constrain.plot", "Machine.plot", "Coil.plot", "plotting.plotEquilibrium", "Equilibrium.printForces", "Machine.printCurrents", "Machine.printMeasurements"])

prop("C31", "Machines, walls and coils are equal exactly when they stand for the same",
     "Two coils, circuits, solenoids, walls or machines compare equal if and only if they stand for the same conductors with the same current, turns and control: built twice, copied, or written to an array and read back, in any order of a machine's components. "
     "Any single difference (kind, position, outline, filaments, mirroring, polarity, tables, turns, current, control, label, multiplier, wall) makes them unequal, whatever operations led there, and undoing it makes them equal again. Comparing with anything else is false and never fails; != is the opposite of ==.",
     ["histories", "configurations"],
     "all pairs of variants of all coil kinds; all operation sequences up to depth 3-4 on one of two equal coils; all machines of up to 3-4 components in all orders against all single changes",
     "tests compare a few saved machines with themselves",
     ["freegs/machine.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/pre_calc_coil.py"],
     [("equality", "__eq__ and __ne__ of Coil, ShapedCoil, FilamentCoil, MultiCoil, PreCalcCoil, Circuit, Solenoid, Wall, Machine"), ("arrays", "to_numpy_array, from_numpy_array")],
     ["Machine.__eq__", "Circuit.__eq__", "Coil.__eq__", "Wall.__eq__"])

prop("C32", "A failure part-way leaves the equilibrium, machine and coils usable",
     "If a profile function, solver, boundary condition, control, coil response, file or plot axis raises an error at any point of any operation, the error reaches the caller. Operations which only read (diagnostics, forces, fields, exports, saving, plots, making an equilibrium at another resolution or domain) and control then leave everything reported exactly as before, and repeating them gives what they give without the failure. "
     "A failed linear solve leaves the plasma and total flux, field, currents and arrays as they were and its arguments unchanged; the next solve is exactly the one without the failure. After a nonlinear solve failed at any iteration, flux on and off the grid agree and solving again converges to the same equilibrium.",
     ["faults", "histories"],
     "a fault at every call of every user-supplied function in every operation (long operations: first, last and spread calls), sequences of up to two (three) faults, then repeats",
     "tests do not inject failures",
     ["freegs/equilibrium.py", "freegs/coil.py", "freegs/machine.py", "freegs/picard.py", "freegs/control.py", "freegs/geqdsk.py", "freegs/dump.py", "freegs/plotting.py"],
     [("solves", "Equilibrium.solve, picard.solve"), ("temporary state", "Coil.getForces, Circuit.getForces"), ("files", "geqdsk.write, OutputFile.write_equilibrium")],
     ["Equilibrium.solve", "freegs.solve", "Equilibrium.getForces", "Equilibrium.q", "geqdsk.write", "OutputFile.write_equilibrium", "Equilibrium.plot", "control.constrain"])

prop("C33", "Evaluations depend on the values of their arguments, not on their form",
     "Flux, field, response and profile evaluations of coils, circuits, machines, loops and equilibria give for a number, an array of any shape, memory layout or (integer or double) type, a read-only array, or a number or arrays of different shape broadcast against each other, element by element the value for that point alone, in the shape of the arguments. "
     "The same holds for functions of the whole grid (critical points, core mask, current density, boundary, solver, starting flux, given current) in any memory layout, and for outlines, walls, limits, constraints and starting points given as lists, tuples or arrays. No evaluation changes its arguments or returns them.",
     ["inputs", "configurations"],
     "every evaluation x every form of arguments (shapes, layouts, types, broadcasting)",
     "tests evaluate at a few scalars and one array",
     ["freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py", "freegs/pre_calc_coil.py", "freegs/machine.py", "freegs/gradshafranov.py", "freegs/equilibrium.py", "freegs/jtor.py", "freegs/critical.py", "freegs/polygons.py", "freegs/quadrature.py"],
     [("points", "psi, Br, Bz and control responses; Greens, GreensBr, GreensBz; Equilibrium.psiRZ, Br, Bz, Btor"), ("profiles", "pprime, ffprime, pressure, fpol"), ("grids", "find_critical, core_mask, Jtor")],
     ["Coil.psi", "Machine.Br", "Greens", "Equilibrium.psiRZ", "Equilibrium.Btor", "Profile.pressure", "find_critical", "core_mask"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
