GR = "CADMium/psgrid/"
SO = "CADMium/pssolver/"

prop("C01", "Grid points, volume elements and quadrature weights describe one mesh",
     "For every box size, focal distance and numbers of points, block sizes and blocks, the point coordinates, half-cell offsets, volume elements "
     "and the ghost points beyond the outer edge are those of the prolate spheroidal mesh in one common ordering (angular index fastest). The "
     "quadrature weights are the products of the angular and radial composite rules on that same ordering, each rule being exact on polynomials "
     "up to the degree its block size promises, with the half cells at both ends taken for functions vanishing there.",
     ["inputs", "configurations"], "all meshes: every focal distance and box length (symbolic), several block layouts including non-square and single-block ones",
     "The tests compare one square-ish mesh against stored numbers; a swapped axis or a wrong end weight is invisible when both directions have equal layouts.",
     [GR + "initialize.py", GR + "psgrid.py", "CADMium/common/NC.py"], [("mesh construction", GR + "initialize.py"), ("grid constructor", GR + "psgrid.py")])

prop("C02", "Discrete operators are the prolate derivatives with the right parity rules",
     "Applied to any function on the grid, the gradient, divergence and Laplacian operators equal the finite-difference formulas of the prolate "
     "spheroidal coordinates, continuing the function across the axis with the parity (even or odd) that the operator is named for and treating it as zero beyond the "
     "outer edge; a divergence continues the flux (scale factors times gradient component) with the flux's own parity, which is even. The separate boundary operator adds exactly the contribution that the outer ghost points make to the Laplacian.",
     ["inputs", "configurations"], "all grid functions (symbolic entries) on several mesh shapes, even and odd parity, both coordinate directions",
     "The tests check a few matrix norms on one mesh; a wrong parity, a shifted stencil or a missing ghost point only shows for particular functions or shapes.",
     [GR + "finite_difference_1d.py", GR + "finite_difference_2d.py", GR + "operators.py"],
     [("one dimensional stencil matrices", GR + "finite_difference_1d.py"), ("assembled operators", GR + "finite_difference_2d.py"),
      ("gradient, divergence, Laplacian", GR + "operators.py")],
     note="Two known findings: the divergence operators continue the flux as an odd function.")

prop("C03", "Finite-difference stencils have their full order of accuracy",
     "For every choice of sample points, the stencil coefficients for a derivative of given order reproduce that derivative exactly for every polynomial "
     "of degree lower than the number of points. The stencils the grid uses, in both directions, satisfy the same moment conditions after scaling by the mesh spacing.",
     ["inputs", "configurations"], "stencils of three to nine points, centred and one sided, first and second derivative",
     "A test can only try a function and a tolerance; an error in one coefficient hides below it.",
     ["CADMium/common/finite_difference_coefficients.py", GR + "finite_difference_1d.py"], [("coefficients", "CADMium/common/finite_difference_coefficients.py")])

prop("C04", "Integration is the weighted sum over the grid, column by column",
     "Integrating any function over the grid returns two pi times the mesh spacings times the sum over all points of quadrature weight, volume element and function value; for a "
     "two-column array each column is integrated separately and in its own place. The integral is linear in the function and leaves its argument untouched.",
     ["inputs"], "all functions and meshes (symbolic length and entries), vectors and two-column arrays",
     "Tests integrate a handful of densities on one grid.",
     [GR + "integrate.py"], [("quadrature", GR + "integrate.py")],
     note="One known finding: an array of shape (N,1) is broadcast instead of integrated as a vector.")

prop("C05", "Mirror and spin exchange are exact symmetries of the grid",
     "Mirroring a grid function maps every point to its image across the plane midway between the nuclei, for vectors and column by column for spin arrays, is its own inverse, keeps the "
     "shape and the argument, and reverses heights while keeping distances from the axis, volume elements and quadrature weights. Exchanging "
     "spins swaps the two columns, does nothing to a single column, is its own inverse and commutes with mirroring; the two dimensional layout of a function has the angular index first.",
     ["inputs", "configurations"], "all grid functions with symbolic entries on several mesh shapes, one and two spin columns",
     "Tests use functions that are already symmetric or a single mesh; wrong index orders then coincide.",
     [GR + "mirror.py", GR + "spinflip.py", GR + "square.py"],
     [("mirror", GR + "mirror.py"), ("spin exchange", GR + "spinflip.py"), ("square layout", GR + "square.py")])

prop("C06", "Contracted density gradients carry the right spin pairs",
     "For a spin-unpolarised density the contracted gradient is the squared length of the density's gradient; for a polarised one the three columns are up-up, up-down and down-down products, in that order. "
     "The reduced gradient is the gradient length over twice the local Fermi momentum times density, per spin column, and arguments are never modified.",
     ["inputs"], "all positive densities, one and two spin columns",
     "No test covers polarised gradients; symmetric densities hide swapped columns.",
     [GR + "sigma.py", GR + "reduced_grad.py"], [("contracted gradient", GR + "sigma.py"), ("reduced gradient", GR + "reduced_grad.py")])

prop("C07", "The nuclear potential is that of the two nuclei at the two foci",
     "At every grid point the external potential of charges Za and Zb is minus Za over the distance to the first focus minus Zb over the distance to the second focus, "
     "the first focus lying at negative and the second at positive height, half the bond length from the mirror plane.",
     ["inputs", "configurations"], "all charges, focal distances and points",
     "Tests use one geometry and mostly equal charges.",
     ["CADMium/common/coulomb.py"], [("two-centre Coulomb potential", "CADMium/common/coulomb.py")])

prop("C08", "The Hartree potential solves Poisson's equation with multipole boundary",
     "For every density the returned potential is the solution of the discretised Poisson equation with source minus four pi times the total (spin summed) density, with the boundary values "
     "beyond the box given by the density's multipole expansion up to order seven; every spin column of the result holds that same potential. An initialised grid is ready for it. The Hartree energy density is half the potential, and neither the density nor the grid is modified by the calculation.",
     ["inputs", "configurations"], "all densities, in one or two spin columns or as a plain vector, and all factorisations of the Laplacian including row and column permutations",
     "Tests compare one density; a wrong multipole coefficient contributes little there, and a mishandled factor permutation depends on the matrix.",
     ["CADMium/hartree/hartree.py"], [("multipole boundary and Poisson solve", "CADMium/hartree/hartree.py")])

prop("C09", "Exchange-correlation energies and potentials match the functional library",
     "For every density, functional family (local or gradient corrected) and spin count, the energy is the integral of energy per particle times total density and the potential of each spin is the "
     "functional derivative: the library's density derivative, minus, for gradient functionals, the divergence of the gradient term with factor two for the same spin and one for the cross term. "
     "The energy per particle handed out is the library's, the density is unchanged, and an unknown family is refused.",
     ["inputs", "configurations"], "all densities, both families, one and two spins",
     "The functional library is not exercised with polarised gradient functionals in any test.",
     ["CADMium/libxc/libxc.py"], [("functional interface", "CADMium/libxc/libxc.py")])

prop("C10", "Each orbital solver diagonalises the Kohn-Sham Hamiltonian of its symmetry",
     "For every angular momentum m, the operator handed to the eigensolver is minus half the Laplacian (even parity operator for even m, odd for odd m) plus the centrifugal term proportional to m squared "
     "plus the effective potential, weighted consistently by the volume element, and it does not depend on spin. The number of requested states and the target energy are the solver's own.",
     ["inputs", "configurations"], "m = 0, 1, 2, 3, all potentials and grids",
     "Tests only check that some energies come out for m = 0 and 1 in one system.",
     [SO + "pssolver.py", SO + "calc_orbitals.py"],
     [("Hamiltonian", SO + "pssolver.py"), ("diagonalisation", SO + "calc_orbitals.py")])

prop("C11", "Occupations follow electron count, angular momentum and spin",
     "A solver's density is the occupation weighted sum of squared unit-normalised orbitals, a filled orbital holding 2 electrons (m=0) or 4 (m>0) in unpolarised and half of that in polarised calculations, filling "
     "from the lowest level; with fractional occupation allowed the next level carries exactly the remainder. "
     "Normalising orbitals only rescales them to that occupation, the default electron number fills all requested orbitals of the m=0 solver, and the table of solvers gives every (m, spin) entry its own orbital and electron number.",
     ["inputs", "configurations"], "all electron numbers (symbolic), m = 0, 1, 2, one or two spins, integer and fractional occupation",
     "Tests use closed shells only.",
     [SO + "pssolver.py", SO + "calc_density.py", SO + "normalize_orbitals.py"],
     [("density", SO + "calc_density.py"), ("normalisation", SO + "normalize_orbitals.py"), ("solver table", SO + "pssolver.py")])

prop("C12", "Eigenvalue sums, kinetic energy and kinetic energy density are consistent",
     "The eigenvalue sum is the occupation weighted sum over the same levels that make up the density, the kinetic energy is that sum minus the integral of effective potential times density, and "
     "the kinetic energy density is the occupation weighted sum of each unit-normalised orbital times the kinetic operator (centrifugal term included) applied to it, for integer and fractional occupations alike.",
     ["inputs", "configurations"], "all orbitals, eigenvalues and electron numbers, m = 0, 1, 2, one or two spins",
     "Only total energies of closed shells are compared in tests.",
     [SO + "calc_energy.py", SO + "calc_ked_WFI.py"], [("energy", SO + "calc_energy.py"), ("kinetic energy density", SO + "calc_ked_WFI.py")])

prop("C13", "Orbitals stay paired with their eigenvalues in ascending order",
     "Whatever order the eigensolver returns states in, the stored levels ascend and each orbital is the one belonging to its eigenvalue, also after a repeated attempt, in the results handed back to a parent process, and in degenerate pairs, which "
     "become combinations of definite mirror parity exactly when the potential is mirror symmetric (of a potential without that symmetry they stay as the solver returned them). With the symmetry option set, every orbital has definite mirror parity. A solver without orbitals reports an eigenvalue of minus the largest representable scale and contributes nothing. "
     "The iterative refinement solves, for each orbital, the Newton system of the eigenvalue equation with a norm constraint and updates that orbital and eigenvalue only until converged, which the residual of that equation against the tolerance alone decides; every orbital is normalised afterwards.",
     ["inputs", "configurations", "histories"], "all returned orders of two and three levels, degenerate and distinct, direct and iterative refinement",
     "The order of the eigensolver's results and degenerate subspaces cannot be forced by a test input.",
     [SO + "calc_orbitals.py", SO + "iter_orbitals.py"], [("diagonalisation", SO + "calc_orbitals.py"), ("refinement", SO + "iter_orbitals.py")])

prop("C14", "The highest occupied level is the last level holding electrons",
     "For every electron number that fills whole levels, the reported highest occupied eigenvalue is that of the last filled level, and minus the largest representable scale if there are no electrons. "
     "With fractional occupation it is the partly filled level.",
     ["inputs", "configurations"], "m = 0, 1, 2, one or two spins, zero to three levels filled",
     "Tests have one filled level.",
     [SO + "get_homo.py"], [("highest occupied level", SO + "get_homo.py")])

prop("C15", "The linear response is the occupation weighted first-order response",
     "The density response matrix of a solver is the sum over occupied orbitals of occupation times orbital times the Green's function of the orbital's own level (projected on the other states) times orbital, summed over all occupied levels with fractional weights where allowed.",
     ["inputs", "configurations"], "all orbitals and eigenvalues, m = 0, 1, 2, one and two spins, one and two filled levels, fractional occupation",
     "No test computes a response for m > 0, several levels or fractional occupation.",
     [SO + "calc_response.py"], [("response", SO + "calc_response.py")])


KS = "CADMium/kohnsham/"
PA = "CADMium/partition/"
IN = "CADMium/inverter/"

prop("C16", "The effective potential and the density belong to the same calculation",
     "For every number of angular momentum levels and spins, the effective potential given to each orbital solver is nuclear plus external plus interaction potential of that solver's own spin (a potential set from outside replaces it as given), the interaction potential being Hartree plus exchange plus correlation of the current density, or nothing for independent electrons. The calculation's density, column per spin, is the sum over angular momenta of the densities of solvers diagonalised in that potential, with iterative refinement used only if asked for and the last change is small. With mirror symmetry requested, nuclear and interaction potentials and the density are the averages with their mirror images; the density used is never modified.",
     ["inputs", "configurations"], "all potentials and densities, one to three levels, one or two spins, symmetric or not, full and iterative diagonalisation",
     "Tests have one or two systems; parallel and iterative branches, several levels per spin and symmetrisation are not sampled together.",
     [KS + "kohnsham.py"], [("potential and density assembly", KS + "kohnsham.py")])

prop("C17", "The Kohn-Sham total energy is built from its components exactly once",
     "The kinetic energy and eigenvalue sum are the sums over all solvers; nuclear, external, exchange, correlation and Hartree energies are those of the current density with the functionals that were asked for, and the total energy is their sum, each counted once and independent of how often "
     "energies have been evaluated before. Independent electrons have no interaction energies. Two calculations never share an energy record, and the chemical potential is the highest occupied level over all angular momenta and spins.",
     ["inputs", "configurations", "histories"], "all densities, potentials and solver energies, one to three levels, one or two spins, repeated evaluations and several calculations at once",
     "Tests compare totals of systems with few levels; accumulated or shared state needs two calculations or two evaluations.",
     [KS + "kohnsham.py"], [("energy", KS + "kohnsham.py")])

prop("C18", "The Kohn-Sham self-consistent loop mixes, stops and reports as asked",
     "In every pass of the self-consistent loop each orbital solver gets nuclear plus external plus interaction potential of the current density, the new density is the old one plus the mixing fraction times the change (starting from the density of the bare potential, or from the previous one when continuing, with the external potential kept), and spin symmetry averages spin up with the mirrored spin down in potential and density. The loop ends as soon as the relative change in the density of every spin (none for a spin without electrons) and in the energy are at most the tolerance and not earlier (with automatic tolerance only after the given number of passes without improvement as well), and never makes more than the allowed passes. Iterative refinement of orbitals is used only on request and is told the latest change; energy and chemical potential are evaluated with the density of each pass.",
     ["inputs", "histories", "configurations"], "all densities and mixing fractions over one to three passes (symbolic); scripted histories of changes for the stopping rules",
     "Whether and when the loop stops depends on the history of changes, which a test cannot script through the physics.",
     [KS + "scf.py"], [("loop", KS + "scf.py")])

prop("C19", "Options are validated, case-insensitive, forwarded and never mutate arguments",
     "An option name that a calculation, partition, inverter or self-consistent loop does not know, or a value outside the allowed ones, is refused with an exception instead of being ignored; option names are accepted in any case. Functional identifiers and families, "
     "symmetry and fractional occupation given to a calculation or partition reach every fragment, functional and orbital solver, and each orbital solver gets its own level's angular momentum, orbital and electron number. The dictionaries and lists passed in are left as they were, "
     "orbital and electron tables of different shape are refused, and so is mirror symmetry between different nuclei. Options left out take the documented defaults: local density functionals, the exact interaction part, the von Weizsaecker kinetic part, the Wu-Yang inversion, symmetries and fractional occupation off.",
     ["inputs", "configurations"], "every option of each class, with right, wrong and mixed-case names and values, ensembles or not",
     "Tests set a few options in lower case; a choice that is silently dropped still yields a plausible calculation.",
     [KS + "kohnsham.py", KS + "scf.py", PA + "partition.py", PA + "scf.py", IN + "inverter.py"],
     [("options of a calculation", KS + "kohnsham.py"), ("options of a partition", PA + "partition.py"), ("options of the loops", PA + "scf.py")])

prop("C20", "Fragment densities add up to the total and their shares to one",
     "For every partition, ensemble or not, each component has its own nucleus, electrons and orbitals, and the weight 1-nu or nu of its side (halved when spin-symmetrised). The density of each fragment is the weighted sum of its components' densities (plus the spin-exchanged image if spin-symmetrised) and the total that of both fragments, calculated anew at each call without changing the components. The share function of each component is its own weighted density over the total, finite where there is no density at all, and the shares of all components add up to one at every point and spin.",
     ["inputs", "configurations"], "all component densities and ensemble weights, one or two spins, with and without ensembles on either side, spin and mirror symmetry",
     "Tests have symmetric or single-ensemble dimers where a wrong weight cancels.",
     [PA + "partition.py"], [("fragments and weights", PA + "partition.py"), ("protomolecule and shares", PA + "partition.py")])

prop("C21", "Fragment energies are the ensemble averages and the partition energy the rest",
     "Each fragment energy term (kinetic, nuclear, exchange, correlation, Hartree, interaction potential, eigenvalue sum, total) is the sum of component values weighted by the component's scale, over all components of both fragments, doubled for spin symmetrised calculations and with the second fragment equal to the first for mirror symmetry; components are unchanged and repeated evaluation gives the same numbers. The partition energy is the sum of its nuclear, kinetic and interaction parts (zero for isolated fragments), the nuclear part being each fragment's density in the other's nuclear potential, and the total energy is fragments plus partition energy plus the repulsion of the nuclei. The listed eigenvalues are those of all components of each fragment in order.",
     ["inputs", "configurations", "histories"], "all energies and weights, with and without ensembles, spin and mirror symmetry, interacting or not, repeated evaluations",
     "Tests compare two symmetric dimers; missing an ensemble component of one side is invisible there.",
     [PA + "energy.py", PA + "partition_energy.py", PA + "ep_nuclear.py"],
     [("fragment and total energies", PA + "energy.py"), ("partition energy", PA + "partition_energy.py"), ("nuclear part", PA + "ep_nuclear.py")])

prop("C22", "The interaction partition energy is the non-additive functional",
     "With the exact functional the Hartree, exchange and correlation parts are those of the sum-of-fragments density minus the summed fragment values, and zero for independent electrons; with Hartree only the exchange-correlation parts vanish. The overlap approximations scale the non-additive parts with the overlap measure "
     "computed from the fragments' densities, and add the complementary share of the ensemble's correlated Hartree energy, which itself is built from all component pairs of the two fragments with their weights, spin-flipped components included. An unknown choice is refused. The exact functional's energy densities, multiplied by the total density and integrated, give the same parts: the whole's energy per particle minus the density-share weighted sum of the components' (mirror and spin images included).",
     ["inputs", "configurations"], "all densities, one or two spins, with and without ensembles, spin symmetrised or not, every supported interaction approximation",
     "Tests cover the exact functional for two dimers only.",
     [PA + "ep_hxc.py", PA + "EnsCorHar.py"], [("interaction energy", PA + "ep_hxc.py"), ("ensemble correlated Hartree", PA + "EnsCorHar.py")])

prop("C23", "The interaction partition potential is the derivative of that energy",
     "For each component the exact interaction potential is that of the sum-of-fragments density minus the component's own, separately for Hartree, exchange and correlation and summed, and zero for independent electrons; Hartree only leaves out exchange-correlation. For the overlap approximations "
     "it is the functional derivative of the overlap-weighted energy per weight of the component, the measure depending on the densities summed over spin: the measure times the exact potential plus the energy times the derivative of the measure, and for the correlated Hartree term the complementary share minus its energy times that derivative. Points without density get a finite value.",
     ["inputs", "configurations"], "all densities and potentials, one or two spins, with and without ensembles, every supported interaction approximation",
     "Energies and potentials are compared with each other nowhere in the tests.",
     [PA + "vp_hxc.py", PA + "vp_overlap.py"], [("interaction potential", PA + "vp_hxc.py"), ("overlap derivative", PA + "vp_overlap.py")])

prop("C24", "The partition potential is the density-share average of component potentials",
     "Each component's nuclear partition potential is the total external potential minus its own nucleus. Each component's partition potential is the sum of its kinetic, nuclear and interaction parts, and the one common partition potential is the sum over all components of "
     "share times component potential, evaluated piece by piece in the same way, averaged with its spin-exchanged image or mirror image if those symmetries are requested; a second evaluation does not accumulate on the first.",
     ["inputs", "configurations", "histories"], "all component potentials and shares, one or two spins, with and without ensembles, spin and mirror symmetry, repeated evaluation",
     "Tests only see the final energies of symmetric dimers.",
     [PA + "partition_potential.py", PA + "vp_nuclear.py", PA + "partition.py"],
     [("assembly", PA + "partition_potential.py"), ("nuclear part", PA + "vp_nuclear.py")])

prop("C25", "The kinetic partition potential is the difference of kinetic derivatives",
     "For each component the kinetic potential is the derivative of the chosen kinetic functional at the sum-of-fragments density minus that at the component's own density (von Weizsaecker per spin, or the library functional), zero if kinetic energy is neglected, and finite where there is no density. "
     "In the two-orbital approximation (four electrons, one spin) it is the derivative of the two-orbital energy with respect to that fragment's density, through both orbitals and their norms, minus the component's own von Weizsaecker derivative. "
     "With inversion it follows from the Euler equations: chemical potential minus inverted potential for the whole, against the highest occupied level of all the components, over all their angular momenta and spins, minus the component's own effective potential, per spin, the inversion being started from the guessed potential, orbitals (one after the other) and levels of that spin, also for fragments with different numbers of levels.",
     ["inputs", "configurations"], "all densities, potentials and levels, one or two spins, one to three angular momenta per fragment, with and without ensembles and spin symmetry",
     "Tests use one kinetic choice with one level each.",
     [PA + "vp_kinetic.py"], [("kinetic potential", PA + "vp_kinetic.py")])

prop("C26", "The kinetic partition energy is the non-additive kinetic energy",
     "The kinetic partition energy is the kinetic energy of the whole (von Weizsaecker, summed over spins, or library functional of the sum-of-fragments density, kinetic energy of the inverted potential, or the two-orbital approximation) minus the summed kinetic energies of the fragments evaluated in the matching way with their weights, "
     "zero if neglected; an unknown choice is refused. The kinetic partition energy density times the total density integrates to that energy: the whole's kinetic energy per particle minus the components', weighted by their density shares, over all levels and spins.",
     ["inputs", "configurations"], "all densities, one or two spins, with and without ensembles, spin symmetry for inversion, every supported kinetic choice",
     "Tests use symmetric dimers and inversion only.",
     [PA + "ep_kinetic.py"], [("kinetic energy", PA + "ep_kinetic.py")])

prop("C27", "Mirroring makes the second fragment the exact image of the first",
     "After mirroring, every component of the second fragment has the mirror image of the density, share, effective, partition, exchange, correlation and Hartree potential and energy density of the corresponding component of the first and the same energies, including ensemble components; the first fragment is unchanged, "
     "the image shares no grid array and no energy record with the original, quantities not calculated yet are left alone, and mirroring again changes nothing.",
     ["inputs", "configurations", "histories"], "all fields and energies, one or two spins, with and without ensembles, mirroring repeatedly",
     "Tests never compare the two fragments; a shared array only matters at the next pass.",
     [PA + "partition.py"], [("mirrorAB", PA + "partition.py")])

prop("C28", "The partition loop gives every fragment its own mixed density and potential",
     "In each pass every component's solvers get that component's nuclear plus interaction plus partition potential (the component's own for subsystem calculations, none if isolated, the old external potential if frozen), its new density is the old plus its fragment's mixing fraction times the change, and the total density, shares, mirror images and partition potential always belong to the current fragments, a given target density being kept as total, and every component's chemical potential that of its latest solution. The loop stops as soon as the relative change of the total density of every spin (none for a spin without electrons) and of the energy are at most the tolerance and not earlier (with automatic tolerance only after the given number of passes without improvement as well), and never makes more than the allowed passes. Two failed inversions in a row end the calculation with an exception, a single one does not; iterative refinement happens only on request.",
     ["inputs", "histories", "configurations"], "all densities, potentials and mixing fractions over two passes (symbolic), every calculation type and symmetry; scripted histories for stopping and failing inversions",
     "The order of updates and the stopping rule show only in multi-pass histories that a converged test hides.",
     [PA + "scf.py"], [("loop", PA + "scf.py")])

prop("C29", "The Wu-Yang inversion solves for the density it was given",
     "For each spin the inversion poses one least-squares problem whose unknown is the potential on the grid and whose residual is the relative difference between the density of all the levels in that potential (of that spin's own solvers, mirror symmetrised on request) and the given density, plus the potential at the last point as gauge; the Jacobian is the response of all levels divided by that density. "
     "It starts from the solvers' present potential, else the given guess, else the von Weizsaecker potential, spin by spin and also when repeated. Afterwards potential, chemical potential (highest occupied of all levels), flags and reports are those of each level and spin, both spins alike if spin-symmetric, and the given density is unchanged.",
     ["inputs", "configurations", "histories"], "all densities and potentials, one or two spins, one to three levels, mirror symmetry, spin symmetry, first and repeated inversion",
     "The inversion test has one level and one spin; a missing level, spin or restart shows only with more.",
     [IN + "linresponse.py", IN + "inverter.py"], [("residual and Jacobian", IN + "linresponse.py"), ("inverter", IN + "inverter.py")])

prop("C30", "Inversion results add up all levels and spins",
     "The kinetic energy of an inverted density is the sum of the kinetic energies of all levels of all spins, its kinetic energy density per spin the sum over that spin's levels (levels without electrons add nothing, evaluated anew at each call), both counted for two equal spins if spin-symmetric, and the kinetic potential is the spin's chemical potential minus its inverted potential. "
     "The inversion method asked for is the one that runs, on the given density and guess, its outcome is returned, and an unknown method is refused.",
     ["inputs", "configurations"], "all potentials and levels, one or two spins, one to three levels, empty levels, spin symmetry",
     "Tests only use one level.",
     [IN + "get_Ts.py", IN + "get_ts_WFI.py", IN + "inverter.py"],
     [("kinetic energy", IN + "get_Ts.py"), ("kinetic energy density", IN + "get_ts_WFI.py"), ("dispatch", IN + "inverter.py")])

prop("C31", "The orbital inversion takes Newton steps on the stationarity conditions",
     "The first guess of an orbital inversion is the given (or the solver's present) orbitals normalised to two electrons each (a partly filled highest orbital to its share of two) with potential and levels measured from the highest occupied level, also if more are offered than needed, for the requested spin only. Each step solves the linear system whose matrix and right hand side are derivative and value of the orbital equations, the norms of all but the last orbital and the density difference, adds it, and normalises again; "
     "far from a solution the orbitals are recalculated in the present potential instead. Success is reported exactly if the residual is below the tolerance within the allowed evaluations, each inversion reports on itself, and with mirror symmetry every orbital becomes its own even or odd part (a degenerate pair its even and odd combination) and the potential even.",
     ["inputs", "configurations", "histories"], "all orbitals, levels, potentials and densities on small meshes (symbolic), one to three orbitals, one or two spins; scripted endings",
     "Only end results of one dimer are tested; a wrong derivative still converges, slowly or to something else.",
     [IN + "orbitalinvert.py"], [("orbital inversion", IN + "orbitalinvert.py")])

prop("C32", "The first guess for an inversion comes from the fragments of that spin",
     "The guessed potential is the share-weighted average of the components' effective potentials of the requested spin (mirror images included for mirror symmetry), and the guessed orbitals are the combinations of all components' normalised orbitals of that spin that diagonalise the Hamiltonian of that potential level by level, with ascending energies and normalised to their occupation (the second fragment's orbitals being the mirror images of the first's for mirror symmetry), "
     "also for fragments with different numbers of levels. Fragments are unchanged.",
     ["inputs", "configurations"], "all fragment potentials, shares and orbitals, one or two spins, with and without ensembles, one or two levels per fragment",
     "The tests use one symmetric dimer with one orbital each.",
     [PA + "initialguessinvert.py"], [("first guess", PA + "initialguessinvert.py")])

prop("C33", "Plot data show every value at its own place",
     "The plotting arrays cover both half planes and close across the axis: every entry is the function's value at a grid point (times the requested symmetry factor on the mirrored half) together with that point's height and signed distance. The profile along the axis lists values of the points nearest to the axis with their heights in ascending order.",
     ["inputs", "configurations"], "all functions on several mesh shapes, vectors and one-column arrays, any symmetry factor",
     "No test looks at plot data.",
     [GR + "plotter.py", GR + "psgrid.py"], [("plane", GR + "plotter.py"), ("axis profile", GR + "psgrid.py")])

prop("C34", "Evaluating a quantity never changes what it is evaluated from",
     "Grid functions, functionals, solver energies, densities and levels, Kohn-Sham energies and potentials, and all partition energies and potentials leave their arguments and the quantities they are calculated from exactly as they were: grid data, densities, orbitals, eigenvalues, external and component potentials, component energies, weights and options.",
     ["inputs", "configurations", "histories"], "all values of the protected quantities, one or two spins, with and without ensembles, every supported interaction and kinetic choice",
     "An in-place update of shared data is invisible in a single evaluation and shows only in the next step of a calculation.",
     [GR + "psgrid.py", SO + "pssolver.py", KS + "kohnsham.py", PA + "partition.py", "CADMium/libxc/libxc.py"],
     [("grid functions", GR + "psgrid.py"), ("solver quantities", SO + "pssolver.py"), ("Kohn-Sham quantities", KS + "kohnsham.py"), ("partition quantities", PA + "partition.py")],
     technique="effect analysis (frame conditions) on top of the value numbering")

prop("C35", "No code path ends in an undefined name, attribute, import or call",
     "Whatever options are chosen, the package never reaches a name that nothing binds, a local variable no assignment of which can have happened, an attribute that no object of the package or its numerical libraries has, an import of something that does not exist, or a call of a function of the package or of its numerical libraries with arguments that function does not accept.",
     ["configurations", "inputs"], "every statement of every module of the package, reachable from tests or not",
     "Tests do not visit the branches of most options; Python finds such errors only when the branch runs.",
     ["CADMium/"], [("the whole package", "CADMium/")],
     technique="definedness analysis of names, locals, attributes, imports and call shapes over the syntax trees",
     note="Eleven known findings, all in unfinished options (paramke, simple, qinvert, eigensolveinvert, test, fixed, potential_inversion).")

prop("C40", "With every supported option a calculation computes what it needs before use",
     "A Kohn-Sham or partition calculation started on newly constructed objects, the calculation that continues it, and a molecular one that starts from isolated fragments run through without ever reading an attribute, energy or potential that no earlier step has computed, and without any other exception: for one and two spins, integer and fractional (ensemble) fragments, one or two levels, spin symmetry and mirror symmetry, both interaction types, every interaction part (exact, hartree, overlap_xc, overlap_hxc) and kinetic part (vonweiz, libxcke, inversion by either method, none, twoorbital), both calculation types, every mixing and tolerance choice.",
     ["configurations", "histories"], "every listed option alone with all spins, ensembles and symmetries, and 960 combinations of the options that decide what is computed when; numerical leaves (eigensolver, functional library, inversion) are free values, loops run one pass, or two by continuing",
     "What is set before what depends on the options; tests run a few combinations, mostly on objects an earlier calculation has already filled.",
     [PA + "scf.py", KS + "scf.py", PA + "partition.py"], [("partition loop", PA + "scf.py"), ("Kohn-Sham loop", KS + "scf.py"), ("partition energies", PA + "energy.py")],
     note="Two known findings: surprisal (unfinished) and twoorbital with ensembles.")

prop("C41", "Evaluations depend on their present inputs, not on earlier evaluations",
     "What a method computes from the state it is given is the same on an object that has been used before, with other densities, potentials, orbitals, spins or options, as on a new one: nothing accumulates from call to call and no result of an earlier evaluation is handed out again. This covers the grid functions, densities, energies, highest levels, kinetic energy densities and responses of the orbital solvers, Kohn-Sham potentials, densities and energies, functionals and the Hartree potential (also after a call with the other number of spins), fragment totals and shares, every part of the partition potential and energy, the mirrored fragment, the kinetic quantities of an inverted density, and whole Kohn-Sham and partition calculations that are started anew (not continued, with full diagonalisation). The Kohn-Sham loop keeps an external potential it has been given.",
     ["inputs", "histories"], "every listed method twice on one object against once on a new one; one and two spins, m = 0 and m > 0, integer and fractional occupation, ensembles, spin and mirror symmetry, four interaction parts and three kinetic parts; whole calculations of two passes",
     "A test runs each calculation once on new objects; results that depend on what was evaluated before need histories.",
     [SO + "calc_density.py", KS + "kohnsham.py", PA + "partition.py", PA + "energy.py", "CADMium/libxc/libxc.py", "CADMium/hartree/hartree.py"],
     [("orbital sums", SO + "calc_density.py"), ("Kohn-Sham energies", KS + "kohnsham.py"), ("partition potential", PA + "vp_hxc.py"), ("partition loop", PA + "scf.py")])

na("C36", "Self-consistent energies converge to the exact atomic and molecular values",
   "Converged Kohn-Sham and partition calculations give the energies of the underlying equations to the accuracy promised by the grid, and the iteration converges for the documented systems.",
   ["inputs", "configurations"], "all systems and grids", "Only sample systems can be tested.",
   [KS + "scf.py", PA + "scf.py"], [("loops", KS + "scf.py")],
   "Convergence of a nonlinear fixed-point iteration and discretisation error are runtime numerical quantities; no sound static argument in reach bounds them.")

na("C37", "Eigenpairs returned by the orbital solver are accurate to its tolerance",
   "Orbitals and eigenvalues returned by the iterative eigensolver and its refinement satisfy the eigenvalue equation to the requested tolerance, and no eigenvalue below the returned ones is missed.",
   ["inputs"], "all potentials", "Only sample potentials can be tested.",
   [SO + "calc_orbitals.py", SO + "iter_orbitals.py"], [("eigensolver", SO + "calc_orbitals.py")],
   "Depends on the convergence of ARPACK and of Newton steps in floating point; the pencil handed over and the pairing of the results are decided in C10 and C13.")

na("C38", "Inverted potentials reproduce the given density",
   "After a successful inversion the density of the returned potential equals the given one to the tolerance.",
   ["inputs"], "all densities", "Only sample densities can be tested.",
   [IN + "linresponse.py", IN + "orbitalinvert.py"], [("inversion", IN + "linresponse.py")],
   "Depends on the convergence of scipy's least-squares solver and of Newton's method in floating point; the posed equations are decided in C29 and C31.")

na("C39", "Round-off never makes densities negative or results non-finite",
   "Densities are nonnegative, and energies and potentials are finite, at every grid point in floating-point arithmetic.",
   ["inputs"], "all inputs in floating point", "Only sample inputs can be tested.",
   ["CADMium/libxc/libxc.py", PA + "vp_kinetic.py"], [("divisions by densities", PA + "vp_kinetic.py")],
   "The analysis works in exact real arithmetic; floating-point ranges of densities, exponentials and quotients over arbitrary inputs have no useful static bound here. The guards against empty points are decided in C20, C23 and C25.")
