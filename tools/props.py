"""The properties: written to properties.jsonl and MANIFEST.json by tools/build.py."""

SIM = "nannos/simulation.py"
LAY = "nannos/layers.py"
LAT = "nannos/lattice.py"
EXC = "nannos/excitation.py"
INI = "nannos/__init__.py"
FFT = "nannos/formulations/fft.py"
TAN = "nannos/formulations/tangent.py"
JON = "nannos/formulations/jones.py"
GEO = "nannos/geometry.py"
OPT = "nannos/optimize.py"
SAM = "nannos/sample.py"
PAR = "nannos/parallel.py"
HEL = "nannos/utils/helpers.py"
PLO = "nannos/plot.py"
LOG = "nannos/log.py"

# id: title, statement, over, text, why, files, mechanisms, observe, bound note
P = {}


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique):
    P[id] = dict(
        title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, technique=technique
    )


prop(
    "C01", "What a simulation answers does not depend on its history",
    "Whatever sequence of queries (efficiencies in every form, fields, stress, S-matrices of any part of the stack, permittivity maps), repeated solves and "
    "partial resets precedes a query, its answer is the one a freshly built simulation with the same parameters gives to that query alone. "
    "After the parameters of a layer (thickness, permittivity, tangent field) are changed and the simulation is reset, answers are those of the new parameters. "
    "Queries never modify the layers' parameters, the excitation or arrays returned earlier.",
    ["histories"], "every sequence of queries, changes followed by reset, solves and resets on one simulation",
    "Tests call one or two queries in one order on a fresh object; the cached eigenmodes, total and partial S-matrices make the answer depend on what was asked before.",
    [SIM, LAY],
    [("cached total S-matrix and partial S-matrices, dropped by reset", SIM + ":Simulation.get_S_matrix, reset"), ("token of the last solve", SIM + ":Simulation.is_solved")],
    ["Simulation public queries"],
    "Every operation sequence to depth 3 (quick) or 4 (thorough) over 25 operations is executed on the real objects and compared with a fresh simulation; also every pair of queries on stacks of 15 layers. Depth beyond that, and other structures, are not explored.",
    "stateful exhaustive exploration of operation sequences on the real code, against a fresh-object oracle",
)
prop(
    "C02", "Simulations that share layers, lattice or excitation do not interfere",
    "When several simulations are built from the same layer objects (or lattice, or excitation) and differ in wavelength, angle, truncation, formulation or in the position of the "
    "layers in the stack, every interleaving of their queries gives each of them the answers it gives alone with layers of its own. "
    "The state one simulation leaves in a shared layer is never used by another.",
    ["histories", "schedules"], "every interleaving of the operations of 2 or 3 simulations sharing objects",
    "Tests build new layers for each simulation, or use them one after the other.",
    [SIM, LAY], [("layers store the eigenmodes of the last simulation that solved them, with the token of that solve", SIM + ":Simulation.solve, is_solved")],
    ["Simulation public queries"],
    "All interleavings of 4 (quick) or 5 (thorough) operations of two simulations, and of three, in 11 ways of sharing, on the real objects.",
    "exhaustive enumeration of interleavings of the real objects, against each simulation alone",
)
prop(
    "C03", "A layer copy is an independent layer with the same parameters",
    "A stack that uses copies of a layer, copies of copies, in any position, with or without the original, and for uniform, patterned or anisotropic layers, "
    "gives the results of a stack where each one is created separately with the same parameters. "
    "Changing the material or the thickness of the original or of the copy afterwards changes that one only.",
    ["histories", "configurations"], "every sequence of copies, changes and simulations, every stack",
    "Tests use a single copy placed after its original, never modified.",
    [LAY, SIM], [("copies reuse the eigenmodes of the original when it was solved in the same simulation", SIM + ":Simulation._shares_eigenmodes, build_matrix; " + LAY + ":Layer.copy")],
    ["efficiencies, fields, stress of stacks with copies"],
    "All operation sequences to depth 4 (quick) or 5 (thorough) for 7 kinds of layers; every stack of a list of 6 simulated at the end of each.",
    "exhaustive exploration of operation sequences, bound to a reference model of layer parameters",
)
prop(
    "C04", "Energy is conserved, and absorption is what is missing",
    "For lossless structures the reflected and transmitted efficiencies sum to one, for every lattice, truncation, incidence and polarisation. "
    "For absorbing ones the efficiencies sum to at most one and the missing part is the power dissipated in the layers, integrated from the fields. "
    "Each order carries a non-negative efficiency, zero when it is evanescent.",
    ["inputs", "configurations"], "every combination of lattice, motif, materials, excitation, exterior media and stack of the alphabet",
    "Tests check R+T=1 on one structure per formulation.",
    [SIM, LAY], [("S-matrix recursion and Poynting fluxes per order", SIM + ":Simulation.get_S_matrix, get_z_poynting_flux, diffraction_efficiencies")],
    ["diffraction_efficiencies, fields"],
    "Complete product of a finite alphabet; tolerance 1e-7 or better. Formulations that are not energy conserving at finite truncation (2D tangent, jones, pol) are covered by C14.",
    "exhaustive enumeration of a bounded scenario space on the real code with conservation-law monitors",
)
prop(
    "C05", "Stacks of uniform layers give the exact Fresnel and thin-film solution",
    "Stacks of uniform layers, described by scalars or by constant patterns, give the reflection and transmission efficiencies and the complex field amplitudes of the exact "
    "transfer matrix solution for every polarisation, incidence angle, absorbing or evanescent layer, and exterior media. "
    "This includes stacks without any inner layer, total internal reflection and frustrated transmission.",
    ["inputs", "configurations"], "every stack up to the bound, materials, thicknesses, angles, polarisations",
    "Tests compare normal or single incidence values.",
    [SIM, LAY, EXC], [("uniform layer eigenmodes", LAY + ":Layer.solve_uniform"), ("excitation amplitudes", EXC + ":PlaneWave")],
    ["diffraction_efficiencies, fields"],
    "Complete product of the alphabet, against an independent transfer matrix code (tolerance 1e-9).",
    "exhaustive enumeration of bounded stacks, against an independent analytic model",
)
prop(
    "C06", "Scattering matrices compose, and equivalent stacks answer the same",
    "The scattering matrix of a stack is the composition of the matrices of its parts, wherever it is cut. "
    "Cutting a layer in two, inserting a layer of zero thickness or moving the reference depth of an exterior layer leave efficiencies and fields unchanged at the same physical depths, in every formulation. "
    "The matrix of a part without interfaces is the identity, and the reversed stack has the blocks exchanged.",
    ["histories", "configurations"], "every sequence of equivalence moves up to the bound, every pair of indices",
    "Tests compute the matrix of one stack once.",
    [SIM], [("recursion over interfaces and partial matrices", SIM + ":Simulation.get_S_matrix, _solve_int")],
    ["get_S_matrix, get_field_fourier, diffraction_efficiencies"],
    "Breadth-first over equivalence moves to depth 2 (quick) or 3 (thorough) from 7 stacks.",
    "explicit-state breadth-first exploration over rewriting moves, executed on the real code",
)
prop(
    "C07", "Equivalent descriptions of one structure give the same physics",
    "Translating the pattern, rotating or mirroring structure and incidence together, changing the basis of the lattice, rescaling all lengths, describing it by a supercell, "
    "listing harmonics in another order, aliasing angles, or describing a grating as a bi-periodic structure leave the efficiency of every order unchanged, and fields change only as the move prescribes.",
    ["configurations", "inputs"], "every sequence of equivalence moves up to the bound from each base structure",
    "Tests never compare two descriptions of one structure.",
    [SIM, LAT, EXC], [("lattice and reciprocal vectors, wavevectors, convolution matrices", LAT + ":Lattice; " + SIM + ":Simulation.__init__, _get_toeplitz_matrix")],
    ["diffraction_efficiencies by order, fields"],
    "Breadth-first over symmetry moves to depth 2 (quick) or 3 (thorough).",
    "explicit-state exploration over symmetry moves, executed on the real code",
)
prop(
    "C08", "Reciprocity of every pair of channels",
    "For isotropic (reciprocal) materials, lossy or not, the power transferred from an incident plane wave to a diffraction order, summed over polarisations, equals the power transferred "
    "when the direction of that order is reversed into the incident one; this holds in reflection and, after turning the stack over, in transmission, for every order.",
    ["inputs", "configurations"], "every propagating channel of every structure and incidence of the alphabet",
    "Tests have no reciprocity check; it couples two different simulations.",
    [SIM], [("S-matrix and fluxes", SIM + ":Simulation.get_S_matrix, diffraction_efficiencies")],
    ["diffraction_efficiencies by order"],
    "Complete product of the alphabet, each propagating order reversed.",
    "exhaustive enumeration of channel pairs on the real code",
)
prop(
    "C09", "The fields solve Maxwell's equations and carry the reported power",
    "The fields returned in each layer satisfy the curl equations with the permittivity of the layer at every depth, are continuous (tangential E, H) across every interface, "
    "and their power flux equals 1 minus reflection in the first layer and transmission in the last one. "
    "Exterior layers hold the incident wave plus outgoing waves only.",
    ["inputs", "configurations"], "every interface and depth of every structure of the alphabet",
    "Tests check shapes and that the calls run.",
    [SIM], [("fields from amplitudes", SIM + ":Simulation.get_field_fourier, _get_amplitudes")],
    ["get_field_fourier"],
    "Complete product of the alphabet; derivatives by high-order differences of returned fields.",
    "exhaustive enumeration with differential-equation monitors on the real code",
)
prop(
    "C10", "Field grids, permittivity maps and transforms are Fourier series of one another",
    "Real-space fields equal the sum over harmonics of the Fourier coefficients at each grid point, for every layer (named, indexed, or passed), component, grid shape and list of depths. "
    "The permittivity map of a layer is the Fourier series of its pattern restricted to the harmonics differences kept. "
    "Forward and inverse transforms are inverse to each other on any shape and any axes, in every backend.",
    ["inputs", "configurations"], "every layer, way to name it, component, field, grid shape, depth list",
    "Tests call one shape and one component.",
    [SIM, FFT], [("inverse transforms of amplitudes", SIM + ":Simulation.get_ifft_amplitudes, get_field_grid, get_epsilon"), ("normalisation of transforms", FFT)],
    ["get_field_grid, get_Efield_grid, get_Hfield_grid, get_epsilon"],
    "Complete product of arguments.", "exhaustive enumeration of calls, against explicit Fourier sums",
)
prop(
    "C11", "Diffraction efficiencies are consistent with each other and with the fields",
    "The total is the sum over orders; the squared complex amplitudes are the efficiencies of the orders; dictionaries hold exactly the orders of the simulation with the values of the arrays; "
    "and each efficiency is the power flux of that order in the fields. "
    "This holds for all combinations of the options, in any order of calls, whatever the names of the layers.",
    ["inputs", "configurations"], "every combination of options, structure, excitation, naming",
    "Tests call some option combinations without comparing them.",
    [SIM], [("efficiencies and complex amplitudes", SIM + ":Simulation.diffraction_efficiencies, _get_complex_orders, get_order")],
    ["diffraction_efficiencies, get_order"],
    "Complete product.", "exhaustive enumeration of option combinations with relational monitors",
)
prop(
    "C12", "The truncation keeps the right harmonics",
    "For every number of harmonics asked for, circular truncation keeps at most that many, contains the zeroth order, is made of complete shells sorted by length of the reciprocal vector and could not contain one shell more; "
    "parallelogrammic truncation is a full centred square of orders; gratings keep the lowest orders. "
    "Reciprocal vectors are dual to the lattice vectors, and simulations keep the same harmonics as the lattice.",
    ["inputs", "configurations"], "every lattice of the alphabet and every number of harmonics to the bound",
    "Tests use three or four values of nh on square lattices.",
    [LAT, SIM], [("truncations", LAT + ":_circular_truncation, _parallelogramic_truncation, _one_dim_truncation, Lattice.get_harmonics"), ("reciprocal vectors", LAT + ":Lattice.reciprocal")],
    ["Lattice.get_harmonics, Simulation.harmonics"],
    "Every nh from 1 to 90 (quick) or 300 (thorough) for 14 lattices and both truncations.",
    "exhaustive enumeration against a brute-force reference",
)
prop(
    "C13", "Masks of shapes hold exactly the grid points inside the shape",
    "A mask built from a shape is true exactly at the sample points of the unit cell whose position lies inside the shape, for every lattice, discretization (odd, even, non square), "
    "position (also straddling the cell edges or outside), size and rotation; polygons with holes and unions are masks of their point set. The area of the cell is positive whatever the order of the vectors, the reciprocal vectors are dual to them, and patterns of one value hold it everywhere.",
    ["inputs", "configurations"], "every lattice, discretization, shape, centre, size and rotation of the alphabet",
    "Tests only check that shapes can be built.",
    [GEO, LAT], [("rasterisation by recursive bounding boxes", GEO + ":shape_mask"), ("grid of the lattice", LAT + ":Lattice.grid")],
    ["Lattice.circle, ellipse, square, rectangle, polygon, stripe, geometry_mask"],
    "Complete product; points within 1e-9 of a boundary are not judged.",
    "exhaustive point-by-point comparison over a bounded shape space",
)
prop(
    "C14", "Results are those of an independent solution in every formulation",
    "For isotropic, lossy, metallic and anisotropic layers, in original, tangent, jones and polarisation-basis formulations with any tangent field, reflection, transmission and the field in every layer are those of the "
    "truncated Maxwell equations with the factorization rules of the formulation, solved by other means.",
    ["inputs", "configurations"], "every lattice, stack, excitation, formulation and tangent field of the alphabet",
    "Tests compare formulations on one structure with a loose tolerance.",
    [SIM, LAY, TAN, JON], [("matrices of the formulations", SIM + ":Simulation.build_matrix, _get_Peps, _get_nu_hat_inv")],
    ["diffraction_efficiencies, get_field_fourier"],
    "Complete product, against mc/rcwa.py, an independent solver by matrix exponentials that shares no code with nannos.",
    "exhaustive enumeration of a bounded scenario space, against an independent solver",
)
prop(
    "C15", "The formulation and tangent field change the convergence, not the structure",
    "With automatic or given tangent fields, every formulation gives the exact result for constant patterns, agrees with the grating description for stripes along any direction, "
    "commutes with rotations and scalings of the scene, is independent of the scale of the tangent field, and agrees with the original formulation to second order in a weak contrast. "
    "Automatic fields are along straight interfaces, of unit length if asked for, and of the type asked for.",
    ["inputs", "configurations"], "every formulation, tangent field kind, lattice and excitation of the alphabet",
    "Tests run each formulation once.",
    [SIM, TAN, JON, LAY], [("tangent fields", TAN + ":get_tangent_field"), ("Jones field", JON), ("formulation matrices", SIM + ":Simulation._get_Peps")],
    ["diffraction_efficiencies"],
    "Complete product of the alphabet.", "exhaustive enumeration of equivalence moves, executed on the real code",
)
prop(
    "C16", "Backend, precision, device and log level are what was last asked for",
    "After any sequence of configuration calls and from any start-up environment, the backend, the precision, the device and the log level reported are the last ones asked for, "
    "every object built and every calculation made uses them, and changing one of them leaves the others as they were. A call that is interrupted at any point can be made again, or taken back, with the same result.",
    ["histories", "configurations"], "every sequence of configuration calls to the bound, every start-up environment of the alphabet",
    "Tests switch backend once or twice and never observe precision or log level afterwards.",
    [INI, LOG], [("reload of the package on a change of backend or precision", INI + ":set_backend, use_32_bit, use_gpu, _reload_package"), ("log handlers", LOG + ":set_log_level")],
    ["get_backend, get_types, get_device, results of simulations"],
    "Every action from each of the 20 states, all sequences of 2 (quick) or 3 (thorough) actions; the machine has no GPU, so the cuda transitions are those of a machine without one.",
    "explicit-state exploration of the configuration state machine on the real package",
)
prop(
    "C17", "Every backend and precision computes the same numbers",
    "Efficiencies, complex amplitudes, fields, stress, scattering matrices, permittivity maps, masks, truncations, filters and density maps are the same in the numpy, scipy, autograd, torch and jax backends "
    "within the precision asked for, in every formulation; and double precision results are accurate to double precision in each backend.",
    ["configurations", "inputs"], "every backend, precision, formulation, lattice and excitation of the alphabet",
    "Tests compare the total reflection of one structure.",
    [INI, SIM, LAY, LAT, GEO, HEL], [("backend dispatch and array conversion", INI), ("backend specific branches", HEL)],
    ["all public queries"],
    "Complete product for torch, autograd, scipy; jax with a smaller set (compile time) in quick.",
    "exhaustive differential enumeration over backends",
)
prop(
    "C18", "Gradients are the derivatives of what is computed",
    "With a differentiating backend, the gradient of any efficiency, order or field objective with respect to wavelength, angles, thickness, real or imaginary permittivity (pixels, exterior media) "
    "and density variables through filter, projection and material interpolation equals its finite difference.",
    ["inputs", "configurations"], "every parameter, objective, structure and backend of the alphabet",
    "Tests compare one gradient of one objective.",
    [INI, SIM, OPT, HEL, LAY], [("grad, eigenvalue and backend functions differentiated", INI + ":grad; " + LAY + ":eig_func")],
    ["nannos.grad"],
    "Every (parameter, objective) pair; fourth order differences of the numpy backend as oracle (relative tolerance around 1e-5).",
    "exhaustive enumeration of partial derivatives, against finite differences of the code itself",
)
prop(
    "C19", "Adaptive sampling is a faithful, terminating and bounded refinement",
    "For every function, the adaptive sampler ends and returns the sampled points sorted and without repetition, each with the value of the function there, evaluated once; it keeps the initial points, only halves intervals, "
    "never goes below the minimum spacing, adds points exactly where its bend criterion asks for them and leaves no triple of neighbours that violates it. "
    "The result does not depend on the order of the initial points, the kind of value returned, or the number of jobs.",
    ["inputs", "histories"], "every assignment of values to the initial points to the bound, and adversarial continuations",
    "Tests sample one smooth function.",
    [SAM, PAR], [("refinement loop", SAM + ":adaptive_sampler")],
    ["adaptive_sampler"],
    "The environment (the function) is enumerated exhaustively over 4 values at 5 or 6 points with 3 continuation laws.",
    "exhaustive exploration of the environment's answers, with a round-by-round specification monitor",
)

prop(
    "C20", "Parallel loops are the serial loop, and threads do not interfere",
    "A parallel loop returns what the serial loop returns, in the order of its inputs, for any number of jobs, backend and order of completion, passes the extra arguments and raises the exception of the task that fails. "
    "Simulations run in concurrent threads on layers of their own give the answers they give alone, under every interleaving.",
    ["schedules", "inputs"], "every number of items and jobs, order of completion, failing task, and every schedule of two simulations within the preemption bound",
    "Tests run one parallel loop, and the scheduler of the machine picks the interleavings.",
    [PAR, SIM, LAY, HEL], [("parallel loop decorator", PAR + ":parloop, parallel"), ("module state read by concurrent simulations", INI)],
    ["parloop", "Simulation public queries in threads"],
    "One preemption at every line or call inside nannos, two at a grid of calls (quick). Preemptions inside compiled code are not explored; threads do not share layers.",
    "stateless exploration of thread interleavings of the real code under a controlled scheduler, with a preemption bound",
)
prop(
    "C21", "The topology optimizer returns an admissible design with its own value",
    "Whatever the objective, initial design, projection levels, iteration limit, stop value and method, every design evaluated is within the bounds at the projection level of its stage, the callback sees every one of them with its value, "
    "and the optimizer returns an admissible design together with the value of the objective there, no worse than the start of the last stage. Stages run in sequence, each starting from the result of the previous one, and a design that reaches the stop value ends its stage.",
    ["inputs", "histories"], "every objective, initial design, levels, limits and options of the alphabet",
    "Tests run one optimization for two iterations and check nothing of its outcome.",
    [OPT], [("stages over projection levels", OPT + ":TopologyOptimizer.minimize"), ("bounds, stop value and callback", OPT)],
    ["TopologyOptimizer.minimize"],
    "Complete product; a monitor observes every evaluation asked for by scipy and nlopt.",
    "exhaustive enumeration of optimizer runs on the real code, with a monitor of every evaluation",
)
prop(
    "C22", "Filters, projections and interpolations keep densities admissible",
    "The density filter is the periodic Gaussian average of the given radii: it keeps the mean and the range, commutes with translations and mirrors, and is linear. "
    "Projections map 0 and 1 to themselves, are monotonic and tend to the identity and to a threshold. Material interpolations return each material at its level and stay between neighbouring ones.",
    ["inputs"], "every grid shape, radius, pixel, level, threshold and set of materials of the alphabet",
    "Tests apply each map once and look at no value.",
    [OPT, HEL], [("filter", OPT + ":apply_filter, " + HEL + ":get_block"), ("projection", OPT + ":project, multi_project"), ("interpolation", OPT + ":simp, multi_simp")],
    ["apply_filter, project, simp, multi_project, multi_simp"],
    "Complete product; the filter is linear, so all single pixels (and all pairs of rows) determine it.",
    "exhaustive enumeration of inputs of finite maps, against their defining formulas",
)
prop(
    "C23", "The stress tensor integral is the momentum flux of the fields",
    "The integrated stress on a plane is the quadratic form of Maxwell's stress tensor in the fields reported there, in every layer, formulation and material. "
    "In the outer media it is the sum of the momenta of the propagating orders, and in lossless stretches without lateral material gradients its normal component does not change with the plane.",
    ["inputs", "configurations"], "every lattice, stack, excitation, layer and plane of the alphabet",
    "Tests only call the function.",
    [SIM], [("stress integral", SIM + ":Simulation.get_z_stress_tensor_integral")],
    ["get_z_stress_tensor_integral"],
    "Complete product; displacement field from the curl of the reported magnetic field.",
    "exhaustive enumeration of a bounded scenario space, against the fields",
)
prop(
    "C24", "Plots show the structure that is simulated",
    "The plot of a layer shows every pixel of its permittivity at its place in the lattice, repeated for the periods asked for, with the real or imaginary part asked for. "
    "The plot of a structure shows each layer in order, at the height given by the thicknesses before it, with its thickness and its materials, each filling the volume it fills in the structure.",
    ["inputs", "configurations"], "every lattice, discretization, stack and number of periods of the alphabet",
    "Tests only check that plotting does not fail.",
    [PLO, LAY, SIM], [("layer plot", PLO + ":plot_layer; " + LAY + ":Layer.plot"), ("structure plot", PLO + ":plot_structure; " + SIM + ":Simulation.plot_structure")],
    ["artists added to the axes", "meshes added to the plotter"],
    "Complete product; meshes are recorded by a stand-in for the plotter and their extents and volumes compared with the layers.",
    "exhaustive enumeration of a bounded scenario space, against the pixels of the layers",
)
prop(
    "C25", "Invalid requests are refused in every state and leave no trace",
    "Invalid parameters, names, formulations, resolutions, orders, components, backends and precisions are refused with an error, in whatever state the simulation is, and valid ones are accepted. "
    "After a refusal the simulation, the lattice and the configuration answer as if the request had not been made.",
    ["inputs", "histories"], "every invalid request of the alphabet in every state, every discretization and number of harmonics to the bound",
    "Tests try a handful of invalid requests on new objects.",
    [SIM, LAY, LAT, INI, EXC], [("validation of names, formulations, resolution", SIM + ":Simulation.__init__; " + LAT + ":Lattice.__init__"), ("validation of queries", SIM)],
    ["exceptions raised", "answers after a refusal"],
    "About 40 requests in 3 states; resolution bound for all discretizations to 24 x 24 and 40 harmonics.",
    "exhaustive enumeration of (state, request) pairs on the real code, against a specification of what is valid",
)
prop(
    "C26", "The excitation is the plane wave asked for, and the response is linear",
    "For every wavelength, direction and polarisation, in every backend and precision, the excitation has the wavevector, unit amplitude and transverse polarisation asked for. "
    "Amplitudes and fields for any polarisation are the combination of those of the two basic ones, and the incident part of the fields in the first layer is that plane wave.",
    ["inputs", "configurations"], "every wavelength, angles, lattice, formulation, stack and depth of the alphabet",
    "Tests use a few angles.",
    [EXC, SIM], [("plane wave", EXC + ":PlaneWave"), ("excitation of the zeroth order", SIM + ":Simulation.get_field_fourier, solve")],
    ["PlaneWave attributes", "fields and amplitudes"],
    "Complete product.",
    "exhaustive enumeration of excitations, with invariants and superposition as oracles",
)
prop(
    "C27", "Results are finite and physical for any thickness and many harmonics",
    "For layers from zero to a million wavelengths thick, alone or between others, with strongly evanescent modes, results are finite and conserve energy, thick absorbing layers act as half spaces, "
    "vanishing ones as if absent, and fields inside stay finite, bounded and continuous.",
    ["inputs", "configurations"], "every thickness, number of harmonics, material, exterior media and excitation of the alphabet",
    "Tests use thicknesses around one wavelength and few harmonics.",
    [SIM], [("S-matrix recursion with decaying exponentials only", SIM + ":Simulation.get_S_matrix, phase")],
    ["diffraction_efficiencies, fields"],
    "Complete product with up to 49 harmonics (81 thorough).",
    "exhaustive enumeration of a bounded scenario space with conservation and limit laws",
)
prop(
    "C28", "A simulation copied or sent elsewhere answers as the original, and alone",
    "Deep copies and pickled copies of a simulation, made in any state, and simulations sent to other processes and back, give the answers of the original. "
    "Whatever is later asked of the original or the copy, or changed in one of them, leaves the other as it is.",
    ["histories"], "every sequence of operations before the copy, and on original and copy after it, to the bound",
    "Tests never copy a simulation; users do with parallel loops.",
    [SIM, LAY, LAT], [("state of simulations and layers", SIM + ":Simulation; " + LAY + ":Layer")],
    ["queries of original and copy"],
    "Every sequence of at most 2 operations out of 9 before the copy, and of 2 (1) out of 12 after it.",
    "stateful exhaustive exploration of operation sequences on the real code, bound to a reference model of parameters",
)
prop(
    "C29", "Arguments are taken by meaning and by value",
    "Equal arguments of the public classes and methods give equal results whatever their form (integers, floats, complex numbers, numpy scalars, lists, tuples, arrays of other types, "
    "memory layouts or of the backend, layers by name, index or object). Objects keep the values that were given: arguments are never modified, "
    "and overwriting an array after an object was made with it does not change any answer.",
    ["inputs", "histories"], "every form of every argument and every pair of forms, every subset of arguments overwritten afterwards, in every backend",
    "Tests pass each argument in one form, and never look at it again.",
    [SIM, LAY, LAT, EXC], [("conversion of arguments", LAY + ":Layer.__init__; " + LAT + ":Lattice.__init__; " + EXC + ":PlaneWave.__init__; " + SIM + ":Simulation.get_layer"),
     ("arrays of backends", "nannos/__init__.py")],
    ["efficiencies, fields, S-matrices, stress", "the arguments themselves"],
    "Pairs of forms with numpy, single forms in the other backends (thorough: triples and pairs).",
    "exhaustive enumeration of argument forms on the real code, with the plain form as reference and later mutation of arguments",
)
prop(
    "C30", "Scattering matrices are unitary, passive and reciprocal on all channels",
    "For each structure and direction, the complex scattering matrix over all orders, both polarisations and both sides is unitary on propagating waves of lossless structures, "
    "contracts for absorbing ones, and is the transpose of that for the opposite direction (with transposed permittivity tensors), evanescent waves included.",
    ["inputs", "configurations"], "every stack, pair of exterior media, lattice, direction and wavelength of the alphabet; every pair of channels",
    "Tests sum efficiencies for illumination from the top in the zeroth order.",
    [SIM], [("scattering matrix", SIM + ":Simulation.get_S_matrix"), ("eigenmodes and interface matrices", SIM + ":Simulation.build_matrix, _build_Mmatrix, _build_Imatrix")],
    ["Simulation.get_S_matrix", "Simulation.harmonics"],
    "Complete product; every entry of the matrices.",
    "exhaustive enumeration of a bounded scenario space with laws of the scattering matrix over all channels",
)
prop(
    "C31", "An interrupted computation leaves simulations that answer as new ones",
    "A query, solve, reset or construction of a simulation that is interrupted at any point (keyboard interruption, lack of memory) leaves it, and every simulation that shares layers with it, "
    "able to answer any later query as newly made simulations do; an interruption is never swallowed, and an optimizer that was interrupted gives, when run again, the design of one that was not.",
    ["crash_points", "histories"], "every line (thorough: every bytecode instruction) executed by each operation, from every state of the two simulations",
    "Tests never interrupt a computation.",
    [SIM, LAY, "nannos/optimize.py"], [("validity of the eigenmodes of a layer", SIM + ":Simulation.solve, build_matrix, is_solved"), ("stored matrices", SIM + ":Simulation.get_S_matrix, reset")],
    ["Simulation, all queries", "TopologyOptimizer.minimize"],
    "A fault injector raises at each point in turn; states reached are hashed, and each new one is asked all queries in both orders.",
    "exhaustive fault injection at every executed line of the real code, with state hashing",
)

NA = {}

# quick times in seconds
COST = dict(
    C01=57, C02=95, C03=34, C04=7, C05=40, C06=10, C07=7, C08=11, C09=7, C10=9, C11=15, C12=6, C13=15, C14=11, C15=18, C16=240, C17=50, C18=16,
    C19=18, C20=130, C21=30, C22=9, C23=6, C24=28, C25=40, C26=14, C27=14, C28=70, C29=70, C30=10, C31=200,
)
# seeded bugs caught by other checks too, or missed at first
CAUGHT = {}
MISSED = {
    "stack-key-collision": "stacks of 15 and 130 layers (C01)",
    "copy-drops-tangent": "layers with tangent fields of their own (C03)",
    "scipy-real-fft": "weakly absorbing patterns (C17)",
    "options-mutated": "options and initial designs shared by several optimizations (C21)",
    "orders-grow": "orders asked for again after refused requests (C25)",
    "excitation-in-place": "dense incidence medium with a shared excitation (C02)",
    "uniform-modes-reused": "opposite azimuths (C02)",
    "substrate-depth": "scattering matrices with exterior layers of finite depth (C06)",
}
