"""The properties and what their checks do: the source of properties.jsonl and MANIFEST.json."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=list(observe)))


prop(
    "C01",
    "A time step is the lattice Boltzmann scheme that the dictionary describes",
    "On a fully periodic box, one time step of a simulation streams every distribution by its lattice velocity and then "
    "relaxes, in every cell, the moments (given by the polynomials or by M evaluated at the velocities times the scheme velocity) "
    "toward the equilibrium with their relaxation parameters. This holds for every choice of dimension, velocities, polynomials or "
    "moment matrix, equilibrium (of the moments or of the distributions), relaxation parameters, number of coupled schemes, "
    "symbolic parameters and state, and the moments read afterwards are those of the new distributions.",
    ["inputs", "programs"],
    "every valid dictionary of schemes without walls, and every state of the distributions",
    "The existing tests replay a dozen demos against stored results, so they cover a few classical stencils, polynomials and states; the space of schemes a user can write is unbounded and code is generated for each.",
    ["pylbm/scheme.py", "pylbm/algorithm/base.py", "pylbm/algorithm/pull.py", "pylbm/symbolic.py", "pylbm/stencil.py", "pylbm/generator"],
    [("symbolic derivation of M, M^-1, the equilibrium and the permutations of the moments", "pylbm/scheme.py"),
     ("generated transport, relaxation and change of basis", "pylbm/algorithm")],
    "runtime monitoring: step-by-step differential oracle (independent numpy reference) on random schemes",
    "Exploration: every step of random schemes is compared with a reference written from the definition, to 1e-9; trusts numpy and the reference.",
    ["simulation.F", "simulation.m"],
)
prop(
    "C06",
    "Relative velocity schemes relax the moments in the moving frame",
    "With a relative velocity u (constant or function of the conserved moments), the collision relaxes the moments whose polynomials are "
    "evaluated at the velocities minus u toward the equilibrium expressed in the same frame, and leaves the conserved moments unchanged. "
    "A zero relative velocity, or equal relaxation parameters, give exactly the scheme without relative velocity, and source terms "
    "still change the conserved moments by their two half steps.",
    ["inputs", "programs"],
    "every scheme whose conserved polynomials span a space invariant by translation, every relative velocity and every state",
    "One demo uses a relative velocity; the identities must hold for every scheme, velocity and state.",
    ["pylbm/scheme.py", "pylbm/algorithm/base.py", "pylbm/algorithm/pull.py"],
    [("matrices of the change of frame, inlined in the generated code", "pylbm/scheme.py"),
     ("relaxation in the moving frame, restoration of the conserved moments", "pylbm/algorithm")],
    "runtime monitoring: differential oracle and metamorphic monitors on random schemes with relative velocity",
    "Exploration on random schemes, both backends and both algorithms.",
)
prop(
    "C09",
    "The domain of a simulation is the geometry described",
    "In 1D, 2D and 3D, for every box, space step, stencil and list of solid and fluid elements, the fluid cells are those whose center is in "
    "the box minus the solid elements plus the fluid ones, taken in order. For every fluid cell and velocity, the domain gives a distance and "
    "a label exactly when the target is not fluid (or is outside the box through a side which is not periodic), they are the fraction of the link at which "
    "it leaves the fluid and the label of the side or face crossed, and the normal stored there is that of this side or face.",
    ["inputs"],
    "every domain whose links are not ambiguous (corners, tangencies, elements against periodic sides)",
    "The tests look at a few elements on one grid and stencil; positions, elements and stencils are unbounded.",
    ["pylbm/domain.py", "pylbm/geometry.py", "pylbm/elements", "pylbm/stencil.py"],
    [("construction of in_or_out, distance, flag and normal from the elements in turn", "pylbm/domain.py")],
    "runtime monitoring: every cell and link of random domains against an independent geometric oracle",
    "Exploration: all the cells and links of random domains; those within 1e-8 of a tie are not compared.",
    ["domain.in_or_out", "domain.distance", "domain.flag", "domain.normal"],
)
prop(
    "C10",
    "Elements know their points, distances, faces, normals and bounds",
    "Every element (circle, ellipse, parallelogram, triangle, sphere, ellipsoid, cylinders, parallelepiped, STL surface) tells exactly the points "
    "which are inside, and along any direction gives the distance to its surface as a fraction of the vector, with the label of the face reached "
    "and the unit normal there, and no distance beyond the given limit. The bounds it returns contain it.",
    ["inputs"],
    "every element with non-degenerate vectors, every point and direction",
    "The tests check a few points of axis-aligned elements.",
    ["pylbm/elements"],
    [("quadric and plane intersections, in the frame of the element", "pylbm/elements"), ("ray casting against the triangles of a STL file", "pylbm/elements/stl.py")],
    "runtime monitoring: answers of random elements against an independent geometric oracle",
    "Exploration on random elements, points and directions, away from ties.",
)
prop(
    "C11",
    "The numbering of the velocities and the tables of a stencil are consistent",
    "Velocity and its number determine each other, in 1D, 2D and 3D: every number gives a distinct vector, the shells of increasing maximum norm are "
    "numbered in order, and symmetrics (about the origin or an axis) keep the norm and the number. A stencil of one or several "
    "schemes indexes its velocities, their unique list, maxima, minima and symmetrics coherently, whatever the order in which they are given.",
    ["inputs"],
    "every number of velocity, and every list of stencils",
    "The tests check the first velocities and one or two stencils.",
    ["pylbm/stencil.py"],
    [("numbering of the velocities", "pylbm/stencil.py"), ("tables of the unique velocities", "pylbm/stencil.py")],
    "runtime monitoring: enumeration of velocities and random stencils against an independent numbering",
    "Exploration: thousands of consecutive velocities and random lists of stencils.",
)
prop(
    "C02",
    "The backend, the storage order, the algorithm and its settings change no result",
    "A simulation gives the same distributions, moments and time, up to rounding errors, whatever the backend (numpy or cython), "
    "the order of storage of the arrays, the algorithm (base or pull) and its settings (split, m_local), with or without walls, source terms, "
    "relative velocity and symbolic parameters.",
    ["configurations", "inputs"],
    "every accepted combination of generator, sorder, algorithm and settings, for every simulation",
    "The tests compare a few demos; the space of combinations with the features of a scheme is far larger.",
    ["pylbm/algorithm", "pylbm/generator", "pylbm/storage.py", "pylbm/simulation.py", "pylbm/boundary.py"],
    [("generation of the phases according to sorder and settings", "pylbm/algorithm"), ("storage of the arrays", "pylbm/storage.py"),
     ("indices of the links in the storage order", "pylbm/boundary.py")],
    "runtime monitoring: differential runs of the same random simulation under two executions",
    "Exploration of random simulations and combinations; GPU backends and check_isfluid are out of reach in the sandbox.",
    ["simulation.F", "simulation.m"],
)
prop(
    "C03",
    "The totals of the conserved moments are conserved",
    "On a periodic box, a time step without source terms keeps the sum over the cells of every conserved moment, for every scheme and every state, over "
    "any number of steps. In a domain closed by bounce-back walls and obstacles without imposed values, it keeps the sum over the fluid cells of the conserved moments whose "
    "polynomials are even. With source terms, the sum changes exactly by the sum of the sources.",
    ["inputs", "histories"],
    "every scheme, initial state, number of steps, and geometry closed by bounce-back",
    "No test looks at the totals, and a leak is only visible for particular shapes, stencils or numbers of steps.",
    ["pylbm/algorithm", "pylbm/boundary.py", "pylbm/domain.py", "pylbm/storage.py"],
    [("transport and relaxation", "pylbm/algorithm"), ("periodic halo", "pylbm/storage.py"), ("bounce-back links", "pylbm/boundary.py")],
    "runtime monitoring: conservation monitor after every step of random simulations",
    "Exploration: totals after every step, to 1e-10 of the sum of absolute values.",
    ["simulation.F", "simulation.m"],
)
prop(
    "C04",
    "Moments and distributions describe the same state",
    "Through any sequence of time steps, writes of moments or of distributions, reads, f2m, m2f and equilibrium, the moments read are M times the current distributions, "
    "the distributions after m2f are the inverse of M times the moments written, and equilibrium sets the moments to their equilibrium at the conserved ones. "
    "The matrix of the scheme is that of its polynomials at its velocities, its inverse is exact, and the conserved moments are found under their names.",
    ["histories", "inputs"],
    "every scheme, and every sequence of operations where m2f follows the writes of moments and f2m those of distributions",
    "The tests read the moments after a fixed sequence (run, then read).",
    ["pylbm/simulation.py", "pylbm/scheme.py", "pylbm/storage.py", "pylbm/algorithm/base.py"],
    [("lazy update of the moments", "pylbm/simulation.py"), ("access to the arrays by number or name", "pylbm/storage.py"), ("M, M^-1", "pylbm/scheme.py")],
    "runtime monitoring: model-based random sequences of operations against a reference state machine",
    "Exploration: random sequences of operations on random schemes, both backends.",
    ["simulation.F", "simulation.m", "scheme.M", "scheme.invM"],
)
prop(
    "C05",
    "Source terms are two explicit half steps around the relaxation",
    "With source terms, a time step adds dt/2 times the source to each sourced moment before the relaxation and again after it, each half step "
    "being evaluated for all the moments with the values that it is given, and with the time of the simulation. This holds for numbers, functions "
    "of time, of symbolic parameters and of the conserved moments of all the schemes.",
    ["inputs", "programs"],
    "every scheme with source terms, every state and every time",
    "One or two demos use source terms, with one moment.",
    ["pylbm/algorithm/base.py", "pylbm/scheme.py", "pylbm/simulation.py"],
    [("generated half steps of sources", "pylbm/algorithm/base.py")],
    "runtime monitoring: step-by-step differential oracle on random schemes with source terms",
    "Exploration on random sources; those which depend on the coordinates are known findings.",
    ["simulation.F"],
)
prop(
    "C07",
    "Boundary conditions set each link as their method defines",
    "For every fluid cell and velocity coming from a solid or outer cell, the distribution after transport is the one that the method of the wall defines "
    "(bounce-back, anti-bounce-back, their Bouzidi versions with the distance to the wall, Neumann, NeumannX, Y, Z), with the imposed value (none, constant, function of "
    "the position, of time, of arguments) taken at the point of the wall through the equilibrium. Each label, scheme and link has its own method, and the conditions of several labels "
    "and schemes do not interfere.",
    ["inputs", "programs"],
    "every geometry, scheme, choice of methods and values for the labels",
    "The tests replay a few demos with one or two walls.",
    ["pylbm/boundary.py", "pylbm/bc_utils.py", "pylbm/simulation.py", "pylbm/domain.py"],
    [("collection of the links, right-hand sides and generated updates", "pylbm/boundary.py")],
    "runtime monitoring: step-by-step differential oracle of every link of random domains with walls",
    "Exploration: every link of random domains, schemes and methods; at corners, the face chosen by pylbm's domain is used.",
    ["simulation.F"],
)
prop(
    "C08",
    "What is outside of the fluid never influences it",
    "In a simulation where every side and face has a boundary condition, the distributions and moments of the fluid cells after any number of "
    "steps do not depend on what the solid cells and the cells outside the box contain: every value that enters a fluid cell is set by the periodicity "
    "or by a boundary condition.",
    ["inputs", "histories"],
    "every geometry, stencil and choice of boundary conditions",
    "The tests never change the content of the cells which are not fluid; stale or uninitialised values are silent.",
    ["pylbm/boundary.py", "pylbm/simulation.py", "pylbm/storage.py", "pylbm/domain.py"],
    [("set of links updated by the boundary conditions", "pylbm/boundary.py"), ("periodic halo", "pylbm/storage.py")],
    "runtime monitoring: taint by poison (NaN or random values) in the cells which are not fluid, checked after every step",
    "Exploration: random geometries and methods, the whole outside poisoned before each step.",
    ["simulation.F_halo"],
)
prop(
    "C23",
    "The phases called one by one make the time step",
    "boundary_condition, transport, f2m, source_term for half a step, relaxation, source_term for half a step and m2f, called in turn, each do what its name says "
    "on the distributions or moments of the fluid cells, and together give the time step of one_time_step, on every backend and in every storage order. "
    "source_term applies the fraction of the time step that it is given.",
    ["inputs", "histories"],
    "every scheme and state; boundary conditions included",
    "No test calls the phases.",
    ["pylbm/simulation.py", "pylbm/algorithm/base.py", "pylbm/algorithm/pull.py"],
    [("one generated function per phase", "pylbm/algorithm"), ("exchange of the arrays", "pylbm/simulation.py")],
    "runtime monitoring: state after every phase against a reference, on random simulations",
    "Exploration on random simulations; the relaxation phase with a relative velocity is a known finding.",
    ["simulation.F", "simulation.m"],
)
prop(
    "C12",
    "The results do not depend on the number of MPI processes",
    "The same simulation on several processes gives, in every cell, the solid indicator and the distributions and moments of one process after every time step. "
    "The regions of the processes partition the cells of the domain, each process has the coordinates of its cells, and the halo exchange gives each process the values of its neighbours, periodic sides included.",
    ["schedules", "configurations", "inputs"],
    "every split of the box between processes, geometry, scheme and boundary condition",
    "All the tests run on one process.",
    ["pylbm/mpi_topology.py", "pylbm/storage.py", "pylbm/domain.py", "pylbm/boundary.py", "pylbm/simulation.py"],
    [("regions and neighbours", "pylbm/mpi_topology.py"), ("exchange of the interfaces", "pylbm/storage.py"), ("geometry of a part of the box", "pylbm/domain.py")],
    "runtime monitoring: recorded runs of real mpirun processes merged offline and compared with the run of one process",
    "Exploration: random simulations with and without walls, on 2 to 8 processes and several splits each.",
    ["simulation.F", "domain.in_or_out"],
)
prop(
    "C13",
    "The generated C code never leaves its arrays and its initialised values",
    "The C code generated and compiled for a simulation (backend cython) only accesses memory inside of its arrays, has no undefined behaviour, and uses no "
    "uninitialised value, in every function: time step, phases, equilibrium, moments, boundary conditions, periodic updates.",
    ["inputs", "programs"],
    "every scheme, stencil, geometry, boundary condition, storage order and generator",
    "An access out of the arrays or an uninitialised value is usually silent; the tests run few generated programs, none under a sanitizer.",
    ["pylbm/algorithm/base.py", "pylbm/generator/autowrap.py", "pylbm/generator/codegen.py", "pylbm/boundary.py", "pylbm/storage.py"],
    [("generated loops and their bounds", "pylbm/algorithm/base.py"), ("index tables of the boundary conditions", "pylbm/boundary.py"), ("C and Cython code", "pylbm/generator")],
    "sanitizers: AddressSanitizer and UndefinedBehaviorSanitizer, Cython bounds checks and pattern-filled variables on the compiled code",
    "Exploration on random simulations compiled with the sanitizers.",
    ["simulation.one_time_step"],
)
prop(
    "C15",
    "Initial state, coordinates and time are those of the dictionary",
    "A new simulation is at time 0 with each conserved moment equal in every cell to its init value (number, function of the coordinates of the centers, with arguments) "
    "and all the distributions at the equilibrium of these (or, with inittype 'distributions', the given distributions). The coordinates are those of the centers of the cells; each time step "
    "adds 1 to nt and dt = space step / scheme velocity to t. With initialize=False, the simulation is in the same state from its first time step.",
    ["inputs"],
    "every dictionary: box, space step, scheme, kinds of init values, backend and storage order",
    "The demos use a few boxes with symmetric initial fields.",
    ["pylbm/simulation.py", "pylbm/domain.py", "pylbm/container.py"],
    [("initialization", "pylbm/simulation.py"), ("coordinates of the cells", "pylbm/domain.py")],
    "runtime monitoring: state of new simulations against an independent evaluation of the dictionary",
    "Exploration on random dictionaries.",
    ["simulation.F", "simulation.m", "simulation.t"],
)
prop(
    "C14",
    "H5File stores the fields as they are given, whole and in their place",
    "After save(), the file .h5 named after the filename and the timestep, in the given path, has the coordinates of set_grid and each field of add_scalar and add_vector "
    "under its name, with the value of each cell of the box at the indices (z, y, x), for every array (any layout in memory or type) or function with arguments, and for every number of processes. "
    "The file .xdmf refers to all the fields with their dimensions.",
    ["inputs", "configurations"],
    "every field, size of box, number of processes, and set of files written together",
    "The tests never read a file again.",
    ["pylbm/hdf5.py", "pylbm/mpi_topology.py"],
    [("assembling of the parts of the processes", "pylbm/hdf5.py")],
    "runtime monitoring: files written by one and by several real processes, read again by an independent reader",
    "Exploration: random fields of distinct values, several files open at once, 1 to 8 processes.",
    ["files .h5 and .xdmf"],
)
prop(
    "C16",
    "The stability analysis gives the modes of the scheme",
    "For every scheme without source term, Stability.eigenvalues(state, n) gives, for the wave vectors of a uniform grid of the period, the eigenvalues of the amplification matrix of one "
    "time step linearised at the equilibrium of this state (relative velocity and parameters given late included): the Fourier modes of small perturbations in a simulation follow them. "
    "The answer is unstable when one of them is outside of the unit disc, not when they are all inside; visualize shows them.",
    ["inputs"],
    "every scheme in one, two and three dimensions, every state",
    "The tests run demos whose figures are not compared.",
    ["pylbm/analysis/stability.py", "pylbm/scheme.py"],
    [("linearised relaxation and amplification matrix", "pylbm/analysis/stability.py")],
    "runtime monitoring: spectra compared with an independent linearisation and with the Fourier modes of real simulations",
    "Exploration on random schemes and states; the answer for many velocities is a known finding.",
    ["Stability.eigenvalues"],
)
prop(
    "C17",
    "The equivalent equations are those of the scheme",
    "For every scheme without source term, EquivalentEquation gives the fluxes of the conserved moments at equilibrium in each direction (order 1), and the matrices of the second order terms, "
    "functions of the relaxation parameters and of the state, such that the slow modes of the scheme follow these equations to the second order in the space step. "
    "With a relative velocity too.",
    ["inputs"],
    "every scheme, number of conserved moments and dimension, evaluated at every state",
    "The tests compare no coefficient.",
    ["pylbm/analysis/equivalent_equation.py", "pylbm/scheme.py"],
    [("expansion of the scheme", "pylbm/analysis/equivalent_equation.py")],
    "runtime monitoring: coefficients evaluated against an independent expansion and the slow modes of the amplification matrix in multiple precision",
    "Exploration on random schemes and states.",
    ["EquivalentEquation.coeff_order1", "EquivalentEquation.coeff_order2"],
)
prop(
    "C19",
    "The image of a simulation by a symmetry of the lattice is a simulation",
    "The image of a dictionary by a permutation or a reflection of the axes (velocities, polynomials, relative velocity, geometry, labels, boundary conditions, initial state), by a translation by whole cells "
    "along periodic directions, by a move of the origin of the coordinates or by a change of the unit of length, gives the image of the result: the same states in the cells which are images, step after step, "
    "walls, solid elements and imposed values included.",
    ["inputs", "programs"],
    "every scheme, geometry, boundary condition and state, away from ties of the geometry",
    "The demos are in one orientation, with the origin at a corner or at the center.",
    ["pylbm/domain.py", "pylbm/geometry.py", "pylbm/elements", "pylbm/boundary.py", "pylbm/algorithm", "pylbm/scheme.py"],
    [("axes treated one by one in the domain, the boundary and the generated loops", "pylbm/domain.py"), ("distances and labels of the links", "pylbm/elements")],
    "runtime monitoring: metamorphic monitor, step by step, on pairs of simulations",
    "Exploration on random dictionaries and transformations, both backends.",
    ["simulation.F", "simulation.m"],
)
prop(
    "C21",
    "Parameters stand for their values, whatever their names",
    "A dictionary with symbolic parameters anywhere a number is allowed (scheme velocity, polynomials, equilibrium, relaxation parameters, source terms, relative velocity), parameters given as functions of other parameters included, "
    "gives the same time and states as with the numbers. The names of the conserved moments and of the parameters do not change the result. "
    "Parameters given after the creation with extra_parameters, and changed between two steps, have their current value at each step.",
    ["inputs", "programs"],
    "every dictionary and replacement of its numbers by parameters, every name which is not one of the variables of the generated code for the extra parameters",
    "The demos use a few names and parameters which are numbers.",
    ["pylbm/scheme.py", "pylbm/algorithm/base.py", "pylbm/algorithm/transform.py", "pylbm/simulation.py", "pylbm/symbolic.py"],
    [("substitution of the parameters in the matrices, equilibrium, relaxation and sources", "pylbm/algorithm/base.py"), ("arguments of the generated functions found by name", "pylbm/symbolic.py")],
    "runtime monitoring: differential monitor, step by step, between simulations with numbers and with parameters",
    "Exploration on random dictionaries, both backends.",
    ["simulation.F", "simulation.t"],
)
prop(
    "C25",
    "The order and the writing of the dictionary do not change the result",
    "The order in which the dictionary lists velocities, polynomials (with their equilibria and relaxation parameters), conserved moments, schemes and the entries of init, parameters, source_terms and boundary_conditions, "
    "and the way in which the expressions are written (expanded, factored), do not change the states and moments of a simulation.",
    ["inputs", "programs"],
    "every dictionary and permutation of its lists and keys",
    "The demos are written in one order.",
    ["pylbm/scheme.py", "pylbm/stencil.py", "pylbm/algorithm", "pylbm/boundary.py", "pylbm/simulation.py"],
    [("permutations of the moments and of the velocities of the schemes", "pylbm/scheme.py")],
    "runtime monitoring: metamorphic monitor, step by step, on pairs of simulations",
    "Exploration on random dictionaries, both backends.",
    ["simulation.F", "simulation.m"],
)
prop(
    "C20",
    "The directory of the generated code changes no result",
    "A simulation whose code goes to a directory given by codegen_option has the states of the same simulation without this option, and its code is in this directory. With generate False, a simulation uses this code, "
    "in the same process or in another one, for another initial state or size of box, and writes nothing there. Several simulations of one process which use the same directory one after the other, with different schemes, have each its own results; "
    "without the option, nothing is left on the disk.",
    ["inputs", "histories"],
    "every dictionary, both backends, every sequence of simulations which share a directory",
    "No test uses codegen_option.",
    ["pylbm/generator/autowrap.py", "pylbm/generator/generator.py", "pylbm/simulation.py"],
    [("files of the generated module, import and cache of the modules", "pylbm/generator/autowrap.py")],
    "runtime monitoring: differential monitor on sequences of simulations, and monitor of the files",
    "Exploration on random dictionaries and sequences, both backends.",
    ["simulation.F", "files of the directory"],
)
prop(
    "C22",
    "Simulations are independent of each other and of what is read from them",
    "Simulations of one process whose steps are interleaved, and simulations made again from the same dictionary, have the states that each has alone, also in another process (with another hash seed). "
    "Creating a simulation, domain, geometry, scheme or analysis does not change the dictionary of the user. Reading between the steps (moments, distributions, printing, stability, equivalent equations, HDF5 files) changes no state.",
    ["inputs", "histories"],
    "every set of dictionaries and every order of their steps and observations",
    "Each test runs one simulation per dictionary and reads it at the end.",
    ["pylbm/simulation.py", "pylbm/scheme.py", "pylbm/domain.py", "pylbm/boundary.py", "pylbm/container.py", "pylbm/generator", "pylbm/algorithm"],
    [("state kept in the objects and modules", "pylbm/simulation.py")],
    "runtime monitoring: histories of several simulations compared with each one alone, snapshots of the dictionaries",
    "Exploration on random dictionaries and interleavings, both backends.",
    ["simulation.F", "simulation.m", "the dictionary"],
)
prop(
    "C24",
    "The generated code computes the expressions of the dictionary",
    "Equilibria, source terms and relative velocities written with sums, products, powers (of integers, fractions, variables), the constants pi and E, numbers of any size, and the functions sqrt, exp, log, circular and hyperbolic functions and their inverses, "
    "Abs, sign, floor, ceiling, Mod, Max, Min, Heaviside, Piecewise (with and, or, not) of the conserved moments, take in each cell the value of the expression, at the initial state and at each step, with numpy and cython.",
    ["inputs", "programs"],
    "every expression of these functions and every value of the moments where it is real, away from discontinuities",
    "The demos use polynomials and quotients, with a few powers.",
    ["pylbm/generator", "pylbm/algorithm/base.py", "pylbm/symbolic.py"],
    [("printers of the expressions", "pylbm/generator/printing"), ("simplification of the expressions", "pylbm/symbolic.py")],
    "runtime monitoring: values computed by the simulations against an evaluation of the expression in multiple precision",
    "Exploration: about 600 random expressions per run, in 24 cells each, both backends.",
    ["simulation.F"],
)
prop(
    "C18",
    "The dictionaries are checked before anything is built from them",
    "Every dictionary whose entries are those documented for the class (Stencil, Geometry, Domain, Scheme, Simulation), whatever optional entries it has "
    "and in any order, is accepted, unchanged, and reported with each entry. One in which a required entry is missing, an entry is unknown or has the wrong type or value "
    "(at any depth), or which has two entries that exclude each other, is refused before anything is built, whatever else it contains, and the report marks "
    "the wrong or missing entry and no other.",
    ["inputs"],
    "every dictionary made of the documented entries, and every change of one or two of its entries",
    "No existing test gives a wrong dictionary to pylbm; the combinations of entries and mistakes are unbounded.",
    ["pylbm/validator.py", "pylbm/simulation.py", "pylbm/scheme.py", "pylbm/domain.py", "pylbm/geometry.py", "pylbm/stencil.py"],
    [("schema of the dictionary, report of the errors", "pylbm/validator.py"), ("validation in the constructor of each class", "pylbm/simulation.py")],
    "runtime monitoring: random valid dictionaries and random mistakes, with a monitor of the outcome and of the log of the validation",
    "Exploration: thousands of dictionaries; the table of the documented entries is trusted.",
    ["SystemExit", "pylbm.validator log"],
)
