"""Texts of the properties (source of properties.jsonl and MANIFEST.json; see gen_meta.py)."""
L = "src/library/natrium/"
META = {}


def prop(pid, title, statement, over, text, why, files, mechanism, observe, technique, note):
    META[pid] = dict(title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                     why=" ".join(why.split()), files=[L + f for f in files],
                     mechanism=[{"name": n, "where": L + w} for n, w in mechanism], observe=observe,
                     technique=technique, note=" ".join(note.split()))


prop("C01", "Every velocity set is a valid, symmetric lattice quadrature",
     """For every supported velocity set and every positive scaling, the directions come in opposite pairs with equal positive
     weights, the weights integrate all polynomials up to the set's degree (5, 7 or 9) exactly like the Maxwellian whose
     variance is the reported speed of sound squared, and the set scales linearly with the scaling while the weights do not
     change. Where a moment basis is offered, transforming populations to moments and back returns the populations.""",
     ["configurations", "inputs"],
     "all 14 velocity sets x real scalings in [1e-3,1e4] x random polynomials up to the degree of the set",
     """The unit tests look at a few fixed moments of some sets with scaling 1 or 5; several sets (D2Q19H/V, D2Q777, D3Q77,
     D3V27) have hardly any test at all.""",
     ["stencils"], [("tables of directions and weights", "stencils/")],
     ["Stencil::getDirection/getWeight/getSpeedOfSoundSquare/getIndexOfOppositeDirection/getMomentBasis"],
     "property-based testing of quadrature moments against exact Gaussian moments",
     "Random polynomial moments up to the claimed degree compared with closed-form Gaussian moments; every direction of every set is visited on each run.")

prop("C02", "Collisions conserve mass and momentum exactly and add exactly dt*F",
     """For every supported combination of velocity set, collision scheme and equilibrium and for arbitrary populations with
     positive density, one collision leaves the density at every grid point unchanged and leaves the momentum unchanged, or
     changed by exactly time step times force density when a constant external force is configured. The density and velocity
     fields handed back are those of the populations (velocity shifted by half a force kick when a force acts).""",
     ["inputs", "configurations"],
     "all supported isothermal collision configurations x arbitrary positive/non-equilibrium populations x viscosities x time steps x forces",
     """Tests collide one equilibrium-like state for a few configurations; conservation has to hold for every state, every
     relaxation rate and every forcing scheme.""",
     ["collision_advanced", "solver/SolverConfiguration.h"],
     [("collision schemes", "collision_advanced/CollisionSchemes.h"), ("equilibria", "collision_advanced/Equilibria.h"),
      ("forcing", "collision_advanced/AuxiliaryCollisionFunctions.h"),
      ("loop over the grid points", "collision_advanced/CollisionOperator.h"),
      ("moment transforms", "collision_advanced/AuxiliaryMRTFunctions.cpp")],
     ["selectCollision (populations, densities and velocities before and after)"],
     "property-based testing with conservation laws as oracle",
     "Sampled states and parameters over all supported configurations; tolerances scale with the magnitude of the populations.")

prop("C03", "A collision relaxes populations to the right equilibrium at the viscous rate",
     """For every supported isothermal combination of velocity set, collision scheme and equilibrium, the populations after a
     collision are those of the textbook scheme: relaxation towards the Maxwell-Hermite equilibrium (second or fourth order as
     configured) of the local density and velocity, with the shear-stress rate 1/(viscosity/(dt*cs^2)+1/2) and, for
     multiple-relaxation-time schemes, the configured moment basis and rates. The equilibrium is a fixed point, and rotating,
     reflecting or rescaling the velocity units of the input does the same to the output.""",
     ["inputs", "configurations"],
     "all supported isothermal configurations x arbitrary populations x viscosities, time steps, scalings x lattice symmetries",
     "Unit tests compare at most one or two fixed states with stored numbers or with a second implementation in the same library.",
     ["collision_advanced"],
     [("equilibria", "collision_advanced/Equilibria.h"), ("collision schemes", "collision_advanced/CollisionSchemes.h"),
      ("relaxation parameter", "collision_advanced/AuxiliaryCollisionFunctions.h"),
      ("moment bases", "collision_advanced/AuxiliaryMRTFunctions.cpp")],
     ["selectCollision (populations before and after)"],
     "differential property-based testing against an independent reference model of the schemes, plus metamorphic symmetries",
     "The reference computes Hermite expansions by loops over all tensor indices and moment projections from polynomials; it shares no code with the library.")

prop("C04", "Compressible collisions conserve energy and relax stress and heat flux",
     """In the compressible solver with the quartic equilibrium a collision leaves mass, momentum and total energy (kinetic plus internal, including the
     second population set) at every grid point unchanged, and reports the temperature that belongs to this energy and the
     configured heat capacity ratio. The non-equilibrium stress is relaxed at the rate given by the (possibly Sutherland)
     viscosity, and the heat flux at the rate given by the Prandtl number.""",
     ["inputs", "configurations"],
     "all supported compressible configurations x positive two-population states x gamma, Prandtl number, viscosity, Sutherland law on or off",
     "The compressible collision has nearly no unit test; conservation must hold for every state.",
     ["collision_advanced"],
     [("two-population collision", "collision_advanced/CollisionSchemes.h"), ("temperature", "collision_advanced/AuxiliaryCollisionFunctions.h")],
     ["selectCollision with two population sets"],
     "property-based testing with conservation laws and moment-relaxation oracle",
     "Sampled states near a Maxwellian at rest or in motion with temperatures around the reference temperature.")

prop("C05", "The configured collision is executed exactly once, or rejected untouched",
     """For every combination of velocity set, collision scheme, equilibrium, forcing and moment options that can be configured,
     one collision step either executes exactly the configured model once at each locally owned point, or throws an exception
     and leaves the populations unchanged. A grid point with vanishing or negative density is always reported as an error. The result at a point depends on nothing but the populations of this point.""",
     ["configurations", "inputs"],
     "the full product of configurable collision options (supported or not) x random populations and ownership ranges",
     "Tests cover single supported combinations only; the dispatch has to be right for the whole product of options.",
     ["collision_advanced/CollisionSelection.h", "collision_advanced/CollisionOperator.h"],
     [("dispatch on the configuration", "collision_advanced/CollisionSelection.h"), ("density check", "collision_advanced/AuxiliaryCollisionFunctions.h")],
     ["selectCollision (exception or populations)"],
     "property-based testing over the product of configurations",
     "The product is sampled (and enumerated for velocity set x scheme x equilibrium).")

prop("C06", "A run starts from the populations its initialization scheme defines",
     """With the scheme 'gradients' the populations are the second order equilibrium of the initial density and velocity plus -w rho (nu/cs^2 + dt/2) (e e - cs^2 I) : grad u / cs^2, the non-equilibrium part of this collision; the gradient at a
     point is the mean of the gradients in its cells. The iterative scheme streams and collides with the given velocities (never changed) and densities of the populations, until the densities change by less than the configured residual or the configured number of
     iterations is done; then time and iteration are zero. The compressible iterative scheme does the configured number of iterations on f and g with the given velocity and temperature: it keeps the mass of every
     streamed point and moves momentum towards the given one, energy correspondingly, and leaves the given density, velocity and temperature. Scaling the velocity of a solver or adding to it equals starting with this velocity.""",
     ["inputs", "configurations"],
     "random waves of density, velocity and temperature x meshes x elements x stencils x streaming operators x residuals and numbers of iterations",
     "The tests run the schemes once or not at all; none looks at the populations they produce.",
     ["solver/CFDSolver.cpp", "solver/CompressibleCFDSolver.h", "collision/BGKStandard.cpp"],
     [("schemes", "solver/CFDSolver.cpp"), ("compressible scheme", "solver/CompressibleCFDSolver.h")],
     ["CFDSolver::initializeDistributions, scaleVelocity, addToVelocity", "CompressibleCFDSolver::initializeDistributions"],
     "property-based testing against a reference implementation of the schemes (own gradients, streaming and collision)",
     "Periodic domains, one process. The plain equilibrium scheme is part of C17.")

prop("C07", "Semi-Lagrangian streaming moves every population along its own velocity",
     """For every mesh of boxes, velocity set, element order, node family and time step (also longer than a cell), one semi-Lagrangian
     streaming step replaces the population of direction e at every grid point x by the finite element interpolant of the same
     population at x - e*dt, wrapped around periodic boundaries and sent back where it came from (as the opposite
     population) at bounce-back walls; paths trapped in a corner leave the population unchanged, the resting population never changes.
     So constants and polynomials up to the order are transported exactly, steps that fit the nodes are exact shifts, and the result
     depends only on the last time step set, not on how often or for which other steps the operator was assembled before.
     The same holds across interfaces to locally refined cells and on deformed meshes.""",
     ["inputs", "configurations", "histories"],
     "meshes (2D, 3D, periodic, walls, stretched, sheared, bilinear, locally refined) x all velocity sets x orders x node families x time steps",
     """The unit tests check a few departure points on one or two periodic meshes and convergence of one flow; no test covers walls hit from several cells away, refinement
     interfaces, deformed cells or repeated assembly.""",
     ["advection", "boundaries"],
     [("paths and matrix assembly", "advection/SemiLagrangian.cpp"), ("shape functions at departure points", "advection/SemiLagrangianTools.cpp"),
      ("elements and node families", "advection/AdvectionTools.cpp"), ("coordinates and cells across periodic boundaries", "boundaries/PeriodicBoundary.cpp"),
      ("pairs of periodic cells", "utilities/DealiiExtensions.cpp")],
     ["SemiLagrangian::getSystemMatrix", "SemiLagrangian::stream", "getBoundaryHandler().n_hits"],
     "differential property-based testing of every matrix row against an independent path tracer with Lagrange interpolation",
     "Sizes are bounded (up to about 60 cells, order 5, 3 cells per step); runs on one process (several processes: C18).")

prop("C08", "The SEDG operator is the strong-form upwind (central) discretisation",
     """With SEDG, for every mesh of periodic, resting-wall and moving-wall cells, velocity set, order and flux, the assembled system df/dt = A f + b is the spectral element discretisation of the transport equation
     with Gauss-Lobatto collocation: in each cell minus e times the gradient, plus, for each face node, (e.n) JxW / mass (f_inside - f_outside) for inflow (upwind) or half of it (central); at walls f_outside is the
     opposite direction plus 2 w (e.u)/cs^2. Hence constants are kept, polynomials up to the order are transported exactly inside of the domain, mass is only exchanged between opposite directions at walls, the 2-norm does
     not grow without moving walls (and is constant with central flux). Assembling again gives the same operator. Boundaries, quadratures and points it cannot handle are refused.""",
     ["inputs", "configurations"],
     "boxes (periodic, walls, stretched, sheared, bilinear) x velocity sets x scalings x orders x fluxes",
     "The tests assemble the operator on one periodic mesh with one stencil and check a few sums or mass conservation; the central flux and deformed cells are never compared with anything.",
     ["advection/SEDGMinLee.cpp", "boundaries/VelocityNeqBounceBack.cpp", "boundaries/PeriodicBoundary.cpp"],
     [("SEDG operator", "advection/SEDGMinLee.cpp"), ("linear wall boundary", "boundaries/VelocityNeqBounceBack.cpp")],
     ["SEDGMinLee::getSystemMatrix, getSystemVector"],
     "property-based testing: every matrix entry against an independent construction from the geometry; invariants (mass, energy, constants, polynomials) of the operator for random populations",
     "Conforming meshes only: hanging nodes are not implemented for this operator. One process.")

prop("C09", "Periodic boundaries pair opposite faces exactly; bad set-ups are rejected",
     """For every mesh with periodic boundaries, each face on one side is identified with exactly the geometrically opposite face on the other side, in both
     directions: a cell's periodic neighbor is the cell behind the opposite face, its neighbor in turn is the cell itself, and coordinates
     are moved by exactly the period. Set-ups that cannot be periodic (unequal number, size or refinement level of opposite cells, coordinates that do not match, a boundary
     indicator used twice) are rejected with an exception and never silently accepted. A collection of boundaries gives back exactly what was added.""",
     ["inputs", "configurations", "histories"],
     "periodic boxes (refined globally, locally, deformed, with walls) in 2D and 3D, impossible set-ups, sequences of additions to a collection",
     "Tests use two or three fixed meshes; wrong pairs would only be visible as subtle errors of the flow, and silently accepted impossible set-ups are not tested.",
     ["boundaries/PeriodicBoundary.cpp", "utilities/DealiiExtensions.cpp", "problemdescription/BoundaryCollection.h"],
     [("pairs of cells", "utilities/DealiiExtensions.cpp"), ("coordinates and neighbors", "boundaries/PeriodicBoundary.cpp"),
      ("collection", "problemdescription/BoundaryCollection.h")],
     ["PeriodicBoundary::getOppositeCellAtPeriodicBoundary", "PeriodicBoundary::coordinatesAcrossPeriodicBoundary", "BoundaryCollection"],
     "property-based testing against geometry of the box and a map as reference model (stateful generation for the collection)",
     "Sizes bounded (about 120 cells); one process.")

prop("C10", "Walls act exactly where and when a population's path meets them",
     """In a semi-Lagrangian step every population whose path backwards from a grid point meets a wall is changed by this wall exactly as its
     boundary condition says, with the wall's velocity, pressure and temperature taken at the point where and the time when the path meets the wall:
     a wall at rest reflects, a moving wall adds the momentum 2 w rho (e.u)/cs^2 of its velocity, an inlet imposes the equilibrium of its velocity, density and
     temperature, an outlet leaves the population, a thermal wall imposes its temperature. Each hit acts exactly once, no other population changes.
     Mass is conserved at walls at rest, and a wall that moves with the fluid leaves a uniform flow unchanged.""",
     ["inputs", "configurations"],
     "boxes with every kind of wall, moving with space- and time-dependent velocities x velocity sets x orders x time steps up to 2.5 cells",
     "The tests look at hit counts of one mesh and at integrated errors of a few flows; hit points, hit times and multi-cell paths have no test.",
     ["boundaries", "advection/SemiLagrangian.cpp"],
     [("list of hits", "boundaries/SemiLagrangianBoundaryHandler.cpp"), ("values at the wall", "boundaries/FEBoundaryValues.h"),
      ("moving wall", "boundaries/VelocityNeqBounceBack.cpp"), ("inlet", "boundaries/SLEquilibriumBoundary.h"), ("hits on paths", "advection/SemiLagrangian.cpp")],
     ["AdvectionOperator::applyBoundaryConditions", "SemiLagrangian::stream"],
     "differential property-based testing against an independent path tracer and boundary model",
     "Flat walls of boxes; edges where two walls meet are accepted with either wall acting.")

prop("C17", "A run of the solver computes the lattice Boltzmann solution that was configured",
     """For every flow problem on a box (periodic, with walls at rest or moving in time, forced) and every supported semi-Lagrangian configuration, isothermal or compressible, a run of N
     steps starts from the equilibrium of the initial density, velocity and temperature, uses the time step given by CFL number, smallest cell, order and
     fastest particle, and then N times streams with exactly this time step and collides with exactly the relaxation time of the configured viscosity. Afterwards the populations, density,
     velocity, temperature, iteration count and time are those of this sequence; wall velocities are taken at the time of the hit.""",
     ["inputs", "configurations", "histories"],
     "all supported isothermal and compressible configurations x boxes x initial waves x runs of up to 6 steps",
     "The integration tests compare a few flows with analytic solutions with tolerances of percents; a wrong order of operations, time level, time step or relaxation time in some configuration stays inside them.",
     ["solver/CFDSolver.cpp", "solver/CompressibleCFDSolver.h", "utilities/CFDSolverUtilities.cpp"],
     [("time loop", "solver/CFDSolver.cpp"), ("time loop of the compressible solver", "solver/CompressibleCFDSolver.h"), ("time step", "utilities/CFDSolverUtilities.cpp")],
     ["CFDSolver::run", "CFDSolver::getF/getDensity/getVelocity/getTime", "CompressibleCFDSolver::getG/getTemperature"],
     "differential property-based testing against an independent reference solver",
     "Runs of at most 6 steps on at most 24 cells, output switched off, one process.")

prop("C11", "Time integrators solve the systems they are given with the order they promise",
     """A step of any integrator on f' = A f + g, for every A, g and state, changing between steps as in a run, gives the state of the method's definition: RK5 low storage (Carpenter-Kennedy), theta method (also
     0, 1/2 and 1), exponential (exact within the Krylov error; g = 0, singular A and f = 0 included), all deal.II methods by their names (explicit, implicit, embedded with step control), for single and block vectors.
     The time returned is that of the state; embedded steps keep within their limits and report the next step size. Neither matrix nor vector nor ghost data of a former step has an influence.
     In the solver with SEDG streaming all integrators give the populations of the reference scheme; collisions use the time step that was really made.""",
     ["inputs", "histories"],
     "matrices of nine kinds (singular, skew, nilpotent, stiff, ...) x four storages x 15 integrators x sequences of steps with changing step size, matrix, vector and state; runs of the solver",
     "The tests integrate a few systems with one constant matrix, most with g = 0, and look at the order of convergence; embedded, implicit and exponential methods with changing right hand side are not tested.",
     ["timeintegration/RungeKutta5LowStorage.cpp", "timeintegration/ThetaMethod.cpp", "timeintegration/ExponentialTimeIntegrator.cpp", "timeintegration/DealIIWrapper.cpp", "utilities/SemiParallelMatrix.cpp"],
     [("RK5", "timeintegration/RungeKutta5LowStorage.cpp"), ("theta method", "timeintegration/ThetaMethod.cpp"), ("exponential", "timeintegration/ExponentialTimeIntegrator.cpp"), ("deal.II methods", "timeintegration/DealIIWrapper.cpp")],
     ["TimeIntegrator::step, setTimeStepSize, getTimeStepSize", "CFDSolver with SEDG"],
     "property-based testing of step sequences against reference implementations in long double (Butcher tableaus, matrix exponential)",
     "One process. deal.II's QMRS does not terminate on stagnation and is not used; RELAXATION is not implemented; MINRES and CG are only used with symmetric matrices; iterative solvers that give up are discarded.")

prop("C12", "Filters damp exactly the intended modes; limiters keep values within bounds",
     """Applied to discontinuous elements, the exponential and the new filter multiply every Legendre mode of every cell by the documented factor: degrees up to Nc and, with alpha or degree 0, everything stay; filters act on all
     populations, at the steps that are a multiple of the interval, after streaming; the cell mean and so mass and momentum do not change. For continuous elements polynomials of unfiltered degree stay on meshes of equal cells.
     The limiter sets exactly those entries which lie outside the range of the source values that the matrix connects to them to the nearest end of the range and keeps all others; in streaming steps no new extrema occur.""",
     ["inputs", "configurations"],
     "elements of order 1-7 x node families x filter parameters x random values in 2D and 3D; runs of the solver with filters; random sparse matrices; streaming of steep populations",
     "The tests apply one filter to one field in 2D and check a norm; the 3D filters and the limiter are not tested with values.",
     ["smoothing/ExponentialFilter.cpp", "smoothing/NewFilter.cpp", "smoothing/VmultLimiter.cpp", "solver/CFDSolver.cpp"],
     [("exponential filter", "smoothing/ExponentialFilter.cpp"), ("new filter", "smoothing/NewFilter.cpp"), ("limiter", "smoothing/VmultLimiter.cpp")],
     ["Filter::applyFilter", "VmultLimiter::apply", "CFDSolver with filter"],
     "property-based testing against an independent modal transform in long double and runs against a reference scheme with filter",
     "One process. On continuous elements the filter overwrites shared points cell by cell; only the invariance of unfiltered polynomials is claimed there.")

prop("C13", "Checkpoints restore the state, and resumed runs equal uninterrupted ones",
     """What a checkpoint writes is read back bit by bit: all populations, iteration, time, order and scaling, for every mesh, element and velocity set and whatever else lies in the directory (which is not touched);
     on a globally finer mesh the populations are the same finite element functions. Checkpoints exist exactly for the multiples of the interval and the end of a run. A run which is stopped at any step and resumed from any of its
     checkpoints (explicitly or 'most recent'), once or several times, gives the populations, density, velocity, (temperature) and time of the uninterrupted run, also with forces, moving walls, SEDG and the compressible solver.
     Missing or cut files, another element order and coarser meshes are refused.""",
     ["histories", "crash points", "inputs"],
     "meshes x elements x velocity sets x random populations; runs x stop and resume points x checkpoint intervals x flows; files cut at random bytes",
     "The tests write one checkpoint of one mesh and read it; no run is ever resumed and compared with the uninterrupted one, no damaged file is read.",
     ["solver/Checkpoint.cpp", "solver/CFDSolver.cpp", "solver/CompressibleCFDSolver.h"],
     [("checkpoint", "solver/Checkpoint.cpp"), ("restart of the solver", "solver/CFDSolver.cpp"), ("restart of the compressible solver", "solver/CompressibleCFDSolver.h")],
     ["Checkpoint::write/load", "CFDSolver::run", "checkpoint files"],
     "property-based testing: round trips of generated states, differential testing of interrupted against uninterrupted histories, fault injection (cut and missing files)",
     "One process. Multistep collision models are not included (their former populations are not part of a checkpoint). Known finding: restarts with another stencil scaling change the velocities.")

prop("C14", "The configuration keeps exactly what it was given, also through files",
     """Every setting of the solver configuration starts with its documented default; after a setter with an allowed value the getter returns it (16 digits) and no other setting has changed;
     a value that is not allowed is rejected with a ConfigurationException and changes nothing, and the configuration stays usable. Parameter files (XML by method or constructor, and text) written by a
     configuration and read by another give the same settings; a file that names only some entries leaves the others; files with unknown entries or values out of
     range are rejected. The consistency check rejects 'Other' as time integrator without a deal.II integrator, and multiphase collisions without forcing, and nothing else on one process. Preparing the output directory (relative or absolute)
     creates it and its checkpoint directory, fails if its parent is missing or the user does not agree to continue with a used directory, and never changes or removes an existing file.""",
     ["inputs", "histories"],
     "histories of settings with allowed and forbidden values over all ~58 settings, self-written, hand-written and damaged files, directory trees with user answers",
     "The tests set a few values once; they do not see a setter that writes another entry, an open subsection after a rejected value, or lists and files that do not survive.",
     ["solver/SolverConfiguration.h", "solver/SolverConfiguration.cpp"],
     [("setters and getters", "solver/SolverConfiguration.h"), ("declared entries, files, output directory", "solver/SolverConfiguration.cpp")],
     ["SolverConfiguration setters, getters, readFromXMLFile, readFromTextFile, prepareOutputDirectory, isConsistent"],
     "stateful model-based property testing (a map of settings as model), file round trips, structured mutation of parameter files",
     "One process; permissions of files are not varied (checks run as root).")

prop("C15", "The command line does exactly what its help message says",
     """Every documented option with a documented value changes exactly the settings it documents, in any order and combination with other options; settings that no
     option names keep the values that the program gave them. Undocumented values, values out of range, and conflicting options (standard-lbm or standard-lbm-with with cfl, another order, another
     streaming or each other; integrator with integrator-id) are rejected with an exception. The standard-lbm options give the time step with which populations move from node to node on a
     regular grid. A program's own positional, named and default arguments and flags are returned as given; reading missing arguments, reading with a wrong type, reading before
     and declaring after the import are rejected with a CommandLineParserException; --help stops the program.""",
     ["inputs", "configurations"],
     "random sets of all documented options in random order and spelling, with illegal, malformed, repeated and conflicting ones; programs with up to 6 own arguments",
     "The tests try about ten options one by one; wrong mappings, silently accepted values and combinations are not tested.",
     ["utilities/CommandLineParser.cpp", "utilities/CommandLineParser.h", "utilities/CFDSolverUtilities.cpp"],
     [("options", "utilities/CommandLineParser.cpp"), ("integrators by number", "utilities/CFDSolverUtilities.cpp")],
     ["CommandLineParser::importOptions, applyToSolverConfiguration, getArgument, hasArgument"],
     "property-based testing of generated command lines against a table transcribed from the help message",
     "Abbreviated option names are not generated.")

prop("C16", "Integrals, statistics and error tables are those of the computed fields",
     """For every field on every mesh, mass, kinetic energy, entropy and mean velocity are the integrals of the finite element function with these values at the grid points (mean: divided by the volume), computed
     with the quadrature of the operator; enstrophy and its square are integrals of the squared vorticity (2D) or squared velocity gradient (3D); pressures are (rho-1) cs^2 at the extremal points.
     For linear fields these are the exact integrals. In a run, every line of the results table, the global, plane-wise and compressible turbulence tables and the errors table is written every 'table interval' steps and holds the
     iteration, the time and the values of the state after that iteration; legends describe exactly the columns; errors are the maximal and L2 differences to the analytic solution at that time.""",
     ["inputs", "configurations"],
     "random and polynomial nodal fields x meshes x elements x quadratures; runs of the solvers with random waves, intervals, planes",
     "The tests integrate a few fields whose value is known, mostly constant ones, with one element on one mesh; they never read the tables back.",
     ["solver/PhysicalProperties.cpp", "solver/SolverStats.h", "solver/TurbulenceStats.cpp", "solver/ErrorStats.cpp", "dataprocessors/GlobalTurbulenceStats.cpp",
      "dataprocessors/CompressibleTurbulenceStats.cpp", "solver/BenchmarkCFDSolver.cpp"],
     [("integrals", "solver/PhysicalProperties.cpp"), ("tables", "solver/SolverStats.h"), ("turbulence statistics", "dataprocessors/GlobalTurbulenceStats.cpp"), ("errors", "solver/ErrorStats.cpp")],
     ["PhysicalProperties", "results_table.txt, turbulence_table.txt, global_turbulence_table.txt/.legend, compressible_turbulence_table.txt/.legend, errors_table.txt", "ErrorStats"],
     "property-based testing against an independent quadrature, exact integrals of generated polynomials, and tables read back and compared with recorded states",
     "One process. The column 'max |u_numeric|' is the largest component of the velocity. Residuals are not compared (they are only computed every 100 iterations).")

prop("C18", "The number of MPI processes has no influence on results",
     """A run on several MPI processes ends on all of them and gives, up to rounding, the populations, density, velocity and temperature of the run on one process at every point, the same time step, time, iteration, global quantities
     (mass, largest velocity, density deviation, on every process) and the same tables (results, global, plane-wise and compressible statistics, errors), written once; every point is owned by exactly one process, processes may own none.
     This holds for semi-Lagrangian (paths of at most one cell) and SEDG streaming, all integrators, isothermal and compressible collisions, forces, resting and moving walls, filters and limiters. Checkpoints written by any number of processes are
     resumed by any number.""",
     ["configurations", "schedules", "inputs"],
     "runs with random flows, meshes, elements, collisions, integrators, boundaries, statistics x 2-4 processes compared with one; stopped and resumed on 1-4 processes",
     "The tests run on one process only.",
     ["solver/CFDSolver.cpp", "solver/CompressibleCFDSolver.h", "advection/SemiLagrangian.cpp", "advection/SEDGMinLee.cpp", "collision_advanced/CollisionOperator.h", "solver/Checkpoint.cpp", "dataprocessors/GlobalTurbulenceStats.cpp"],
     [("distributed populations", "solver/DistributionFunctions.cpp"), ("ghost cells", "advection/SemiLagrangian.cpp"), ("reductions", "solver/PhysicalProperties.cpp")],
     ["CFDSolver, CompressibleCFDSolver and BenchmarkCFDSolver under mpirun", "tables", "checkpoints"],
     "differential property-based testing: the same generated case on one and on several MPI processes (persistent workers)",
     "Locally refined meshes are not included (on faces between levels the field has two values). Known finding: filters on continuous elements.")

prop("C21", "A run stops at the first reason to stop and writes exactly the configured output",
     """A run stops before the first iteration for which the number of time steps or the end time is reached or, at multiples of 100 iterations, the largest change of the velocity since the last such iteration is below the convergence threshold - not
     earlier and not later. Every data processor is called once after every iteration, in the order they were appended, and sees the iteration, time and fields of that iteration. Output switched off writes nothing. Otherwise the output
     directory gets exactly: a solution at every multiple of the solution interval and at the end, a checkpoint at every multiple of the checkpoint interval and at the end (none for intervals above 1e8), a line of the tables at every multiple
     of the table interval. A solution file holds, at the sample points of every cell, density, velocity (temperature; analytic solution of benchmarks) of that iteration.""",
     ["inputs", "configurations", "histories"],
     "runs with random flows, stop conditions, thresholds, intervals, data processors and kinds of solvers; output directories and vtu files read back and compared with the recorded history",
     "The tests check the stop conditions once each, never in combination or at their limits, and never read a written solution.",
     ["solver/CFDSolver.cpp", "solver/CompressibleCFDSolver.h", "solver/BenchmarkCFDSolver.cpp", "dataprocessors/DataProcessor.h"],
     [("stop condition and output", "solver/CFDSolver.cpp"), ("compressible output", "solver/CompressibleCFDSolver.h"), ("benchmark output", "solver/BenchmarkCFDSolver.cpp")],
     ["CFDSolver::run, stopConditionMet, output", "files in the output directory"],
     "property-based testing of run histories against the documented rules; files read back and compared",
     "One process (several: C18). Thresholds within rounding of the residual are discarded. Vorticity and shear stress in the files are not compared.")
