"""What each check is made of: harness sources, parts of the library it needs, the rule for non-trivial cases."""
CORE = ["utilities/MPIGuard.cpp", "utilities/Logging.cpp", "utilities/Math.cpp", "utilities/HtmlTrace.cpp", "utilities/Info.cpp", "utilities/Timing.cpp"]
COLL = ["stencils", "solver/SolverConfiguration.cpp", "solver/DistributionFunctions.cpp",
        "collision_advanced"] + CORE
ADV = None
CMD = ["stencils", "solver/SolverConfiguration.cpp", "utilities/CommandLineParser.cpp", "utilities/CFDSolverUtilities.cpp"] + CORE
CONF = ["stencils", "solver/SolverConfiguration.cpp"] + CORE
PROPS = {
    "C01": {
        "src": ["c01_stencils.cpp"], "groups": ["stencils"] + CORE,
        "rule": "A case is one velocity set with a random positive scaling and random projection directions; "
                "non-trivial: the scaling is not 1 and the projection has at least two non-zero components.",
    },
    "C02": {
        "src": ["c02_conservation.cpp"], "groups": COLL,
        "rule": "A case is a supported isothermal configuration with random scaling, relaxation time, time step and (in about half of the cases) "
                "force, and populations at up to 24 points (equilibrium, near equilibrium, arbitrary positive, or partly negative); "
                "non-trivial: the state is not the equilibrium or a force acts.",
    },
    "C03": {
        "src": ["c03_relaxation.cpp"], "groups": COLL,
        "rule": "A case is a supported isothermal configuration with random scaling, relaxation time, time step, force, and populations of one of "
                "four kinds at one point; non-trivial: the populations are not an equilibrium (and, for the symmetry laws, the symmetry is not the identity).",
    },
    "C04": {
        "src": ["c04_compressible.cpp"], "groups": COLL,
        "rule": "A case is a supported compressible configuration with random heat capacity ratio, Prandtl number, viscosity law, and a Maxwellian state with "
                "random density, velocity, temperature, perturbed by random non-equilibrium parts; non-trivial: the state is perturbed.",
    },
    "C05": {
        "src": ["c05_dispatch.cpp"], "groups": COLL,
        "rule": "A case is a combination of velocity set, collision scheme, equilibrium, forcing, moment basis and relaxation mode (supported or not; the "
                "law 'product' runs through the whole product of the first three in each case) with a perturbed state at up to 12 points; "
                "every case is non-trivial: the expected result is never the input.",
    },
    "C07": {
        "src": ["c07_semilagrange.cpp"], "groups": ADV,
        "rule": "A case is a box (periodic and wall axes, 1-60 cells, stretched, sheared, bilinearly deformed or locally refined), a velocity set with "
                "random scaling, an element order 1-5 with one of three node families and a time step of 0.001-3 cells; every row of the matrix is "
                "compared. Non-trivial: order > 1, or walls, or paths through several cells, or a deformed or refined mesh, or a streaming step.",
    },
    "C09": {
        "src": ["c09_periodic.cpp"], "groups": ADV,
        "rule": "A case is a periodic box (refined, deformed, with walls) with an element, or an impossible set-up, or a sequence of up to 12 additions to a "
                "collection of boundaries. Non-trivial: more than two periodic cells, or an impossible set-up, or a collection with at least two boundaries and one rejected addition.",
    },
    "C10": {
        "src": ["c10_walls.cpp"], "groups": ADV,
        "rule": "A case is a box with at least one pair of walls (at rest, moving with a velocity linear in space and time, user-defined, inlet, first-order "
                "bounce-back, outlet, thermal), a velocity set with random scaling, element order 1-4, node family, and time step up to 2.5 cells; "
                "every population at every point is compared. Non-trivial: at least one path hits a wall.",
    },
    "C17": {
        "src": ["c17_solver.cpp"], "groups": ADV,
        "rule": "A case is a whole run of 1-6 steps of the (compressible) solver on a box of up to 24 cells, with random velocity set, scheme, equilibrium, order, nodes, "
                "CFL number, viscosity, force, moving walls and periodic waves of density, velocity (and temperature) as initial state; all populations at all points are compared "
                "with the reference solver. Non-trivial: every case that stays stable (others are discarded).",
    },
    "C14": {
        "src": ["c14_config.cpp"], "groups": CONF,
        "rule": "A case is a history of up to 30 settings (allowed, out of range, unknown), consistency checks and copies by file; or a file written by the configuration, by hand, or damaged; or a "
                "directory tree with a user's answers. Non-trivial: at least two accepted settings; any entry in the file; existing files or a missing parent.",
    },
    "C15": {
        "src": ["c15_cmdline.cpp"], "groups": CMD,
        "rule": "A case is a command line of random documented options in random order and spelling, with random values (some illegal, malformed, unknown, repeated or in conflict), applied to a "
                "configuration with random settings; or a program with up to 6 own arguments. Non-trivial: at least two options.",
    },
    "C16": {
        "src": ["c16_statistics.cpp"], "groups": ADV,
        "rule": "A case is a box (stretched, sheared, bilinear, locally refined) with an element, a quadrature and random or polynomial nodal fields, or a run of 1-7 steps of the "
                "solver, the compressible solver or the benchmark solver with random waves, whose tables are read back. Non-trivial: fields that are not constant, runs with at least one line after the first step.",
    },
    "C08": {
        "src": ["c08_dg.cpp"], "groups": ADV,
        "rule": "A case is a box (periodic, resting or moving walls, stretched, sheared or bilinear) of up to 16 cells, a velocity set with random scaling, element order 1-5 and upwind or central flux; "
                "every entry of the matrix and the boundary vector is compared, or random and polynomial populations are transported. Non-trivial: order > 1, walls or a deformed mesh.",
    },
    "C13": {
        "src": ["c13_checkpoint.cpp"], "groups": ADV,
        "rule": "A case is a mesh with random populations written and read (on the same or a finer mesh), a damaged or unsuitable checkpoint, or a run with random flow which is stopped and resumed. "
                "Non-trivial: order > 1, more than 9 populations or a deformed or locally refined mesh; runs: the flow varies in space.",
    },
    "C11": {
        "src": ["c11_integrators.cpp"], "groups": ADV,
        "rule": "A case is a linear system with a matrix of one of nine kinds (singular, skew, nilpotent, transport, ...), one of four storage types, and one of 15 integrators, which makes 1-4 steps with "
                "changing step size, matrix, vector and state; or a run of 1-4 steps of the solver with the SEDG operator. Non-trivial: at least two steps from a state that is not stationary; runs: the flow varies in space.",
    },
    "C12": {
        "src": ["c12_filters.cpp"], "groups": ADV,
        "rule": "A case is a mesh (stretched, locally refined) with an element (discontinuous of order 1-7 with three node families, or continuous), a filter with random parameters and random values, filtered 1-3 times; "
                "or a run of the solver with a filter; or a random matrix with target and source of the limiter; or a streaming step of steep populations. Non-trivial: order > 1 (continuous: something but a constant); runs: at least one "
                "application; limiter: at least one value was limited.",
    },
    "C18": {
        "src": ["c18_parallel.cpp"], "groups": ADV, "parallel": 4,
        "rule": "A case is a run of 1-6 steps of the solver (semi-Lagrangian or SEDG, isothermal or compressible, with walls, local refinement, forces, filters, tables), made by one process and by 2-4 processes, or stopped and resumed on other numbers of processes. "
                "Non-trivial: at least two processes own points.",
    },
    "C06": {
        "src": ["c06_initial.cpp"], "groups": ADV,
        "rule": "A case is a random initial density, velocity (temperature) on a box with a solver (semi-Lagrangian or SEDG) and an initialization scheme; all populations after construction (or after the velocity was scaled or changed) are compared. "
                "Non-trivial: the velocity gradients change a population, or at least two iterations, or a changed velocity.",
    },
    "C21": {
        "src": ["c21_run.cpp"], "groups": ADV,
        "rule": "A case is a run of the solver (semi-Lagrangian, SEDG, benchmark, compressible) with random limits of steps and time, convergence threshold and output intervals; data processors record the history, "
                "the files are read back. Non-trivial: more than one iteration was made, or output was switched off.",
    },
}
