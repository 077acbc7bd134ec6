"""What each check is: run counts, coverage rule, components, assumptions."""
COMPONENTS = {
    "real": "all of factrs as compiled from /repo (containers, optimizers, linear solvers, residuals, variables, "
            "noise, robust kernels), faer, nalgebra",
    "simulated": "hash seeds of every container (ahash random source), user callbacks (residuals, noise models, robust "
                 "kernels, observers), scheduling between callbacks, the caller-supplied linear solver's answers",
    "stub": "getrandom (deterministic, replaced by a crate of the same name)",
}
ASSUMPTIONS = [
    "double precision except in C16, single-threaded linear algebra except in C17; default features except in C15 to C17",
    "comparisons of real numbers use a stated tolerance; decisions within rounding of a threshold are not judged",
]
GRAPH = ("Each run draws a factor graph (1-8 variables, now and then up to 100, of up to four of the eleven variable kinds, priors, relative "
         "measurements and user-defined residuals of one to six variables, ten ways of giving noise, eight robust "
         "kernels, factors built untyped, typed or by the shorthand macro; symbols at random and at packing boundaries), starting values, insertion orders and hash seeds from "
         "one seed. ")
NT = " Non-trivial: {}; counted as distinct event traces (64-bit hash over schedule, faults and outcomes)."
CATALOGUE = {
    "C01": {
        "quick": 70000,
        "rule": GRAPH + "The graph is optimized two or more times with different hash seeds, variable insertion "
        "orders, factor orders and linear solvers, and outcome, iterates, final cost and estimate are compared."
        + NT.format("at least one pair of runs whose decisions were all clear of rounding was compared"),
        "assumptions": ["runs whose accept/stop decisions lie within rounding of their threshold are not compared"],
    },
    "C02": {
        "quick": 90000,
        "rule": GRAPH + "Cost, per-factor and whole-graph linearisation are compared with the reference model at the "
        "start, and every Gauss-Newton step of a run with the model's step from the same point, forwards (new point) "
        "and backwards (residual of the normal equations)." + NT.format("the model was consulted (every run)"),
        "assumptions": ["points where a rotation residual is within 0.012 rad of pi (0.002 for costs alone; 0.15 for inertial factors), and within a kernel's kink, are not judged"],
    },
    "C03": {
        "quick": 120000,
        "rule": GRAPH + "A Levenberg-Marquardt optimizer is stepped; a seeded plan makes the linear solver return NaN, "
        "infinity, zero, negated, scaled or random answers at chosen calls or forever; every attempt's damped system, "
        "acceptance, damping update, failure and announcement are compared with the configured rules."
        + NT.format("at least one attempt was judged"),
        "assumptions": ["lambda_factor > 1 and lambda_max finite (configuration the optimizer is meant for)"],
    },
    "C04": {
        "quick": 1500000,
        "rule": "Half of the runs script the cost sequence of a user-supplied optimizer (costs at, just above and just "
        "below every tolerance, plateaus, increases, NaN, infinities, failing steps, iteration limits up to usize::MAX);"
        " the others run real graphs. The outcome, the number of steps and the returned iterate are compared with a "
        "reference loop." + NT.format("a run whose outcome the reference loop predicts"),
    },
    "C05": {
        "quick": 250000,
        "rule": GRAPH + "Up to several observers are registered, some of them crash, in optimizers that converge, "
        "stop early, fail (faulty solver) or take no step; the announcement history is compared with the step history."
        + NT.format("at least one run was judged"),
    },
    "C06": {
        "quick": 36000,
        "rule": GRAPH + "One optimizer goes through one to four earlier runs (plain, faulty solver, dying solver, crash in "
        "a callback, abandoned by hand, changed parameters) and is then compared with a newly created one."
        + NT.format("fault injected, or the comparison was decisive"),
    },
    "C07": {
        "quick": 300000,
        "rule": "Each run drives one solver instance (Cholesky, LU or QR) through a session of systems whose size, "
        "pattern, kind (symmetric positive definite, least squares) and solvability change from call to call; the "
        "answer to each is checked against the normal equations of that very system."
        + NT.format("a session of at least two calls"),
    },
    "C08": {
        "quick": 30000,
        "variants": ["blocks:"],
        "rule": GRAPH + "Two or three optimizations run at once: as threads of which a seeded scheduler lets one "
        "proceed at a time, switching them in callbacks and after any drawn number of basic blocks of library code, step by step on one thread, or nested in each other's callbacks, some of "
        "them crashing; every history is compared bit for bit with the one recorded in isolation."
        + NT.format("at least one switch between optimizations"),
        "components": {"simulated threads": "real OS threads, serialised by the seeded scheduler; switched in callbacks and at any "
                       "basic block of the library and its generic instantiations (compiler instrumentation)"},
    },
    "C09": {
        "quick": 60000,
        "rule": "Each run writes generated pose-graph files (2-D and 3-D) to scratch and loads them while the "
        "interposed libc open/read/fstat fail, return short counts, are interrupted or return an error at chosen calls; "
        "the result is compared with a fault-free load." + NT.format("an I/O fault was injected or a load compared"),
        "components": {"simulated": "open, read, fstat and related libc calls on the scratch file; hash seeds"},
    },
    "C10": {
        "quick": 300000,
        "rule": "Each run generates a pose-graph file (2-D, 3-D or mixed; vertices in any order, redefinitions, "
        "comments, unknown records, odd spacing and number formats, full information matrices, records torn at any "
        "byte) and compares initial values, cost and linearisation of the loaded graph with the file's meaning."
        + NT.format("a load judged"),
    },
    "C11": {
        "quick": 900000,
        "rule": "Each run applies a history of 3-42 operations (insert, replace, typed and untyped lookup, in-place edit, "
        "entry, removal, copy, tangent update with missing, foreign or wrong-sized increments, traversal, consumption) to "
        "up to three stores under changing hash seeds, and compares them with plain maps." + NT.format("every run"),
    },
    "C12": {
        "quick": 60000,
        "rule": GRAPH + "An optimization is killed one to three times at a drawn callback (residual, noise model, "
        "kernel, solver, observer), resumed from the last saved iterate in the same or a new simulated process, and "
        "its trajectory and minimum are compared with the uninterrupted run." + NT.format("at least one crash"),
    },
    "C13": {
        "quick": 16000,
        "rule": "Each run feeds up to five integrators, interleaved and copied midway by the scheduler, with sample "
        "streams that passed a transport which loses, duplicates, delays and reorders samples and jumps in time; cost, "
        "linearisation and optimization steps of the factors are compared with the documented discrete equations."
        + NT.format("every run"),
        "assumptions": ["accumulated rotation of one factor below 5.2 rad: the documented scheme is singular at a full turn"],
    },
    "C14": {
        "quick": 150000,
        "rule": GRAPH + "Variables are left out or replaced by others of the same or another dimension, and unmentioned "
        "variables are added; evaluation, linearisation and runs must fail loudly and unannounced, and the same "
        "optimizer must afterwards equal a new one." + NT.format("a fault was injected"),
    },
    "C15": {
        "quick": 40000,
        "variants": ["left", "fake_exp", "left,fake_exp"],
        "rule": GRAPH + "The library is built three times, with its left-perturbation option, its product-manifold "
        "option and both, and the simulator with it. Each run is one of the scenarios of C01 (orders and solvers), C02 "
        "(cost, linearisation, Gauss-Newton steps), C03 (damped steps, faulty solver), C10 (loaded files), C11 (value "
        "store histories), C12 (crash and resume) or C13 (inertial factors), judged by the reference model in the "
        "selected convention." + NT.format("as in the scenario drawn"),
        "assumptions": ["three of the four combinations of the two options; the fourth is the default build of the "
                        "other checks", "those of the scenarios drawn"],
    },
    "C16": {
        "quick": 120000,
        "variants": ["f32", "f32,left"],
        "rule": GRAPH + "The library is built with its single-precision option, and with that and the left-perturbation "
        "option, and the simulator with it. Three runs in eight compare cost, linearisation, Gauss-Newton steps and the "
        "optimum reached with the double-precision reference model; the others are scenarios of C01 (orders and "
        "solvers), C04 (scripted and real cost sequences), C05 (observers), C06 (reuse after faults), C08 (interleaved "
        "and nested runs), C09 and C10 (files through a faulty disk), C11 (value store histories), C12 (crash and "
        "resume) and C14 (missing variables)." + NT.format("as in the scenario drawn"),
        "assumptions": ["numbers are compared to 0.5 % (costs, linearisations) or 2 % (steps, optima) on problems with "
                        "condition below 1e3 and clear of kinks and half turns", "those of the scenarios drawn"],
    },
    "C17": {
        "quick": 12000,
        "variants": ["rayon", "blocks:rayon"],
        "rule": GRAPH + "The library is built with its multithreading option on a stand-in for the task scheduler, which "
        "draws from one seed the number of workers, which half of every split runs first and whether another thread "
        "takes it, and, in the instrumented build (every other worker), interleaves the two halves of a split on two "
        "threads, switching after any drawn number of basic blocks of the library and the generic code of faer it "
        "instantiates. Optimizations of densely connected graphs (up to 57 variables and 500 factors) and large linear "
        "systems (up to 150 unknowns) under such schedules are compared with one thread and with dense references; the "
        "scenarios of C01, C02, C03, C06, C07 and C12 run under them as well."
        + NT.format("work was split into tasks, or as in the scenario drawn"),
        "components": {"real": "as above, with the parallel code paths of faer, gemm and rayon's iterators",
                       "stub": "rayon-core (seeded scheduler: tasks run on this or another thread, one at a time or interleaved in pairs)"},
        "assumptions": ["at most two tasks are interleaved at a time, between basic blocks and sequentially consistent; code of "
                        "faer and gemm compiled in their own crates is not interrupted"],
    },
}
