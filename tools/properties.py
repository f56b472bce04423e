#!/usr/bin/env python3
"""Writes properties.jsonl (run after editing the list here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism], "observe_at": list(observe), "hook_needed": hook}})

LF = "find_lfun_glmm(): the returned function"
prop("C01", "A log-likelihood depends on its parameters, never on what was evaluated before",
     "A log-likelihood function gives, at a parameter value, the value (or the error) it would give if that were the first thing evaluated in a fresh process: "
     "whatever sequence of other parameter values, repeats, invalid parameters, failed evaluations or fits came before. Making further likelihood functions or fits from the same model frame does not change it either.",
     ["histories", "fault_sequences", "inputs"], "all sequences of evaluations, on all model shapes, methods (Laplace of order 1 and 2, AGQ, SR, IS) and parameter values, with failing evaluations in between",
     "State is kept between evaluations at every level (lme4's predictor and response modules, cached messages and modified sets in the cluster graph, mutable calibration parameters); the tests evaluate a handful of points once each, nearly always on a new function.",
     ["R/loglikelihood.R", "R/laplace.R", "R/IS.R", "src/ClusterGraph.cpp", "src/Parameters.cpp", "src/GLMMBelief.cpp", "src/MixedContinuousBelief.cpp"],
     [("fresh PIRLS start for each evaluation", "R/loglikelihood.R find_devfun_laplace_1"), ("recompute only what depends on what changed", "src/ClusterGraph.cpp ClusterGraph::compute*, src/GLMMBelief.cpp resetParameters")],
     [("pp, resp", "lme4's modules, updated in place", "environment of the deviance function"), ("cluster graph", "messages and approximations kept between evaluations", "src/ClusterGraph.cpp"), ("calibration_pars", "mutable parameters shared by all evaluations of one function", "R/loglikelihood.R find_lfun_SR")],
     [LF])
prop("C02", "Likelihoods and fits are isolated: interleaved use never changes any of them",
     "Several likelihood functions and fits in use at once, made from the same or from look-alike models, each give what they would give alone, however their uses interleave: one after another, one nested inside another that has not finished, "
     "in forked worker processes, or while others are discarded. No state is shared between them.",
     ["schedules", "histories", "configurations"], "all interleavings at the yield points of all methods, of any number of functions and fits, with same-shape siblings and forks",
     "The tests use one model at a time, in sequence, so any sharing (globals, static caches keyed too coarsely, a model frame whose storage is modified in place, an object modified by reference) goes unseen.",
     ["R/loglikelihood.R", "R/fit.R", "R/optimization.R", "src/ClusterGraph.cpp", "src/SparseGrid.cpp", "src/RcppR6.cpp"],
     [("every function owns its deviance function, parameters and graph", "R/loglikelihood.R"), ("copies of what lme4 modifies in place", "R/loglikelihood.R find_devfun_laplace_1")],
     [("model frame", "theta, Lambdat and offset are modified in place by lme4", "R/loglikelihood.R"), ("sparse grid storage", "shared quadrature nodes", "src/SparseGrid.cpp")],
     [LF, "glmm()"])
prop("C03", "Running out of memory is a clean error that leaves every object usable",
     "If an allocation fails at any moment while a likelihood function is made or evaluated or a model is fitted, the operation ends with an ordinary R error or with its correct result: it never crashes, corrupts memory or returns a wrong value. "
     "Every object that existed before, the same likelihood function included, afterwards gives its correct results again.",
     ["fault_sequences", "crash_points", "inputs"], "every allocation (in the package's compiled code, or large ones in R) at which memory may run out, once or persistently, in every operation, on all model shapes",
     "No test makes an allocation fail; the compiled code caches by reference counting and modifies beliefs in place, so a failure half way leaves states no ordinary run reaches.",
     ["src/GLMMBelief.cpp", "src/MixedContinuousBelief.cpp", "src/ClusterGraph.cpp", "src/NormalBelief.cpp", "src/SparseGrid.cpp", "R/optimization.R"],
     [("C++ exceptions translated to R errors", "src/RcppR6.cpp, src/RcppExports.cpp"), ("update only when the computation has succeeded", "src/GLMMBelief.cpp, src/MixedContinuousBelief.cpp")],
     [("belief parameters", "recorded as current before or after dependents are recomputed", "src/GLMMBelief.cpp")],
     [LF, "glmm()"])
prop("C04", "A user interrupt stops the work at once and damages nothing",
     "When the user interrupts the making or evaluation of a likelihood or a fit, the operation ends as interrupted: it is not swallowed, turned into an error, a penalty or a result, and no further likelihood evaluations follow it. "
     "Afterwards all likelihood functions, model frames and fits give their correct results and the session state is as before.",
     ["crash_points", "histories", "schedules"], "every instant (before, inside and after likelihood evaluations, at native allocations, pending on entry) of every operation",
     "Tests never interrupt; the fit catches the errors of trial points, and a handler that is slightly too broad would also catch interrupts.",
     ["R/optimization.R", "R/loglikelihood.R", "R/fit.R", "src/ClusterGraph.cpp"],
     [("handlers for errors only", "R/optimization.R devfun_ext"), ("all state rebuilt or consistent at each evaluation", "R/loglikelihood.R")],
     [], [LF, "glmm()"])
prop("C05", "Trial points that cannot be evaluated never derail a fit",
     "If the likelihood cannot be approximated at some trial points of a fit, permanently or transiently, the fit treats those points as having log-likelihood minus infinity and goes on: it ends in bounded time where it would end with the log-likelihood so defined, with an estimate at which the likelihood can be evaluated and is no lower than at the start. "
     "If it cannot be approximated at the starting parameters the fit stops at once with an error which says so and gives the cause.",
     ["fault_sequences", "inputs", "configurations"], "all patterns of failing points (regions of parameter space, single calls, runs of calls, the starting value, failed allocations) in all fits",
     "The existing tests hardly reach a failing trial point, and where approximations fail depends on the data; outcome under a failure pattern has to be compared with that of the equivalent penalised problem.",
     ["R/optimization.R", "R/fit.R", "R/loglikelihood.R"],
     [("infinite deviance at failing points", "R/optimization.R devfun_ext"), ("error at the starting value", "R/optimization.R optimize_glmm")],
     [], ["glmm()"])
prop("C06", "Inputs and the session are left as they were, however an operation ends",
     "Making a model frame or likelihood function, evaluating it, fitting, and printing never modify the caller's data, model frames, fits, control lists or variables, nor the session (options, random number kind, connections, sinks, graphics devices, environment variables, working directory, temporary files, open file descriptors). "
     "This holds whether the operation succeeds, fails or is interrupted.",
     ["crash_points", "fault_sequences", "histories", "inputs"], "all operations with a fault (failed evaluation, failed allocation, interrupt, full output device) at any point, and all session configurations",
     "R code and compiled code modify vectors in place through shared storage, which nothing shows unless the caller's copy is fingerprinted before and after; tests look at results, not at what they were made from.",
     ["R/fit.R", "R/model_frames.R", "R/loglikelihood.R", "R/optimization.R", "R/glmmFit.R", "R/subformula.R"],
     [("copies of theta, Lambdat and offset for lme4", "R/loglikelihood.R find_devfun_laplace_1"), ("an environment of its own for weights and offset", "R/model_frames.R parse_formula")],
     [("reTrms$theta, Lambdat@x, offset", "shared with lme4's C++ objects", "R/loglikelihood.R")],
     ["all exported functions"])
prop("C07", "Randomness is confined: only importance sampling draws, once, from R's stream",
     "Making, evaluating and fitting with deterministic methods (Laplace, AGQ, SR) draw no random numbers: the user's stream, of whatever kind and state, goes on as if nothing had happened. "
     "Importance sampling draws only when the likelihood function is made, only from R's generator, so a seed makes it reproducible, and evaluations of the same function use the same draws: equal parameters always give the equal values, and the number of draws does not depend on what is evaluated.",
     ["histories", "configurations", "fault_sequences"], "all interleavings of the user's draws and reseedings with operations, all generator kinds, failing and interrupted operations included",
     "A test sees one seed of one generator kind; a draw that happens only at an error, at a later evaluation or from the system's entropy does not change the numbers tests look at.",
     ["R/IS.R", "R/loglikelihood.R", "R/optimization.R", "src/RcppExports.cpp"],
     [("draws taken once", "R/IS.R find_lfun_IS"), ("RNG scope of Rcpp", "src/RcppExports.cpp")],
     [(".Random.seed", "the user's stream", "global environment")], [LF, "runif(), rnorm(), sample()"])
prop("C08", "Clocks and verbosity never influence what is computed",
     "The estimate, variance, divergence and outcome of a fit are the same whatever the clocks do (stand still, run fast or slow, jump forwards or backwards, evaluations that take no measurable time or minutes) and whatever level of output was asked for, also when the output cannot be written. "
     "The fit never waits for, or decides anything by, elapsed time other than when to print.",
     ["schedules", "configurations", "fault_sequences"], "all behaviours of real, monotonic and CPU clocks during fits and evaluations, all verbosity levels, broken standard output",
     "Timing is measured by the fit to pace its output; tests run at verbose = 0 or ignore it, on a machine where each evaluation takes about the same small time.",
     ["R/optimization.R", "R/fit.R"],
     [("time is used for the print gap only", "R/optimization.R optimize_glmm")],
     [("t0, print_gap, count", "time for one evaluation; marks", "R/optimization.R")], ["glmm()"])
prop("C09", "Kept fits and model frames survive the death of the process",
     "A fit or model frame written to disk and read in another process, after the first ended normally or was killed at any moment later, gives the same coefficients, variances, printed output and summary; likelihood functions made and fits continued from it in the new process give the same results as in one that never stopped. "
     "Using a restored likelihood function gives its correct value or an error, never a wrong value or a crash.",
     ["crash_points", "histories"], "all points at which the first process may end, chains of restarts, all model shapes and methods",
     "Every object holds functions, environments and pointers to compiled objects, which serialisation turns into copies or null pointers; no test serialises anything.",
     ["R/glmmFit.R", "R/fit.R", "R/loglikelihood.R", "R/RcppR6.R", "src/RcppR6.cpp"],
     [("fits carry everything the accessors need as plain data", "R/fit.R glmm"), ("null external pointers are errors", "inst/include/glmmsr/RcppR6_support.hpp")],
     [("external pointers", "null after a restart", "R/RcppR6.R")], ["coef(), vcov(), print(), summary(), find_lfun_glmm(), glmm(prev_fit=)"])
prop("C10", "Results never depend on garbage collection or on what memory held before",
     "Whenever R collects garbage (at any allocation, between and inside operations, after the objects a likelihood function was made from have been discarded) and whatever bytes fresh or freed memory contains, all operations give the same results, "
     "none reads or writes memory that is not its own, and none crashes.",
     ["schedules", "histories", "configurations"], "all garbage collection schedules, all initial contents and reuse patterns of native memory, all model shapes and methods",
     "Unprotected R objects, dangling pointers and uninitialised values work by luck nearly always, and tests trigger garbage collection at the same few places.",
     ["src/ClusterGraph.cpp", "src/MixedContinuousBelief.cpp", "src/GLMMBelief.cpp", "src/SparseGrid.cpp", "src/Parameters.cpp", "src/RcppR6.cpp", "R/loglikelihood.R"],
     [("ownership by shared pointers and finalizers", "src/RcppR6.cpp, inst/include"), ("functions keep what they need in their environment", "R/loglikelihood.R")],
     [], [LF, "glmm()", "accessors"])
prop("C11", "Memory is conserved: repeated work, however it ends, does not accumulate",
     "Repeating the same work (make, evaluate, fit, discard) uses no more memory each time, also when evaluations fail, run out of memory or are interrupted: all that an evaluation allocated is given back when it ends, and all that an object holds is given back when it is discarded.",
     ["histories", "fault_sequences", "crash_points"], "all cycles of operations with a fault at any point of each, on all model shapes and methods",
     "A test makes each object once and exits; a leak on an error path or a cache that grows with every new parameter value breaks nothing within a test's lifetime.",
     ["src/ClusterGraph.cpp", "src/MixedContinuousBelief.cpp", "src/GLMMBelief.cpp", "src/RcppR6.cpp", "R/loglikelihood.R", "R/optimization.R"],
     [("shared pointers and finalizers", "src/*.cpp"), ("no long jumps over C++ frames", "Rcpp")],
     [], ["process memory"])
prop("C12", "Progress output is truthful, complete and paced by elapsed time",
     "At verbose = 0 nothing is printed by a fit, and likelihood functions never print. At verbose = 1 progress marks come approximately once per second of elapsed computing time, however long an evaluation takes; at verbose = 2 every trial point of the optimisation is printed, in order, with its parameters and the log-likelihood that was computed there, failing points with minus infinity.",
     ["schedules", "configurations", "fault_sequences"], "all durations of evaluations, all verbosity levels, fits with failing trial points",
     "The tests do not look at the output, and how it is paced depends on durations no test controls.",
     ["R/optimization.R", "R/fit.R"],
     [("print gap from a timed evaluation", "R/optimization.R optimize_glmm"), ("transcript line per evaluation", "R/optimization.R devfun_ext")],
     [("started, count, print_gap", "state of the output", "R/optimization.R")], ["standard output of glmm()"])

# ---------------------------------------------------------------- pure functions of their input
prop("C13", "Sequential reduction is accurate and converges in the storage level",
     "The sequential reduction log-likelihood equals the true log-likelihood up to an error that decreases as the storage level increases, and is exact for a two-level model up to quadrature.",
     ["inputs", "configurations"], "all models with pairwise or clustered structure, all storage levels", "Tests compare a few models to stored numbers.",
     ["src/ClusterGraph.cpp", "src/MixedContinuousBelief.cpp", "src/SparseGrid.cpp"], [("variable elimination over a cluster graph with sparse grids", "src/ClusterGraph.cpp")])
prop("C14", "Family and link derivatives agree with their functions",
     "For every supported family and link the derivatives used by the approximations are the derivatives of the log-likelihood contributions, for all linear predictors, extreme ones included.",
     ["inputs"], "all linear predictors and responses", "Tests check a few points.", ["R/hol.R", "src/FamilyBase.cpp", "src/GLMMBelief.cpp"], [("closed forms", "R/hol.R, src/FamilyBase.cpp")])
prop("C15", "Second-order Laplace and importance sampling target the same likelihood",
     "The second-order Laplace and the importance sampling approximations approximate the same log-likelihood as the others, with the sampling error going to zero with the number of samples.",
     ["inputs", "configurations"], "all models and parameters", "Tests compare a few values.", ["R/laplace.R", "R/hol.R", "R/IS.R"], [("expansion of the integrand at the mode", "R/laplace.R, R/hol.R")])
prop("C16", "Substituted variables mean what the subformulas say",
     "A model with Sub() terms has the model matrices obtained by writing the substituted expression out by hand, for every expression of sums, differences and multiples, and every index.",
     ["inputs", "programs"], "all formulas and data", "Tests cover a few formulas.", ["R/subformula.R", "R/model_frames.R", "R/indexing.R", "R/modify_subexpr.R"], [("arithmetic of model frames", "R/model_frames.R")])
prop("C17", "Relabelling or reordering data never changes the likelihood",
     "Permuting rows, renaming or reordering factor levels and permuting random effects leaves the log-likelihood unchanged up to rounding.",
     ["inputs"], "all permutations of all data sets", "Tests use one order.", ["R/model_frames.R", "src/ClusterGraph.cpp"], [("structure found from the sparsity of the design", "R/model_frames.R find_factorization_terms")])
prop("C18", "Equivalent ways of giving the response or weights are equivalent",
     "Factor, logical, 0/1 and matrix responses that describe the same data, and integer weights in place of repeated rows, give the same log-likelihood.",
     ["inputs"], "all equivalent data sets", "Tests cover one or two pairs.", ["R/model_frames.R", "src/GLMMBelief.cpp"], [("conversion of the response", "R/model_frames.R find_local_term")])
prop("C19", "Invalid input is rejected with a clear error",
     "Unknown control parameters, methods, unsupported families or links, negative weights and misspelt variables are rejected with an error that names the problem before anything is computed.",
     ["inputs"], "all invalid arguments", "Tests cover a few.", ["R/control.R", "R/fit.R", "R/utility.R"], [("checks on entry", "R/control.R")])
prop("C20", "Printed summaries agree with the fit",
     "Standard errors, z values and variance components shown by print and summary are those of the estimate and its variance matrix.",
     ["inputs"], "all fits", "Tests cover one or two fits.", ["R/glmmFit.R"], [("summary methods", "R/glmmFit.R")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
