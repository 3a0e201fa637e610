#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe,hook_needed=hook)))
SOLV=["src/solvers/anderson_cd/mod.rs","src/solvers/anderson_bcd/mod.rs","src/solvers/impl_solver.rs"]
EST=["src/estimators/estimators.rs","src/estimators/hyperparams.rs"]
DF=["src/datafits/single_task/mod.rs","src/datafits/multi_task/mod.rs"]
PEN=["src/penalties/separable/mod.rs","src/penalties/block_separable/mod.rs"]
DS=["src/datasets/impl_design_matrix.rs","src/datasets/csc_array.rs","src/datasets/impl_targets.rs","src/datasets/mod.rs"]
PY=["python/sparseglm/estimators.py","python/src/lib.rs","python/src/lasso.rs","python/src/mtl_lasso.rs","python/src/mcp.rs","python/src/block_mcp.rs","python/src/elastic_net.rs","python/src/multi_task_elastic_net.rs"]
m=lambda n,w: dict(name=n,where=w)

p("C01","Concurrent fits never influence each other",
 "Fits running concurrently in one process, sharing datasets, penalties, hyper-parameter objects and solver settings in any mix of estimators, shapes, element types and storage formats, each return bit for bit the coefficients they return when run alone in a fresh process, under every thread interleaving. None of them fails or deadlocks because of the others, and the shared inputs are never written.",
 ["schedules","inputs","configurations"],"every interleaving of any number of caller threads, preempted at any memory access, allocation, progress write or component call",
 "The tests run each fit alone on one thread; the test harness runs tests in parallel but controls no interleaving and shares no data between them.",
 SOLV+EST+DF+PEN+DS,
 [m("all iterates, work arrays and precomputed quantities are local to one fit; datasets, penalties and settings are taken by shared reference","coordinate_descent, block_coordinate_descent, Solver::solve, *ValidParams::fit")],
 ["coefficients returned by fit/solve/solve_multi_task","panics","bytes of the shared inputs"])

p("C02","A fit abandoned by a panic leaves nothing behind",
 "When a fit is abandoned at any point because a caller-supplied component (scalar arithmetic, targets, design matrix, datafit or penalty) panics, its inputs are unchanged and every object it used, including the same datafit, solver settings, hyper-parameters and dataset, can be used again. Every later or concurrent fit returns bit for bit what it returns in a fresh process, and none is blocked or poisoned by the abandoned one.",
 ["crash_points","histories"],"every point at which a caller-supplied component can unwind out of a fit, followed by any history of further fits",
 "No test unwinds out of a fit; the crash points (every arithmetic operation and component call of a fit) are far too many to enumerate by hand.",
 SOLV+EST+DF+PEN+DS,
 [m("state of a fit lives on its stack; Datafit::initialize recomputes everything kept between fits","Quadratic::initialize, Logistic::initialize, QuadraticMultiTask::initialize"),m("penalties and settings are immutable during a fit","Penalty, MultiTaskPenalty, Solver")],
 ["coefficients of later fits with the same objects","bytes of the inputs","liveness of other fits"],
 [dict(name="datafit precomputations",meaning="step constants and X^T y kept inside a datafit between fits",where="src/datafits")])

p("C03","Progress output faults never change or fail a fit",
 "Whatever happens to the standard output on which a fit reports its progress (closed pipe, full disk, I/O error, would-block, interrupted calls, short or zero-length writes, stalls), the fit completes and returns bit for bit the coefficients it returns with a working output or with verbosity off. A fit with verbosity off writes nothing.",
 ["fault_sequences","configurations"],"every sequence of outcomes of the write calls a fit issues, for every solver, estimator and stopping path",
 "Tests run with a captured, never failing output; write faults do not occur in them at all.",
 SOLV+["src/solvers/mod.rs"],
 [m("progress reports ignore write errors and happen outside the numerical state","report_progress! in src/solvers/mod.rs and its call sites")],
 ["coefficients","panics","write calls on file descriptors 1 and 2"])

p("C04","A fit cut short by its budget never does worse than an earlier cut",
 "For convex objectives (and MCP with gamma times every step constant above one), wherever its iteration budget cuts a fit short, the returned coefficients are finite and their objective is no larger than that of the null solution. Allowing more outer iterations, or more epochs when there is a single outer iteration, never returns a larger objective, up to rounding, with or without acceleration.",
 ["crash_points","inputs","configurations"],"every point at which the two iteration budgets can stop the optimisation, for every problem, storage format and setting",
 "Tests only look at fits that ran to convergence on two data sets; the intermediate stopping points are never observed.",
 SOLV+["src/utils/mod.rs"]+DF+PEN+DS,
 [m("coordinate descent with steps 1/L_j decreases the objective; an extrapolated point is kept only if it decreases it","coordinate_descent, block_coordinate_descent, anderson_accel")],
 ["objective at the coefficients returned under each budget"])

p("C05","Fits reach optimality, also after transient component faults",
 "If the datafit or penalty supplied to a solver returns wrong but finite gradients, proximal steps, objective values or optimality distances for a while and is correct from then on until the fit ends (and what it computed meanwhile stays small enough that rounding and saturation remain below the tolerance), a fit that ends before its iteration budget returns coefficients meeting the optimality conditions of its objective to the requested tolerance, and on well-conditioned problems it does end before a budget large enough for the fault-free fit. The same holds without any fault for every estimator, element type, storage format and solver setting.",
 ["fault_sequences","inputs","configurations"],"every bounded prefix of faulty component answers at any position of a fit, and the empty one",
 "Tests check a handful of fault-free fits on two generated data sets and never feed the solver a wrong component answer.",
 SOLV+EST+DF+PEN+DS+["src/utils/mod.rs"],
 [m("the stopping decision recomputes the optimality distance of all features from the current model fit at each outer iteration","opt_cond_violation, coordinate_descent, block_coordinate_descent"),m("extrapolation is safeguarded by an objective comparison","anderson_accel")],
 ["coefficients","number of component calls relative to the budget"])

p("C06","Bounded work and ordinary failure under any persistent fault",
 "Whatever its data, settings or components contain or answer (NaN, infinite, huge or subnormal numbers, useless step constants, optimality that is never reached, flipped bits in stored data or sparse indices), a fit performs at most max_iterations times max_epochs passes over the features plus one optimality check per ten passes and per outer iteration, and needs memory in proportion to its arrays, however large that budget is. It then either returns coefficients of the right shape or panics; it never hangs, aborts the process, reads or writes outside its arrays or modifies its inputs.",
 ["fault_sequences","inputs","configurations"],"every persistent or intermittent corruption of data, scalar arithmetic or component answers",
 "Tests only use clean data and correct components.",
 SOLV+EST+DF+PEN+DS+["src/utils/mod.rs"],
 [m("both loops are bounded ranges; all indexing is bounds-checked safe code","coordinate_descent, block_coordinate_descent, anderson_accel, solve_lin_sys, argsort_by")],
 ["number of component calls","peak memory in use","returned shape","process status","memory accesses outside live allocations"])

p("C07","The solver consults its components with one consistent state",
 "Whenever a solver consults a datafit, penalty or design matrix supplied by its caller, the datafit has been initialised on that dataset first, feature indices are in range and a working set never repeats one, the model fit it passes equals the design matrix applied to the coefficients it currently holds (up to rounding), gradient and optimality requests about one check refer to the same point, and proximal steps use the inverse of that feature's step constant. Features with a zero step constant keep a zero coefficient, and a fit that ends on a successful optimality check returns the coefficients it was made on.",
 ["histories","schedules","fault_sequences"],"every history of calls a solver makes on its components, also interleaved with other fits and after finite garbage answers of datafit and penalty",
 "Tests call the solvers as a whole with library components and never observe the calls between them.",
 SOLV+DF+PEN+DS,
 [m("the model fit is updated incrementally with every coefficient change and replaced together with the coefficients on extrapolation","update_model_fit, update_model_fit_multi_task, compute_extrapolated_fit, anderson_accel")],
 ["arguments of Datafit/MultiTaskDatafit, Penalty/MultiTaskPenalty and DesignMatrix calls"])

p("C08","A fit is a function of its arguments only",
 "The coefficients returned by a fit depend only on the dataset contents, hyper-parameters, settings and components passed to it, bit for bit. They do not depend on the clock, entropy, environment or verbosity, on the contents and placement of memory the allocator hands out, on the calling thread, or on anything fitted before in the process, including with the same datafit, settings or hyper-parameter objects and with datasets modified in place or freed and replaced at the same address.",
 ["histories","configurations","fault_sequences"],"every history of earlier fits in the process, clock jumps, entropy, allocator behaviour and thread placement",
 "Tests run each fit once with a fixed seed and never compare two executions of the same fit after different histories.",
 SOLV+EST+DF+PEN+DS+["src/utils/mod.rs"],
 [m("no global state, clock or randomness is consulted; work arrays are initialised; datafits are re-initialised for every fit","coordinate_descent, block_coordinate_descent, Datafit::initialize")],
 ["coefficients of the same fit after different histories and in different environments"])

p("C09","Interrupted or failed Python fits leave the estimator consistent",
 "When a Python estimator's fit is interrupted or fails at any point (KeyboardInterrupt, rejected input, failed solver), its fitted coefficients are those of its last completed fit (none before the first), its hyper-parameters and the caller's arrays are unchanged, and it can be refitted, cloned and used for prediction as if the failed call had not happened. A completed fit yields the same coefficients as the same fit in a fresh interpreter.",
 ["crash_points","histories"],"every point between two Python-level steps of a fit at which an exception can be delivered, followed by any history of further calls",
 "Python tests only run successful fits of fresh estimators.",
 PY,
 [m("coef_ is assigned once, at the end of fit, from a complete result","fit of each class in python/sparseglm/estimators.py")],
 ["coef_, get_params, predict, the caller's arrays"])

p("C10","Fits retain no memory",
 "Once the objects a caller obtained from it are dropped, a fit retains no memory: over any history of completed, failed and abandoned fits on any mix of threads, the memory held by the process stays bounded by that of its warm-up.",
 ["histories","crash_points"],"every history of completed, failed and abandoned fits, sequential or concurrent",
 "Tests run one fit each and do not look at memory.",
 SOLV+EST+DF+PEN+DS,
 [m("work arrays are owned by the fit's stack frame and dropped on return and on unwinding","coordinate_descent, block_coordinate_descent")],
 ["live heap allocations between fits"])

p("C11","Python estimators used from several threads do not interfere",
 "Python estimators fitted and used for prediction concurrently from several threads, on shared or separate arrays, return exactly what they return sequentially, for every interleaving of their Python-level steps; when one estimator object is fitted from several threads its coefficients are at all times those of exactly one completed fit.",
 ["schedules","histories"],"every interleaving of the Python-level steps of concurrent fit and predict calls",
 "Python tests are single-threaded.",
 PY,
 [m("a fit builds its own solver object and stores the result with a single assignment","fit of each class in python/sparseglm/estimators.py")],
 ["coef_ and predictions of each thread"])

p("C12","Saved Python estimators survive crashes unchanged",
 "A Python estimator saved with pickle or joblib, or copied, and restored in the same or another process, has the class, hyper-parameters and coefficients of its last completed fit before the save, and predicts and refits like the original. Saving and copying change nothing, whatever fit was interrupted before or happens afterwards. When the process crashes, or the disk fills up, at any point of a fit or a save, an older file still restores its estimator and an incomplete one is refused or restores what was being saved, never anything else.",
 ["crash points","faults","histories"],"every crash point, full disk and history of fits, saves, loads and copies over successive processes",
 "No Python test saves an estimator.",
 PY,
 [m("the state of an estimator is its attributes; the Rust wrapper is left out of it","Estimator.__getstate__ in python/sparseglm/estimators.py")],
 ["class, get_params, coef_, predictions and refits of restored estimators"])

p("C13","Progress reports stay whole, in order and complete",
 "When fits report their progress, standard output carries exactly the lines each fit writes when it is alone in a fresh process, each line whole and each fit's lines in order, interleaved line by line with those of concurrent fits, under every thread interleaving, whatever was fitted before, and with partial, interrupted or stalled writes. All lines of a fit have been written when it ends; a fit abandoned by a panic has written a prefix of them.",
 ["schedules","fault_sequences","histories"],"every interleaving of reporting fits and every sequence of partial, interrupted and slow writes",
 "No test looks at the output.",
 SOLV+["src/solvers/mod.rs"],
 [m("each report is formatted and written as one line under the lock of the standard output","report_progress! in src/solvers/mod.rs and its call sites")],
 ["the byte stream written to file descriptor 1"])

p("C14","Fits work in processes forked while other fits run",
 "A process that forks at any moment, while any number of its other threads are anywhere inside fits or have abandoned fits by a panic, gives a child in which every fit completes, fails or panics exactly as it would alone in a fresh process, with the same coefficients, repeatedly; no fit in the child waits for a thread or lock that exists only in the parent, the inputs stay unchanged, and the fits of the parent are not affected either.",
 ["schedules","faults","histories"],"every moment of a fork relative to every interleaving of the other fits",
 "No test forks.",
 SOLV+DF+DS+PEN+["src/utils/mod.rs","src/solvers/mod.rs"],
 [m("fits own their state: no global locks, caches, worker threads or per-process owners","AndersonCD::solve, AndersonBCD::solve and what they call")],
 ["coefficients, errors, panics and termination of fits in forked children"])

p("C15","Python estimators work in processes forked while other threads fit",
 "A Python process that forks at any moment, while other threads are anywhere inside fit, predict or copies of shared or own estimators, gives a child in which fit and predict of every estimator behave as in a fresh interpreter and never wait for ever; the child starts with the coefficients of a completed fit, the estimator it sends back with pickle has the coefficients it computed, and the parent's estimators, arrays and running fits are not affected.",
 ["schedules","faults","histories"],"every moment of a fork relative to every interleaving of the other threads' calls",
 "No Python test forks or uses threads.",
 PY,
 [m("no module-level locks, pools or per-process state; the result is stored with one assignment","python/sparseglm/estimators.py, python/src")],
 ["coef_, predictions, errors and termination in forked children; coef_ in the parent"])

p("C16","A component of a fit may itself run fits",
 "When the targets, design matrix, datafit or penalty a fit works with runs another fit on the same thread while it is being called - any fit, at any call, any number of times, completing, failing, abandoned by a panic that the component catches, or itself nested further - the inner fit and the outer fit each end exactly as they do alone in a fresh process, with the same coefficients, and never wait for each other.",
 ["histories","fault_sequences","schedules"],"every component call of a fit as the moment at which another fit runs inside it",
 "Tests use the library's own components, which run nothing.",
 SOLV+DF+DS+PEN+["src/utils/mod.rs"],
 [m("state of a fit lives in its own stack frame and arguments, nowhere per thread or per process","AndersonCD::solve, AndersonBCD::solve and what they call")],
 ["coefficients, errors, panics and termination of inner and outer fits"])

p("C17","Handlers may use the Python estimators in the middle of their calls",
 "When a signal handler, finaliser or callback that interrupts fit, predict or a copy of an estimator at any Python-level step itself fits, predicts with or copies the same or another estimator and returns, both the interrupted call and the handler's end as they do in a fresh interpreter and never wait for ever; every estimator has the coefficients of a completed fit that the order of completion allows, a handler's prediction follows from the coefficients it sees, and hyper-parameters and arrays are unchanged.",
 ["histories","schedules","faults"],"every Python-level step of a call as the moment at which a handler runs",
 "No Python test interrupts a call.",
 PY,
 [m("no locks, per-thread or module state: a call keeps what it works with in local variables and stores its result with one assignment","python/sparseglm/estimators.py")],
 ["coef_, predictions, errors and termination of interrupted calls and of those in handlers"])

# pure functions of their input: listed, not claimed
p("N01","Dense and sparse storage give the same fit",
 "Fitting the same data stored as a dense matrix of any memory layout or as a compressed sparse column matrix gives the same coefficients up to rounding.",
 ["inputs"],"all data sets","Tests compare the two storages on one data set.",DF+DS,[m("two implementations of the datafits and design matrices","impl Datafit for ArrayBase / CSCArray")],["coefficients"])
p("N02","Multi-task estimators reduce to single-task ones",
 "A multi-task fit with one task gives the coefficients of the corresponding single-task fit up to rounding.",
 ["inputs"],"all data sets","One data set in the tests.",SOLV,[m("parallel implementations","anderson_cd, anderson_bcd")],["coefficients"])
p("N03","Penalties implement their stated value, prox and distance",
 "For each penalty, the proximal operator minimises the penalty plus the scaled squared distance, and the optimality distance is the distance of the negative gradient to its subdifferential.",
 ["inputs"],"all real inputs","A few points in the tests.",PEN+["src/utils/mod.rs"],[m("closed forms","Penalty, MultiTaskPenalty impls")],["prox, value, subdiff_distance"])
p("N04","Datafit gradients match their objective values",
 "For each datafit, coordinate and full gradients are the derivatives of its value, and step constants bound their variation.",
 ["inputs"],"all data sets and coefficients","A few points in the tests.",DF,[m("closed forms","gradient_j, full_grad, value, step_size")],["gradient_j, full_grad, value, step_size"])
p("N05","The critical regularisation level is exact",
 "Above the computed maximal regularisation every convex model is null, and below it some coefficient is not.",
 ["inputs"],"all data sets","Two data sets in the tests.",["src/utils/mod.rs"],[m("closed form","compute_alpha_max*")],["coefficients"])
p("N06","Invalid hyper-parameters are rejected, valid ones accepted",
 "Building or fitting an estimator with hyper-parameters outside their documented domain fails with an error naming the parameter, in Rust and in Python, and every value in the domain is accepted.",
 ["inputs"],"all hyper-parameter values","A few values in the tests.",["src/estimators/hyperparams.rs","python/sparseglm/estimators.py"],[m("check_ref","ParamGuard impls, __init__ of Python estimators")],["errors"])
p("N07","Python and Rust fits agree",
 "The Python estimators return the coefficients of the Rust estimators with the same data and settings, and predictions are the product of data and coefficients.",
 ["inputs"],"all data sets","Compared to scikit-learn on a few data sets.",PY,[m("bindings","python/src")],["coef_, predict"])
p("N08","The dense linear solver solves or reports singularity",
 "The linear solver used for extrapolation returns the solution of a well-conditioned system or an error.",
 ["inputs"],"all systems","Three systems in the tests.",["src/utils/mod.rs"],[m("Gaussian elimination","solve_lin_sys")],["solve_lin_sys"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
