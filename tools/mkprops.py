import json
OPT='src/pymanopt/optimizers/'
P=[]
def add(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in state],
      mechanism=[dict(zip(("name","where"),m)) for m in mech],observe_at=list(observe),hook_needed=hook)))
ALLOPT=[OPT+f for f in ('optimizer.py','steepest_descent.py','conjugate_gradient.py','trust_regions.py','nelder_mead.py','particle_swarm.py','line_search.py')]
add('C01','An optimizer run does not depend on what the objects were used for before',
 "A call of run() behaves exactly as it would on freshly built optimizer, problem, manifold and decorated cost objects, no matter which runs on the same or other problems those objects served before and whether those runs finished, failed or were interrupted at an arbitrary point. The only state that may carry over is the line searcher of SteepestDescent and ConjugateGradient, and only when reuse_line_searcher=True is passed.",
 ['histories','crash_points','configurations'],
 "every sequence of earlier runs (other problems, other dimensions, different options, aborted by any exception from a callback or by an asynchronous interrupt at any executed line), followed by one more run",
 "The tests build a new optimizer for nearly every run and never abort one; reuse after a run on another manifold, or after an exception or KeyboardInterrupt in the middle of a run, is never executed.",
 ALLOPT+['src/pymanopt/core/problem.py','src/pymanopt/autodiff/__init__.py','src/pymanopt/manifolds/product.py'],
 [('deepcopy of the line searcher template at the start of run',OPT+'steepest_descent.py run, '+OPT+'conjugate_gradient.py run'),('per-run locals for iterates and counters',OPT+'*.py run'),('dimension dependent defaults chosen per run',OPT+'nelder_mead.py run, '+OPT+'particle_swarm.py run')],
 [('line_searcher','line searcher of the latest run',OPT+'steepest_descent.py'),('_log','log of the latest run',OPT+'optimizer.py')],
 ['sequence of callback arguments','result of run()'])
add('C02',"Callers' data and already published results are never modified",
 "Nothing passed in or handed out is ever changed behind its owner's back: initial points, simplices and populations, arrays given to or returned by user callbacks, plug-in line searcher templates, and results, points and logs returned by earlier runs keep their values for ever. This covers direct use of Problem operators and manifold operations as well as whole optimizer runs, and later changes the caller makes to its own buffers between runs do not reach into finished results except through the very object the caller supplied.",
 ['histories','inputs','configurations','crash_points'],
 "every sequence of runs and direct operator or manifold calls, on every manifold, including aborted runs",
 "Tests compare values returned by single calls; none keeps earlier arguments and results around and re-checks them after later activity.",
 ALLOPT+['src/pymanopt/manifolds','src/pymanopt/core/problem.py','src/pymanopt/autodiff/backends'],
 [('operations build new arrays instead of updating in place','src/pymanopt/manifolds/*.py'),('lists copied before being reordered or overwritten',OPT+'nelder_mead.py run, '+OPT+'particle_swarm.py run'),('deepcopy of the line searcher template',OPT+'steepest_descent.py run')],
 [], ['arrays reachable from arguments, returned values and logs'])
add('C03','Runs stop when, and only when, a configured limit is reached',
 "A run ends exactly at the first check of its stopping rule at which a configured limit (time, iterations, gradient norm, step size, cost evaluations) is met, under any behaviour of the clock: slow callbacks, stalls, jumps forwards or backwards. The stopping_criterion text names a limit that really was met, work done after a limit was reached is bounded by one iteration, and a run never ends while no limit is met.",
 ['schedules','configurations','fault_sequences'],
 "every clock schedule and every combination of limits for all five optimizers",
 "The tests use the real clock with generous limits, so the time limit and its interaction with slow or jumping clocks is never exercised.",
 ALLOPT,
 [('_check_stopping_criterion once per iteration',OPT+'optimizer.py')],[('start_time','beginning of the budget',OPT+'*.py run')],['time.time','callback counts','result.stopping_criterion'])
add('C04','The returned record describes the returned point and the run',
 "In every OptimizerResult the cost equals the cost function at the returned point, the gradient norm (where reported) equals the norm of the Riemannian gradient at that same point, and iterations, cost_evaluations (where reported), step_size and time agree with what the run actually did. This holds whichever limit ended the run and whatever costs, gradients or clock readings the run met on the way.",
 ['histories','configurations','schedules'],
 "every finished run of the five optimizers under any stopping reason, landscape and clock schedule",
 "Tests look at result.point only, at the end of converged runs, where successive iterates are indistinguishable.",
 ALLOPT,[('_return_result',OPT+'optimizer.py'),('final fields assembled from loop variables',OPT+'*.py run')],[],['OptimizerResult'])
add('C05','Results are never worse than the start, even around failing cost regions',
 "Whatever finite, infinite or NaN values the cost takes along the way, a run started from points of which at least one has a finite cost returns a finite cost no greater than the best starting cost (for TrustRegions up to its documented rounding tolerance), and the derivative-free optimizers return the best point they report having evaluated. Supplied starting points are honoured: the run evaluates them and starts from them, and valid ones are not rejected.",
 ['fault_sequences','inputs','configurations'],
 "every pattern of inf/NaN/huge cost regions met during a run, for all optimizers and starting data",
 "Tests use smooth finite costs only, and only check that the end result is close to a known optimum.",
 ALLOPT,[('step rejection when no decrease',OPT+'line_search.py search'),('acceptance test on rho',OPT+'trust_regions.py run'),('best-so-far bookkeeping',OPT+'particle_swarm.py run, nelder_mead.py run')],[],['cost callback history','OptimizerResult'])
add('C06',"Seeded runs repeat exactly; only NumPy's global random state matters",
 "Two runs of the same optimization with the same numpy.random seed give identical sequences of evaluations and identical results, in the same or another process, regardless of the wall clock, hash randomisation, Python's own random module, or operating system entropy. SteepestDescent, ConjugateGradient and TrustRegions (without use_rand) started from a given point neither depend on nor disturb the random state.",
 ['schedules','histories','configurations'],
 "every assignment of the environment sources (clock values, PYTHONHASHSEED, random module state, entropy) with the NumPy seed held fixed",
 "Tests fix one global seed in one process and never compare two executions under different environments.",
 ALLOPT+['src/pymanopt/manifolds'],[('all sampling through numpy.random module functions','src/pymanopt/manifolds/*.py random_point/random_tangent_vector, '+OPT+'particle_swarm.py')],[],['evaluation sequence digest','OptimizerResult','numpy.random.get_state'])
add('C07','Verbosity, logging and output never change the outcome, and output is truthful',
 "The evaluations performed and the result returned are the same for every verbosity and log_verbosity, every legal option combination that works silently also works verbosely, and verbosity 0 prints nothing. What is printed at higher levels agrees with the run: one row per iteration with that iteration's values, and the stopping message that the result carries.",
 ['configurations','fault_sequences'],
 "all verbosity and log_verbosity levels over all option combinations, including infinite and zero limits",
 "Tests run nearly everything with verbosity 0 and never compare levels or parse the output.",
 ALLOPT+['src/pymanopt/tools/printer.py'],[('printing guarded by verbosity',OPT+'*.py run'),('ColumnPrinter/VoidPrinter','src/pymanopt/tools/printer.py')],[],['stdout','callback sequence','OptimizerResult'])
add('C08','Exceptions from user code reach the caller unchanged and stop the run at once',
 "If a user-supplied cost, gradient, Hessian, preconditioner, line searcher or manifold operation, or the output stream, raises an exception of any type at any call, exactly that exception object comes out of run() and no further user code is called. The library never swallows, replaces, retries or reinterprets it.",
 ['crash_points','fault_sequences'],
 "every call of every user-supplied function during a run, every exception type including those the library itself catches (ZeroDivisionError, NotImplementedError) and KeyboardInterrupt",
 "No test raises from a callback during a run.",
 ALLOPT+['src/pymanopt/core/problem.py','src/pymanopt/autodiff'],[('no try/except around callbacks',OPT+'*.py run'),('narrow except clauses',OPT+'conjugate_gradient.py, trust_regions.py')],[],['exception out of run()','callback sequence'])
add('C09','Concurrent and nested runs sharing objects do not interfere',
 "Runs of separate optimizer objects that execute concurrently in several threads, or nested inside each other's callbacks, and share a Problem, decorated functions, manifold or line searcher template produce exactly the evaluations and results each would produce alone. This holds for every interleaving, including the first, lazily initialising use of shared Problem operators.",
 ['schedules','histories'],
 "every interleaving of threads at line granularity and every nesting of runs inside callbacks",
 "No test runs two optimizations at once.",
 ALLOPT+['src/pymanopt/core/problem.py','src/pymanopt/autodiff/__init__.py'],[('lazily created operators are idempotent','src/pymanopt/core/problem.py properties, src/pymanopt/autodiff/__init__.py'),('per-run deepcopy of the line searcher',OPT+'steepest_descent.py, conjugate_gradient.py'),('no module level mutable state','src/pymanopt')],
 [('Problem._riemannian_gradient etc.','lazily filled caches','src/pymanopt/core/problem.py')],['per-run evaluation sequence','OptimizerResult'])
add('C10','Automatic derivatives stay correct whatever was evaluated before',
 "Costs, gradients and Hessian-vector products obtained through the autograd, JAX, PyTorch and TensorFlow backends equal the analytic values at the arguments of the current call, for every point layout, regardless of what was evaluated before, of evaluations that failed part-way, and of the caller reusing the same argument buffers. Arrays returned earlier keep their values.",
 ['histories','crash_points','inputs'],
 "every sequence of cost, gradient and Hessian evaluations on one decorated function, with exceptions raised inside the traced function and argument buffers overwritten in between",
 "Tests evaluate each operator once on one fresh random input and never interleave failures or buffer reuse.",
 ['src/pymanopt/autodiff/__init__.py','src/pymanopt/autodiff/backends','src/pymanopt/core/problem.py'],[('fresh tensors and tapes for each call','src/pymanopt/autodiff/backends/*.py'),('cached operator objects','src/pymanopt/autodiff/__init__.py')],[],['operator return values'])
add('C11','Every point evaluated is on the manifold, every direction tangent',
 "Throughout any run, however long and whatever steps the line searcher takes, each point handed to user functions and returned satisfies the manifold's defining constraints to rounding accuracy, and each direction or tangent vector handed to user functions or line searchers is finite and tangent at its point. Constraint violation does not accumulate over iterations or restarts.",
 ['histories','configurations','fault_sequences'],
 "every history of steps (long runs, huge and tiny steps, restarts from earlier results) on every manifold and optimizer",
 "Tests check single retractions from random points, not drift over long step histories driven by optimizers.",
 ['src/pymanopt/manifolds']+ALLOPT,[('retraction/projection/transport','src/pymanopt/manifolds/*.py'),('re-tangentialisation in tCG',OPT+'trust_regions.py')],[],['callback arguments'])
add('C12','Line searches honour their contract on any landscape',
 "A call of either line searcher's search() tries only points on the given ray at forward steps that shrink geometrically by its contraction factor, evaluates the cost at most max_iterations+1 times, and returns either the last trial point, having achieved the required sufficient decrease or at least no increase when its trials ran out, or the unchanged starting point with step size 0; NaN or increased costs are never accepted. The returned step size is the norm of the step taken, and the first trial follows from the options and this searcher's own earlier searches only.",
 ['fault_sequences','histories','configurations'],
 "every sequence of searches with arbitrary cost values (including inf, NaN, ties, exceptions) and options",
 "Tests run line searches only implicitly on smooth costs.",
 [OPT+'line_search.py'],[('backtracking loop and rejection',OPT+'line_search.py search'),('remembered step or cost',OPT+'line_search.py')],[('_oldf0/_oldalpha','memory for the next initial step',OPT+'line_search.py')],['objective calls','retraction calls','returned tuple'])
add('C13','Progress resumes once faults stop',
 "Whatever happened before (failed or rejected evaluations, aborted runs, useless line searches, stalls, infinite or NaN cost regions met and left), once faults stop a run continued from the last iterate on a benign problem reaches the known optimum within a bounded number of iterations. No past fault leaves an optimizer, line searcher or problem permanently unable to make progress.",
 ['fault_sequences','histories','schedules'],
 "every finite sequence of faults before and during the first part of a run, on problems whose landscape is benign",
 "Tests only measure convergence of undisturbed runs.",
 ALLOPT+['src/pymanopt/manifolds'],[('step size recovery (doubling) and rejection',OPT+'line_search.py'),('trust-region radius increase',OPT+'trust_regions.py'),('restart on ascent directions',OPT+'conjugate_gradient.py')],[],['cost history','OptimizerResult'])
add('C14','The iteration log is a faithful history of exactly one run',
 "With log_verbosity 1 the log of a result contains exactly one entry per iteration, in order, whose time, iteration number, point, cost and gradient norm (where the method has one) are those of that iteration and stay so, together with the stopping criteria and parameters in force. With log_verbosity 0 there are no iteration entries, and logs of different runs never share or leak entries, even after failures.",
 ['histories','schedules','configurations'],
 "every sequence of runs of one optimizer, under any clock schedule and failure point",
 "One test checks that a log exists; none checks its contents against an independent record.",
 ALLOPT,[('_initialize_log/_add_log_entry',OPT+'optimizer.py')],[('_log','log under construction',OPT+'optimizer.py')],['result.log'])
add('C15','Trust-region steps stay inside a radius that is governed by the ratio test',
 "Every trial step of TrustRegions has norm at most the current radius, the radius starts at Delta0, never exceeds Delta_bar, shrinks after a poor or rejected step, never grows after one, and a trial point is adopted exactly when the ratio of actual to predicted reduction exceeds rho_prime. This holds for any cost and Hessian values the callbacks return, including indefinite, discontinuous, infinite and NaN ones.",
 ['fault_sequences','histories','configurations'],
 "every sequence of accepted and rejected steps, and every fault in cost or Hessian values",
 "Tests check only convergence to the optimum on one or two smooth problems.",
 [OPT+'trust_regions.py'],[('truncated CG boundary step',OPT+'trust_regions.py'),('radius update',OPT+'trust_regions.py run')],[('Delta','current radius',OPT+'trust_regions.py run')],['retraction arguments','cost callback sequence'])
add('C16','Plug-in searchers and preconditioners get consistent data; CG follows its rule',
 "Every call of a line searcher by SteepestDescent or ConjugateGradient receives the current iterate, the cost there, a tangent descent direction and the exact directional derivative along it, and the run continues from whatever point the searcher returns; every preconditioner call receives a current point and a tangent vector at that point. ConjugateGradient's directions follow the selected beta rule, fall back to the preconditioned steepest descent when not a descent direction, and restart by Powell's criterion as configured.",
 ['fault_sequences','histories','configurations'],
 "every behaviour of the plug-in searcher (zero, huge, ascending or off-ray steps) and preconditioner, for every beta rule and orth_value",
 "Tests only use the built-in searchers on smooth problems and check the end point.",
 [OPT+'conjugate_gradient.py',OPT+'steepest_descent.py',OPT+'trust_regions.py'],[('line_searcher.search call',OPT+'steepest_descent.py, conjugate_gradient.py run'),('beta rules and restarts',OPT+'conjugate_gradient.py')],[],['arguments of search()','arguments of preconditioner'])
add('C17','Manifold operations satisfy the geometry they document',
 "For every manifold, projections are idempotent and orthogonal, retractions agree with the exponential map to first order, log inverts exp, dist is a metric, transport is linear and lands in the right tangent space, random points and vectors are valid, and dim is the dimension.",
 ['inputs','configurations'],"all points and vectors of all manifolds","Tests sample one random point of one size for each manifold.",
 ['src/pymanopt/manifolds'],[('closed-form geometry','src/pymanopt/manifolds/*.py')])
add('C18','Euclidean derivatives convert to the correct Riemannian ones',
 "For every manifold and smooth cost, the Riemannian gradient and Hessian derived from Euclidean ones are the true Riemannian derivatives under the manifold's metric.",
 ['inputs','configurations'],"all smooth costs, points and directions","Tests check a few costs on one size of each manifold.",
 ['src/pymanopt/manifolds','src/pymanopt/core/problem.py'],[('euclidean_to_riemannian_gradient/hessian','src/pymanopt/manifolds/*.py')])
add('C19','Stacked matrix helpers agree with their single-matrix counterparts',
 "The batched helpers (transpose, symmetric parts, matrix exponential and logarithm, normalised QR) give for each matrix in a stack what the plain operation gives for that matrix.",
 ['inputs'],"all stacks of matrices of any size, real or complex","Tests use a few random stacks.",
 ['src/pymanopt/tools/multi.py'],[('vectorised numpy code','src/pymanopt/tools/multi.py')])
add('C20','Derivative diagnostics accept exactly the correct derivatives',
 "The gradient and Hessian checks report the error curves of the Taylor remainders they claim to measure, so that correct derivatives show the documented slope and wrong ones do not.",
 ['inputs'],"all problems with correct or wrong derivatives","Tests exercise one passing case.",
 ['src/pymanopt/tools/diagnostics.py'],[('Taylor remainder fit','src/pymanopt/tools/diagnostics.py')])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
