import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
OD='torchdyn/numerics/odeint.py'; UT='torchdyn/numerics/utils.py'; SO='torchdyn/numerics/solvers/ode.py'
SE='torchdyn/numerics/sensitivity.py'; PR='torchdyn/core/problems.py'; ND='torchdyn/core/neuralde.py'; DF='torchdyn/core/defunc.py'
SD='torchdyn/numerics/sdeint.py'; SS='torchdyn/numerics/solvers/sde.py'; IN='torchdyn/numerics/interpolators.py'; TE='torchdyn/numerics/solvers/templates.py'
p('P01','Adaptive solves deliver every requested time once, in order, with its state',
 "An adaptive-step solve returns exactly the requested times, each once and in the requested order, and pairs each with the state the true trajectory has at that time to within an error commensurate with the requested tolerances. This holds for every pattern of accepted, rejected and truncated trial steps, including rejections forced by faults, for forward and reversed spans with any sign, length and spacing, for single and double precision, and with or without dense interpolation. If asked for all internally accepted points it returns those too, still ordered in time, and the requested ones remain among them.",
 ['inputs','schedules','fault_sequences','configurations'],
 "all spans (origin, sign, direction, spacing), tolerances, dtypes, fields with a Lipschitz bound, and all sequences of accept/reject verdicts and transient bad evaluations during the solve",
 "the tests integrate linspace(0,T) forward at one tolerance and compare the end point loosely; which trial step hits a requested time, and whether it is rejected or rounds past it, is a property of the whole step-size history",
 [OD,UT,SO,IN],[('checkpoint truncation and ckpt_counter bookkeeping',OD+':_adaptive_odeint'),('time reversal wrapper',OD+':odeint'),('4th order dense interpolation',IN+':FourthOrder'),('embedded RK pairs','torchdyn/numerics/solvers/_constants.py')],
 [('ckpt_counter','index of next requested time',OD+':_adaptive_odeint'),('dt_old/ckpt_flag','step size saved when a step is truncated',OD+':_adaptive_odeint')],
 ['return value of odeint / ODEProblem / NeuralODE','solver.step calls'])
p('P02','Only error-controlled trial steps are committed; rejected ones leave no trace',
 "During an adaptive solve the trajectory advances only by trial steps whose local error estimate, weighted by atol + rtol*max(|x_old|,|x_new|) in root mean square, does not exceed one, and every such trial is taken. A rejected trial changes neither the current time nor the state, and is retried from the same point with a step that is never longer and eventually shorter; each new trial starts where the last committed one ended, never reaches past the next requested time unless interpolation is used, and any derivative reused as a first stage is the field's value at that starting point.",
 ['schedules','fault_sequences','inputs'],
 "all histories of trial steps, with verdicts produced by real dynamics, by injected rejections and by transient non-finite evaluations",
 "a wrongly committed or wrongly sized step changes results by less than test tolerances; only the trial-by-trial history shows it",
 [OD,UT,SO],[('accept_step test and k1 reuse (FSAL)',OD+':_adaptive_odeint'),('PI-free step controller',UT+':adapt_step'),('weighted RMS norm',UT+':hairer_norm')],
 [('k1','first-stage derivative carried to the next trial',OD),('dt','next trial step size',OD)],['solver.step(f,x,t,dt,k1,args) arguments and results'])
p('P03','Solves terminate in bounded work or raise, once faults stop',
 "Every adaptive, fixed-step, hybrid, stochastic or parallel-in-time solve over a finite span terminates: after transient bad evaluations of trial steps (non-finite values, forced rejections) stop, the solve reaches the end of its span within a number of field evaluations bounded by the work of the fault-free solve plus a logarithmic number of retries per fault. If the field stays non-finite so that no step can ever succeed, the adaptive solve raises an error instead of looping forever. Fixed-step solves use exactly one solver step per grid interval.",
 ['schedules','fault_sequences','inputs'],
 "all placements of transient and persistent faults along a solve and all spans, including those where floating-point rounding of a truncated step does not land exactly on its target",
 "a livelock needs a specific rounding or fault at a specific step; a hanging test is a timeout, not a verdict, and no test injects a non-finite evaluation",
 [OD,UT,SD],[('step-size controller',UT+':adapt_step'),('loop conditions and checkpoint remainder',OD),('initial step selection',UT+':init_step')],
 [('dt','step size; must stay finite and able to advance t',OD)],['number of field evaluations until return or exception'])
p('P04','Fixed-step solves are restartable: saved state plus remaining grid suffice',
 "A fixed-step ODE or SDE solve visits exactly the given grid, and crashing at any grid point and restarting from the last state saved there on the remaining grid (with the same driving noise path) gives the same remaining trajectory as the uninterrupted solve, forward or reversed. Restricting which grid points are saved changes neither the saved values nor their pairing with times: the result has one entry per saved grid time, in time order. The recorded initial state is the one given and the input is never modified.",
 ['crash_points','histories','inputs'],
 "all crash points on the grid, chains of several crashes, all subsets of saved times, uneven grids, both directions, every fixed-step ODE and SDE scheme",
 "tests run one uninterrupted solve per solver; carried step sizes or stages, off-by-one grid indexing and save masks only show when runs are split at arbitrary points",
 [OD,SD,SO,SS],[('fixed step loop and save mask',OD+':_fixed_odeint'),('fixed SDE loop and save mask',SD+':_fixed_sdeint')],
 [('t, dt','current time and step size of the loop',OD+':_fixed_odeint')],['(t_eval, sol)'])
p('P05','A failure in any callback aborts cleanly and leaves everything reusable',
 "If user code called during a solve, gradient computation or root search (vector field, drift, diffusion, noise path, event check, jump map, integral loss, custom solver or interpolator) raises at any call, that same exception reaches the caller, unswallowed and unretried. Afterwards the same model, solver, interpolator and problem objects solve any further problem, including the same one, with results identical to those of freshly built objects, and parameters, gradients, inputs and global autograd mode are exactly as before the failed call.",
 ['crash_points','fault_sequences','histories'],
 "all choices of which callback fails at which call, in forward or backward, repeated any number of times and followed by any further use",
 "tests never make a callback fail; state left behind by an aborted solve only matters at specific call indices",
 [OD,SE,PR,ND,DF,SD],[('stateless step functions',SO),('per-solve preparation',ND+':_prep_integration'),('autograd Function forward/backward',SE)],
 [('solver.tableau','mutated by dtype synchronisation',TE),('vf_params, _control, noise','per-solve attributes',ND)],['exception identity','results of later solves'])
p('P06','Concurrent and nested solves sharing solver objects do not affect each other',
 "Solves running concurrently in several threads, interleaved arbitrarily, or nested inside one another's callbacks, that share a solver object, interpolator object or problem with a stateless vector field each return exactly what they return when run alone. The same holds for any sequence of earlier solves with other shapes, time spans, tolerances or precisions on the same objects (solves running at the same time are of one precision).",
 ['schedules','histories'],
 "all interleavings of two or more solves at callback and at source-line granularity, all nesting points, all prior-use histories including mixed precisions",
 "tests run one solve at a time; a leak through shared solver state needs a particular interleaving or a particular earlier call",
 [OD,SO,TE,IN,PR],[('solver.step is a pure function of its arguments',SO),('dtype synchronisation of the tableau',TE+':sync_device_dtype')],
 [('tableau, safety, min_factor, max_factor','solver tensors shared by all solves',TE)],['(t_eval, sol) of each solve'])
p('P07','Gradients are the true derivative for any loss, history and sensitivity method',
 "For any loss formed from any weighting of the returned solution points, the gradients with respect to the initial state and all parameters obtained by backpropagation, by the adjoint method and by the interpolated adjoint method agree with the true derivative of the trajectory up to solver tolerance, including integral losses, parameters the field does not use, uneven and reversed spans, and solutions reduced to chosen saved times. Each backward pass differentiates the forward pass it belongs to whatever other forward or backward passes happened in between, gradients accumulate additively, and a backward pass that failed midway can be repeated with the correct result.",
 ['inputs','schedules','histories','fault_sequences'],
 "all cotangent weightings over the returned points, all orders of forward and backward passes over shared models, all fault points in backward, and all spans",
 "tests compare the gradient of one loss at the last point after one forward pass, with loose tolerance",
 [SE,PR,ND],[('backsolve adjoint',SE+':_gather_odefunc_adjoint'),('interpolated adjoint',SE+':_gather_odefunc_interp_adjoint')],
 [('grad_output','cotangents of every returned point',SE),('sol, t_sol','saved forward trajectory',SE)],['x.grad, p.grad after backward'])
p('P08','Hybrid solves localise events, apply one jump each, and flow exactly between',
 "A hybrid solve stops each flow where an event condition turns true, to within the event tolerance, records the state just before and just after the jump at that same time, applies the jump map of the lowest-index active event exactly once per event, and continues from the post-jump state. It performs at most the given number of jumps and stops when that number or the end of the span is reached; recorded times never decrease, requested times that are reached are recorded, no recorded state of a flow satisfies an event condition except where that event is being handled, and between jumps the trajectory follows the vector field to within the solver tolerances.",
 ['inputs','schedules','histories'],
 "all guard crossing times relative to step ends and requested times, simultaneous guards, jump budgets including zero, event tolerances, and step rejections around events",
 "only one bouncing-ball style notebook exercises this code; alignment of event, step end, checkpoint and rejection is a history property",
 [OD,UT],[('bisection on [t,t+dt]',OD+':odeint_hybrid'),('jump counter',OD+':odeint_hybrid')],
 [('event_states, jnum, ckpt_counter','hybrid automaton bookkeeping',OD+':odeint_hybrid')],['check_event / jump_map calls','returned (times, states)'])
p('P09','SDE solves consume each noise increment once and follow their scheme exactly',
 "A stochastic solve queries its Brownian path only over the consecutive grid intervals, covering the span contiguously and exactly, so the total noise used equals the path's increment over the span; it returns the trajectory that the named scheme (Euler-Maruyama, Euler-Heun, Ito or Stratonovich Milstein) defines for those increments. Given the same path the result is the same whether the path was queried before, and in any order, by other solves, and solving neither draws other randomness nor modifies the path. A solver whose stochastic calculus or supported noise type does not match the equation's declaration is refused.",
 ['inputs','histories','configurations'],
 "all grids, drift/diffusion pairs, noise paths including adversarial jumps and delayed queries, and query histories on the shared path",
 "tests compare one geometric Brownian motion path statistically loosely; a scheme that uses the wrong increment still looks plausible",
 [SD,SS,ND],[('solver.step using bm(t,t+dt)',SS),('type check',SS+':_check_types')],
 [('bm','Brownian path object shared by solves',SS)],['bm(t0,t1) queries','(t_eval, sol)'])
p('P10','Per-solve conditioning belongs to its own solve for any call history',
 "In a neural ODE or SDE the data-control input is the initial condition of the running solve, depth variables equal the time of the current field evaluation, and a stochastic trace estimator's noise is drawn once per solve, held fixed during it, and redrawn for the next. Every forward or trajectory call re-establishes all of these regardless of earlier calls, other batch sizes, aborted solves or backward passes, so results equal those of a fresh model; the evaluation counter equals the number of field evaluations made.",
 ['histories','fault_sequences','configurations'],
 "all sequences of forward, trajectory, backward, aborted and interleaved calls on one model with varying batches and spans",
 "tests call a fresh model once; stale conditioning needs a history of calls",
 [ND,DF,'torchdyn/nn/node_layers.py','torchdyn/models/cnf.py'],[('conditioning set at solve start',ND+':_prep_integration'),('depth assignment at each evaluation',DF+':DEFunc.forward')],
 [('_control','data-control tensor','torchdyn/nn/node_layers.py'),('t','depth variable','torchdyn/nn/node_layers.py'),('noise','Hutchinson noise','torchdyn/models/cnf.py')],['inputs seen by the inner network','vf.nfe'])
p('P11','Saved models survive crashes: reload and resume equals never having crashed',
 "Saving or copying a model or its state dictionary at any point of a training history, crashing, and loading it into a fresh process state gives a model that solves identically and whose continued training follows the same parameter trajectory as the uninterrupted run. Every trainable parameter, including parameters passed in as optimizable ones, is part of the state dictionary under the same names before and after use, solving or training never changes that set of names, and a truncated or failed write is reported as an error rather than loaded as a different model.",
 ['crash_points','histories','fault_sequences'],
 "all crash points in a sequence of solve, train, save and load operations, with torn, failed and lost writes",
 "tests save once right after construction or one solve and only check that saving does not raise",
 [PR,ND,DF],[('module registration of the field, solver and parameters',PR+':ODEProblem.__init__')],
 [('vf_params','flattened copy of parameters, must not be saved or go stale',PR)],['state_dict()','torch.save / torch.load','outputs after reload'])
p('P12','Root search terminates within budget and never claims convergence falsely',
 "A root search performs at most the given number of iterations plus one whatever the residual function returns, including non-finite values, and ends early only if the residual at the returned point meets the residual tolerances and the last update meets the step tolerances. The returned point and every logged quantity belong to the same iterate. On well-conditioned smooth problems started near the root it does converge, also after transient perturbed evaluations, and searches are independent of earlier or interleaved searches.",
 ['inputs','fault_sequences','histories'],
 "all residual responses, including perturbed, non-finite and failing evaluations at any call, all methods and line searches, and interleavings of searches",
 "tests run three fixed functions without faults and check only a residual bound",
 ['torchdyn/numerics/solvers/root.py',UT],[('termination condition','torchdyn/numerics/solvers/root.py:TerminationCondition'),('line searches','torchdyn/numerics/solvers/root.py'),('shared method instances','torchdyn/numerics/solvers/root.py:ROOT_SOLVER_DICT')],
 [('logger.data','last iterate record',UT+':RootLogger')],['calls of g','(z, logger)'])
p('P13','Parallel-in-time solves recover the serial fine solution from any initial guess',
 "A parareal or discrete-adjoint multiple-shooting solve started from any finite initial guess, however corrupted, has its first k shooting points equal to the serial fine-solver solution after k iterations, so once the iterations reach the number of intervals the whole result, and its gradients, equal those of the serial fine solution (on equally spaced requested times, for time-invariant fields). The first point is always the given initial state, an already exact solution is left unchanged, and the number of returned points equals the number of requested times for any iteration budget. The parallel implicit Euler method likewise returns the serial implicit Euler solution up to the accuracy of its search (for steps small enough that there is only one).",
 ['inputs','fault_sequences','configurations'],
 "all corrupted initial guesses (lost, stale, scrambled shooting points), iteration budgets, interval counts, coarse and fine methods and autonomous fields",
 "tests run one default configuration on one problem and compare loosely to a reference",
 [OD,SO,PR,ND],[('parareal correction',SO+':MSZero.root_solve'),('discrete adjoint correction',SO+':MSBackward.root_solve')],
 [('B','shooting parameters',SO)],['returned shooting points'])
p('P14','Deterministic solves draw no randomness; stochastic parts replay from seeds',
 "Deterministic solves, gradients and event handling never draw from or reseed the global random generators, and their repetition with identical inputs gives bitwise identical results in any history. Stochastic components (noise-based trace estimators, synthetic datasets) draw only from the global generators, so restoring the generators' seeds at any point of a history reproduces everything that follows, and different draws give different samples.",
 ['histories','schedules'],
 "all interleavings of deterministic solves, stochastic solves and dataset generation, with generator state captured and restored at any point",
 "tests seed once or not at all and never check generator state",
 [OD,SE,ND,'torchdyn/datasets/static_datasets.py','torchdyn/models/cnf.py'],[('torch and numpy global generators only','torchdyn/datasets/static_datasets.py'),('noise_dist.sample per solve',ND)],
 [],['torch.get_rng_state / numpy state before and after','outputs'])
p('P15','Members of a batch solved with fixed steps do not affect each other',
 "In a fixed-step solve of a batch whose field acts on each member alone (ODE, neural ODE with data control, depth, Galerkin or augmentation modules, energy-based and higher-order fields, trace-estimating flows, dictionary states, SDEs with a noise path per member, parallel-in-time solves), the trajectory of a member and its gradient with respect to its own initial state depend only on that member's initial state and noise. They are the same, up to rounding, whether other members are replaced, reordered, removed or added, and whether other members become non-finite, from the start or from any field evaluation on.",
 ['fault_sequences','inputs','configurations'],
 "all batches, disturbances of other members and the evaluation at which another member fails, for every fixed-step scheme and entry point",
 "tests solve one healthy batch; cross-talk between members (a norm, a mean, a shared verdict, a reduction over the wrong dimension) shows only when another member changes or fails at some evaluation",
 [OD,SO,SD,SS,ND,DF,SE,'torchdyn/models/cnf.py','torchdyn/nn/node_layers.py'],[('fixed-step loops',OD+':_fixed_odeint'),('step functions',SO),('conditioning and trace modules','torchdyn/models/cnf.py')],
 [('batch dimension','members of the state',OD)],['(t_eval, sol) and x.grad per member'])
p('P16','Repeated, aborted and nested use accumulates nothing',
 "Repeating the same solves, gradients and root searches on the same objects, including ones aborted by an exception in a callback and ones nested in a callback of another, accumulates nothing: once caches are warm and results dropped, the number of live tensors and objects, the depth of the call stack seen by callbacks, the number of callback calls per round and the names and shapes in the state dictionary stay the same from round to round.",
 ['histories','fault_sequences','crash_points'],
 "all problems, repeated any number of times, with an abort at any call of any callback and nesting at any call",
 "tests use each object once or twice; state that grows with use (wrappers nested per solve, hooks or parameters registered again, retained graphs and histories) shows only over many rounds",
 [OD,SE,PR,ND,DF,SD,'torchdyn/numerics/solvers/root.py'],[('per-solve wrappers and closures',OD+':odeint'),('autograd Function classes built per solve',SE),('per-solve preparation',ND+':_prep_integration')],
 [('model.vf, vf_params, _control, noise','objects rebuilt per solve',ND)],['gc.get_objects()','call stack depth and calls of callbacks','state_dict()'])
p('P17','Process-wide settings neither change what is computed nor are changed by it',
 "What a solve, gradient or root search returns depends on its arguments only, not on settings of the process that other code may choose or change at any moment, also during it: default precision, grad mode (no_grad, and inference mode where no derivative is taken), anomaly detection, deterministic algorithms, thread count, saved-tensor hooks, garbage collection, numpy error state and warning filters. Precision and requested times of the result never change with them and values agree bitwise, except that adaptive step sizes may round differently under another default precision. Conversely no operation, completed or aborted by an exception, leaves any of these settings different from how it found them.",
 ['configurations','schedules','fault_sequences','histories'],
 "all settings, chosen before construction, before a problem or changed by another party at any callback call, for every kind of problem, with and without aborts",
 "tests run in one process with standard settings and never look at the settings afterwards; a promoted precision or a mode left behind by an aborted solve shows only in another environment",
 [OD,SO,SE,TE,IN,UT,ND,PR,SD,'torchdyn/models/cnf.py','torchdyn/numerics/solvers/root.py'],[('dtype and device synchronisation',TE+':sync_device_dtype'),('grad mode switches','torchdyn/models/cnf.py:CNF.forward'),('tensors created during a solve',SE)],
 [('safety, min_factor, max_factor, tableau','constants of the solver created under the default precision',TE)],['(t_eval, sol), gradients and their dtypes','torch, numpy, gc and warnings settings before and after'])
# not applicable
p('P20','Explicit schemes satisfy their classical order conditions',
 "Each named fixed-step scheme converges to the exact solution with the order it declares as the step is refined.",
 ['inputs'],"all smooth fields and steps","tests compare one problem at one step size",[SO,'torchdyn/numerics/solvers/_constants.py'],[('tableaus','torchdyn/numerics/solvers/_constants.py')])
p('P21','Normalizing-flow log-density change equals the integrated trace of the Jacobian',
 "The divergence channel of a continuous normalizing flow field equals minus the trace of the network's Jacobian, exactly for the exact estimator and in expectation for the stochastic one.",
 ['inputs'],"all networks and inputs","tests compare one network to a loose likelihood",['torchdyn/models/cnf.py'],[('autograd_trace, hutch_trace','torchdyn/models/cnf.py')])
p('P22','Energy-based fields implement Hamiltonian, Lagrangian or gradient equations',
 "The vector field built from an energy function equals the symplectic gradient, the Euler-Lagrange acceleration or the negative gradient of that energy.",
 ['inputs'],"all energy functions and states","tests only run the models",['torchdyn/models/energy.py'],[('autograd of the energy','torchdyn/models/energy.py')])
p('P23','Depth-varying Galerkin layers evaluate their basis expansion of the weights',
 "At depth s a depth-varying layer applies the weights given by its basis expansion evaluated at s.",
 ['inputs'],"all bases, coefficients and depths","tests only run the layers",['torchdyn/nn/galerkin.py'],[('calculate_weights','torchdyn/nn/galerkin.py')])
p('P24','Synthetic datasets have the documented shapes, labels and geometry',
 "Each synthetic dataset has the requested number of samples, labels in range and points on the documented geometric support up to the requested noise.",
 ['inputs'],"all dataset types and parameters","tests only generate one",['torchdyn/datasets/static_datasets.py'],[('generators','torchdyn/datasets/static_datasets.py')])
import sys
with open('/verif/properties.jsonl','w') as f:
    for q in P: 
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+'\n')
