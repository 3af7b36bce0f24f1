import json
S="src/solver_n_dimensional/"
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[f if f.startswith(("util","src/lib")) else S+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    return d
L=[]
a=L.append
a(P("C01","Success means every normalised residual is within the tolerance",
"When solve() returns Ok, every component of the residuals the model reports at that moment, normalised with the stopping method configured for that equation, is a number whose absolute value does not exceed the tolerance. A residual that is NaN or infinite never counts as converged, at the initial guess or at any later iterate. Conversely, once every component is within the tolerance after an evaluation, no further iteration is made and the outcome is not NonConvergenceError.",
["inputs","configurations","histories"],"all models (any sequence of residuals, including NaN and infinities), tolerances, normalisation lists, methods and damping settings",
"The tests only use models that converge to finite roots with finite residuals; a verdict taken from stale residuals, from a wrong normalisation or from a maximum that skips NaN passes all of them.",
["solver/rootfinder.rs","residuals/mod.rs","residuals/config.rs"],
[("stopping residuals recomputed after each evaluation","RootFinder::update_model / solve"),("verdict max_error <= tolerance, NaN aware","RootFinder::has_converged")],observe=["Result of RootFinder::solve","Model::get_residuals after solve"]))
a(P("C02","On success the model sits, evaluated and valid, at the solution",
"When solve() returns Ok, the last evaluation of the model was made at exactly the iteratives the model holds on return, and that evaluation reported no error. If the values the verdict is based on came from an evaluation that reported inaccurate values, the outcome is FinalEvaluationError instead.",
["histories","fault_sequences"],"every sequence of evaluation outcomes (Ok / inaccurate / unusable) the model may produce, for all methods, with and without damping, with finite-difference or analytic jacobians",
"Tests exercise two fixed error sequences; the flag recording the last evaluation must be right on every path, including initial convergence, damping and jacobian perturbations.",
["solver/rootfinder.rs"],[("validity of the last evaluation recorded at every evaluation of an iterate","RootFinder::solve / update_model / damping")],
state=[("valid_last_model_evaluation","whether the last evaluation of an iterate was accurate","RootFinder")],observe=["Result of RootFinder::solve","calls to Model::set_iteratives / Model::evaluate"]))
a(P("C03","Every model failure is reported under the error of its phase",
"Unusable values at the initial evaluation give ModelInitialEvaluationError; unusable values at an iterate (full or damped) give ModelEvaluationError carrying the model's error; a failure of the jacobian evaluation gives JacobianError carrying the model's error, and a singular jacobian gives JacobianError. Inaccurate values never stop the resolution before the end, and exhausting the iterations without convergence gives NonConvergenceError. No failure is dropped, replaced by another category or turned into a panic.",
["fault_sequences","configurations"],"every point at which the model may fail, for every method, damping setting and jacobian source",
"Tests fail the model at one or two hand-picked evaluations with one method; the mapping must hold at each evaluation of each phase.",
["solver/rootfinder.rs","errors.rs","solver/jacobian/jacobian_finite_diff.rs","solver/jacobian/jacobian_analytic.rs"],
[("match on ModelError at each evaluation","RootFinder::solve / update_model / damping"),("jacobian errors propagated","compute_jac, compute_newton_raphson_step, evaluate_jacobian_quasi_newton_step")],observe=["Result of RootFinder::solve"]))
a(P("C04","solve() never panics on a well-formed configuration",
"For a solver built by its public constructors with a model of matching dimension, no sequence of evaluation results, jacobian results or repeated solve() calls makes solve() panic: no missing jacobian, inverse or step is ever unwrapped, and no index leaves its container.",
["histories","fault_sequences","configurations"],"all resolution methods, damping on/off, jacobian provided or not, debugging on/off, any number of earlier solve() calls and their outcomes, any model failures",
"The unwraps are safe only through invariants relating several fields over several iterations and calls; tests follow a few successful histories.",
["solver/rootfinder.rs","solver/jacobian/jacobian_approximation.rs","solver/jacobian/jacobian_inverse_approximation.rs"],
[("options filled before they are unwrapped","RootFinder fields jacobian, iteratives_step_size, residuals_step_size, residuals_values_current, solver_log")],observe=["panics escaping RootFinder::solve"]))
a(P("C05","solve() stops after at most max_iter iterations",
"solve() performs at most max_iter iterations, whatever the model answers, and each iteration makes a bounded number of model evaluations. With max_iter iterations allowed and no convergence, exactly max_iter iterations are made.",
["inputs","configurations","histories"],"all models, methods, damping settings, values of max_iter including 0, and any earlier solve() calls",
"A test can only observe that a given model terminates.",
["solver/rootfinder.rs"],[("iteration counter compared with max_iter in the only loop that evaluates the model","RootFinder::solve")],observe=["number of Model::evaluate calls"]))
a(P("C06","Each solve() starts from the initial guess, independent of history",
"The sequence of interactions with the model and the result of solve() depend only on the solver's configuration and on the model's answers, not on earlier solve() calls of the same solver, whether they succeeded or failed. Every resolution starts by setting the model to the configured initial guess and, for the quasi-Newton methods, by evaluating a fresh jacobian.",
["histories"],"any number of earlier calls to solve() with any outcomes, with the same or another model, debugging activated before or between calls",
"Every existing test calls solve() once per solver.",
["solver/rootfinder.rs","solver/jacobian/jacobian_struct.rs"],[("placeholders reset at the start of solve()","RootFinder::solve")],
state=[("iter, jacobian, *_step_size, residuals_values_current, valid_last_model_evaluation","placeholders surviving between calls","RootFinder")],observe=["Model calls made by solve()","Result of solve()"]))
a(P("C07","The model is evaluated once at each point that matters, nowhere else",
"The model is first set to and evaluated at the initial guess, then exactly once per proposed iterate and once per damped iterate; a finite-difference jacobian adds exactly one evaluation per variable and an analytic jacobian none. Residuals used in a decision are always read after the evaluation of the iteratives they belong to, never between setting iteratives and evaluating.",
["histories","configurations"],"all methods, damping settings, jacobian sources, and model answers",
"Evaluations are the cost the library exists to save; tests check final values only and never count or order the calls.",
["solver/rootfinder.rs","solver/jacobian/jacobian_finite_diff.rs","solver/jacobian/jacobian_analytic.rs"],[("set_iteratives followed by evaluate followed by get_residuals","RootFinder::solve / update_model / damping")],observe=["order of Model::set_iteratives, evaluate, get_residuals calls"]))
a(P("C08","Finite differences build the forward-difference jacobian column by column",
"For each variable j, the finite-difference jacobian evaluates the model at the reference iteratives with only component j increased by its own perturbation (the maximum or the sum, as its PerturbationMethod says, of the absolute perturbation and of the relative one times the magnitude of the value), and column j is the change of the update residuals divided by that perturbation. The reference point, reference residuals and reference memory are the ones before the first perturbation; the memory is restored after each column, so no column depends on the others. Inaccurate values are tolerated, unusable values abort the evaluation with the model's error.",
["inputs","histories"],"all dimensions, perturbations, normalisations, and models with memory",
"Tests compare a few jacobians of memoryless models to a tolerance that hides misplaced perturbations or leaks between columns of models with memory.",
["solver/jacobian/jacobian_finite_diff.rs"],[("loop over the variables with restored memory","compute_jacobian_from_finite_difference")],observe=["Model::set_iteratives / set_memory arguments","returned matrix"]))
a(P("C09","Each proposal is the limited Newton step from the current iterate",
"The iterate proposed at each iteration is the current iterate advanced by the step limitation of minus the current (inverse) jacobian applied to the current update residuals. The iterate, its residuals, the step vector and the residual change handed to the quasi-Newton updates all belong to the same two consecutive accepted iterates.",
["inputs","histories","configurations"],"all methods, all iterates, all normalisations (update residuals differ from stopping residuals), damped and undamped iterations",
"Convergence of the test cases survives many wrong steps: a wrong sign of one normalisation, stale residuals or a shifted origin only slow it down.",
["solver/rootfinder.rs"],[("raw step -inverse * update residuals, then step_limitations","RootFinder::compute_next_from_inv_jac"),("s and y taken between consecutive iterates","RootFinder::update_model")],observe=["argument of Model::set_iteratives at each iteration"]))
a(P("C10","Iterates respect the bounds and step limits of each variable",
"Whatever raw step is computed, each component of the limited iterate lies within [min_value, max_value], and from a value inside these bounds it moves by at most min(max_step_abs, max_step_rel*|value|), in the direction of the raw step, fully when the step is within the limit. Every iterate proposed by the solver has gone through this limitation. Both kinds of iterative parameters (with and without finite-difference data) limit alike.",
["inputs","configurations"],"all values, raw steps (including infinite ones), limits and bounds accepted by the constructors",
"Unit tests pin a handful of values; the clamp has one case per ordering of five numbers.",
["iteratives/iterative_var.rs","iteratives/iterative_var_fd.rs","iteratives/iteratives_base.rs"],[("step_limitation","Iterative for IterativeParams / IterativeParamsFD"),("step_limitations","Iteratives")],observe=["Iterative::step_limitation","Iteratives::step_limitations"]))
a(P("C11","Residual normalisations and their derivatives agree",
"For an equation left = right, Abs yields left-right, Rel (left-right)/(|left+right|/2), Adapt (left-right)/(1+|left+right|/2); stopping residuals are their absolute values with the stopping method and update residuals the signed values with the update method of that equation. The jacobian normalisation applied to the derivatives of left and right is the exact derivative of the update normalisation, row by row, wherever it is differentiable.",
["inputs","configurations"],"all values of left and right in every sign class, all mixes of methods per equation, all dimensions",
"A wrong sign in one sign class of Rel or Adapt leaves the jacobian close enough for the tested systems to converge.",
["residuals/mod.rs","residuals/config.rs","residuals/values.rs"],[("normalization / deriv_normalization","residuals/mod.rs"),("row-wise normalisation","JacobianValues::normalize")],observe=["evaluate_stopping_residuals","evaluate_update_residuals","JacobianValues::normalize"]))
a(P("C12","Quasi-Newton updates implement their published formulas",
"Each Broyden and Greenstadt update, of the jacobian or of its inverse, equals its documented rank-one formula: J - (J s - y) c^T J/(c^T J s), or H - (H y - s) c^T/(c^T y), with the c of the method. Hence it satisfies the secant equation, and the jacobian and inverse forms of one method are inverse of one another. Each method selected by the user is dispatched to its own formula with s, y and the current residuals in the right places.",
["inputs","configurations"],"all matrices and vectors for which the denominators are non zero, all eight method/form combinations, any dimension",
"Any superlinearly convergent mixture of the formulas passes the convergence tests.",
["solver/resolution_method.rs","solver/jacobian/jacobian_approximation.rs","solver/jacobian/jacobian_inverse_approximation.rs"],[("update formulas","resolution_method.rs"),("dispatch","approximate_jacobian / approximate_inv_jacobian")],observe=["public update functions","JacobianMatrix after an approximation"]))
a(P("C13","Jacobians are recomputed exactly when the method calls for it",
"Newton-Raphson evaluates a fresh jacobian at every iteration; the stationary method evaluates it once and keeps it; the update methods evaluate it at the first iteration, then update the jacobian (respectively its inverse) once per iteration from the last step, until damping requests a recomputation, which happens at the next iteration and only there.",
["histories","configurations"],"all iteration histories, with damping on and off, any model answers",
"The number of jacobian evaluations does not show in the final values tests compare.",
["solver/rootfinder.rs","solver/jacobian/jacobian_struct.rs"],[("compute_jacobian flag of JacobianMatrix","RootFinder::evaluate_jacobian_quasi_newton_step")],state=[("compute_jacobian_at_next_iteration / is_current_jacobian_approximated","jacobian schedule","JacobianMatrix")],observe=["Model::get_jacobian calls and perturbed evaluations per iteration"]))
a(P("C14","Damping halves exactly the steps that increase the error",
"With damping on, and only then, an iterate whose greatest stopping residual exceeds that of the previous iterate (or is not a number) is reacted to: if the jacobian in use is an approximation, it is recomputed at the next iteration and the iterate is kept; otherwise the model is set to and evaluated at the midpoint of the previous iterate and the proposal, and the solver continues from there. Iterates that do not increase the error are kept unchanged.",
["inputs","histories","configurations"],"all methods, orders of the errors including equality and NaN, consecutive refusals",
"Few tests activate damping and none of them observes the damped point.",
["solver/rootfinder.rs","solver/parameters.rs"],[("comparison of successive errors","RootFinder::damping")],observe=["Model::set_iteratives arguments"]))
a(P("C15","The stored jacobian and its inverse stay consistent",
"After a successful update with a matrix, JacobianMatrix holds that matrix and its inverse; after a failed inversion or an invalidation it holds neither; after an update of the inverse the outdated matrix is no longer exposed. The approximated flag tells whether the last update was an approximation, and a fresh or forced object asks for a computation while a successful update clears the request.",
["histories","inputs"],"every sequence of operations on JacobianMatrix, from any prior state",
"Tests never look at the object after failures or after sequences of updates.",
["solver/jacobian/jacobian_struct.rs"],[("matrix, inverse and flags updated together","JacobianMatrix")],observe=["get_jacobian","get_inverse","compute_jacobian","is_jacobian_approximated"]))
a(P("C16","Constructors reject exactly the inconsistent configurations",
"Iterative parameters are accepted exactly when the step limits are positive, min_value < max_value and (with finite differences) both perturbations are positive, with no NaN among them; residual values, jacobian values and residual configurations are accepted exactly when their two halves have the same shape; a solver is accepted exactly when the residual configuration, the initial guess and the iterative configuration all have the problem size.",
["inputs","configurations"],"all argument values in every ordering (including equality, zero, infinities and NaN) and all dimensions",
"should_panic tests sample one rejected value per check; boundaries and NaN are not covered.",
["iteratives/iterative_var.rs","iteratives/iterative_var_fd.rs","residuals/config.rs","residuals/values.rs","solver/rootfinder.rs"],[("checks in the constructors","IterativeParams::new, IterativeParamsFD::new/extend, ResidualsValues::new, JacobianValues::new, ResidualsConfig::new, RootFinder::new")],observe=["panics of the constructors"]))
a(P("C17","Configuration files are read field by field as written",
"Parsing an XML configuration returns, for each attribute, the value written in the file (or the documented default of its parent node when it is absent) in the parameter of the same meaning: solver settings, resolution method names, per-variable limits and perturbations in the order of their ids, per-equation normalisations. The two file flavours (with and without finite differences) agree on everything they share, and unknown method or normalisation names are rejected.",
["inputs","configurations"],"all well-formed files, any number of variables, any subset of optional attributes, all method names",
"Tests parse three files whose values mostly coincide with the defaults.",
["xml_parser/node_iterative.rs","xml_parser/node_iterative_fd.rs","xml_parser/node_iterative_jac.rs","xml_parser/node_residual.rs","xml_parser/node_solver.rs","xml_parser/parser.rs","xml_parser/xml_file_fd.rs","xml_parser/xml_file_jac.rs","xml_parser/util.rs"],[("attribute readers","xml_parser")],observe=["public parse functions and convert functions of xml_parser"]))
a(P("C18","Model adapters expose the user's functions faithfully",
"A model built from a closure or a function returns the iteratives last set, evaluates the user's function at exactly these iteratives, exposes its result as left residuals with zero right residuals, and provides the user's jacobian evaluated at the current iteratives (with zero right derivatives) exactly when it was built with one. The closure and function variants behave alike and report the problem size they were given.",
["inputs","histories"],"all user functions and interleavings of set_iteratives, evaluate, get_residuals and get_jacobian",
"Tests only use the adapters through solve(), one call order.",
["model/model_from_closure.rs","model/model_from_func.rs","model/model_definition.rs"],[("Model implementations","UserModelFromClosure*, UserModelFromFunction*")],observe=["Model methods of the adapters"]))
a(P("C19","Debug logging observes without interfering",
"Activating the debug log changes neither the result of solve() nor any value set on the model nor the number or order of evaluations. Without activation nothing is written to any file; with it, content is only appended after the file was created, and it reports the iteratives, residuals and errors of the iterate just evaluated.",
["configurations","histories"],"all methods, damping settings and model answers, debug on versus off",
"One test compares one log file of one run.",
["solver/rootfinder.rs","solver/log.rs"],[("log calls guarded by debug, taking shared references","RootFinder / SolverLog")],observe=["Model calls with and without activate_debug","files written"]))
a(P("C20","Solving is a deterministic function of its inputs",
"The library keeps no global mutable state, and solving reads no clock, random source, environment, thread or address: two runs with the same configuration and a model giving the same answers perform the same calls and return the same values. No unsafe code is reachable in the crate.",
["inputs","histories","schedules"],"all public entry points and everything they call within the crate",
"Rerunning a test cannot show the absence of a hidden input.",
["mod.rs","solver/rootfinder.rs","solver/log.rs"],[("no statics, no unsafe, no ambient calls outside the log header","whole crate")],observe=["call graph"]))
a(P("C21","Documented defaults are the ones applied",
"Default iterative parameters impose no limit at all (infinite bounds and step limits), the finite-difference defaults use the maximum of absolute 5e-8 and relative 5e-8 perturbations, default residual configurations are absolute for both stopping and update, and default vectors have the requested length. default_with_guess builds a solver with tolerance 1e-6, 50 iterations, a problem size equal to the length of the guess, and the method and damping it was given.",
["configurations"],"all problem sizes, guesses, methods and damping flags",
"The defaults are only observed through converging examples, which tolerate other values.",
["iteratives/default.rs","iteratives/iterative_var.rs","iteratives/iterative_var_fd.rs","residuals/config.rs","residuals/mod.rs","solver/default.rs"],[("Default implementations","iteratives, residuals, solver::default_with_guess")],observe=["values of the default objects"]))
a(P("C22","Accessors return what the constructors were given",
"Each public accessor of the solver parameters, iterative parameters, residual values, jacobian values and residual configuration returns the very argument its constructor was given for it, for all arguments; lists keep their order and length.",
["inputs","configurations"],"all constructor arguments",
"Tests construct objects with coinciding values, so swapped fields are invisible.",
["solver/parameters.rs","iteratives/iterative_var.rs","iteratives/iterative_var_fd.rs","residuals/values.rs","residuals/config.rs"],[("constructors and getters","parameter types")],observe=["get_* methods"]))
a(P("C23","Displayed settings identify the configuration",
"The displayed text of each method, normalisation and perturbation choice differs between any two different choices, and the displayed parameters, iterative configurations and errors contain the value of each field they stand for, in the column of that field. Errors wrapping a model error contain the model's message.",
["inputs","configurations"],"all values of the enumerations and parameters",
"Only one log is compared; most displays are never asserted.",
["solver/resolution_method.rs","solver/parameters.rs","errors.rs","model/error.rs","iteratives/iterative_var.rs","iteratives/iterative_var_fd.rs","iteratives/iteratives_base.rs","residuals/mod.rs","residuals/config.rs"],[("Display implementations","all public types")],observe=["to_string()"]))
a(P("C24","Component i only ever uses the settings of variable or equation i",
"In every element-wise operation (step limitation, perturbation, stopping and update residuals, jacobian normalisation), component i of the result is computed from parameter, method, value and step number i alone, for every index below the problem size, and no component is skipped.",
["inputs","configurations"],"all dimensions, heterogeneous parameter and method lists",
"Nearly all tests use the same parameters for all components, which hides any permutation.",
["iteratives/iteratives_base.rs","residuals/config.rs","residuals/values.rs"],[("element-wise loops","Iteratives::step_limitations / compute_perturbations, ResidualsConfig::evaluate_*_residuals, JacobianValues::normalize")],observe=["element-wise public functions"]))
a(P("C25","The one-dimensional helper solver iterates Newton's formula to its stop rule",
"The utility one-dimensional solvers replace x by x - f(x)/d, where d is the given derivative at x, respectively the forward difference (f(x+dx)-f(x))/dx, as long as |f(x)| exceeds the tolerance and fewer than max_iter updates were made, and return the last x. The starting x is the guess they were given.",
["inputs"],"all functions, guesses, tolerances",
"Tests cover a single function.",
["util/src/solver_one_dimensional.rs"],[("loop of the helper","util::solver_one_dimensional")],observe=["return value"]))
a(P("C26","The solver converges locally at the rate of its method",
"Started close enough to a simple root of a smooth system, the solver converges, quadratically for Newton-Raphson and superlinearly for the Broyden methods.",
["inputs"],"all smooth systems and all starting points near a simple root",
"Convergence is asserted for fixed systems only.",
["solver/rootfinder.rs"],[("Newton iteration","RootFinder::solve")]))
a(P("C27","Finite-difference jacobians approximate the exact jacobian",
"With the default perturbations the finite-difference jacobian differs from the exact one by a relative error of the order of the perturbation.",
["inputs"],"all smooth models and points",
"Tests check a few points to a fixed tolerance.",
["solver/jacobian/jacobian_finite_diff.rs"],[("forward differences","compute_jacobian_from_finite_difference")]))
a(P("C28","Floating-point results equal the exact formulas up to rounding",
"Steps, residuals and quasi-Newton updates computed in double precision stay within a small multiple of the rounding error of the exact formulas, without spurious overflow or cancellation.",
["inputs"],"all magnitudes of the operands",
"Tests compare a few well-scaled values.",
["solver/resolution_method.rs","residuals/mod.rs"],[("formulas","resolution_method.rs, residuals/mod.rs")]))
open('/verif/properties.jsonl','w').write("\n".join(json.dumps(x) for x in L)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L: jsonschema.validate(x,sch)
print(len(L))
