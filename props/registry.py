"""Which obligations decide which property.  (module, function, argument, uniform lengths)"""

K = "kernel"
OBL = {
    "normalization": (K, "normalization", None, True),
    "deriv_normalization": (K, "deriv_normalization", None, True),
    "eval_update": (K, "eval_residuals", "update", True),
    "eval_stopping": (K, "eval_residuals", "stopping", True),
    "jac_normalize": (K, "jac_normalize", None, True),
    "step_limitation": (K, "step_limitation", None, True),
    "step_bounds": (K, "step_bounds", None, True),
    "perturbation": (K, "perturbation", None, True),
    "ew_steps": (K, "elementwise", "step_limitations", True),
    "ew_perturbations": (K, "elementwise", "compute_perturbations", True),
    "qn_formulas": (K, "qn_formulas", None, True),
    "qn_dispatch": (K, "qn_dispatch", None, True),
    "jacobian_matrix": (K, "jacobian_matrix", None, True),
    "solve": ("solve", "automaton", "all", True),
    "c_iterative": ("config", "iterative_params", None, True),
    "c_iterative_fd": ("config", "iterative_params_fd", None, True),
    "c_shapes": ("config", "shapes", None, False),
    "c_rootfinder": ("config", "rootfinder", None, False),
    "c_accessors": ("config", "accessors", None, True),
    "c_defaults": ("config", "defaults", None, False),
    "c_default_solver": ("config", "default_solver", None, True),
    "xml_jac": ("xmlcfg", "jac", None, False),
    "xml_fd": ("xmlcfg", "fd", None, False),
    "adapters": ("adapters", "adapters", None, True),
    "solver1d": ("onedim", "solver1d", None, False),
    "solver1d_fd": ("onedim", "solver1d_fd", None, False),
    "purity": ("purity", "purity", None, False),
    "shown": ("shown", "shown", None, True),
    "solve_log": ("solve", "automaton", "log", True),
}

PROPS = {
    "C01": ["solve"],
    "C02": ["solve"],
    "C03": ["solve"],
    "C04": ["solve"],
    "C05": ["solve"],
    "C06": ["solve"],
    "C07": ["solve"],
    "C08": ["perturbation", "ew_perturbations", "solve"],
    "C09": ["solve"],
    "C10": ["step_limitation", "step_bounds", "ew_steps", "solve"],
    "C11": ["normalization", "deriv_normalization", "eval_update", "eval_stopping", "jac_normalize"],
    "C12": ["qn_formulas", "qn_dispatch", "solve"],
    "C13": ["solve"],
    "C14": ["solve"],
    "C15": ["jacobian_matrix"],
    "C16": ["c_iterative", "c_iterative_fd", "c_shapes", "c_rootfinder"],
    "C17": ["xml_jac", "xml_fd"],
    "C18": ["adapters"],
    "C19": ["solve_log"],
    "C20": ["purity"],
    "C21": ["c_defaults", "c_default_solver", "perturbation"],
    "C22": ["c_accessors", "c_shapes", "c_iterative", "c_iterative_fd"],
    "C23": ["shown"],
    "C24": ["perturbation", "ew_steps", "ew_perturbations", "eval_update", "eval_stopping", "jac_normalize"],
    "C25": ["solver1d", "solver1d_fd"],
}

# rules of the solver automaton that decide each property ("rule" or "rule|text in the key")
RULES = {
    "C01": ["verdict", "iterates although converged"],
    "C02": ["final state", "validity", "stale residuals"],
    "C03": ["continues", "error category", "error payload", "panic", "iterations used"],
    "C04": ["panic"],
    "C05": ["iteration bound", "iterations used", "progress", "evaluations"],
    "C06": ["history", "initial guess", "schedule|missing"],
    "C07": ["evaluations", "stale residuals", "initial guess", "continues", "damped point", "damping"],
    "C08": ["finite differences", "memory", "evaluations|perturbed point", "error category|jacobian", "error payload|jacobian", "continues|jacobian"],
    "C09": ["proposal", "proposal origin", "step origin", "quasi-Newton update", "limited"],
    "C10": ["limited"],
    "C12": ["quasi-Newton update"],
    "C13": ["schedule", "analytic jacobian", "quasi-Newton update|although"],
    "C14": ["damping", "damping origin", "damped point", "evaluations|damped", "schedule|the jacobian must be recomputed", "schedule|proposal without the exact"],
}


def keep(prop):
    rules = RULES[prop]

    def f(o):
        if o.get("group") != "solve" or o["rule"] in ("anchor", "automaton") or o["status"] == "undecided":
            return True
        for r in rules:
            n, _, t = r.partition("|")
            if o["rule"] == n and (not t or o["status"] == "ok" or t.lower() in o["key"].lower()):
                return True
        return False
    return f


FILTER = {p: keep(p) for p in RULES}
# fewest obligations each property must have discharged or refuted on a tree
# where nothing could be decided any more, the check would otherwise be vacuous
FLOOR = {}
ASSUMPTIONS = {}
TRUSTED = ["rustc nightly front end and MIR construction (mir-opt-level 0)", "models of the std / nalgebra / minidom functions called by the crate (engine/models.py)", "the value-numbering interpreter (engine/interp.py, engine/terms.py) and the evaluator (engine/ev.py)"]

_AUT = "abstract interpretation of RootFinder::solve (value-numbering fixpoint of its MIR, all callees inlined) run against a typestate automaton of the iteration; the rules of this property: "
_N = "All models, guesses, sizes >= 1, methods, limits, settings and call histories; trusts the library models (engine/models.py) and the interpreter."


def _aut(r):
    return (_AUT + r, _N)


TECH = {
    "C01": _aut("value returned at each exit against the norm of the stopping residuals of the last valid evaluation"),
    "C02": _aut("typestate of the model (point, evaluated, valid) at every successful exit"),
    "C03": _aut("error variant and payload at every exit that follows a failing model call"),
    "C04": _aut("reachability of each panic edge (assertions, unwraps, index checks) under the path facts"),
    "C05": _aut("a strictly increasing counter bounds every cycle; evaluations on each edge"),
    "C06": _aut("returns and events from an arbitrary earlier state of the solver are those from the initial one"),
    "C07": _aut("sequence of set / evaluate events on every path of an iteration"),
    "C08": ("automaton rules on the finite-difference loop, closed form of the matrix it builds, and normal-form comparison of compute_perturbation per class", _N),
    "C09": _aut("normal form of the proposal, of s and of y against Newton's step and the published increments"),
    "C10": ("abstract interpretation of step_limitation, its summary compared over the order types of its arguments, range containment, and its use per component inside solve", _N),
    "C11": ("summaries of the normalisations and derivatives compared as rational functions per sign class; unrolled for 1, 2, 3 equations and every list of methods", "Exact arithmetic (rounding is C28) and IEEE special values by class; trusts the library models and the interpreter."),
    "C12": ("summaries of the update functions compared as rational functions; dispatch inside solve by the automaton", "Dimensions 1 and 2 for the formulas (entry-wise identities), symbolic dimension for the dispatch; trusts the library models and the interpreter."),
    "C13": _aut("which jacobian operation each iteration performs, per method and verdict of the previous step"),
    "C14": _aut("the condition and the value of the damped iterate, and the recomputation it asks for"),
    "C15": ("typestate analysis of JacobianMatrix: every operation from every abstract state, read back through the accessors", "All matrices; whether an inverse exists is a branch. Trusts the library models and the interpreter."),
    "C16": ("accepting condition of each constructor (path conditions of its panic edges) compared over the order types of its arguments", "Order types incl. NaN, infinities, zeros, subnormals; lists up to 3 elements by class. Trusts the library models and the interpreter."),
    "C17": ("abstract interpretation of the parsers over a symbolic document; summaries selected and compared on classes of documents", "Documents by class (presence, spelling and value of each attribute, order, ids, up to 4 variables). The minidom accessors are modelled."),
    "C18": ("abstract interpretation of the adapters over event histories up to a fixpoint", "All user functions and values; trusts the library models and the interpreter."),
    "C19": ("the same automaton with the log active: equal events and returns, typestate of the file, content of each entry", _N),
    "C20": ("effect analysis over the call graph of the whole crate (interior mutability, statics, clocks, randomness, environment, addresses, unsafe)", "Flow-insensitive and complete over the exported MIR; functions of std and nalgebra by an allow list."),
    "C21": ("summaries of the defaults compared with the documented values", "All sizes; trusts the library models and the interpreter."),
    "C22": ("composition of the summaries of accessor and constructor reduced to the identity", "All arguments; trusts the library models and the interpreter."),
    "C23": ("abstract text of each Display implementation read as labels and cells, injectivity over all enumeration values", "Tables of 3 rows and of both sides of every size constant in the code; layout is free."),
    "C24": ("element-wise summaries with different settings per component compared with the scalar rules", "Sizes 1, 2, 3 and the sizes next to constants in the code, special values by class; trusts the library models and the interpreter."),
    "C25": ("the loop of each helper as a transition system: congruence of update and counter, continuation condition per class", "All functions and starting points; trusts the library models and the interpreter."),
}
