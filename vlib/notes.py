"""The words of MANIFEST.json."""
_Q = "TLA+ specification of the query language's semantics; TLC validates recorded truth tables of the encoded queries against it"
_LQ = "Bounded: exhaustive over small dimensions and trees, sampled above. Trusts TLC, the small CDCL solver of the harness (models self-checked, rejections confirmed by a second procedure) and the translation from specification formulas to components."
TECHNIQUE = {k: _Q for k in ("C01", "C02", "C03", "C04", "C05", "C06", "C07")}
LEVEL = {k: _LQ for k in TECHNIQUE}

_X = "TLA+ specification of a context (Context.tla), model-checked with TLC; TLC generates operation histories that are replayed on real contexts, and TLC validates the recorded traces"
_LX = "Bounded: every history of a few operations over small alphabets, random longer ones (by TLC and by the harness), encodings as composite operations."
for k in ("C08", "C09"):
    TECHNIQUE[k], LEVEL[k] = _X, _LX
TECHNIQUE["C10"] = _X + "; a reset context is compared with a new one through the same specification"
LEVEL["C10"] = _LX + " Encoded queries after a reset or encoded twice are judged by the query semantics."
TECHNIQUE["C23"] = _X + ", with two contexts interleaved; TLA+ specification of evaluations side by side (Concurrent.tla), model-checked with TLC, whose schedules are imposed on real evaluations with gated solver processes; free-running evaluations with Go's race detector; TLC judges every result as if made alone"
LEVEL["C23"] = _LX + " Evaluations: all schedules of two evaluations with two solver calls and three with one (sampled in the quick tier), control changes hands at context operations and at the solver process; free runs are sampled."

_F = "TLA+ specification of formulas as values (Formulas.tla), model-checked with TLC; TLC generates derivation histories that are replayed on the real type, and TLC validates the recorded formulas"
_LF = "Bounded: all derivation histories of a few operations, random longer ones, over a few base variables; meanings are compared as complete truth tables."
for k in ("C11", "C12", "C13"):
    TECHNIQUE[k], LEVEL[k] = _F, _LF
TECHNIQUE["C13"] += " and the written text against a specification of DIMACS (Dimacs.tla)"

_S = "TLA+ specification of a solver object and its environment (Solver.tla), model-checked with TLC; TLC generates histories of steps and environment behaviours that are replayed on the real solver with a scripted solver process, and TLC validates the recorded traces"
_LS = "Bounded: all short histories over the kinds of process outcome and failure, random longer ones, random layouts of the output; one process at a time per solver object."
for k in ("C14", "C15", "C16"):
    TECHNIQUE[k], LEVEL[k] = _S, _LS
TECHNIQUE["C16"] += "; the same for optimisations (Optimum.tla)"

TECHNIQUE["C17"] = "TLA+ specification of combinations as a left-to-right evaluation (Comb.tla), model-checked with TLC; TLC generates combinations with all outcomes of the calls, replayed on the real combinators, and TLC validates the recorded calls and results"
LEVEL["C17"] = "Bounded: all small nestings with all outcomes, random larger ones, atoms of real queries sharing a context."

_O = "TLA+ specification of the optimisation as a search against an adversary (Optimum.tla), model-checked with TLC over all sets and strict orders of a small universe; TLC generates searches (orders, answers, failures) that are replayed on the real code, and TLC validates the recorded calls and results"
_LO = "Bounded: dimensions at most 4; what each call asks for is compared as a complete truth table. The adversary answers with any instance that fits what is really asked."
for k in ("C18", "C19", "C20"):
    TECHNIQUE[k], LEVEL[k] = _O, _LO

TECHNIQUE["C21"] = "TLA+ specification of admissible queries, trees and arguments (Validity.tla); every component with every defect under every connective is encoded, and TLC decides from the specification whether an error is due and validates the outcome"
LEVEL["C21"] = "Bounded: all forms of all components with one defect, wrapped in up to three connectives, by encoding, evaluation and optimisation; malformed trees of at most a few nodes. Crashes and hangs are observations."
TECHNIQUE["C22"] = "TLA+ definitions of explanations (Explain.tla) over the decision tree itself; TLC validates what the whole library computes through a solver process"
LEVEL["C22"] = "Bounded: every tree of dimension 2, random trees up to dimension 5, thirteen kinds of explanation under nine orders and nine statements; optimal among all instances by enumeration in TLC. The solver process answers with random models."
TECHNIQUE["C24"] = "TLA+ definitions of the helpers on instances; TLC validates the recorded results of calls"
LEVEL["C24"] = "Exhaustive for small dimensions, sampled above; two constants by pairs."

TECHNIQUE["C25"] = "TLA+ specification of sessions (Session.tla), model-checked with TLC; TLC generates session skeletons that are filled with real queries and replayed on real contexts and solver objects with a solver process, and TLC validates every result against the semantics (SessionTrace.tla composes Logic, Validity, Comb and Optimum)"
LEVEL["C25"] = "Bounded: all sessions of three operations over two contexts and two solver objects (sampled in the quick tier), random sessions of fourteen; dimensions 1 and 2, random trees and queries, the solver process answers with random models."
