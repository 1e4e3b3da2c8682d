#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the statements live)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SUB="query/predicates/subsumption/"; LEL="query/predicates/lel/"; ISN="query/predicates/isnode/"
EXT="query/extensions/"; LOG="query/logop/"
NOSOLVER="The truth-table tests need a solver binary that is absent here, so nothing about the meaning of an encoding is tested; and where they run they sample a few dozen points of dimension at most 4."

prop("C01","Order relations between instances mean what they say",
 "For every dimension and every choice of constants and variables as arguments, a query made of subsumption, less-or-equal level, consistency or fullness is satisfiable with given values for its variables exactly when the relation holds between those partial instances. Its negation is satisfiable with those values exactly when the relation does not hold.",
 ["inputs","programs"],"all dimensions, all partial instances, all constant/variable argument forms (constants given directly or bound by an enclosing guarded quantifier), both polarities",
 NOSOLVER,
 [SUB,LEL,EXT+"cons/",EXT+"full/","query/instances.go"],
 [("one encoder per constant/variable form",SUB+"*.go, "+LEL+"*.go, "+EXT+"cons/*.go, "+EXT+"full/*.go"),("counting of undefined features",LEL+"utils.go")],
 ["Encoding(ctx) followed by a satisfiability check with the variables' values fixed"])

prop("C02","Tree predicates agree with the decision tree",
 "For every well-formed decision tree and every partial instance, 'is a node of the tree', 'all completions are classified c' and 'is a determinant feature set' are answered exactly as the tree defines them, whether the instance is a constant or the value of a variable. The negated queries are answered with the exact complement.",
 ["inputs","programs"],"all read-once decision trees (any shape, any node order with the root first, any leaf labelling, including a single leaf), all partial instances, both argument forms, both polarities",
 NOSOLVER,
 [ISN,EXT+"allcomp/",EXT+"dfs/","query/model.go"],
 [("walks for constants","isnode/const.go, allcomp/const.go, dfs/const.go, dfs/utils.go"),("reachability clauses for variables","isnode/var.go, allcomp/var.go"),("leaf-pair witness clauses","dfs/var.go")],
 ["Encoding(ctx) followed by a satisfiability check with the variable's value fixed"])

prop("C03","Preference-rank and distance comparisons are exact",
 "A higher-or-equal-preference-rank query holds exactly when, at the first feature of the preference sequence that only one of the two instances leaves undefined, it is the second one (or no such feature exists); this includes empty and partial sequences. A less-or-equal-Hamming-distance query holds exactly when all three instances are full and the first is no further from the second than from the third. Both are exact for every constant/variable form and under negation.",
 ["inputs","programs"],"all dimensions, all instances (full or not), all preference sequences without repetition, all argument forms, both polarities",
 NOSOLVER,
 [EXT+"hepr/",EXT+"leh/"],
 [("rank chain over the preference sequence",EXT+"hepr/*.go"),("distance counters and equal-feature variables",EXT+"leh/utils.go"),("constant shortcuts",EXT+"leh/const_const_var.go, const_var_const.go")],
 ["Encoding(ctx) followed by a satisfiability check with the variables' values fixed"])

prop("C04","Connectives are truth-functional at any nesting",
 "A query built with and, or, not in any nesting over any components is satisfiable with given values for its variables exactly when the Boolean combination of the components' truth values is true. This holds also for double negations, for parts that are trivially true or false, for parts repeated within the query, and for any depth.",
 ["programs","inputs"],"all formulas over the connectives and atomic components, all values of their variables",
 "Tests compare clause lists of one-connective formulas over trivial operands; deeper nestings, where fresh auxiliary variables of several negations have to stay apart, are never evaluated.",
 [LOG,"cnf/cnf.go","query/varmanager.go"],
 [("Tseytin negation with fresh variables above the context's top","cnf/cnf.go Negate"),("disjunction by De Morgan",LOG+"or.go"),("top-variable hand-over","logop/not.go, logop/or.go, UpdateTopV")],
 ["Encoding(ctx) followed by a satisfiability check with the variables' values fixed"])

prop("C05","Components on the same instances do not disturb each other",
 "When several components talk about the same variables and constants and are given the same functions for naming helper variables, a combination of them is satisfiable with given values exactly when the combination of their definitions is true. No component weakens, strengthens or contradicts another through shared helper variables.",
 ["programs","inputs"],"all pairs and larger groups of components of any kind, form and parameters (preferences, leaf values), over shared variables and constants; helper-naming functions that are injective and shared as the documentation asks",
 "Each test evaluates one component on its own; interference needs two components that share a helper variable and two different meanings for it.",
 [EXT,"query/predicates/"],
 [("helper variable naming","ReachNodeVarGen, CountVarGen, HammingDistanceVarGen, EqualFeatureVarGen, FeaturePreferenceRankVarGen"),("triple indexing of helper variables","query/varmanager.go")],
 ["Encoding(ctx) of the combination followed by a satisfiability check"])

prop("C06","The guarded quantifier ranges over exactly the model's nodes",
 "A query guarded by 'for every node of the model' is satisfiable exactly when its body is satisfiable for every node's partial instance: a variable declared inside the quantifier may take a different value for each node, one declared outside has a single value. This holds for nested and alternating quantifiers, and a constant bound by two nested quantifiers takes the value of the innermost.",
 ["programs","inputs"],"all trees, all bodies over variables declared inside and outside and constants bound by any enclosing quantifier, nesting and alternation of quantifiers",
 "One test checks the visiting of a five-node tree and one the numbering for a three-node tree with a single-literal body; dependence of inner variables on the node and nested bindings are not evaluated.",
 [LOG+"forallguarded.go",LOG+"with_var.go","query/scoper.go"],
 [("tree walk producing node instances",LOG+"forallguarded.go nodeAsValuesIter"),("scoped names and constants","query/scoper.go")],
 ["Encoding(ctx) followed by a satisfiability check"])

prop("C07","A declared variable stands for exactly one partial instance",
 "In every valuation satisfying a query, each declared variable has exactly one value on every feature, and every partial instance of the model's dimension is a possible value of a variable the query does not constrain. Declaring a variable again in the same scope, or in a scope nested inside the quantifier it was declared under, has no effect.",
 ["inputs","programs"],"all dimensions, all queries declaring any number of variables at any place, including repeated declarations and declarations under guarded quantifiers",
 "Tests check the clause list for dimension 1 only; that no valuation escapes for other dimensions, positions or repeated declarations is not tested.",
 [LOG+"with_var.go","query/varmanager.go"],
 [("at-least-one and at-most-one consistency clauses",LOG+"with_var.go encodeI"),("never negated","cnf/cnf.go consistency clauses")],
 ["satisfying valuations of encoded queries"])

prop("C08","Scopes nest properly and keep names apart",
 "For every sequence of scope operations on a context, two different variables, or one variable under different quantifier positions, never get the same internal name, and the same variable in the same position always gets the same name; a constant bound by a scope has the value last set for the innermost scope that binds it. Encoding a query, whether it succeeds or fails, leaves the scope stack of the context as it found it.",
 ["histories","programs","fault_sequences"],"all operation histories on a context, with encodings of arbitrary (also failing) queries in between",
 "No test exercises the context directly; error paths inside quantifiers are untested.",
 ["query/scoper.go",LOG+"forallguarded.go"],
 [("scope stack and level map","query/scoper.go"),("deferred scope removal",LOG+"forallguarded.go buildEncoding")],
 ["the context's scope operations"],
 [("scope stack","targets, indices and values of open quantifiers","query/scoper.go baseScoper.scopes"),("levels","depth at which a variable was declared","query/scoper.go baseScoper.vars")])

prop("C09","Propositional variables are unique, stable and fresh",
 "For every history of a context, each (name, index, value) triple gets one positive number that never changes until the context is reset, different triples get different numbers, and a newly assigned number is larger than everything assigned or reserved before. The reported top is the largest number assigned or reserved, reservations below it are refused and do not lower it, and asking whether a triple exists neither creates it nor changes anything.",
 ["histories"],"all histories of variable requests, existence queries, reservations and resets, interleaved with encodings of arbitrary queries",
 "No test exercises the variable manager; clashes appear only for particular orders of requests and reservations.",
 ["query/varmanager.go"],
 [("triple map and counter","query/varmanager.go baseVarManager")],
 ["CNFVar, CNFVarExists, TopV, UpdateTopV"],
 [("vars","triple to number","query/varmanager.go"),("topv","largest number","query/varmanager.go")])

prop("C10","A reset context behaves like a new one",
 "Whatever was done with a context before, after it is reset every scope, variable and query behaves as in a newly created context over the same model. Encoding the same query value again in a fresh or reset context gives the same answers as the first time.",
 ["histories"],"all histories before the reset (open scopes, declared variables, encoded or failed queries), all queries and operations after it",
 "No test resets a context or encodes a query twice.",
 ["query/context.go","query/scoper.go","query/varmanager.go"],
 [("Reset of both managers","query/context.go Reset")],
 ["scope and variable operations and query answers after Reset"])

prop("C11","Formula operations preserve meaning",
 "For every formula kept as semantic and consistency clauses: conjunction means that both parts hold, negation complements the semantic part over the valuations that satisfy the consistency part and leaves the consistency part binding, and appended clauses are added to the part they are appended to. Auxiliary variables introduced by a negation lie above every variable of the formula and above the bound passed to it, and the reported top variable is never below a variable in use. A formula reported as trivially true (false) is satisfied by every (no) valuation.",
 ["inputs","histories"],"all clause sets (including none and empty clauses) and all sequences of operations on them",
 "Tests compare clause lists of single operations on at most three clauses; meanings of composed operations are not evaluated.",
 ["cnf/cnf.go"],
 [("Tseytin transformation","cnf/cnf.go tseytinNegation, addNegationIFFClauses"),("special cases for empty formulas and clauses","cnf/cnf.go Negate")],
 ["Clauses() of results, projected to the variables of the operands"])

prop("C12","Deriving a formula never changes another one",
 "Formulas are values: no operation on a formula changes the clauses or the top variable of any formula obtained earlier, including its own operands, other formulas derived from the same one, the predefined true and false formulas, and clause lists the caller passed in.",
 ["histories"],"all histories of formula operations in which any earlier formula may be used again any number of times",
 "Every test uses each formula once; overwriting shared storage needs two derivations from a common formula with spare capacity.",
 ["cnf/cnf.go"],
 [("value receivers returning new formulas","cnf/cnf.go AppendSemantics, AppendConsistency, Conjunction, Negate")],
 ["Clauses() and TopV() of all live formulas after each operation"])

prop("C13","The DIMACS text is the formula",
 "For every formula, the text written to a file and the one returned in memory are the same well-formed DIMACS CNF: one header whose clause count is the number of clauses that follow and whose variable count bounds every variable used, then every semantic and consistency clause exactly once, zero-terminated. Reading it back gives exactly the formula. A text that cannot be written completely is reported as an error.",
 ["inputs"],"all formulas obtainable by encoding queries or by formula operations, including empty formulas and empty clauses",
 "Two tests write one small formula each.",
 ["cnf/cnf.go"],
 [("serialisation","cnf/cnf.go ToBytes, ToFile, clauseToDIMACS")],
 ["bytes of ToBytes and of the file of ToFile; the file handed to the solver process"])

prop("C14","Only a definite solver answer is taken as an answer",
 "A step reports satisfiable only if the solver process ends with the code for satisfiable, reports unsatisfiable only if it ends with the code for unsatisfiable, and reports an error different from unsatisfiable in every other case: another exit code, death by a signal, a solver that cannot be started, a query that cannot be encoded, or a temporary file that cannot be written. Making a solver for a path where there is nothing is an error.",
 ["fault_sequences","inputs"],"all exit codes, signals, start failures, encoding failures and temporary-directory failures, in any sequence of steps",
 "All tests of the package fail to run here; upstream they only see a healthy solver.",
 ["compute/solver.go"],
 [("exit status mapping","compute/solver.go runSolver, Step")],
 ["error returned by Step with a scripted solver executable"])

prop("C15","Values are read exactly from the last satisfying answer",
 "After a satisfiable step, reading the values of a query's variables returns, for each of them in the order asked, exactly the partial instance of the solver's valuation, with one value per feature, however the solver lays out its value lines. Later unsatisfiable or failed steps do not change what is read.",
 ["inputs","histories","configurations"],"all valuations, all layouts of value lines allowed by the solver output format (number and length of lines, white space, comments, order of lines), all sequences of steps",
 "No runnable test reads values; upstream one test reads one value of dimension 3 printed on one line.",
 ["compute/solver.go"],
 [("output parsing","compute/solver.go varValueFromBytes, variableFilter"),("recorded output","compute/solver.go binSolver.output")],
 ["Values after scripted solver runs"],
 [("last output","stdout of the last satisfiable run","compute/solver.go binSolver.output")])

prop("C16","No temporary files are left behind",
 "After every step and every optimisation has returned, successfully or with an error, the temporary directory contains the files it contained before, unchanged, and no other, and the solver was given exactly one formula file per run, containing the complete formula.",
 ["fault_sequences","crash_points"],"all outcomes of the solver process, encoding failures and failures at any solver call of an optimisation",
 "No test looks at the temporary directory.",
 ["compute/solver.go","compute/optimum.go"],
 [("deferred removal","compute/solver.go Step, compute/optimum.go ComputeOptim")],
 ["directory listing after each call; the file as the solver process sees it"])

prop("C17","Boolean combinations of evaluations compute the Boolean value",
 "A combination of atomic evaluations by and/or returns the Boolean value of the combination, an atom marked as negated returning the opposite of its query's satisfiability; empty and is true, empty or is false. Elements are consulted from left to right until the value is decided, and an error of a consulted element makes the whole evaluation an error, never a truth value.",
 ["programs","fault_sequences"],"all nestings of and/or combinations and (negated) atoms, all outcomes (satisfiable, unsatisfiable, also wrapped, error) of each solver call, atoms over distinct variables sharing one context",
 "Four two-element combinations are tested upstream and none of them runs here; errors and nesting are not tested.",
 ["compute/boolcomb.go"],
 [("short-circuit evaluation","compute/boolcomb.go")],
 ["result of Sat and the sequence of solver calls"])

prop("C18","An optimum is returned exactly when one exists, and it is one",
 "Whatever satisfying valuations the solver happens to return, optimisation reports 'found' exactly when some partial instance satisfies the formula, and then returns an instance that satisfies it and that no satisfying instance precedes in the strict order. This does not depend on what the context was used for before.",
 ["schedules","inputs","histories"],"all solver choices among the satisfying valuations at each call, all formulas and strict partial orders, all trees, all earlier uses of the context",
 "One test computes one optimum with whatever choices one solver makes, and it does not run here.",
 ["compute/optimum.go"],
 [("descent loop","compute/optimum.go ComputeOptim")],
 ["result of ComputeOptim under a scripted solver exploring its choices"],
 [("best","last value read","compute/optimum.go bm")])

prop("C19","Optimisation makes strict progress and an exact number of calls",
 "Every solver call of an optimisation after the first asks exactly for the satisfying instances that strictly precede the last one found, so the instances found form a strictly descending chain and the computation ends. The reported number of calls is the number actually made: one if nothing satisfies the formula, otherwise one more than the number of instances found.",
 ["schedules","inputs"],"all solver choices, including the ones that make the longest possible chain; all formulas and strict partial orders",
 "The tests never look at the calls made.",
 ["compute/optimum.go"],
 [("descent loop and step counter","compute/optimum.go ComputeOptim")],
 ["the queries passed to the solver at each call and the reported count"])

prop("C20","A failed optimisation is an error, never an answer",
 "If the solver, the reading of values, the encoding of the formula or of the order, or the creation of temporary files fails at any point of an optimisation, the call returns a non-nil error and does not report an instance as found. Only a definite 'unsatisfiable' of the solver, wrapped or not, is taken as absence of a (better) instance.",
 ["fault_sequences","crash_points"],"a failure of any of these kinds at any call of the optimisation",
 "No test injects a failure.",
 ["compute/optimum.go","compute/solver.go"],
 [("error checks after each call","compute/optimum.go ComputeOptim")],
 ["result and error of ComputeOptim"])

prop("C21","Malformed input is reported as an error",
 "A missing context, missing operand, missing naming function, constant of the wrong dimension or used outside the quantifier that binds it, preference with an index out of range or repeated, empty model where nodes are needed, or model with a node that decides a feature out of range or names a child out of range (and that a walk over the tree reaches), makes encoding return an error; it never crashes, hangs or yields a formula as if the input were well-formed. The error comes back through every enclosing connective and quantifier, and through evaluation and optimisation.",
 ["inputs","programs"],"all components and forms, all these defects, at any place of a query",
 "Tests cover nil contexts and one wrong dimension per component; missing operands in depth, empty and broken models and unbound constants are not covered.",
 ["query/","compute/"],
 [("argument checks at the top of each Encoding","query/predicates, query/extensions, query/logop"),("ValidateConstsDim","query/instances.go"),("node validation","logop/forallguarded.go, dfs/utils.go")],
 ["outcome of Encoding"])

prop("C22","Computed explanations are the explanations of the tree",
 "For every decision tree and instance, the standard explanation queries built from the library (sufficient reasons minimal by inclusion, by size or by preference, determinant feature sets, closest counterfactual, the README and example queries), evaluated end to end through a solver process, give an explanation exactly when one exists, and the one given satisfies the definition of the notion and is optimal.",
 ["inputs","programs"],"all trees, instances and preferences, for each notion",
 "No runnable test goes from a tree to an explanation; upstream one optimum without a tree is computed.",
 ["compute/","query/","cnf/","examples/"],
 [("the whole pipeline","query/... -> cnf -> compute")],
 ["result of ComputeOptim / Sat with an external solver process"])

prop("C23","Evaluations in separate contexts are independent",
 "Operations on one context never affect another one, in any interleaving, and evaluations with their own contexts and solvers running at the same time give the answers they give alone.",
 ["schedules","histories"],"all interleavings of operations on two contexts; concurrent evaluations sharing query values, the predefined formulas and the temporary directory",
 "All tests are sequential and use one context.",
 ["query/","cnf/cnf.go","compute/solver.go"],
 [("no shared mutable state between contexts","query/context.go"),("unique temporary files","compute/solver.go Step")],
 ["interleaved context operations, concurrent Sat/ComputeOptim results"])

prop("C24","Instance helpers agree with the instance",
 "For every constant, its fullness, number of undefined features, textual form, equality with another constant and dimension check are functions of its values as defined, two constants have the same textual form exactly when they have the same values, and none of them changes the constant.",
 ["inputs"],"all constants of all dimensions",
 "The package has no tests; the textual form also names helper variables, so a clash silently corrupts queries.",
 ["query/instances.go"],
 [("helpers of QConst","query/instances.go")],
 ["IsFull, BotCount, AsString, EqualValue, AllBotConst, ValidateConstsDim"])

prop("C25","Evaluations of a session do not influence each other",
 "In every sequence of evaluations of combinations, optimisations, single steps, readings of values, failing queries, failing solver runs and resets that share contexts, models, solver objects and query values, where every evaluation uses names new to its context since the last reset, each result is the one its queries have by themselves over the model of their context. The values read for the last satisfied step, at any later time until its context is reset or an optimisation is made in it, satisfy the query of that step, are the same at every reading, and belong to no other evaluation.",
 ["histories","programs","fault_sequences"],"all sequences of operations over several contexts, models and solver objects, with failures in between",
 "Tests evaluate one query in a new context with a new solver object.",
 ["compute/","query/","cnf/cnf.go"],
 [("numbering of a context","query/varmanager.go"),("recorded output","compute/solver.go binSolver.output"),("evaluation","compute/boolcomb.go, compute/optimum.go")],
 ["results of Sat, Step, Values and ComputeOptim in sequence"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
