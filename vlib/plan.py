"""What each check runs.

streams: (generator of stimuli, trace specification that judges the events)
         a generator is either the name of a generator of vdrive or
         ("tlc", module, config, simulate options) for histories TLC makes
models:  (module, config quick, config thorough) exhaustively checked designs
"""

Q = "QueryTrace"
F = "CnfTrace"
MF = ("MC_Formulas", "MC_Formulas.cfg", "MC_FormulasT.cfg")
X = "ContextTrace"
S = "SolverTrace"
O = "OptTrace"
MO = ("MC_Optimum", "MC_OptimumT.cfg", "MC_OptimumT.cfg")
B = "CombTrace"
P = "ParTrace"
MT = ("MC_Theory", "MC_Theory2.cfg", "MC_Theory3.cfg")
MR = ("MC_Orders", "MC_Orders2.cfg", "MC_Orders3.cfg")
MS = ("MC_Solver", "MC_Solver.cfg", "MC_SolverT.cfg")

PLAN = {
    "C01": {"streams": [("C01", Q)], "models": [MR]},
    "C02": {"streams": [("C02", Q)], "models": [MT]},
    "C03": {"streams": [("C03", Q)], "models": [MR]},
    "C04": {"streams": [("C04", Q)], "models": []},
    "C05": {"streams": [("C05", Q)], "models": []},
    "C06": {"streams": [("C06", Q)], "models": []},
    "C07": {"streams": [("C07", Q)], "models": []},
    "C08": {"streams": [("C08", X), (("tlc", "GenContext", "ctx"), X)],
            "models": [("MC_Context", "MC_Context.cfg", "MC_Context.cfg"),
                       ("MC_Names", "MC_Names.cfg", "MC_Names.cfg")]},
    "C09": {"streams": [("C09", X), (("tlc", "GenContext", "ctx"), X)],
            "models": [("MC_Context", "MC_Context.cfg", "MC_Context.cfg")]},
    "C10": {"streams": [("C10c", X), ("C10q", Q), (("tlc", "GenContext", "ctx"), X)],
            "models": [("MC_Context", "MC_Context.cfg", "MC_Context.cfg")]},
    "C11": {"streams": [(("tlc", "GenFormulas", "cnf"), F)], "models": [MF]},
    "C12": {"streams": [(("tlc", "GenFormulas", "cnf"), F)], "models": [MF]},
    "C13": {"streams": [(("tlc", "GenFormulas", "cnf"), F), ("C13", F)], "models": []},
    "C14": {"streams": [("C14", S), (("tlc", "GenSolver", "solver"), S)], "models": [MS]},
    "C15": {"streams": [("C15", S), (("tlc", "GenSolver", "solver"), S)], "models": [MS]},
    "C16": {"streams": [("C16", S), ("C16o", O), (("tlc", "GenSolver", "solver"), S)], "models": [MS]},
    "C17": {"streams": [(("tlc", "GenComb", "comb"), B), ("C17", B)],
            "models": [("GenComb", "MC_Comb.cfg", "MC_CombT.cfg")]},
    "C18": {"streams": [("C18", O), (("tlc", "GenOptimum", "opt"), O)], "models": [MO]},
    "C19": {"streams": [("C19", O), (("tlc", "GenOptimum", "opt"), O)], "models": [MO]},
    "C20": {"streams": [("C20", O), (("tlc", "GenOptimum", "opt"), O)], "models": [MO]},
    "C21": {"streams": [("C21", "ValidityTrace")], "models": []},
    "C24": {"streams": [("C24", "HelpersTrace")], "models": []},
    "C22": {"streams": [("C22", "ExplainTrace")], "models": [MT, MR]},
    "C25": {"streams": [(("tlc", "GenSession", "session"), "SessionTrace")],
            "models": [("Session", "MC_Session.cfg", "MC_SessionT.cfg")]},
    "C23": {"streams": [("C23c", X), (("tlc", "GenContext", "ctx"), X),
                        (("tlc", "GenConcurrent", "par"), P), ("C23s", P), ("C23f", P, "race")],
            "models": [("MC_Context", "MC_Context2.cfg", "MC_Context2.cfg"),
                       ("Concurrent", "MC_Concurrent.cfg", "MC_ConcurrentT.cfg")], "tries": 3},
}
