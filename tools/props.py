#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays consistent)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
              "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
              "observe_at": observe or [], "hook_needed": None}})
T = "The only test solves one small convex problem with default settings and looks at the exit status. "

p("C01", "The reported outcome of a solve matches how the search ended",
  "When a solve returns, the status it reports and the status and point handed to the user's model agree with how the search ended: 'success' only if the search completed with a solution, 'infeasible' or 'unbounded' only if that was established, 'interrupted by a limit' or 'by the user' when it stopped early. The user's model is told the outcome exactly once per solve, with the best point found if there is one and with no point otherwise. Best value, best bound and point are those of the same search.",
  ["histories", "configurations", "inputs"], "every combination of end condition of the tree search (complete, stopped, aborted, interrupted), presence of a solution, infeasible/unbounded relaxation, and NLP failure",
  T + "It never sees an infeasible, unbounded, limited, interrupted or failing solve.",
  ["src/CbcBonmin/BonCbc.cpp", "src/CbcBonmin/BonCbc.hpp"],
  [("Bab::branchAndBound", "src/CbcBonmin/BonCbc.cpp"), ("TMINLP::finalize_solution", "src/Interfaces/BonTMINLP.hpp")],
  ["Bab::mipStatus", "TMINLP::finalize_solution"], [("mipStatus_", "reported outcome", "BonCbc.hpp")])

p("C02", "Every NLP solver outcome is classified for what it is",
  "Each way the NLP solver can stop is translated to the outcome class it denotes, and each outcome counts as exactly one of solved, infeasible, unbounded, limit or failure. A failed node solve is never passed off as solved or infeasible: it is retried, and if it still fails it is raised as an error unless fathoming failures was configured, and that choice affects only the node that failed. The query functions on the solver answer consistently with the class.",
  ["inputs", "fault_sequences"], "every return code of the NLP solver, at every node solve, every sequence of failures and retries",
  T + "All its NLPs solve at the first attempt, so no other code is ever produced.",
  ["src/Interfaces/BonTNLPSolver.cpp", "src/Interfaces/BonTNLPSolver.hpp", "src/Interfaces/Ipopt/BonIpoptSolver.cpp", "src/Interfaces/BonOsiTMINLPInterface.cpp", "src/Interfaces/BonOsiTMINLPInterface.hpp"],
  [("IpoptSolver::solverReturnStatus", "src/Interfaces/Ipopt/BonIpoptSolver.cpp"), ("OsiTMINLPInterface outcome predicates", "src/Interfaces/BonOsiTMINLPInterface.cpp"), ("resolveForRobustness", "src/Interfaces/BonOsiTMINLPInterface.cpp")],
  ["OsiSolverInterface status queries", "UnsolvedError"])

p("C03", "Every option is honoured: registered, typed, in range, and meant as named",
  "Every option the code reads or sets is a registered option of the kind it is read as, its default is itself an accepted value, and options documented for the user carry the registered default. A symbolic value selects the behaviour its name says: the order of the registered values agrees with the way the code interprets them. The value read reaches the setting it is named after.",
  ["configurations", "inputs"], "every option of the code base and every admissible value of it",
  T + "It sets a handful of options; a misspelt name, swapped value list or wrong kind in any other is only met at run time when that option is used.",
  ["src/Algorithms/BonBabSetupBase.cpp", "src/Algorithms/BonBonminSetup.cpp", "src/Interfaces/BonRegisteredOptions.cpp", "src/CbcBonmin/BonCbc.cpp", "doc/options_list_bonmin_content.tex"],
  [("registerOptions family", "src/**"), ("Get*Value reads", "src/**")], ["bonmin.opt", "OptionsList"])

p("C04", "Copies, clones and assignments carry the complete state",
  "A copy, clone or assignment of a solver, problem wrapper, setup, cut generator, heuristic, search tree, branching chooser or warm start behaves like its source: every setting and every piece of problem or search state of the source is present in the copy. A clone has the dynamic type of its source. The source is not changed by being copied.",
  ["histories", "configurations", "programs"], "every copyable class, every field of it, every configuration of the source, every path through its copy operations",
  T + "Copies are made with default settings, where a dropped field equals its default.",
  ["src/Interfaces", "src/Algorithms", "src/CbcBonmin"],
  [("copy constructors, operator=, clone", "src/**")], ["OsiSolverInterface::clone", "CglCutGenerator::clone", "CbcHeuristic::clone", "CoinWarmStart::clone"])

p("C05", "Memory is released exactly once, with the matching operation",
  "Everything the library allocates is released exactly once and by the operation that matches its allocation, on every path including early returns and error exits of the routines concerned. Nothing is used after release, no two objects own the same memory after a copy, and releasing a member never leaves a pointer that is released or read again.",
  ["histories", "inputs", "fault_sequences"], "every path through every routine that allocates or frees, every order of create, copy, assign, destroy",
  T + "It neither checks for leaks nor takes the rare exits, copies and re-initialisations where ownership goes wrong.",
  ["src/Interfaces", "src/Algorithms", "src/CbcBonmin"],
  [("destructors, gutsOfDestructor, temporaries", "src/**")], ["heap"])

p("C06", "A cut is declared globally valid only when that was asked for",
  "A generated cut is marked as valid for the whole search tree only if the caller asked for global cuts or the cut was derived without using node-local information. Cuts asked for as global are marked as such. Generators hand on the user's or the algorithm's choice unchanged.",
  ["inputs", "configurations"], "every path through every cut producer and every caller of one",
  T + "On a tiny tree a local cut used globally rarely cuts off the optimum.",
  ["src/Interfaces/BonOsiTMINLPInterface.cpp", "src/Algorithms/OaGenerators", "src/Algorithms/QuadCuts", "src/Algorithms/BonCutStrengthener.cpp"],
  [("OsiTMINLPInterface cut producers", "src/Interfaces/BonOsiTMINLPInterface.cpp")], ["OsiRowCut::globallyValid"])

p("C07", "C and Fortran index bases of the user's model are both honoured",
  "A model that numbers its Jacobian and Hessian entries from one gives the same linearisations, cuts, feasibility problems and auxiliary models as the same model numbered from zero. Every index a wrapper adds to a structure uses the numbering base of the structure it extends, and every index taken from a structure is rebased before it addresses a row or column.",
  ["inputs", "programs"], "every model with either index style, every producer and consumer of sparse structure",
  T + "Its model uses one of the two index styles only.",
  ["src/Interfaces/BonOsiTMINLPInterface.cpp", "src/Interfaces/BonTNLP2FPNLP.cpp", "src/Interfaces/BonTMINLP2TNLP.cpp", "src/Algorithms/QuadCuts", "src/Interfaces/BonBranchingTQP.cpp"],
  [("index_style handling", "src/**")], ["OsiCuts", "TNLP::eval_jac_g", "TNLP::eval_h"])

p("C08", "Temporary changes to a solver are undone on every way out",
  "Operations that temporarily change a solver, its bounds, its objective, its cutoff or the problem it solves to answer a question restore what they changed before returning, on every path including early exits. After strong branching, cut generation, outer-approximation decomposition, feasibility checks, diving or retries, the node's problem is what it was.",
  ["histories", "inputs", "fault_sequences"], "every path (including failures and limits) through every operation that changes and restores",
  T + "A missed restore matters only on exits the test does not take, or nodes later.",
  ["src/Interfaces/BonOsiTMINLPInterface.cpp", "src/Interfaces/BonTMINLP2TNLP.cpp", "src/Algorithms/OaGenerators", "src/Algorithms/Branching", "src/CbcBonmin/Heuristics"],
  [("save/restore pairs", "src/**")], ["OsiSolverInterface bounds, rows, objective"])

p("C09", "Results shown always belong to the current problem",
  "After any change to bounds, starting point, multipliers or column types through the solver's interface the problem is marked as not yet optimised, and the solution and multipliers computed for the earlier problem are no longer served: the starting data are, until the next solve. After rows were added or removed no cached view of the earlier rows (sense, right-hand side, range) is served; the views are rebuilt from the current rows. Results are declared available only after a solve, and operations that do not change the problem leave them available.",
  ["histories"], "every sequence of modifications and queries",
  T + "It modifies nothing between solving and reading the result.",
  ["src/Interfaces/BonOsiTMINLPInterface.cpp", "src/Interfaces/BonTMINLP2TNLP.cpp"],
  [("freeCachedData, hasBeenOptimized_", "src/Interfaces/BonOsiTMINLPInterface.cpp")], ["getRowSense, getRightHandSide, getRowRange, getColSolution"])

p("C10", "User callbacks get faithful arguments and their failures are reported",
  "Every wrapper placed between the NLP solver and the user's model forwards each evaluation with the point, sizes, multipliers and output arrays it was given, adding only what the wrapper's own extra rows, columns or objective require. When the user's callback reports failure, the wrapper reports failure too, and it reports success when the evaluation succeeded.",
  ["inputs", "fault_sequences", "programs"], "every callback of every wrapper, every call, every failing evaluation",
  T + "Its model never fails, and most wrappers (quadratic cuts, linearised objective, feasibility pump with extra rows) are not reached.",
  ["src/Interfaces/BonTMINLP2TNLP.cpp", "src/Interfaces/BonTNLP2FPNLP.cpp", "src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp", "src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp", "src/Algorithms/Branching/BonBranchingTQP.cpp", "src/Interfaces/BonStdInterfaceTMINLP.cpp"],
  [("TNLP adapters", "src/**")], ["TMINLP::eval_*"])

p("C11", "Abort requests and limits stop every search loop",
  "Every loop that solves NLPs or MILPs again and again either has a fixed number of rounds or ends with the solve under way once the user has asked to abort; no NLP solve starts after that, a running one is stopped, and the interrupt reaches the search that is running at that time and no other. The outer approximation decomposition and the feasibility pump also end when their time or their number of local searches is used up, and their limits never exceed the global ones. The time, node, iteration and solution limits and the gaps the user sets reach the tree search, sub-MIPs and the tree search get the time that is left, and the tree search does not start without time left.",
  ["schedules", "histories", "configurations"], "every loop that contains a solve, whichever limit fires and whenever the interrupt comes",
  T + "It ends long before any limit.",
  ["src/Algorithms/OaGenerators", "src/CbcBonmin/BonCbc.cpp", "src/CbcBonmin/Heuristics", "src/Interfaces/BonOsiTMINLPInterface.cpp", "src/Algorithms/BonSubMipSolver.cpp"],
  [("abort flag and time checks", "src/**")], ["wall clock, number of solves"])

p("C12", "Heuristics report only improving points that were verified",
  "A primal heuristic announces success only together with a point and its objective value, only if that value is better than the incumbent value it was given, and only for a point whose integrality and constraint feasibility were established by an NLP solve that succeeded or by an explicit check. When it announces no success it leaves the incumbent point and value it was given untouched.",
  ["inputs", "histories", "fault_sequences"], "every heuristic and every path through it",
  T + "No heuristic is switched on.",
  ["src/CbcBonmin/Heuristics", "src/Algorithms/OaGenerators/BonDummyHeuristic.cpp"],
  [("CbcHeuristic::solution overrides", "src/CbcBonmin/Heuristics")], ["CbcHeuristic::solution"])

p("C13", "Errors raised inside the solver are caught in the form they are thrown",
  "Every exception the library raises is caught, in the form in which it is thrown, by the layers that promise to handle it, so that an NLP failure or model error ends the solve in an orderly way: the user's model is told of the error and no exception of one kind is mistaken for another. Nothing thrown is leaked or caught by a handler that cannot match.",
  ["fault_sequences", "histories"], "every throw site and every call path from the public entry points to it",
  T + "Nothing is ever thrown.",
  ["src/CbcBonmin/BonCbc.cpp", "src/Interfaces", "src/Algorithms"],
  [("throw and catch sites", "src/**")], ["catch handlers, TMINLP::finalize_solution"])

p("C14", "Each algorithm choice installs the parts that make it exact",
  "For each selectable algorithm the setup installs the components without which it would accept or discard points wrongly: every method that works on a linear relaxation gets the check of integer points against the nonlinear problem, run on every node and at solutions, and the generators and solvers its name promises with the periods and priorities configured. A component switched off by an option is not installed.",
  ["configurations"], "every algorithm and every combination of options read during setup",
  T + "It selects one algorithm.",
  ["src/Algorithms/BonBonminSetup.cpp", "src/Algorithms/BonBabSetupBase.cpp", "src/CbcBonmin/BonCbc.cpp"],
  [("BonminSetup::initialize*", "src/Algorithms/BonBonminSetup.cpp")], ["CbcModel generators and heuristics"])

p("C15", "Decomposition accepts points and closes nodes only on proof",
  "Outer-approximation decomposition, the feasibility checker and the feasibility pump hand an integer point to the search as a solution only if the NLP with the integers fixed was solved to optimality and improves on the cutoff. They declare a node closed (infinite bound) only if the sub-MILP was proved optimal or infeasible and nothing was left unresolved. An integer point that the nonlinear problem rejects is cut off, never accepted.",
  ["inputs", "histories", "fault_sequences"], "every path through the decomposition loops: NLP solved, infeasible or failed; MILP optimal, infeasible, limited or interrupted",
  T + "Decomposition is off by default in the tested algorithm, and there every sub-solve succeeds.",
  ["src/Algorithms/OaGenerators", "src/Algorithms/BonSubMipSolver.cpp", "src/Algorithms/BonOACutGenerator2.cpp"],
  [("OaDecompositionBase::generateCuts and performOa overrides", "src/Algorithms/OaGenerators")], ["OsiBabSolver solution, column cuts, bounds"])

p("C16", "No open search node is lost, duplicated or invented",
  "Every node handed to a search tree is, until the tree is asked to prune it, either kept by the tree or returned by it, and in exactly one of these places. The emptiness test, the number of nodes and the best bound take every kept node into account. Pruning by cutoff removes only nodes whose bound is not better than the cutoff.",
  ["histories", "configurations", "inputs"], "every sequence of insertions, removals, cutoff changes and mode switches for every tree traversal strategy",
  T + "It uses one traversal strategy on a tree of a few nodes; diving strategies are never selected.",
  ["src/CbcBonmin/BonDiver.cpp", "src/CbcBonmin/BonDiver.hpp"],
  [("CbcDiver, CbcProbedDiver, CbcDfsDiver", "src/CbcBonmin/BonDiver.cpp")], ["CbcTree interface", "optimal value"])

p("C17", "Branching never discards a part that was not proved empty",
  "Strong branching and variable selection fix a variable, tighten a bound or declare a node infeasible only when the trial solve of the discarded side was proved infeasible or above the cutoff; a trial that failed or hit a limit discards nothing. The side kept is the one that was not discarded, and lower bounds are only ever set from lower bounds and upper bounds from upper bounds when bounds are passed between solvers.",
  ["inputs", "histories", "fault_sequences"], "every outcome pair of the two trial solves, every variable, every transfer of bounds between two solvers",
  T + "With default settings few strong-branching trials are made and all succeed.",
  ["src/Algorithms/Branching", "src/Interfaces/BonOsiTMINLPInterface.cpp", "src/CbcBonmin/Heuristics", "src/Algorithms/OaGenerators"],
  [("BonChooseVariable::doStrongBranching", "src/Algorithms/Branching/BonChooseVariable.cpp"), ("setColLower / setColUpper transfers", "src/**")], ["branching decisions, bounds of sub-solvers"])

p("C18", "Arrays handed across the interface have the size and order they need",
  "When problem data (bounds, types, starting points, multipliers, gradients, matrices) is passed between the user's model, the wrappers, the NLP solver and the MILP solver, each array is filled for its whole length and each quantity goes to its own slot: variables' data with the number of variables, constraints' data with the number of constraints, lower with lower and upper with upper, rows with rows and columns with columns.",
  ["inputs", "programs"], "every call that passes sized arrays across a component boundary, for every problem dimension",
  T + "One problem with one shape; a mix-up of sizes or slots needs other dimensions to show.",
  ["src/Interfaces", "src/Algorithms", "src/CbcBonmin"],
  [("calls with (size, array) parameters", "src/**")], ["TMINLP and OsiSolverInterface calls"])

p("N01", "The returned point is a global optimum of a convex problem",
  "For a convex problem the point returned with a success status is feasible and optimal within the configured tolerances.",
  ["inputs"], "every convex mixed-integer nonlinear problem", T + "One instance.",
  ["src/CbcBonmin/BonCbc.cpp"], [("whole algorithm", "src/**")], ["objective value"])
p("N02", "Linearisations are valid outer approximations",
  "For convex constraints each generated linear cut holds at every feasible point, within the configured relaxation of its right-hand side.",
  ["inputs"], "every convex constraint, every linearisation point", T + "One instance.",
  ["src/Interfaces/BonOsiTMINLPInterface.cpp"], [("getOuterApproximation", "src/Interfaces/BonOsiTMINLPInterface.cpp")], ["OsiRowCut"])
p("N03", "Every solve terminates",
  "For every bounded problem and every algorithm the solve ends after finitely many nodes and iterations, limits or not.",
  ["inputs", "histories"], "every problem and algorithm", T + "One instance.",
  ["src/CbcBonmin/BonCbc.cpp"], [("whole algorithm", "src/**")], ["termination"])
p("N04", "Reported bounds enclose the optimal value",
  "At any time the reported best bound is not better than... the true optimal value allows, and the gap shrinks to the tolerance at success.",
  ["inputs", "histories"], "every problem, every moment of the search", T + "One instance.",
  ["src/CbcBonmin/BonCbc.cpp"], [("CbcModel bounds", "src/CbcBonmin/BonCbc.cpp")], ["Bab::bestBound"])
P[-1]["statement"] = "At any time the reported best bound is a valid bound on the true optimal value, and at success the gap to the best value is within the configured tolerance."
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
