"""Regenerates engine/config/c03.json from the current tree (review the diff by hand)."""
import sys, json; sys.path.insert(0,'/verif/engine'); sys.setrecursionlimit(20000)
from model import *
from check import Report
from rules import c03
P=Program.load(); R=Report("C03","quick")
reg,extra,order=c03.registry(P,R)
s,nf=c03.collect(P,R)
E_="Bonmin::"
V={
"node_comparison":(E_+"BabSetupBase::NodeComparison",{"best-bound":"bestBound","depth-first":"DFS","breadth-first":"BFS","dynamic":"dynamic","best-guess":"bestGuess"}),
"tree_search_strategy":(E_+"BabSetupBase::TreeTraversal",{"top-node":"HeapOnly","dive":"DiveFromBest","probed-dive":"ProbedDive","dfs-dive":"DfsDiveFromBest","dfs-dive-dynamic":"DfsDiveDynamic"}),
"variable_selection":(E_+"BabSetupBase::VarSelectStra_Enum",{"most-fractional":"MOST_FRACTIONAL","strong-branching":"STRONG_BRANCHING","reliability-branching":"RELIABILITY_BRANCHING","qp-strong-branching":"QP_STRONG_BRANCHING","lp-strong-branching":"LP_STRONG_BRANCHING","nlp-strong-branching":"NLP_STRONG_BRANCHING","osi-simple":"OSI_SIMPLE","osi-strong":"OSI_STRONG","random":"RANDOM"}),
"algorithm":(E_+"Algorithm",{"B-BB":"B_BB","B-OA":"B_OA","B-QG":"B_QG","B-Hyb":"B_Hyb","B-Ecp":"B_Ecp","B-iFP":"B_IFP"}),
"lp_strong_warmstart_method":(E_+"LpBranchingSolver::WarmStartMethod",{"Basis":"Basis","Clone":"Clone"}),
"feas_check_cut_types":(E_+"OaFeasibilityChecker::CutsTypes",{"outer-approx":"OA","Benders":"Benders"}),
"feas_check_discard_policy":(E_+"OaFeasibilityChecker::CutsPolicies",{"detect-cycles":"DetectCycles","keep-all":"KeepAll","treated-as-normal":"TreatAsNormal"}),
"nlp_solver":(E_+"Solver",{"Ipopt":"EIpopt","filterSQP":"EFilterSQP","all":"EAll"}),
"warm_start":(E_+"OsiTMINLPInterface::WarmStartModes",{"none":"None","fake_basis":"FakeBasis","optimum":"Optimum","interior_point":"InteriorPoint"}),
"random_point_type":(E_+"OsiTMINLPInterface::RandomGenerationType",{"Jon":"uniform","Andreas":"perturb","Claudia":"perturb_suffix"}),
"disjunctive_cut_type":(E_+"DisjunctiveCutType",{"none":"DC_None","most-fractional":"DC_MostFractional"}),
"cut_strengthening_type":(E_+"CutStrengtheningType",{"none":"CS_None","sglobal":"CS_StrengthenedGlobal","uglobal-slocal":"CS_UnstrengthenedGlobal_StrengthenedLocal","sglobal-slocal":"CS_StrengthenedGlobal_StrengthenedLocal"}),
"milp_strategy":(E_+"SubMipSolver::MILP_solve_strategy",{"find_good_sol":"FindGoodSolution","solve_to_optimality":"GetOptimum"}),
"nlp_failure_behavior":(None,{"stop":0,"fathom":1}),
"sos_constraints":(None,{"enable":0,"disable":1}),
"oa_cuts_scope":(None,{"local":0,"global":1}),
"milp_solver":(None,{"Cbc_D":0,"Cbc_Par":1,"Cplex":2}),
"candidate_sort_criterion":(None,{"best-ps-cost":0,"worst-ps-cost":1,"most-fractional":2,"least-fractional":3}),
}
ext=sorted({u[0] for u in s.uses if u[0] not in reg})
read={u[0] for u in s.uses if u[1]=="get"}
import os
ov=sorted({(k[0],os.path.basename(g[0][1]["file"])) for k,g in s.sets.items() if not all(x for x,f in g)})
json.dump({"override":ov,"external":ext,"unread":sorted(set(reg)-read),"values":{k:{"enum":e,"map":m} for k,(e,m) in V.items()},
 "targets":{k:{d:t[2] for d,t in sorted(v.items()) if "operator<<" not in d} for k,v in sorted(s.targets.items())}},open('/verif/engine/config/c03.json','w'),indent=1,sort_keys=True)
print(ext, sorted(set(reg)-read))
