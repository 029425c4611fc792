"""Which obligations decide which property."""
from tasks import Pair, Rule

WO = {"wrightOmega": "pure"}
PAIRS = {}
def pair(fn, spec, **kw):
    kw.setdefault("boundary", WO)
    PAIRS[fn] = Pair(fn, spec, **kw)
for f in "socres bring2cone unitInitialization scale scale2add unscale conicProduct conicDivision evalSymmetricBarrierValue getSOCDetails unstretch".split(): pair(f, "cone")
for f in "evalExpHessian evalExpGradient evalBarrierValue scaleToAddExpcone evalExpPrimalFeas evalExpDualFeas".split(): pair(f, "expcone")
for f in "vadd vsubscale norm2 norminf eddot sparseMV sparseMtVm spla_cumsum pinv".split(): pair(f, "kernels")
for f in "compareStatistics saveIterateAsBest restoreBestIterate checkExitConditions computeResiduals updateStatistics RHS_affine RHS_combined backscale ecos_updateDataEntry_h ecos_updateDataEntry_c tic toc".split(): pair(f, "ecos")

LDLB = {"ldl_l_numeric2": ["a%d[]" % i for i in range(9, 16)], "ldl_l_lsolve2": ["a5[]"], "ldl_l_dsolve": ["a1[]"], "ldl_l_ltsolve": ["a1[]"]}
pair("kkt_update", "kkt", inj=("a1[]",)); pair("kkt_init", "kkt", inj=("a1[]",)); pair("kkt_factor", "kkt", boundary=LDLB); pair("kkt_solve", "kkt", boundary=LDLB, cost=50, lower={"a7": 0, "a8": 0, "a9": 0})
pair("updateScalings", "cone", cost=30)
EFF = {k: "eff" for k in "init computeResiduals updateStatistics checkExitConditions compareStatistics updateScalings kkt_update kkt_factor kkt_init kkt_solve RHS_affine RHS_combined lineSearch expConeLineSearch scale scaleToAddExpcone tic toc bring2cone init_ctrlc remove_ctrlc check_ctrlc".split()}
pair("ECOS_solve", "ecos", boundary=EFF, cost=100)
pair("init", "ecos", boundary=EFF, cost=40)
pair("ECOS_updateData", "ecos")
pair("lineSearch", "ecos"); pair("expConeLineSearch", "ecos")
# branch and bound: helpers without effects are compared on their own and named in their callers
BBP = {k: "pure" for k in "get_score is_infeasible".split()}
BBE = {k: "eff" for k in "set_prob store_solution load_solution branch get_bounds initialize_root get_next_node initialize_strong_branching calc_tmp_branching_problem check_infeasible_bool_var check_infeasible_int_var strong_branch_bool_var strong_branch_int_var set_pseudocost_psi get_branch_var_most_infeasible get_branch_var_random get_branch_var_strong_branching get_branch_var_pseudocost_branching get_branch_var_reliability_branching is_reliable should_continue get_global_L get_ret_code avg_pseudocost ECOS_solve".split()}
BBE["rand"] = []
for f in "abs_2 pfloat_round pfloat_ceil pfloat_floor float_eqls get_bool_node_id get_int_node_id get_score is_infeasible get_global_L set_prob store_solution load_solution should_continue get_ret_code initialize_root updateDataEntry_h updateDataEntry_c contains position get_default_ECOS_BB_settings get_next_node".split(): pair(f, "bb", boundary={})
for f in "branch get_shuffled_array initialize_strong_branching calc_tmp_branching_problem check_infeasible_bool_var check_infeasible_int_var strong_branch_bool_var strong_branch_int_var avg_pseudocost set_pseudocost_psi is_reliable get_branch_var_most_infeasible get_branch_var_random get_branch_var_strong_branching get_branch_var_pseudocost_branching get_branch_var_reliability_branching get_bounds ECOS_BB_solve".split(): pair(f, "bb", boundary={**BBP, **BBE})
pair("socp_to_ecos_bb", "bb", boundary={"contains": "pure", "position": "pure"})
pair("ECOS_BB_setup", "bb", boundary={k: "eff" for k in ("socp_to_ecos_bb", "ECOS_setup", "get_default_ECOS_BB_settings")})
pair("ECOS_BB_cleanup", "bb", boundary={"ECOS_cleanup": "eff"})
EQB = {k: "eff" for k in "max_rows max_cols equilibrate_rows equilibrate_cols restore use_ruiz_equilibration".split()}
for f in "max_rows max_cols sum_sq_rows sum_sq_cols equilibrate_rows equilibrate_cols restore".split(): pair(f, "equil", boundary={})
for f in "set_equilibration unset_equilibration".split(): pair(f, "equil", boundary=EQB)
pair("use_ruiz_equilibration", "equil", boundary=EQB, cost=30)
for f in "ecoscreateSparseMatrix newSparseMatrix freeSparseMatrix copySparseMatrix".split(): pair(f, "spla", boundary={})
for f in "transposeSparseMatrix permuteSparseSymmetricMatrix".split(): pair(f, "spla", boundary={"spla_cumsum": "eff"})
SET = {k: "eff" for k in "set_equilibration unset_equilibration transposeSparseMatrix createKKT_U newSparseMatrix freeSparseMatrix ecoscreateSparseMatrix amd_l_defaults amd_l_order pinv permuteSparseSymmetricMatrix ldl_l_symbolic2 ECOS_cleanup tic toc".split()}
pair("createKKT_U", "preproc", boundary=SET, cost=20); pair("ECOS_cleanup", "preproc", boundary=SET); pair("ECOS_setup", "preproc", boundary=SET, cost=60)
for f in "ldl_l_lsolve2 ldl_l_dsolve ldl_l_ltsolve ldl_l_symbolic2 ldl_l_numeric2 wrightOmega".split(): pair(f, "ldl", boundary={})
# the vendored ordering
AMDB = {k: "eff" for k in "amd_l_valid amd_l_preprocess amd_l_aat amd_l1 amd_l2 amd_l_post_tree amd_l_postorder".split()}
for f in "amd_l_defaults amd_l_valid amd_l_preprocess amd_l_aat amd_l1 amd_l_post_tree amd_l_postorder amd_l_order".split(): pair(f, "amd", boundary={k: v for k, v in AMDB.items() if k != f})
pair("amd_l2", "amd2", boundary={"amd_l_postorder": "eff"})
# a node is branched on after its sibling got a new number
PAIRS["branch"].assume = lambda m: m.cell("sym:a0", ()) != m.cell("a1[].iter", (0,))
# property -> [(obligation, path filter or None)]
def P(*names): return [(PAIRS[n], None) for n in names]
def F(rx, *names): return [(PAIRS[n], rx) for n in names]
PROPS = {
 "C01": F(r"return|continue|next v|reached|call \w+$", "ECOS_solve", "init") + P("checkExitConditions"),
 "C02": P("checkExitConditions") + F(r"return|checkExit|continue|reached|call \w+$|inf$|restore", "ECOS_solve"),
 "C03": P("compareStatistics", "saveIterateAsBest", "restoreBestIterate") + F(r"best_|compareStat|continue|ECOS_solve: w|restoreBest|saveIter|checkExit\w+ \d+ reads", "ECOS_solve"),
 "C04": P("computeResiduals", "updateStatistics") + F(r"computeRes|updateStat|info|init:|: w", "ECOS_solve", "init"),
 "C05": P("backscale") + F(r"ECOS_solve: w|ctrlc|return|continue", "ECOS_solve"),
 "C06": F(r"next|continue|ECOS_solve: w", "ECOS_solve"),
 "C07": F(r"next|continue|call", "ECOS_solve") + P("RHS_affine", "RHS_combined", "lineSearch"),
 "C08": P("RHS_affine", "RHS_combined") + F(r"RHS|call", "init"),
 "C09": P("unstretch", "kkt_solve", "RHS_affine", "RHS_combined", "createKKT_U", "scale2add", "scaleToAddExpcone") + F(r"RHS", "init"),
 "C10": P("createKKT_U", "newSparseMatrix", "ecoscreateSparseMatrix", "transposeSparseMatrix", "permuteSparseSymmetricMatrix", "spla_cumsum", "pinv") + F(r"createKKT|PKPt|PK\*|Pinv|Sign|newSparse|permute|pinv|symbolic|ecoscreate|size|KKT", "ECOS_setup"),
 "C11": P("kkt_update", "kkt_init") + F(r"kkt_update|kkt_init", "ECOS_solve", "init", "ECOS_updateData") + F(r"idx|colstart", "createKKT_U"),
 "C12": P("vadd", "vsubscale", "norm2", "norminf", "eddot", "sparseMV", "sparseMtVm", "spla_cumsum", "pinv", "transposeSparseMatrix", "permuteSparseSymmetricMatrix", "copySparseMatrix", "newSparseMatrix", "ecoscreateSparseMatrix"),
 "C13": P("socres", "bring2cone", "unitInitialization", "scale", "scale2add", "unscale", "conicProduct", "conicDivision", "evalSymmetricBarrierValue", "getSOCDetails", "updateScalings"),
 "C14": P("evalExpHessian", "evalExpGradient", "evalBarrierValue", "scaleToAddExpcone", "evalExpPrimalFeas", "evalExpDualFeas", "wrightOmega") + F(r"expc|return", "updateScalings"),
 "C15": P("lineSearch", "expConeLineSearch", "evalSymmetricBarrierValue") + F(r"lineSearch|LineSearch|step|Back", "ECOS_solve"),
 "C16": P("kkt_factor", "kkt_solve", "ldl_l_lsolve2", "ldl_l_dsolve", "ldl_l_ltsolve", "ldl_l_symbolic2", "ldl_l_numeric2"),
 "C17": P("amd_l_defaults", "amd_l_valid", "amd_l_preprocess", "amd_l_aat", "amd_l1", "amd_l2", "amd_l_post_tree", "amd_l_postorder", "amd_l_order"),
 "C20": P("set_equilibration", "unset_equilibration", "restore", "equilibrate_rows", "equilibrate_cols", "use_ruiz_equilibration", "backscale") + F(r"equilibration", "ECOS_updateData", "ECOS_setup", "ECOS_cleanup") + F(r"\.c\*|\.b\*|\.h\*", "ECOS_solve"),
 "C21": P("use_ruiz_equilibration", "max_rows", "max_cols", "sum_sq_rows", "sum_sq_cols"),
 "C22": P("ECOS_updateData") + F(r"AtoK|GtoK", "ECOS_setup") + F(r"KttoK|ttoK", "createKKT_U"),
 "C23": P("ecos_updateDataEntry_h", "ecos_updateDataEntry_c", "updateDataEntry_h", "updateDataEntry_c") + F(r"\.c\*", "ECOS_solve"),
 "C30": P("ECOS_cleanup", "ECOS_BB_cleanup", "freeSparseMatrix") + F(r"releases|cleanup|freeSparse", "ECOS_setup", "ECOS_BB_setup", "transposeSparseMatrix", "permuteSparseSymmetricMatrix", "use_ruiz_equilibration", "get_branch_var_strong_branching", "get_branch_var_reliability_branching", "get_branch_var_pseudocost_branching", "get_shuffled_array", "amd_l_order"),
 "C33": F(r"size of|newSparse|ecoscreate", "ECOS_setup", "createKKT_U", "newSparseMatrix", "transposeSparseMatrix", "permuteSparseSymmetricMatrix", "use_ruiz_equilibration", "ECOS_BB_setup", "get_branch_var_strong_branching", "get_branch_var_reliability_branching", "get_shuffled_array", "amd_l_order") + F(r"a7\[\]|arg", "amd_l1"),
 "C34": F(r"return|reached|call \w+$|set_equil", "ECOS_setup", "ECOS_BB_setup"),
 "C32": F(r": a\d+\[\]( |$)|reads a\d+\[\]$", "ECOS_setup", "ECOS_BB_setup") + F(r"\.[cbh]\*\[\]|\.[AG]\*\[\]\.(pr|jc|ir)\*", "ECOS_cleanup", "ECOS_BB_cleanup", "ECOS_solve") + F(r"releases", "ECOS_cleanup", "ECOS_BB_cleanup") + F(r": a[12]\[\]", "amd_l_order", "amd_l_valid", "amd_l_preprocess", "amd_l_aat", "amd_l1"),
 "C35": F(r"stgs|\.(feastol|abstol|reltol|feastol_inacc|abstol_inacc|reltol_inacc|gamma|delta|eps|nitref|maxit|verbose|max_bk_iter|bk_scale|centrality)$", "ECOS_setup", "ECOS_BB_setup") + P("get_default_ECOS_BB_settings") + F(r"settings used", *sorted(n for n in PAIRS if PAIRS[n].spec in ("ecos", "bb"))) + F(r"numeric2 0 arg [78]$", "kkt_factor") + F(r"call kkt_\w+ \d+ arg", "ECOS_solve", "init"),
 "C36": P("ECOS_setup", "createKKT_U", "newSparseMatrix", "ecoscreateSparseMatrix", "transposeSparseMatrix") + P("ECOS_BB_setup"),
 "C37": F(r"\.A\b|AtoK|Apr|At|transpose|createSparse|freeSparse|reached|call \w+$|releases", "ECOS_setup", "ECOS_cleanup") + P("computeResiduals", "ECOS_updateData", "kkt_solve", "createKKT_U", "use_ruiz_equilibration"),
 "C42": F(r"ctrlc|return|continue|restore|ECOS_solve: w", "ECOS_solve"),
 "C43": F(r"continue|reached|call \w+$", "ECOS_solve", "kkt_solve", "expConeLineSearch"),
 "C44": F(r"return|continue|reached|call \w+$", "ECOS_solve", "init", "kkt_factor", "kkt_solve", "ECOS_setup", "ECOS_BB_setup", "updateScalings") + F(r"return|reached", "amd_l_order", "amd_l_valid"),
 "C45": P("tic", "toc") + F(r"tic|toc|tsolve|tkkt|tfactor|tsetup", "ECOS_solve", "ECOS_setup"),
 "C50": P("store_solution", "load_solution", "get_bounds", "initialize_root") + F(r"load_sol|reached|call \w+$|return", "ECOS_BB_solve"),
 "C51": P("get_next_node", "get_global_L", "should_continue", "is_infeasible", "get_bounds", "ECOS_BB_solve", "check_infeasible_bool_var", "check_infeasible_int_var"),
 "C52": P("branch", "pfloat_floor", "pfloat_ceil", "get_bool_node_id", "get_int_node_id", "initialize_root"),
 "C53": P("set_prob", "position", "get_bool_node_id", "get_int_node_id", "calc_tmp_branching_problem") + F(r"set_prob", "get_bounds") + F(r"a8|a7|a6|h_out|h_|ir|pr|Gir|Gpr|: ", "socp_to_ecos_bb"),
 "C54": P("get_ret_code", "should_continue", "ECOS_BB_solve", "store_solution", "load_solution"),
 "C55": P("socp_to_ecos_bb", "ECOS_BB_setup", "contains", "position"),
 "C56": F(r"size of|nodes|node_id", "ECOS_BB_setup") + P("get_bool_node_id", "get_int_node_id", "should_continue", "ECOS_BB_solve", "branch"),
 "C57": P("strong_branch_bool_var", "strong_branch_int_var", "calc_tmp_branching_problem", "initialize_strong_branching", "check_infeasible_bool_var", "check_infeasible_int_var", "set_pseudocost_psi", "avg_pseudocost", "is_reliable", "get_score",
           "get_branch_var_most_infeasible", "get_branch_var_random", "get_branch_var_strong_branching", "get_branch_var_pseudocost_branching", "get_branch_var_reliability_branching", "get_shuffled_array"),
}
DECLINED = {
 "C90": "convergence and accuracy on every problem quantify over run-time numerical values; no static argument bounds them",
 "C91": "validity of a certificate on the user's data is a numerical fact about run-time iterates",
 "C92": "global optimality depends on the numerical accuracy of every relaxation solved at run time",
 "C93": "fill-in quality compares orderings over all sparsity patterns; no static rule measures it",
}
ASSUMPTIONS = ["clang 18 IR at -O0 after mem2reg represents the source", "arithmetic is treated as exact (no rounding, no overflow)",
               "distinct workspace buffers do not overlap", "reference definitions in /verif/spec state the property"]
import rules
def R(*names): return [(rules.RULES[n], None) for n in names]
for _p, _r in {"C30": "nothing is used after release", "C31": "no heap use while solving", "C32": "user arrays are borrowed", "C40": "prints are guarded by the verbosity setting",
               "C41": "no process-wide effects", "C42": "interrupt handling", "C43": "loops are bounded", "C44": "results that signal failure are examined",
               "C50": "result codes that give an incumbent", "C51": "result codes that discard a node", "C54": "unbounded relaxations"}.items():
    PROPS[_p] = PROPS.get(_p, []) + R(_r)
PROPS["C05"] = PROPS["C05"] + [(rules.RULES["interrupt handling"], "disposition|order removed|order installed|removal exists")]; PROPS["C57"] = PROPS["C57"] + R("result codes of trial branchings"); PROPS["C51"] = PROPS["C51"] + R("result codes that give a bound")
# helpers that a property's statement leans on
for _p, _n in {"C50": "float_eqls pfloat_round", "C57": "float_eqls abs_2 pfloat_floor pfloat_ceil", "C51": "abs_2", "C54": "abs_2", "C15": "evalExpPrimalFeas evalExpDualFeas evalBarrierValue",
               "C20": "max_rows max_cols", "C22": "set_equilibration unset_equilibration restore", "C37": "set_equilibration unset_equilibration", "C09": "kkt_update kkt_init",
               "C53": "ecos_updateDataEntry_h", "C56": "get_next_node get_global_L", "C11": "getSOCDetails"}.items(): PROPS[_p] = PROPS[_p] + P(*_n.split())
PROPS["C01"] = PROPS["C01"] + F(r"return", "kkt_factor"); PROPS["C51"] = PROPS["C51"] + F(r"nodes", "branch"); PROPS["C57"] = PROPS["C57"] + F(r"pseudocost", "get_bounds")
for _p in ("C33", "C34", "C55"): PROPS[_p] = PROPS[_p] + R("sizes keep their width")
