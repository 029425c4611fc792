#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the long lines stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

I = "inputs"; PR = "programs"; H = "histories"; CF = "configurations"; FS = "fault_sequences"; SC = "schedules"
E = "src/ecos.c"; K = "src/kkt.c"; CO = "src/cone.c"; EQ = "src/equil.c"; PP = "src/preproc.c"; SP = "src/spla.c"; SM = "src/splamm.c"
EX = "src/expcone.c"; BB = "ecos_bb/ecos_bb.c"; BP = "ecos_bb/ecos_bb_preproc.c"

# ---- solve life cycle -------------------------------------------------------------------------
prop("C01", "A solve returns only a documented exit code",
 "Whatever the problem data and however the solve ends, the value returned by the conic solve is one of the documented exit codes (optimal, primal or dual infeasible, their reduced-accuracy variants, maximum iterations, numerical problems, outside cone, interrupted, fatal). The internal 'not converged yet' marker never reaches the caller, and a failed factorisation during the set-up of the first iterate or of the search directions is reported as fatal.",
 [I, FS], "all problems, all settings, all failure points of the linear algebra",
 "The 38 tests reach optimal and infeasible exits only; the marker could leak on an exit no test takes.",
 [E, "include/ecos.h"], [("exit code decision", "ECOS_solve, checkExitConditions, init")])
prop("C02", "A verdict is only reported when its own termination test holds",
 "Optimal is reported only if dual feasibility, primal feasibility and (absolute or relative) gap are all within the tolerances and one of the two objective values has the sign of a decided problem (c'x positive or the dual value below the gap tolerance); infeasible and unbounded only if the corresponding certificate test (sign of the objective term, residual and kappa/tau ratio) holds or, for primal infeasible at full precision, tau and kappa have both collapsed while the certificate residual is small, always with the tolerances of the precision named by the code. The infeasibility flags in the statistics agree with the verdict, and a reduced-accuracy code is only issued after testing the reduced tolerances on the iterate that is handed back.",
 [I], "all iterates and tolerance settings",
 "Tests compare a final code on a few problems; a dropped conjunct, swapped tolerance or stale flag is invisible on problems that converge well.",
 [E], [("termination tests", "checkExitConditions"), ("callers that choose the precision", "ECOS_solve")],
 [("info", "statistics the tests read; pinf/dinf flags they set")])
prop("C03", "Best-iterate bookkeeping is complete and never uses a stale iterate",
 "When the solver falls back to the best iterate found so far, every part of the iterate and every statistic derived from it (except the iteration counter) is put back exactly as it was when that iterate was recorded. The record is taken from the current iterate, component by component, only when it is the first or the better of the two by the solver's merit comparison, and it is never used before it was filled in the same solve.",
 [I, H], "all problems that hit numerical trouble, all repeated solves on one workspace",
 "Falling back happens only on ill-conditioned problems; a component missing from the save or restore list is invisible otherwise.",
 [E], [("save", "saveIterateAsBest"), ("restore", "restoreBestIterate"), ("merit comparison", "compareStatistics")],
 [("best_x..best_info", "recorded iterate")])
prop("C04", "Reported statistics follow their definitions",
 "Primal and dual cost, gap, relative gap, primal and dual residual and both infeasibility measures are the documented functions of the current iterate, the equilibrated data and the initial norms; relative quantities exist exactly when their denominators allow it and the iterate count, step and duality measure are those of the current iterate. They are recomputed from the current iterate before they are tested, printed or compared.",
 [I], "all problem data and iterates", 
 "Tests check cost or x within 1e-4 or so on converged problems where most residual terms vanish.",
 [E], [("residuals", "computeResiduals"), ("statistics", "updateStatistics"), ("call order", "ECOS_solve")])
prop("C05", "Every way out of a solve restores problem data, scaling and signal handling",
 "On every exit of the solve, including fatal and outside-cone ones, the interrupt handler installed at entry is removed, the cost vector is given back un-equilibrated, and an iterate that was computed is un-scaled and un-homogenised exactly once. Each component is divided by its own equilibration factor and by tau in the right direction.",
 [I, FS], "all exits of the solve", 
 "Only successful and infeasible exits are tested; the failure exits never run in the tests.",
 [E, EQ, "src/ctrlc.c"], [("back scaling", "backscale"), ("exits", "ECOS_solve"), ("handler", "init_ctrlc / remove_ctrlc")])
prop("C06", "One step length moves all parts of the iterate together",
 "In every iteration x, y, z, s, kappa and tau are all advanced with the same step length along the combined direction computed in that iteration, over their full dimensions, and the step used is the damped line-search value recorded in the statistics. The affine direction only influences the centering parameter and the combined right-hand side.",
 [I], "all iterations of all problems", 
 "Convergence tests tolerate a mis-stepped component because later iterations repair it.",
 [E], [("step update", "ECOS_solve main loop")])
prop("C07", "Search directions, centering and homogeneous components follow the algorithm",
 "tau and kappa directions, the affine and combined direction of the slacks, the scaled slack steps, the centering parameter and its clamps, and the recovery of the directions from the two linear solves are the formulas of the homogeneous self-dual predictor-corrector method. In particular the combined step adds the second-order correction and the centering term to the complementarity right-hand side.",
 [I], "all iterates", 
 "A wrong corrector term still converges on the small test problems, only slower or less accurately.",
 [E], [("predictor-corrector", "ECOS_solve"), ("kappa complementarity", "ECOS_solve (bkap, dtau, dkap)")])
prop("C08", "The KKT right-hand sides have the right content in the right rows",
 "The right-hand sides for initialisation, affine step and combined step contain the prescribed residual combination in each block, scaled by (1 - sigma) where prescribed, and exact zeros in the expansion rows of every second-order cone, for any number and mix of cones. Every row of the permuted right-hand side is written exactly once.",
 [I, CF], "all problem dimensions and cone mixes", 
 "Tests use few cone mixes; an off-by-one after the last cone of a kind shows only for particular mixes.",
 [E], [("affine RHS", "RHS_affine"), ("combined RHS", "RHS_combined"), ("initial RHS", "init")])
prop("C09", "All walkers of the stretched KKT layout agree",
 "Every place that walks the stretched system - assembling it, filling its right-hand side, computing the residual of its solution, extracting the directions from a solution - uses one layout: variables, equalities, linear cone rows, each second-order cone followed by its two expansion rows, then three rows per exponential cone. Direction extraction puts each entry of the permuted solution into the variable, equality or cone slot that corresponds to it and skips the expansion rows.",
 [I, CF], "all dimensions and cone mixes", 
 "Only a handful of cone mixes are tested and the direct solve is robust to some layout slips in refinement.",
 [E, K, CO, PP], [("extraction", "unstretch"), ("refinement residual", "kkt_solve"), ("assembly", "createKKT_U")])
prop("C10", "The KKT matrix is sized for exactly the entries it is given",
 "The number of nonzeros, rows and columns reserved for the stretched KKT matrix equals what the assembly writes for any dimensions and cones, column pointers delimit exactly the entries of their column, and entries are kept in the upper triangle with row indices inside the matrix. The sign pattern given to the dynamic regularisation is +1 for the variables and -1 for the equality and cone blocks with the expansion rows signed as the factorisation expects.",
 [I, CF], "all dimensions, sparsity patterns and cone mixes", 
 "An undersized allocation is a silent heap overflow on the mixes no test has.",
 [PP], [("assembly", "createKKT_U")])
prop("C11", "KKT scaling entries hold the current scaling after every update",
 "Initialising or updating the KKT matrix writes, through the recorded cone-to-matrix map and permutation, exactly the entries of the (negative) squared scaling for every linear, second-order and exponential cone, including static regularisation, and no other entry. The values are those of the current scaling point.",
 [I, CF], "all cone mixes and scaling points", 
 "A wrong regularisation sign or one missed entry slows convergence but still passes the tests.",
 [K], [("update", "kkt_update"), ("initialise", "kkt_init")])
prop("C12", "Sparse and dense kernels compute what they claim",
 "Sparse matrix-vector and transposed products (overwriting, accumulating and negated, with or without the diagonal), vector updates, norms, dot products, permutation inversion, sparse transposition, symmetric permutation, and copying are exact for every dimension and sparsity pattern, including empty vectors, empty columns and matrices without entries. They touch only their output.",
 [I], "all sizes and sparsity patterns", 
 "They are only exercised through solves of small problems, where empty columns and matrices are rare.",
 [SP, SM], [("kernels", "sparseMV, sparseMtVm, vadd, vsubscale, norm2, norminf, eddot, pinv, transposeSparseMatrix, permuteSparseSymmetricMatrix")])
prop("C13", "Symmetric cone algebra is correct for every cone",
 "Conic product and division, scaling, un-scaling and squared scaling, the Nesterov-Todd scaling update, the starting points and the shift into the cone are the mathematical operations on the product of the linear and second-order cones, for each cone of each dimension. A point outside the cone is reported as such and never silently scaled.",
 [I, CF], "all iterates and cone mixes", 
 "Errors in one component of one operation only degrade convergence on the tested problems.",
 [CO], [("cone algebra", "scale, unscale, scale2add, conicProduct, conicDivision, bring2cone, updateScalings, unitInitialization")])
prop("C14", "Exponential cone quantities follow the cone's definition",
 "Gradient, scaled Hessian, barrier values, primal and dual membership tests and the Hessian product for exponential cones are those of the exponential cone and its dual for every cone of the problem, and each cone reads its own three entries. Membership is rejected whenever any of its defining inequalities fails.",
 [I], "all points, all numbers of exponential cones", 
 "Few exponential cone tests exist and mostly with a single cone pattern.",
 [EX, "src/wright_omega.c"], [("exponential cone", "evalExpHessian, evalExpGradient, evalBarrierValue, evalExpPrimalFeas, evalExpDualFeas, scaleToAddExpcone")])
prop("C15", "The accepted step keeps the iterate inside the cones and within limits",
 "The step length offered by the line search takes the minimum over every linear entry, every second-order cone and the tau and kappa directions, is clamped to the documented minimum and maximum, and for problems with exponential cones is only accepted if primal and dual membership and centrality hold at the trial point, tested on all cones. Backtracking is bounded and a failed search is reported as such.",
 [I], "all directions, all cone mixes", 
 "A cone left out of the minimum goes unnoticed whenever another cone is more restrictive.",
 [E], [("line search", "lineSearch, expConeLineSearch")])
prop("C16", "Factorisation and triangular solves handle every column and every bad pivot",
 "The triangular and diagonal solves process every row of the factor in the right order, and the factorisation replaces a pivot whose sign disagrees with the prescribed one or is too small by the prescribed signed regularisation, so that no division by a vanishing pivot occurs, and reports success only when all columns were factored. A linear solve chains permuted forward, diagonal and backward substitution, keeps the best refinement result and never returns an uncorrected worse one.",
 [I, FS], "all matrices and pivots", 
 "Bad pivots do not arise in the well-conditioned test problems.",
 ["external/ldl/src/ldl.c", K], [("LDL", "LDL_lsolve2, LDL_dsolve, LDL_ltsolve, LDL_numeric2"), ("refinement", "kkt_solve, kkt_factor")])
prop("C17", "The ordering is computed on a checked pattern with enough workspace",
 "Before ordering, the pattern is checked: negative sizes, descending or non-zero-based column pointers and row indices out of range are reported as invalid, unsorted or duplicate entries lead to ordering a sorted, duplicate-free copy. The ordering forms the pattern of A+A' without diagonal exactly once per entry, in a workspace of its size plus elbow room and seven vectors, follows the approximate minimum degree method with the requested dense-row and aggressive-absorption controls, postorders the assembly tree, and returns, with the status and statistics reported, a permutation of all rows. The input pattern is never written, and whatever the outcome, running out of memory included, all workspace is given back.",
 [I, FS], "all sparsity patterns and controls, every allocation failure",
 "The patterns of a few dozen test problems exercise neither jumbled or invalid input, dense rows, garbage collection nor failures.",
 ["external/amd/src"], [("ordering", "AMD_order, AMD_valid, AMD_preprocess, AMD_aat, AMD_1, AMD_2, AMD_postorder, AMD_post_tree, AMD_defaults")])
# ---- data ownership, equilibration ---------------------------------------------------------------
prop("C20", "Equilibration is undone exactly",
 "Scaling the problem data and removing the scaling are inverse operations: after setup followed by clean-up, or around a data update, the constraint matrices, right-hand sides and cost the user handed in are restored up to rounding, whatever the cones and sparsity. Every entry is scaled by its row and column factor once and divided by the same factors on removal, and the factors are strictly positive.",
 [I, H, CF], "all data, all sequences of setup, solve, update, clean-up", 
 "Tests rarely look at the data after a solve, and never at all matrices.",
 [EQ, PP, E], [("equilibrate / restore", "use_ruiz_equilibration, set_equilibration, unset_equilibration, restore")],
 [("xequil, Aequil, Gequil", "column and row factors")])
prop("C21", "Rows of one cone share one scaling factor",
 "All rows belonging to one second-order cone and all rows belonging to one exponential cone receive a common equilibration factor, so that scaling preserves cone membership. Linear rows and equality rows are scaled individually.",
 [I, CF], "all cone mixes", 
 "Breaking it changes the feasible set only slightly when row norms happen to be similar, as in the tests.",
 [EQ], [("row factor averaging", "use_ruiz_equilibration")])
prop("C22", "Replacing problem data leaves a workspace consistent with the new data",
 "After new constraint data, right-hand sides and cost are handed to an existing workspace, the matrices, vectors, equilibration and KKT matrix all reflect the new data and nothing of the old: old data is un-scaled first when it is reused in place, the new data is equilibrated, and every constraint-matrix entry of the KKT matrix is refreshed through the recorded maps. Works with and without equality constraints.",
 [H, I], "all update sequences and problem shapes", 
 "One test updates data, for one problem with both kinds of constraints.",
 [E, PP], [("data update", "ECOS_updateData"), ("entry maps", "AtoK, GtoK, PK")])
prop("C23", "Single-entry updates respect scaling and the caller's units",
 "Changing one inequality right-hand side or one cost entry of a set-up problem stores the value in the solver's internal units: the right-hand side is divided by the row factor in force, the cost is stored as given because it is only scaled during a solve. The integer front end addresses the user's entry, past the rows it added itself.",
 [H, I], "all indices and values", 
 "Only exercised by branch and bound with unit factors.",
 [E, BB], [("entry updates", "ecos_updateDataEntry_h, ecos_updateDataEntry_c, updateDataEntry_h, updateDataEntry_c")])
# ---- memory -------------------------------------------------------------------------------------
prop("C30", "Everything the library allocates is released exactly once",
 "Every block allocated by setup is owned by the workspace and released exactly once by clean-up, and every temporary block is released on every path of the function that took it, including the early failure returns of setup. Nothing is used after it was released.",
 [I, FS], "all problem shapes, all failure exits", 
 "Tests are not run under a leak checker and do not take the failure exits.",
 [PP, SM, E, BB, BP, "src/splamm.c"], [("ownership", "ECOS_setup, createKKT_U, ECOS_updateData, ECOS_cleanup, ECOS_BB_setup, ECOS_BB_cleanup, freeSparseMatrix")])
prop("C31", "Solving allocates nothing",
 "A conic solve neither allocates nor releases heap memory: all work space is obtained at setup, so a workspace can be solved repeatedly in an embedded setting without heap use. Neither do the single-entry data updates.",
 [I, H], "all solves", "A small allocation per iteration passes every functional test.",
 [E, K, CO, EX, SP], [("call graph of the solve", "ECOS_solve and callees")])
prop("C32", "User arrays are borrowed: never freed, and index data never written",
 "Arrays handed in by the user stay owned by the user; the library frees only what it allocated and, apart from the announced in-place equilibration of values, never writes to user arrays - index arrays, cone sizes and index lists are never modified. Cone sizes are copied, so the caller may reuse the array after setup.",
 [PR, I], "all callers", "Tests do not inspect their input arrays after the call.",
 [PP, BP, E, EQ], [("effects on parameters", "ECOS_setup, ECOS_BB_setup, ECOS_updateData, ECOS_cleanup")])
prop("C33", "Work buffers are as long as the ranges written into them",
 "Every buffer allocated by setup has at least as many elements as the largest index range that any part of the solver writes or reads through it, expressed in the problem dimensions. This covers iterate, direction, residual, scaling, KKT and equilibration buffers.",
 [I, CF], "all dimensions and cone mixes", "Heap slack hides short buffers in ordinary test runs.",
 [PP, E, K, CO], [("allocation extents", "ECOS_setup, createKKT_U, ECOS_BB_setup")])
prop("C34", "Inconsistent cone sizes are rejected at setup before user data is touched",
 "Setup refuses - with a null result - cone sizes whose total (linear, second-order and exponential cones) does not match the number of inequality rows, and does so before any user-supplied data is modified or any cone buffer is written. A rejected setup leaves nothing behind.",
 [I], "all argument combinations", "Tests only pass consistent dimensions.",
 [PP], [("validation", "ECOS_setup")])
prop("C35", "Documented default settings",
 "A freshly set-up workspace carries the documented default tolerances, iteration limits and step parameters, and a branch-and-bound workspace the documented integer defaults, unless the caller supplies his own. The solver uses the values in the workspace rather than built-in copies.",
 [CF, I], "all workspaces", "Tests pass with any sufficiently tight tolerance.",
 [PP, BP, "include/ecos.h", "ecos_bb/ecos_bb.h"], [("defaults", "ECOS_setup, get_default_ECOS_BB_settings")])
prop("C36", "A set-up workspace has no uninitialised or mis-sized field",
 "After a successful setup every workspace, cone, KKT and settings field that later code reads before writing has been given its value: dimensions, cone offsets and sizes, permutation and sign vectors, matrix headers and the maps from user data to KKT entries. Matrices absent from the problem are represented as absent.",
 [I, CF], "all problem shapes", "Uninitialised reads often return zero pages in tests.",
 [PP, SM], [("field initialisation", "ECOS_setup, createKKT_U")])
prop("C37", "Absent constraint blocks are handled everywhere",
 "When a problem has no equality constraints, every access to the equality matrix, its vectors and maps is skipped; the same holds for absent inequality data. No such access can reach a null pointer in setup, solve, update or clean-up.",
 [I, CF], "all problem shapes with absent parts, all API calls", "Only some API calls are tested without equality constraints.",
 [E, PP, EQ, K], [("null guards", "ECOS_setup, ECOS_solve, ECOS_updateData, ECOS_cleanup, equilibration")])
# ---- environment ----------------------------------------------------------------------------------
prop("C40", "A quiet solve prints nothing",
 "With the verbosity setting off, no code path of setup-independent API calls - solve, data updates, clean-up, branch and bound - writes to standard output or error. Every print is conditional on the verbosity of the workspace it reports on.",
 [I, CF], "all paths with verbose off", "Tests do not capture output.",
 [E, BB, K], [("print guards", "ECOS_solve and callees, ECOS_BB_solve and callees")])
prop("C41", "The library is free of process-wide side effects",
 "No library path terminates the process, opens files, or keeps mutable global state, apart from the interrupt-handling module and the C library's random generator, which the random and strong-branching strategies use to order candidates; two workspaces are therefore independent. Global tables are constants.",
 [PR, SC], "all programs using several workspaces", "Single-workspace tests cannot notice shared state.",
 ["src", "ecos_bb", "external"], [("globals and externals", "all library units")])
prop("C42", "Interrupt handling is async-signal-safe and honoured promptly",
 "The signal handler only sets a flag; the flag is cleared when handling is installed, the previous disposition is saved and restored on removal. The solve polls the flag in every iteration and an interrupted solve stops with the interrupted code, never continuing to the next iteration.",
 [SC, I], "all arrival times of the signal", "No test raises a signal.",
 ["src/ctrlc.c", E], [("handler", "init_ctrlc, remove_ctrlc, check_ctrlc"), ("poll", "ECOS_solve")])
prop("C43", "Every loop of the solver is bounded",
 "The main iteration ends at the latest after the configured number of iterations, refinement after the configured number of refinement steps, backtracking after a constant number of reductions, and all data loops are counted loops over problem dimensions (the random choice of a branching variable, which draws until it hits a fractional one, is exempt). No loop can spin for ever on not-a-number data.",
 [I], "all data including NaN", "Tests use data on which the loops end anyway.",
 [E, K, EX, "src/wright_omega.c", BB, CO], [("loop bounds", "all loops of the library")])
prop("C44", "Failures inside the solver are never ignored",
 "Failure results of factorisation, scaling update, membership tests, setup of sub-structures and ordering are examined by their caller and lead to a failure exit or a documented recovery; no result that signals failure is dropped. An error during setup makes setup fail.",
 [FS, I], "all failure points", "Failures do not occur in the tests.",
 [E, K, PP, BP], [("checked results", "call sites of kkt_factor, kkt_solve, updateScalings, LDL_numeric2, AMD_order, init, lineSearch")])
prop("C45", "Timing is reported from a monotonic clock with the right units",
 "Elapsed times come from a monotonic clock, borrow correctly across the second boundary and are in seconds; setup, solve and total are each reported from their own interval. Starting a timer does not disturb another one.",
 [SC], "all start and stop instants", "Tests never check times, and the borrow happens on few runs.",
 ["src/timer.c", E], [("timer", "tic, toc")])
# ---- mixed integer --------------------------------------------------------------------------------
prop("C50", "Branch and bound keeps the best integer point it has found",
 "The incumbent is replaced exactly when a strictly better integer-feasible value is found, complete with x, y, z, s, tau, kappa and statistics, and the bound on the optimum is set to that value in the same step. What the caller gets at the end is the incumbent, and nothing is copied when none was ever stored.",
 [I, H], "all search trees", "Small test trees find the optimum late, where keep-last and keep-best agree.",
 [BB], [("incumbent", "get_bounds, store_solution, load_solution")])
prop("C51", "Branch and bound stops and prunes only with proof",
 "A node is discarded only if its bound is not better than the incumbent by more than the optimality tolerances or its relaxation is infeasible, and that bound is the value of a converged relaxation; the search stops only when the global gap is within tolerance, no open node is left, or the iteration limit is reached. The global lower bound is never above the bound of any open node and the node explored next is an open one.",
 [I], "all search trees", "Wrong pruning needs a particular order of bounds to lose the optimum.",
 [BB], [("tree control", "get_next_node, get_global_L, should_continue, ECOS_BB_solve")])
prop("C52", "Branching covers every integer point",
 "The two children of a node inherit all its restrictions and differ only in the branching variable, one bounding it by the floor and the other by the ceiling of its relaxed value, or fixing a boolean to 0 and to 1, so that together they contain every integer point of the parent. A child's bound starts from its parent's and both are open.",
 [I], "all nodes", "A child losing a restriction only costs time or a wrong answer on larger trees.",
 [BB], [("branching", "branch")])
prop("C53", "A node's restrictions are what its relaxation solves",
 "Before a relaxation is solved, the bound rows of every boolean and every integer variable are set from that node: fixed booleans to their value, free ones to [0,1], integers to their current interval, each in the row that bounds that variable. This holds for any order and mix of boolean and integer indices.",
 [I, CF], "all index lists", "Tests list indices in increasing order, booleans only or integers only.",
 [BB, BP], [("bound rows", "set_prob, socp_to_ecos_bb")])
prop("C54", "Branch and bound reports what the search established",
 "The integer result code distinguishes optimal, infeasible, unbounded, iteration limit with and without a feasible point, and those statements agree with whether an incumbent exists and whether the gap closed. The statistics report the incumbent's.",
 [I], "all terminations", "Tests see optimal and infeasible only.",
 [BB], [("result code", "get_ret_code, ECOS_BB_solve")])
prop("C55", "The extended problem is the original plus the bound rows",
 "The inequality data solved by branch and bound is the user's, unchanged and in order behind the added bound rows: each integer or boolean variable gets exactly one upper and one lower row with coefficients +1 and -1, placed first, all other entries shifted by the number of added rows. Column pointers, values and right-hand side stay consistent and the linear-cone size grows by the same count.",
 [I, CF], "all sparsity patterns and index lists", "Few patterns are tested.",
 [BP], [("augmentation", "socp_to_ecos_bb, ECOS_BB_setup")])
prop("C56", "The search tree never outgrows its storage",
 "For every iteration limit of at least one, node records and per-node restriction tables are allocated for the maximum number of nodes that the limit allows, and a node index is used only below that count. Per-node tables are addressed with the strides they were allocated with.",
 [I, CF], "all iteration limits of at least one, all tree shapes", "Test trees are far smaller than the limit.",
 [BB, BP], [("node storage", "ECOS_BB_setup, branch, get_bool_node_id, get_int_node_id")])
prop("C57", "Trial branchings leave no trace",
 "Strong-branching and reliability trials work on temporary restriction tables copied from the node, undo their temporary change before the next trial, and do not alter the node, the incumbent or the branching decision other than through their scores, except that a bound may be tightened on the node when the trial showed the excluded side infeasible or worse than the incumbent. The variable finally branched on is fractional and its value is the one of the node's relaxation.",
 [I, CF], "all branching rules", "Default rule hides the others in most tests.",
 [BB], [("trial branching", "strong_branch_bool_var, strong_branch_int_var, get_branch_var_*")])
# ---- declined -------------------------------------------------------------------------------------
prop("C90", "Solutions are accurate to the tolerances on every solvable problem",
 "For every solvable, reasonably conditioned problem, the solver converges to a solution within the tolerances in fewer than the maximum number of iterations.",
 [I], "all solvable problems", "Tests sample a few dozen problems.", [E], [("interior point method", "ECOS_solve")])
prop("C91", "Infeasibility certificates are numerically valid",
 "When infeasibility is reported, the returned certificate is a valid one for the user's original data up to the tolerances.",
 [I], "all infeasible problems", "Two infeasible tests.", [E], [("certificates", "checkExitConditions, backscale")])
prop("C92", "Branch and bound finds the global integer optimum",
 "On every bounded mixed-integer problem whose search ends normally, the reported optimum is the global one up to the gap tolerances.",
 [I], "all integer problems", "A dozen integer tests.", [BB], [("search", "ECOS_BB_solve")])
prop("C93", "The ordering keeps factorisation fill-in low",
 "The fill-reducing ordering is a permutation that keeps the factor close to minimum-degree quality on every sparsity pattern.",
 [I], "all patterns", "No test measures fill-in.", ["external/amd"], [("ordering", "AMD_order")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
