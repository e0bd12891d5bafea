"""One table of the properties; `python3 vlib/table.py` writes properties.jsonl and MANIFEST.json from it."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=list(observe)))


TOL = "Trusts numpy/HiGHS and the naive reference in vlib/pomdp.py; floating-point tolerances are stated in the evidence. "

prop("P01", "Each exact value-iteration epoch is the exact dynamic-programming backup",
     "For every POMDP and every exact method (enum, twopass, witness, incprune) with any combination of its purging, "
     "domination-check, random-initialisation and incremental-pruning options, the vectors written for epoch n, taken as a "
     "function on the belief simplex, equal the one-step dynamic-programming backup of the vectors of epoch n-1 (the zero "
     "function before the first epoch). A finite-horizon run ends with the value function of exactly that horizon, or of an "
     "earlier epoch only when nothing changes any more. The final solution file holds the last epoch's value function.",
     ["inputs", "configurations"], "all valid models x exact methods x their options x horizons",
     "The only end-to-end test runs one two-state model with the default method and counts the vectors of the result.",
     ["src/pomdp-solve.c", "src/inc-prune.c", "src/witness.c", "src/two-pass.c", "src/enumeration.c", "src/cross-sum.c",
      "src/projection.c", "src/parsimonious.c", "src/region.c", "src/lp-interface.c", "src/alpha.c", "src/pomdp.c",
      "src/vertex-enum.c", "src/neighbor.c"],
     [("improveV, which builds the projections and dispatches to the method", "src/pomdp-solve.c"),
      ("crossSum", "src/cross-sum.c"), ("normalPrune", "src/parsimonious.c"), ("findRegionPoint", "src/region.c")],
     "property-based testing (Hypothesis) against a naive backup at all vertices of the output's region partition",
     TOL + "Small models (up to 5 states, 4 actions, 3 observations, 6 epochs).", ["PREFIX.alphaN with -save_all"])

prop("P02", "Exact solutions are parsimonious and ordered",
     "When an exact method's final purge is the default full pruning, the solution it writes in every epoch has no two equal "
     "vectors and no vector that is nowhere best: each vector attains the maximum at some belief, and not only in ties with "
     "vectors that make it superfluous everywhere. The vectors are written in lexicographic order.",
     ["inputs", "configurations"], "all valid models x exact methods x option combinations that end in full pruning",
     "The existing test only counts the vectors of one model; a redundant vector elsewhere is not noticed.",
     ["src/parsimonious.c", "src/region.c", "src/alpha.c", "src/pomdp-solve.c", "src/witness.c", "src/two-pass.c"],
     [("purgeAlphaList / prune", "src/parsimonious.c"), ("sortAlphaList", "src/alpha.c")],
     "property-based testing (Hypothesis) with a reference linear program per output vector",
     TOL + "Vectors that tie with the others within 1e-7 are accepted.", ["PREFIX.alphaN", "PREFIX.alpha"])

prop("P03", "A run that reports a solution has converged as its stopping rule promises",
     "For every POMDP with discount below 1, every exact method and every starting (terminal) value function, an "
     "infinite-horizon run that reports 'Solution found' has reached its stopping rule: one more exact backup of the final "
     "vectors changes the value at no belief by more than the documented bound, stop_delta (1-g)/2 for the weak and Bellman "
     "criteria, and nothing beyond rounding for the exact criterion. Rewards or costs make no difference.",
     ["inputs", "configurations"], "all valid models x exact methods x stopping criteria x stop_delta x terminal values",
     "The existing test runs one model with the default criterion from the zero function.",
     ["src/pomdp-solve.c", "src/common.c", "src/alpha.c", "src/region.c"],
     [("meetStopCriteria / weakBound", "src/pomdp-solve.c"), ("bellmanError", "src/common.c"),
      ("sameAlphaList", "src/alpha.c")],
     "property-based testing (Hypothesis): the Bellman residual at the vertices of the final region partition",
     TOL + "Runs above 6 s of CPU time decide nothing.", ["PREFIX.alpha"])

prop("P04", "Policy graphs reproduce the value function",
     "In the policy graph written for an epoch there is one node per vector, with the same action, and the vector equals the "
     "immediate reward of that action plus the discounted, observation-weighted vectors of the successors it names in the "
     "previous epoch's solution. A successor is missing only for an observation that cannot occur after the action.",
     ["inputs", "configurations"], "all valid models x exact methods x options x epochs",
     "No test looks at a policy graph.",
     ["src/pg.c", "src/common.c", "src/cross-sum.c", "src/alpha.c", "src/pomdp-solve.c", "src/projection.c"],
     [("setAlphaListSources", "src/cross-sum.c"), ("PG_ConstructorFromAlphaList", "src/pg.c"),
      ("relinkObsSources", "src/common.c")],
     "property-based testing (Hypothesis): recompute each vector from its node",
     TOL, ["PREFIX.pg", "PREFIX.pgN"])

prop("P05", "A model file means what its format says",
     "Every file that follows the documented Cassandra POMDP/MDP format is read as the model it describes: the same sizes, "
     "names, discount, sense (reward or cost), transition, observation and start probabilities, and rewards, whichever of "
     "the equivalent forms (full matrices, rows, single entries, wildcards, 'uniform', 'identity', 'reset', start lists, "
     "include/exclude, names or numbers) is used; later statements override earlier ones exactly where they overlap. "
     "Reading is repeatable: a model read after another one was released is not affected by it.",
     ["inputs", "histories"], "all files of the grammar x statement orders and overlaps x sequences of reads",
     "Tests read one small file; the forms, overlaps and orders of statements are never exercised.",
     ["src/mdp/parser.y", "src/mdp/scanner.l", "src/mdp/parse_hash.c", "src/mdp/imm-reward.c", "src/mdp/decision-tree.c",
      "src/mdp/sparse-matrix.c", "src/mdp/mdp.c"],
     [("readMDPFile and the grammar", "src/mdp/parser.y"), ("reward decision tree", "src/mdp/decision-tree.c"), ("getImmediateReward", "src/mdp/imm-reward.c"),
      ("computeRewards, convertMatrices", "src/mdp/mdp.c"), ("transformIMatrix", "src/mdp/sparse-matrix.c")],
     "property-based testing (Hypothesis grammar-based generation) against an independent reader of the format",
     "Trusts vlib/refparser.py, an independent reader written from the format's documentation.",
     ["readMDP and the model arrays (harness/mdpdump.c)"])

prop("P06", "Invalid model files are rejected, valid ones accepted",
     "A model file with a syntax error, an unknown or out-of-range name, a missing statement, or a probability row or start "
     "belief that does not sum to one (beyond the documented tolerance) is reported as an error: the reader refuses it and "
     "pomdp-solve exits with a non-zero status without writing a solution. Every valid file is accepted, and an MDP file is "
     "refused by pomdp-solve.",
     ["inputs"], "all texts close to valid model files",
     "No test feeds an invalid file.",
     ["src/mdp/parser.y", "src/mdp/parse_err.c", "src/mdp/mdp.c", "src/pomdp-solve.c", "src/pomdp.c"],
     [("ERR_enter, ERR_dump", "src/mdp/parse_err.c"), ("verifyPreamble, checkProbs", "src/mdp/parser.y"),
      ("initPomdpSolve", "src/pomdp-solve.c")],
     "mutation-based property testing (Hypothesis) against an independent reader of the format, under ASan and UBSan",
     "Trusts vlib/refparser.py; inputs exactly at a tolerance decide nothing.", ["exit status, messages and output files"])

prop("P08", "Runs start from the given values and write exactly the documented files",
     "A run with -terminal_values starts from exactly the vectors of that file: the first epoch is the one-step backup of "
     "them and its policy graph links to their positions in the file. -discount replaces the model's discount. The run writes "
     "PREFIX.alpha and PREFIX.pg with the last epoch's solution, with -save_all also every epoch's pair (with the ZLZ speedup the vectors only), with "
     "-save_penultimate the last but one value function, and no other file. Because of this a run can be continued from its "
     "own output: n epochs followed by m epochs started from the result have the value function of n+m epochs.",
     ["inputs", "configurations", "histories"], "all models x exact methods x terminal-value files x discounts x save options",
     "No test uses terminal values, a discount override or the save options.",
     ["src/pomdp-solve.c", "src/alpha.c", "src/pg.c", "src/params.c", "src/pomdp.c", "src/projection.c"],
     [("solvePomdp, the epoch loop", "src/pomdp-solve.c"), ("handleSaveAll, endPomdpSolve", "src/pomdp-solve.c"),
      ("readAlphaList, saveAlphaList, copyAlphaList", "src/alpha.c")],
     "property-based testing (Hypothesis): naive backup of the given vectors, file equality, chained runs",
     TOL, ["PREFIX.alpha", "PREFIX.pg", "PREFIX.alphaN", "PREFIX.pgN", "PREFIX.prev.alpha"])

prop("P11", "The finite grid method makes the documented grid and exact backups on it",
     "With -method grid the belief points are those of the chosen -fg_type: the simplex corners; the corners and the "
     "midpoints of all pairs of states; or the distinct beliefs reachable breadth first (actions, then observations) from the "
     "start belief ('initial') or from the uniform belief and those uniform over the states that can give an observation "
     "('search'), up to -fg_points points, two beliefs counting as one when all coordinates differ by at most -fg_epsilon. "
     "-fg_save writes them to PREFIX.belief. Each epoch's vectors have, at every grid point, the value of the exact "
     "one-step backup of the previous epoch's, are themselves backups of the successors their policy-graph node names, are "
     "distinct and no more than the grid points. An infinite-horizon run stops at the first epoch whose largest change at a "
     "grid point is within the stopping bound.",
     ["inputs", "configurations"], "all models x grid types x sizes x grid epsilons x purging options x terminal values",
     "No test runs the grid method.",
     ["src/finite-grid.c", "src/belief.c", "src/common.c", "src/projection.c", "src/pomdp-solve.c"],
     [("searchAndAddBeliefStates, genInitialDerivedBeliefStates, FG_addSimplexCorners, improveFiniteGrid", "src/finite-grid.c"), ("makeAlphaVector", "src/common.c"),
      ("FG_computeError", "src/finite-grid.c")],
     "property-based testing (Hypothesis) against an independent grid construction and naive backups",
     TOL + "Grids with beliefs that differ by about the grid epsilon decide nothing.", ["PREFIX.belief", "PREFIX.alphaN", "PREFIX.pgN"])

prop("P16", "Command-line options and configuration files mean what they say",
     "pomdp-solve accepts exactly the documented options and values: an unknown option, an option given twice, a malformed "
     "number, a number out of range, a value that is none of the listed ones, or an unreadable configuration file is "
     "reported and nothing is solved (exit status 1). Options may be given on the command line or as 'name = value' lines of "
     "the -f configuration file (comments, blanks, empty lines and a missing last newline do not matter), the command line "
     "wins, options not given have their documented defaults, and the parameters the program reports are the ones given. "
     "File names of any ordinary length work, and the output prefix defaults to the model name without its extension plus "
     "the process number.",
     ["inputs", "configurations"], "all combinations of options, values, places to give them and file layouts",
     "The tests use four fixed command lines and no configuration file.",
     ["src/program-options.c", "src/cmd-line.c", "src/config-file.c", "src/pomdp-solve-options.c", "src/params.c", "src/main.c"],
     [("PO_getStringOption, PO_getIntegerOption, PO_getDoubleOption, PO_getEnumOption", "src/program-options.c"),
      ("CL_parseCommandLine", "src/command-line.c"), ("CF_fscanf", "src/config-file.c"), ("parseCmdLineAndCfgFile", "src/params.c")],
     "property-based testing (Hypothesis) against a table of the documented options",
     "Trusts the table in checks/P16.py, taken from the options' documentation.", ["exit status", "the printed parameters", "output files"])

prop("P12", "The vector-file tools sort, purge and compare what is in the files",
     "sort_alphas writes exactly the vectors of its input, each with its action, in lexicographic order. purge_alphas writes, "
     "in that order, a part of its input that has the same maximum at every belief, without duplicates and without vectors "
     "that are below the others everywhere, and reports both counts. compare_alphas names for every vector of the first file "
     "those of the second within -epsilon (largest difference of a component), closest first, or else the closest one, with "
     "the difference and the action, and says when the best match has another action. All hold for every list and file layout.",
     ["inputs"], "all lists of vectors x file layouts x tolerances",
     "No test runs a tool.",
     ["src/pomdp-tools-main.c", "src/alpha.c", "src/parsimonious.c", "src/region.c", "src/lp-interface.c"],
     [("sortAlphaList, isLexicographicallyBetterAlpha, readAlphaList", "src/alpha.c"), ("UTIL_sortAlphaFile, UTIL_purgeAlphaFile, UTIL_compareAlphaFiles", "src/utils.c")],
     "property-based testing (Hypothesis) with reference linear programs and direct comparison",
     "Purged values range over less than five orders of magnitude.", ["the tools' output files and reports"])

prop("P13", "update_beliefs is Bayes' rule over every history",
     "pomdp-tools -tool update_beliefs starts at the model's start belief and answers every line 'action observation' (numbers "
     "in range) with the Bayes posterior of the current belief, which becomes the current belief; an observation that "
     "cannot occur is answered with a vector of zeroes, and every other line with an empty list and the unchanged belief. 'exit' or "
     "the end of the input end it. Every answer is there before the next line is read.",
     ["inputs", "histories"], "all models x all histories of lines",
     "No test updates a belief.",
     ["src/pomdp-tools-main.c", "src/utils.c", "src/mdp/mdp.c"],
     [("UTIL_doBeliefUpdates", "src/utils.c"), ("transformBeliefState", "src/mdp/mdp.c")],
     "stateful property-based testing (Hypothesis) against Bayes' rule computed from the model's own tables",
     "Answers have six decimals.", ["standard output"])

prop("P25", "map_beliefs and belief_alpha_compare report the best vectors at every belief",
     "map_beliefs lists for every vector the beliefs of the file where it is the only best one and those where it ties "
     "(within -epsilon); every belief is listed as required by the values. belief_alpha_compare reports at every belief the "
     "values of both solutions, their difference and the best vectors, and its maximal difference is the largest of them. Both "
     "hold for any number of beliefs and vectors.",
     ["inputs"], "all lists of beliefs and vectors x file layouts x tie precisions",
     "No test runs a tool.",
     ["src/pomdp-tools-main.c", "src/belief.c", "src/alpha.c"],
     [("UTIL_mapBeliefList, UTIL_reportBeliefMapping, UTIL_compareAlphaFilesUsingBeliefs, UTIL_reportBeliefValueComparisons", "src/utils.c")],
     "property-based testing (Hypothesis) with values computed from the files",
     "Values close to the tie precision decide nothing.", ["the tools' reports"])

prop("P09", "Equivalent descriptions of a problem have equivalent solutions",
     "Two models that describe the same decision problem have the same value function up to the stated transformation: "
     "renaming or reordering states, actions or observations permutes the solution; scaling or shifting the rewards scales or "
     "shifts it; costs are negated rewards; a copy of an action, an action that is worse everywhere, a split observation, a copy "
     "of a state, an unreachable state, names instead of numbers and another form of the reward statements change nothing else.",
     ["inputs", "configurations"], "all models x equivalence transformations x exact methods and options",
     "No test solves two descriptions of one problem.",
     ["src/pomdp-solve.c", "src/mdp/parser.y", "src/mdp/scanner.l", "src/mdp/mdp.c", "src/mdp/imm-reward.c", "src/pomdp.c",
      "src/projection.c", "src/inc-prune.c", "src/witness.c", "src/two-pass.c", "src/enumeration.c"],
     [("projectVector, projectList", "src/projection.c"), ("getAdjustedReward", "src/pomdp.c")],
     "metamorphic property-based testing (Hypothesis): solve both descriptions, compare the value functions",
     TOL + "Small models and horizons.", ["PREFIX.alpha"])

prop("P10", "The example models and larger random ones are solved exactly",
     "On every example model of the repository and on random models of 5 to 10 states, every epoch's vectors are attained by "
     "policies and equal the one-step backup of the previous epoch at beliefs all over the simplex, every policy-graph node "
     "reproduces its vector, and converged runs have a Bellman residual within their stopping bound.",
     ["inputs", "configurations"], "example files and larger random models x exact methods and options x horizons",
     "The existing test solves one of the example files and counts vectors.",
     ["src/pomdp-solve.c", "src/mdp/parser.y", "src/inc-prune.c", "src/witness.c", "src/two-pass.c", "src/enumeration.c",
      "src/projection.c", "src/parsimonious.c", "src/region.c", "src/lp-interface.c"],
     [("improveV", "src/pomdp-solve.c"), ("transformIMatrix", "src/mdp/sparse-matrix.c"), ("projectVector", "src/projection.c")],
     "property-based testing (Hypothesis) against a reference parser and backup at sampled beliefs",
     TOL + "Beliefs are sampled, not all vertices.", ["PREFIX.alphaN", "PREFIX.pgN"])

prop("P14", "pg_eval computes the value of a policy graph",
     "pg_eval prints, for every node and state of a valid policy graph, the expected discounted reward of executing the graph "
     "from there, and the value and node at the model's initial belief: the best node for rewards, the cheapest for costs. Graphs "
     "with missing or repeated nodes, links out of range, bad actions or no link for a possible observation are refused with a "
     "message and nonzero exit. The solver's own converged graphs have the values of its solution.",
     ["inputs"], "all models x all policy graphs, valid and damaged",
     "No test evaluates a policy graph.",
     ["src/pg-eval.c", "src/pg.c", "src/pomdp-tools-main.c"],
     [("PGE_evaluate, PGE_setRowCoefs, PGEC_val", "src/pg-eval.c"), ("PG_read, LPG_verify", "src/pg.c")],
     "property-based testing (Hypothesis) with the linear equations solved directly, under AddressSanitizer",
     "Values are printed with two decimals.", ["standard output and exit status of pg_eval"])

prop("P15", "pg_relink links every node to the vector closest to what it meant",
     "pg_relink rewrites the links of a policy graph, which name vectors of the previous solution, to the vectors of the current "
     "solution nearest to them; actions, node numbers and missing links stay as they were, and the result is a policy graph over "
     "the current solution's vectors only. Inputs that do not fit together are refused without a crash.",
     ["inputs"], "all pairs of solutions x policy graphs x file layouts",
     "No test relinks a policy graph.",
     ["src/pg.c", "src/pomdp-tools-main.c", "src/alpha.c", "src/utils.c"],
     [("UTIL_relinkPolicyGraph, UTIL_matchAlpha", "src/utils.c"), ("PG_read, PG_write", "src/pg.c")],
     "property-based testing (Hypothesis) against a direct nearest-vector computation, partly under AddressSanitizer",
     "Equally near vectors are all accepted.", ["the written policy graph"])

prop("P17", "A run is reproducible and reporting options do not change its solution",
     "Two runs with the same model, options and random seed write the same solution and policy graph and report the same epochs, "
     "whatever the output prefix, the environment and the reporting and saving options (-verbose, -stat_summary, -stdout, "
     "-save_all, -save_penultimate, limits that are not reached); the files saved on the way are the epochs' solutions. Another "
     "random seed does not change the value function of an exact run.",
     ["inputs", "configurations"], "all models x methods and variations x seeds x reporting options",
     "No test runs the solver twice.",
     ["src/random.c", "src/params.c", "src/pomdp-solve.c", "src/stats.c", "src/global.c", "src/common.c", "src/pomdp-solve-options.c"],
     [("setRandomSeed", "src/random.c"), ("handleSaveAll", "src/pomdp-solve.c"), ("reportEpochSummary", "src/stats.c")],
     "differential property-based testing (Hypothesis): two runs, compared byte for byte",
     "Equal vectors may be numbered differently with -save_all.", ["PREFIX.alpha, PREFIX.pg, standard output"])

prop("P22", "Interrupted, limited and killed runs leave a completed epoch's solution",
     "Whenever SIGINT arrives, once or more, the run finishes the current epoch and writes that epoch's solution and policy graph "
     "like an uninterrupted run. When the time limit ends the run, or it is killed, at any moment after the first epoch, a file "
     "holds the complete solution of the last completed epoch. -time_limit ends a run that would go on.",
     ["schedules", "crash_points"], "all models and methods x signals x moments of their arrival",
     "No test sends a signal.",
     ["src/signal-handler.c", "src/pomdp-solve.c", "src/alpha.c", "src/global.c"],
     [("gInterrupt, setUpIntervalTimer", "src/signal-handler.c"), ("saveBackup and endPomdpSolve", "src/pomdp-solve.c")],
     "fault-injecting property-based testing (Hypothesis; a preloaded shim raises the signal before the n-th library call) against the uninterrupted run",
     "Signals arrive between library calls; what the operating system was given survives a kill.", ["PREFIX.alpha, PREFIX.pg, the saved file, exit status"])

prop("P07", "No input file can crash or hang the programs",
     "Whatever the bytes of a model, alpha vector, policy graph, belief, terminal value or configuration file, or of the lines "
     "given to update_beliefs: pomdp-solve and every tool end by themselves, without memory error, abort or signal. What the "
     "model parser accepts is a well-formed model. A malformed alpha, belief or policy graph file is reported with a message, "
     "and the tools write no result for it.",
     ["inputs"], "all byte strings as any input file (sizes that fit in memory)",
     "Tests use a few good files; the inputs that break a parser are the ones nobody wrote down.",
     ["src/mdp/parser.y", "src/mdp/parser.c", "src/mdp/scanner.l", "src/mdp/imm-reward.c", "src/mdp/parse_hash.c", "src/mdp/parse_err.c", "src/mdp/mdp.c",
      "src/alpha.c", "src/belief.c", "src/pg.c", "src/config-file.c", "src/associative-array.c", "src/utils.c"],
     [("readMDPFile", "src/mdp/parser.y"), ("readAlphaList", "src/alpha.c"), ("readBeliefList", "src/belief.c"), ("LPG_scanf", "src/pg.c"), ("CF_fscanf", "src/config-file.c")],
     "coverage-guided fuzzing (libFuzzer with ASan/UBSan, grammar-aware mutations) of the readers, and property-based damage (Hypothesis) of files given to the real programs",
     "Sizes of three or more digits are excluded: they really allocate memory.", ["exit status, sanitizer reports, messages, output files"])

prop("P18", "Approximate pruning loses at most its epsilon, and the epsilon schedule holds",
     "With epsilon_prune for the projections or for the final purge, every epoch's value function is nowhere above the exact backup of "
     "the epoch before, and nowhere lower by more than prune_epsilon for the final purge plus prune_epsilon per observation for the "
     "projections; the vectors that remain are still what their policy graph links compute. With the adjustable_epsilon variation the "
     "epsilon starts at start_epsilon and is divided by epsilon_adjust exactly after the epochs at which, once history_length epochs are "
     "done, the sizes of the last history_length solutions are within history_delta of each other, until it is end_epsilon or less.",
     ["inputs", "configurations"], "all valid models x exact methods x epsilon purging x epsilons x history parameters",
     "No test uses an epsilon; a wrong bound only shows where several losses add up.",
     ["src/parsimonious.c", "src/pomdp-solve.c", "src/projection.c", "src/enumeration.c", "src/region.c", "src/stats.c", "src/params.c"],
     [("epsilonPrune, isEpsilonApproximation", "src/parsimonious.c"), ("doAdjustableEpsilonVariation", "src/pomdp-solve.c")],
     "property-based testing (Hypothesis): bound against a naive backup at all vertices of the output's region partition; schedule against a model of it",
     TOL + "Models of up to 4 states, 4 epochs (12 for the schedule).", ["PREFIX.alphaN, PREFIX.pgN, standard output"])

prop("P19", "The ZLZ speedup approaches the same value function and never passes it",
     "With -vi_variation zlz and a discount below 1, a run that reports a solution has converged as closely as plain value iteration "
     "must (Bellman residual within the documented bound). From terminal values that no policy falls below, the vectors of every epoch "
     "and of the final solution are nowhere worse than plain value iteration after as many epochs, the improvement is nowhere worse than "
     "the update it started from, and no value is above the optimal one.",
     ["inputs", "configurations"], "all valid discounted models x exact methods x options x stop_delta x horizons",
     "No test uses the speedup; its errors are hidden by the exact updates that follow.",
     ["src/zlz_speedup.c", "src/pomdp-solve.c", "src/projection.c", "src/alpha.c", "src/region.c"],
     [("ZLZ_ViSpeedup, ZLZ_improve", "src/zlz_speedup.c")],
     "property-based testing (Hypothesis): residual against a naive backup, differential against plain value iteration",
     TOL + "Models of up to 3 states, runs of a few seconds.", ["PREFIX.alpha, PREFIX.alphaN"])

prop("P23", "The progress report and the statistics tell what the run did",
     "pomdp-solve reports every epoch once, in sequence, with the number of vectors of that epoch's solution (of the final solution for the "
     "last) and, for the Bellman criterion, the largest change of the value function at any belief; for the weak criterion, the largest "
     "distance of a vector to the nearest one of the other epoch, or infinity when that is above stop_delta; for the exact criterion, zero "
     "only when nothing changed. Its times fit each other and the processor time the process used. With -stat_summary, and only then, it ends "
     "with a summary that has the same sizes, changes and times, and totals that are the sums of its columns. -stdout sends all of it to a file.",
     ["inputs", "configurations"], "all valid models x methods and variations x stopping criteria x reporting options",
     "No test reads more of the report than its last lines.",
     ["src/stats.c", "src/pomdp-solve.c", "src/common.c", "src/timing.c", "src/zlz_speedup.c", "src/params.c"],
     [("epochEndStats, reportContextDetails, reportEpochSummary", "src/stats.c"), ("weakBound, meetStopCriteria", "src/pomdp-solve.c"), ("bellmanError", "src/common.c")],
     "property-based testing (Hypothesis): the report against the saved vectors, the kernel's accounting and itself",
     TOL + "Changes of grid and ZLZ epochs are not recomputed; within the epsilon in force.", ["standard output", "the -stdout file"])

prop("P24", "No memory error on any valid use",
     "Whatever valid model, files and options they are given, pomdp-solve and the tools read and write only memory that they own and "
     "have initialised, and do no undefined arithmetic: no result depends on what happened to be in memory.",
     ["inputs", "configurations"], "all valid models x all methods, variations, purging, reporting and saving options; all valid files for every tool; signals during runs",
     "The tests look at results, which a stray read or write usually leaves alone.",
     ["src/alpha.c", "src/belief.c", "src/utils.c", "src/stats.c", "src/lp-interface.c", "src/region.c", "src/pg.c", "src/pg-eval.c",
      "src/finite-grid.c", "src/zlz_speedup.c", "src/pomdp-solve.c", "src/mdp/mdp.c", "src/mdp/sparse-matrix.c", "src/mdp/imm-reward.c", "src/lp-solve/solve.c"],
     [("XA_malloc", "src/xalloc.c")],
     "property-based testing (Hypothesis) of programs built with AddressSanitizer/UBSan and with MemorySanitizer",
     "Leaks are not counted. Invalid input files are P07's.", ["sanitizer reports"])

prop("P20", "Every linear program and region question is answered correctly",
     "For any linear program over the belief simplex that the solution methods may set up, the solver interface reports optimal or "
     "infeasible correctly, and for an optimal one a feasible solution with the optimal objective value. For any vector and list of vectors, a "
     "region point is found exactly when somewhere on the simplex the vector beats the whole list by more than epsilon, and the point "
     "and advantage reported are the best ones. Earlier programs solved in the same process make no difference.",
     ["inputs", "histories"], "all bounded programs over the simplex x senses x sparsity; all vectors and lists up to numerical precision; any sequence of them",
     "The tests only solve the programs of two models; a program wrongly called infeasible silently drops a vector.",
     ["src/lp-interface.c", "src/region.c", "src/lp-solve/solve.c", "src/two-pass.c"],
     [("LP_solveLP", "src/lp-interface.c"), ("findRegionPoint", "src/region.c")],
     "property-based testing (Hypothesis) against an independent LP solver (HiGHS)",
     "Coefficients with a granularity of at least 1e-3; cases that lp_solve itself reports as unstable decide nothing; unbounded programs, which no method sets up, are not covered.",
     ["answers of LP_solveLP and findRegionPoint"])

prop("P21", "The containers behave as their models over any history of operations",
     "Vector lists, belief lists, sparse matrices and associative arrays hold after any sequence of operations exactly what a plain "
     "list, table or map would: no element is lost, duplicated or reordered, lengths, ends, numbers and marks stay consistent, and queries (best "
     "vector, domination, membership, equality) give the answer their description promises.",
     ["histories"], "all sequences of the list, matrix and array operations over vectors with exactly representable components",
     "The tests go through the few sequences the solver runs on two models; what breaks is a rare order of operations (last element removed, then an append).",
     ["src/alpha.c", "src/belief.c", "src/mdp/sparse-matrix.c", "src/associative-array.c"],
     [("appendAlphaList, bestVector", "src/alpha.c"), ("AA_put", "src/associative-array.c"), ("addEntryToRow, transformIMatrix", "src/mdp/sparse-matrix.c")],
     "model-based property testing (Hypothesis): operation histories compared with a model after every step, under ASan",
     "The order of equal vectors after a sort and nodes that share a witness point are not claimed.", ["state of the containers"])

NOT_APPLICABLE = []


def write():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p["observe"]}}) + "\n")
    na = [n for n, _ in NOT_APPLICABLE]
    m = {"version": 1, "setup_cmd": "python3-vt vlib/build.py plain asan msan",
         "checks": [{"property": p["id"], "quick_cmd": "python3-vt checks/%s.py --tier quick" % p["id"],
                     "thorough_cmd": "python3-vt checks/%s.py --tier thorough" % p["id"],
                     "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
                    for p in sorted(P, key=lambda p: p["id"]) if p["id"] not in na],
         "not_applicable": [{"property": n, "reason": r} for n, r in NOT_APPLICABLE],
         "notes": "Every check builds /repo/src itself (vlib/build.py) and is a pure function of the tree and VERIF_SEED. "
                  "No hooks are compiled into /repo. See DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
