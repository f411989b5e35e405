#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

WF = ("well-formed instances (at least one row, every row in some column, no repeated row in a column, finite costs in "
      "[0, 1e25], index types wide enough)")
prop("C01", "Every solve returns a valid cover",
     "For every well-formed instance, seed and parameter setting, the solution returned by the full solver and by the "
     "stand-alone 3-phase stage lists only existing column indexes, lists none of them twice, and covers every row.",
     ["inputs", "configurations"],
     WF + "; every seed; heuristic iterations >= 0, epsilon >= 0, any beta and subgradient exit thresholds, alpha > 1, min_fixing in (0,1], with or without a warm start",
     "The tests solve about a hundred instances of one shape (100 rows, 10 disjoint big columns) and check a cost bound on most of them; covers can be lost in fixing, pricing or removal steps only reached by other structures.",
     ["src/algorithms/Refinement.hpp", "src/algorithms/ThreePhase.hpp", "src/greedy/Greedy.hpp", "src/greedy/redundancy.hpp", "src/fixing/fix_columns.hpp"],
     [("core/fixed/original index mapping of solutions", "ThreePhase.hpp _from_core_to_unfixed_sol, Refinement.hpp from_fixed_to_unfixed_sol"),
      ("greedy stops only when all rows are covered", "Greedy.hpp operator()")],
     ["cft::run return value", "cft::ThreePhase return value"],
     [("best_sol", "incumbent in original indexes", "ThreePhase.hpp, Refinement.hpp")])
prop("C02", "The reported cost is the cost of the returned columns",
     "The cost reported with every solution returned by the full solver, the 3-phase stage and the greedy stage equals the sum of the given costs of the "
     "columns it lists: exactly while sums of integer costs are exactly representable, and up to accumulated rounding otherwise.",
     ["inputs", "configurations"], WF + "; all cost magnitudes, integer and fractional, every parameter setting and warm start",
     "Tests compare one expected cost per toy instance; the cost is accumulated along a different path (partial + fixed + core costs) than the column list, and only some histories make them differ.",
     ["src/algorithms/ThreePhase.hpp", "src/algorithms/Refinement.hpp", "src/greedy/Greedy.hpp", "src/greedy/redundancy.hpp", "src/fixing/FixingData.hpp"],
     [("fixed cost accumulation", "FixingData.hpp add_cols_to_fixing_data"), ("partial cost of the redundancy step", "redundancy.hpp"),
      ("cutoff test before accepting a heuristic solution", "Subgradient.hpp heuristic, ThreePhase.hpp")],
     ["Solution::cost vs Solution::idxs"])
prop("C03", "Lower bounds never exceed the optimum",
     "The lower bound returned with any solve, by the 3-phase stage, the subgradient stage or a pricing step, is never above the cost of any cover of the "
     "instance it was computed for (up to floating point rounding), so a solution whose cost meets it is optimal; the returned multipliers are one per row, finite and non-negative.",
     ["inputs", "configurations"], WF + "; all parameters; includes instances whose good columns are not among the first ones of each row",
     "A test can compare with a handful of known optima; validity must hold for every instance, and an invalid bound only shows when it exceeds an optimum that nobody computed.",
     ["src/subgradient/Subgradient.hpp", "src/subgradient/Pricer.hpp", "src/algorithms/ThreePhase.hpp", "src/algorithms/Refinement.hpp"],
     [("bound evaluated over all columns in pricing, never over the core", "Pricer.hpp _compute_col_reduced_costs"),
      ("multipliers clamped to be non-negative", "Subgradient.hpp _update_lagr_mult"), ("dual of the unfixed instance kept", "ThreePhase.hpp nofix_dual")],
     ["CftResult::dual", "Subgradient return value", "Pricer return value"])
prop("C04", "Warm starts and re-solves never lose ground",
     "Starting from a valid cover, the returned cost is never higher than the cost of that cover, and if it is not strictly lower the very same cover is returned; "
     "re-solving from the previous result therefore gives a non-increasing sequence of costs.",
     ["inputs", "histories"], "well-formed instances x valid covers (optimal, greedy, redundant, all columns, previous results) x seeds, parameters and time limits; chains of re-solves",
     "The tests never check a warm start that is better than what the solver finds nor chains of re-solves.",
     ["src/algorithms/Refinement.hpp", "src/core/parsing.hpp", "src/pycft/set_cover_solver.py"],
     [("warm start installed as incumbent, replaced only on strict improvement", "Refinement.hpp run")], ["cft::run with warmstart_sol"])
prop("C05", "The time limit stops the solver promptly with a valid answer",
     "Wherever during a solve the time limit expires, and whether it is zero or already past at the start, the solver returns after only a bounded amount of further work, and what it "
     "returns is still a valid cover with the right cost and a valid lower bound; a limit that is never reached does not change the result.",
     ["crash_points", "inputs", "configurations"], "every clock reading of the solve as the expiry point (virtual time) x instances x seeds; warm start or not",
     "Tests set no time limit or a generous one; expiry between two particular steps of the algorithm cannot be provoked with real time.",
     ["src/algorithms/Refinement.hpp", "src/algorithms/ThreePhase.hpp", "src/subgradient/Subgradient.hpp", "src/utils/Chrono.hpp"],
     [("elapsed-time tests in every long loop", "Refinement.hpp, ThreePhase.hpp, Subgradient.hpp (pricing and heuristic loops)")],
     ["virtual std::chrono::steady_clock", "basic blocks executed after expiry"])
prop("C06", "Same seed and parameters reproduce the same result",
     "A solve is a function of instance, warm start, parameters and seed: repeating it gives the identical solution, cost, lower bound and multipliers, whatever the verbosity, the solves made before it "
     "in the process, the reuse of stage objects across instances, or the contents of uninitialised memory.",
     ["histories", "configurations", "inputs"], "instances x seeds x {fresh process, after other solves, re-used functors, other verbosity, other heap/stack fill patterns}",
     "Tests run each solve once; dependence on stale caches or uninitialised data gives a plausible value in any single run.",
     ["src/algorithms/ThreePhase.hpp", "src/subgradient/Subgradient.hpp", "src/greedy/Greedy.hpp", "src/greedy/scores.hpp", "src/subgradient/Pricer.hpp", "src/fixing/ColFixing.hpp", "src/utils/random.hpp", "src/utils/xoshiro_prng.hpp"],
     [("caches reset at the start of each functor call", "ThreePhase.hpp _three_phase_setup, Pricer.hpp, Greedy.hpp, ColFixing.hpp"), ("only Environment::rnd is used as source of randomness", "cft.hpp Environment")],
     ["CftResult of repeated runs"])
prop("C07", "Concurrent solves do not interfere",
     "Solves (and loads, stages and result writes to different files) running at the same time on different threads, each with its own parameter environment, even on one shared constant instance, have no data race and each "
     "gives exactly the result it gives alone.",
     ["schedules", "inputs"], "interleavings of 2..8 threads x instances (shared and private) x operations {load, solve, stages, write}",
     "No test uses more than one thread; hidden static state is invisible in sequential runs.",
     ["src/algorithms/Refinement.hpp", "src/core/parsing.hpp", "src/utils/random.hpp", "src/utils/print.hpp"],
     [("no mutable static or global state; all working state in functors and Environment", "all headers")], ["ThreadSanitizer", "results vs solo runs"])
prop("C08", "Valid inputs cause no memory error, UB or internal check failure",
     "On well-formed instances and files and in-domain parameters, loading, solving and every public stage never reads or writes out of bounds, uses freed or uninitialised memory, executes undefined behaviour, leaks memory, or fails one of the code's own "
     "debug assertions, for every supported choice of index and real types.",
     ["inputs", "configurations"], "well-formed instances including empty columns, one row, duplicate columns, ties, zero costs, sizes at the limit of the index types; index types 8..64 bit, float/double/long double",
     "The debug tests run under sanitizers but only on one instance shape and two type configurations.",
     ["src/algorithms/Refinement.hpp", "src/greedy/Greedy.hpp", "src/greedy/scores.hpp", "src/utils/SortedArray.hpp", "src/utils/Span.hpp", "src/utils/SparseBinMat.hpp", "src/fixing/fix_columns.hpp", "src/core/cft.hpp"],
     [("bounds and consistency assertions in Debug", "assert() across the headers"), ("checked_cast", "utils/utility.hpp")],
     ["AddressSanitizer, UBSan, LeakSanitizer, libstdc++ assertions, valgrind memcheck, CFT_ASSERT_FAIL_THROWS"])
prop("C09", "Hostile instance files are rejected or load as a sound instance",
     "For any byte content given as instance or initial-solution file, loading terminates and either throws an exception or yields a well-formed instance (column and row views consistent and in range, each row coverable, one cost per column) "
     "with an initial solution that is empty or a valid cover with its true cost; there is no memory error, crash or hang.",
     ["inputs", "fault_sequences"], "arbitrary bytes, and mutations, truncations and splices of valid RAIL, SCP, CVRP, MPS and solution files; missing and unreadable files; all parsers applied to all formats",
     "The tests load the shipped instances and a few malformed headers.",
     ["src/core/parsing.hpp", "src/utils/parse_utils.hpp", "src/utils/StringView.hpp", "src/core/Instance.hpp"],
     [("format checks and exceptions", "parsing.hpp"), ("checks on loaded instance and initial solution", "parsing.hpp check_feasible_instance, check_and_fix_init_sol"), ("line reading until end of file", "parse_utils.hpp FileLineIterator")],
     ["parse_inst_and_initsol result or exception"])
prop("C10", "Every format loads exactly the instance that was written",
     "An instance written in RAIL, SCP, CVRP or MPS format, with any legal layout (line breaks, blanks, order of entries, section headers), is loaded with the same rows, columns, coefficients and costs, and the CVRP or separate initial solution that accompanies it, "
     "so loading the same instance through any of the formats gives the same instance.",
     ["inputs"], "instances x formats x legal layouts (wrapping, tabs, CRLF, trailing blanks, multiple pairs per MPS line, header lines, missing last newline, number spellings)",
     "The tests load a few shipped files and check only their size.",
     ["src/core/parsing.hpp", "src/utils/parse_utils.hpp", "src/utils/StringView.hpp"],
     [("per-format parsers", "parsing.hpp"), ("tokenizer and number parsing", "parse_utils.hpp")], ["Instance returned by parse_*"])
prop("C11", "Solution files round-trip and the exit status tells the truth",
     "Writing a solution and reading it back gives the same cost and the same columns in the same order; the command line program exits with status zero if and only if the output file now holds a valid solution of the given instance with its true cost, and otherwise reports an error on stderr and exits non-zero.",
     ["inputs", "fault_sequences"], "solutions of any size and cost magnitude; unwritable, full, missing-directory and pre-existing longer output files; malformed inputs and arguments",
     "Tests write and read one small solution; failing writes are never exercised.",
     ["src/core/parsing.hpp", "src/main.cpp", "src/core/CliArgs.hpp"],
     [("stream state checked after writing", "parsing.hpp write_solution"), ("exception to exit status translation", "main.cpp")], ["process exit status, output file, stderr"])
prop("C12", "Every command line option does what it documents",
     "Each option, in its short or long form and in any position and order, sets exactly the documented parameter (and the seed option the generator) to the given value, later occurrences win, other parameters keep their documented defaults, missing or unrecognised options do not disturb the rest, "
     "non-numeric or out-of-range values and a missing instance path are refused, and the default output name is the instance file name with its last extension replaced by .sol in the working directory.",
     ["inputs", "configurations"], "sequences of options in any order with repetitions, values across each option's numeric range, arbitrary paths",
     "One test passes all options once in one order.",
     ["src/core/CliArgs.hpp", "src/core/cft.hpp", "src/utils/parse_utils.hpp"],
     [("option table and parsing loop", "CliArgs.hpp parse_cli_args"), ("defaults", "cft.hpp Environment")], ["Environment returned by parse_cli_args"])
prop("C13", "The greedy stage completes partial solutions as promised",
     "Given multipliers, the matching reduced costs, an optional incomplete partial selection, a cutoff and a size cap, the greedy stage returns a cost below the cutoff, when no cap stops it, only together with a valid cover of exactly that cost without repeated columns; with no cutoff and no cap it always returns such a cover; with a "
     "cap it never adds columns beyond the cap, and every column it adds is one of best score (reduced cost spread over, or multiplied by, the rows still uncovered) given the columns chosen before it.",
     ["inputs", "histories"], "well-formed instances x non-negative multipliers (zero, dual, random, huge) x partial selections x cutoffs x caps; same greedy object reused",
     "Tests run the greedy on a few instances with given multipliers and check the cover only; the incremental score bookkeeping is never compared with a recomputation.",
     ["src/greedy/Greedy.hpp", "src/greedy/scores.hpp", "src/greedy/redundancy.hpp"],
     [("incremental score updates and good-score window", "Greedy.hpp operator(), scores.hpp"), ("cutoff handling", "Greedy.hpp _try_early_exit")], ["Greedy::operator()"],
     [("scores/score_map", "score of each column and where it is", "scores.hpp Scores")])
prop("C14", "Redundant columns are removed soundly, and optimally when few",
     "Starting from any cover, the redundancy removal step never uncovers a row, keeps its cost and coverage bookkeeping equal to what the kept columns imply, and whenever at most ten columns are redundant the cover it leaves is the cheapest one "
     "obtainable by dropping columns, unless that is not below the cutoff.",
     ["inputs"], "covers with 0..30 redundant columns x cost patterns (ties, zero, equal) x cutoffs above, below and equal to the attainable cost",
     "The tests use one hand-made cover; optimality of the enumeration depends on pruning that only wrong bounds in particular combinations expose.",
     ["src/greedy/redundancy.hpp", "src/greedy/Greedy.hpp", "src/utils/CoverCounters.hpp"],
     [("enumeration with partial and total coverage", "redundancy.hpp Enumerator"), ("heuristic removal", "redundancy.hpp heuristic_removal")],
     ["complete_init_redund_set, heuristic_removal, enumeration_removal, Greedy::operator()"])
prop("C15", "Column fixing yields an equivalent residual instance",
     "Fixing a set of columns, any number of times in sequence, leaves exactly the rows not covered by the fixed columns and exactly the columns that still cover one of them, with their costs and their coefficients in the original order; the recorded mappings, fixed columns and fixed cost always translate residual solutions to "
     "original solutions of cost fixed plus residual; the 3-phase fixing step always makes progress and keeps the multiplier of each surviving row.",
     ["inputs", "histories"], "well-formed instances x sequences of fixings of random column sets (overlapping, dominating, everything) x multipliers",
     "The tests fix columns once or twice on one random instance.",
     ["src/fixing/fix_columns.hpp", "src/fixing/FixingData.hpp", "src/fixing/ColFixing.hpp", "src/algorithms/Refinement.hpp"],
     [("old-to-new maps applied in place", "fix_columns.hpp"), ("composition with earlier maps", "FixingData.hpp apply_maps_to_fixing_data"), ("multiplier compaction", "ColFixing.hpp _apply_maps_to_lagr_mult")],
     ["Instance, FixingData, IdxsMaps after each fixing"])
prop("C16", "The core instance is a faithful selection of the best columns",
     "After each pricing the core instance contains only distinct columns of the full instance with their exact costs and coefficients and a correct map back, every row keeps at least its five cheapest columns by reduced cost (all of them if fewer), every column of reduced cost below 0.1 is present "
     "or displaced by five times the number of rows that are no worse, and the value returned is the Lagrangian bound of the full instance at the given multipliers.",
     ["inputs", "histories"], "instances (also many more columns than five per row) x multipliers; the same pricing object reused over instances of different size",
     "Pricing has no test of its own.",
     ["src/subgradient/Pricer.hpp", "src/utils/SortedArray.hpp", "src/utils/sort.hpp", "src/core/utils.hpp", "src/core/Instance.hpp"],
     [("selection by negative reduced cost with cap", "Pricer.hpp _select_c1_col_idxs"), ("five best columns per row", "Pricer.hpp _select_c2_col_idxs, SortedArray.hpp")], ["Pricer::operator()"])
prop("C17", "Random helpers respect their ranges, and the generator its definition",
     "The generators reproduce the published xoshiro sequences for every seed; uniform reals lie in [min,max), integer rolls in [min,max] with each value reachable, canonical values in [0,1), and coin flips never succeed with probability 0 and always with probability 1, for every possible output of the underlying generator; the same seed gives the same sequence.",
     ["inputs", "configurations"], "all seeds; generators with 32 and 64 bit output forced to extreme words; float/double/long double; ranges that fit the generator",
     "Tests sample some thousand draws; the boundary outputs have probability 2^-24 or less.",
     ["src/utils/random.hpp", "src/utils/xoshiro_prng.hpp"], [("mantissa shifts and scaling", "random.hpp canonical_gen"), ("xoshiro state update", "xoshiro_prng.hpp")], ["return values"])
prop("C18", "The Python solver object is consistent over any history of calls",
     "After any sequence of adding sets (valid or rejected), loading files and solving with any parameters, the solver reports exactly the outcome of the last successful solve: set indexes count up from zero, a rejected call changes nothing, a solved instance gives a valid cover of all elements added so far with its cost (in the cost mode of that solve), "
     "a valid lower bound and one multiplier per element, re-solving without new elements never gives a worse cost, and every solve gives what a fresh instance of the same sets gives from the same previous solution.",
     ["histories", "inputs"], "sequences of add_set / from_file / solve / getters with valid and invalid arguments",
     "The Python tests make one or two calls each.",
     ["src/pycft/set_cover_solver.py", "src/pycft/_bindings.cpp"], [("result invalidated when a new element appears", "set_cover_solver.py add_set"), ("instance preparation before solving", "_bindings.cpp check_and_fill_instance")],
     ["SetCoverSolver methods"])
prop("C19", "Command line, C++ and Python interfaces agree",
     "For the same instance, seed and parameters the command line program, the C++ library and the Python module return the same columns, cost, lower bound and multipliers, as far as each interface exposes them.",
     ["inputs", "configurations"], "instances x seeds x parameters, passed through files, API structures and Python calls",
     "Each interface is tested alone.",
     ["src/main.cpp", "src/core/CliArgs.hpp", "src/core/parsing.hpp", "src/pycft/_bindings.cpp", "src/pycft/set_cover_solver.py", "src/core/cft.hpp"],
     [("same run() behind the three interfaces", "Refinement.hpp")], ["solution file, CftResult, SetCoverSolver getters"])
prop("C20", "Unit-cost mode solves the instance with all costs one",
     "With unit costs requested, from the command line, the loader or Python, the result is the one of the same instance with every cost equal to one: the reported cost is the number of columns, initial solutions are priced at one per column, and neither the stored instance nor later solves in normal mode are affected.",
     ["inputs", "histories"], "instances with arbitrary costs x formats x warm starts x alternation of modes",
     "One test checks that the flag is set.",
     ["src/core/parsing.hpp", "src/core/CliArgs.hpp", "src/pycft/set_cover_solver.py"], [("costs replaced after loading", "parsing.hpp parse_inst_and_initsol")], ["solution file, FileData, SetCoverSolver"])
prop("C21", "Results do not depend on the index types chosen at compile time",
     "Any index types wide enough for the instance, plain integers of either signedness or arithmetic wrapper types, give the identical result for the same real type and seed, and with wider real types all guarantees on covers, costs and bounds still hold.",
     ["configurations", "inputs"], "instances at and below the capacity of the index types x {8..64 bit, signed/unsigned, wrapper} x {float, double, long double}",
     "Two fixed configurations are compiled and run on one kind of instance, and never compared.",
     ["src/core/cft.hpp", "src/utils/custom_types.hpp", "src/utils/utility.hpp", "src/utils/limits.hpp", "src/subgradient/Pricer.hpp", "src/fixing/fix_columns.hpp"],
     [("index types as macros, checked casts, native_t", "cft.hpp, utility.hpp, custom_types.hpp")], ["CftResult across builds"])
prop("C22", "Refinement only improves on the first 3-phase solution",
     "With the same instance, seed and parameters and no warm start, the full solver's cost is never above the one of a single 3-phase run, its lower bound and multipliers are those of that first run on the unfixed instance, and when that first run already meets the stop criterion (cost at most beta times bound plus epsilon) its solution is returned as is.",
     ["inputs", "configurations"], WF + "; seeds, beta and epsilon",
     "No test compares the two levels of the algorithm.",
     ["src/algorithms/Refinement.hpp", "src/algorithms/ThreePhase.hpp"], [("incumbent replaced on strict improvement only; dual kept from iteration 0", "Refinement.hpp run")], ["run vs ThreePhase"])
prop("C23", "Every solve terminates within its round budget",
     "Without any time limit the solver terminates on every well-formed instance and in-domain parameter setting: between two improvements of the incumbent there are at most as many refinement rounds as it takes for the fixed fraction to grow from min_fixing to one by factors alpha, plus the round that follows, the columns fixed in a round cover at most that fraction of the rows, and each round does a bounded number of subgradient and heuristic iterations.",
     ["inputs", "configurations"], WF + "; alpha in (1, 4], min_fixing in (0, 1], beta including values that never allow early stop, epsilon including 0, heuristic iterations including 0",
     "Tests use defaults; a test that terminates says nothing about other instances.",
     ["src/algorithms/Refinement.hpp", "src/algorithms/ThreePhase.hpp", "src/subgradient/Subgradient.hpp", "src/subgradient/utils.hpp", "src/fixing/ColFixing.hpp"],
     [("fix fraction grows geometrically", "Refinement.hpp RefinementFixManager"), ("iteration caps", "Subgradient.hpp"), ("fixing removes at least a column per iteration", "ColFixing.hpp")], ["round log, executed basic blocks"])
prop("C24", "Text and numbers are parsed like the standard says",
     "Parsing a number of any supported type from NUL-terminated text gives the exact integer or a nearest representable real (rounded from the widest real type) and the exact rest of the text, or throws for empty, non-numeric and out-of-range input; trimming, splitting, searching, comparing and cutting text views behave like the obvious operations on strings for every string (their ordering: on ASCII text).",
     ["inputs"], "strings over blanks, digits, signs, exponents, letters, control and non-ASCII bytes; all integer widths and float types; values at and around each type's limits",
     "Tests parse a handful of literals.",
     ["src/utils/parse_utils.hpp", "src/utils/StringView.hpp"], [("strto* with range tests", "parse_utils.hpp string_to"), ("view arithmetic", "StringView.hpp")], ["return values, exceptions"])
prop("C25", "Core containers behave like their simple models",
     "For every sequence of operations the fixed-capacity sorted array holds the smallest keys offered in non-decreasing order, coverage counters equal the multiset of added minus removed subsets and report exactly the rows that become covered or uncovered and whether a subset is redundant, the sparse matrix and spans return exactly what was stored, "
     "sorting, selection, filtering, minimum and clamping helpers match their definitions, and elapsed times match the clock in every unit.",
     ["histories", "inputs"], "operation sequences over small and large index sets, duplicates and ties; custom keys",
     "Tests run short fixed sequences.",
     ["src/utils/SortedArray.hpp", "src/utils/CoverCounters.hpp", "src/utils/SparseBinMat.hpp", "src/utils/Span.hpp", "src/utils/sort.hpp", "src/utils/utility.hpp", "src/utils/Chrono.hpp", "src/core/Instance.hpp"],
     [("insertion with capacity", "SortedArray.hpp"), ("counter updates", "CoverCounters.hpp")], ["container contents after each operation"])
prop("C26", "Verbosity changes only the log, and the log tells the truth",
     "At verbosity zero a successful run of the program prints nothing; each level up to five prints everything the level below prints; the solution file and exit status are the same at every level; and the parameters, sizes, bounds, costs and counters in the log are the actual ones: each incumbent is the best of what the phases before it report, "
     "fixed cost plus residual solution gives the incumbent, bounds on the full instance never exceed the cost of a cover, remaining rows shrink, and the last line gives the cost of the solution written.",
     ["inputs", "configurations", "histories"], "instances x formats x command lines x verbosity 0 to 5 and beyond; logs of complete runs",
     "Tests never look at the output; the log of a run is a history of thousands of events related to each other.",
     ["src/utils/print.hpp", "src/main.cpp", "src/core/CliArgs.hpp", "src/core/parsing.hpp", "src/algorithms/Refinement.hpp", "src/algorithms/ThreePhase.hpp", "src/subgradient/Subgradient.hpp", "src/fixing/ColFixing.hpp"],
     [("printing guarded by level", "print.hpp print"), ("progress lines of each phase", "Refinement.hpp, ThreePhase.hpp, Subgradient.hpp, ColFixing.hpp")], ["standard output, standard error, solution file"])
prop("C27", "Subgradient and heuristic steps return the best they found",
     "The subgradient step stops within ten iterations per row and no later than when a bound of the full instance reaches cutoff minus epsilon, and returns the best such bound it computed (never above the cost of a cover) with the multipliers of its best core bound since the last pricing; the heuristic step, in at most the given number of iterations, "
     "either leaves the given incumbent alone or replaces it by a valid cover of the core of exactly the reported cost, cheaper than the incumbent by epsilon and no dearer than greedy at the initial multipliers, and its multipliers have no lower core bound than the initial ones; multipliers stay finite and non-negative, and neither step changes the instance it works on.",
     ["histories", "inputs", "configurations"], WF + "; sequences of the steps on reused objects; cutoffs below, at and above the optimum or infinite",
     "No test calls either step on its own.",
     ["src/subgradient/Subgradient.hpp", "src/subgradient/utils.hpp", "src/subgradient/Pricer.hpp", "src/greedy/Greedy.hpp"],
     [("best bound and multipliers kept along the iterations", "Subgradient.hpp operator()"), ("greedy at each multiplier vector, incumbent replaced on gain", "Subgradient.hpp heuristic")], ["Subgradient::operator(), Subgradient::heuristic"])
prop("C28", "The columns fixed are the ones the method prescribes",
     "Each refinement round fixes the longest prefix, in order of gap contribution under the bounding multipliers, of the incumbent's columns that covers at most the current fraction of the rows, the fraction being min_fixing after an improvement and growing by alpha (at most to one) otherwise; each 3-phase fixing step fixes every column "
     "of reduced cost below -0.001 that overlaps with no other such column (unless the rest of the selection makes it redundant), plus at most the larger of one and a two-hundredth of the original rows of further columns, each covering something new, the first by best greedy score, and none if everything is covered already.",
     ["histories", "inputs", "configurations"], WF + "; sequences of incumbents and multipliers; alpha in (1, 4], min_fixing in (0, 1]",
     "No test looks at which columns are fixed; the choice depends on the whole history of incumbents.",
     ["src/algorithms/Refinement.hpp", "src/fixing/ColFixing.hpp", "src/greedy/Greedy.hpp"],
     [("columns in order of gap contribution up to the fraction", "Refinement.hpp RefinementFixManager"), ("negative columns without overlap, completed by greedy", "ColFixing.hpp operator()")], ["RefinementFixManager, ColFixing"])
prop("C29", "The subgradient step follows its control rules",
     "Every 20 iterations the step size is halved if best and worst bound of the period differ by more than 1 %, multiplied by 1.5 if by at most 0.1 %, else kept, within [1e-6, 10]; the step ends after a 300-iteration period that improved the bound by less than both exit thresholds; pricing happens at iteration 10 and then after a period multiplied by "
     "10, 5 or 2 (at most a third of the rows or 1000) or reset to 10 as core and full bound differ by at most 1e-6, 2 %, 20 % or more of the cutoff; multipliers move by step size times the distance to the cutoff times the violation of each row over its squared norm, clamped to [0, 1e6], redundant columns being skipped in the subgradient step only.",
     ["histories", "inputs", "configurations"], "histories of bounds; " + WF + "; exit thresholds",
     "No test observes an iteration of the subgradient step.",
     ["src/subgradient/utils.hpp", "src/subgradient/Subgradient.hpp"],
     [("step size, exit and pricing managers", "subgradient/utils.hpp"), ("multiplier update", "Subgradient.hpp _update_lagr_mult")], ["managers, trace of the step at verbosity 5, multipliers"])
prop("C30", "Repeated use accumulates nothing, and memory follows the size",
     "Repeating an operation - solving, loading valid or damaged or missing files, writing solutions, reading command lines, and in Python building solvers, getters, refused sets and re-solving one object - holds no more memory, open descriptors or Python objects after each repetition, whatever its outcome; the peak memory of a solve or load does not grow "
     "with repetition and stays within a constant multiple of the size of the instance or file.",
     ["histories", "inputs", "configurations"], "operations x instances x outcomes; repetitions in one process",
     "Tests run each operation once in a fresh process.",
     ["src/core/parsing.hpp", "src/algorithms/Refinement.hpp", "src/algorithms/ThreePhase.hpp", "src/pycft/_bindings.cpp", "src/utils/parse_utils.hpp"],
     [("results and caches released when they go out of scope", "Refinement.hpp run, ThreePhase.hpp"), ("files closed on every path", "parse_utils.hpp FileLineIterator")], ["allocator, /proc/self/fd, interpreter counters"])
prop("C31", "Failures of memory and I/O are reported, never absorbed",
     "Wherever in a solve, load, write, program run or Python call a memory allocation fails, or an instance read or a solution write or close fails, the caller gets an exception (lack of memory as such, the program a message and a failing status) or exactly the normal result; nothing is leaked, the instance and the Python solver object "
     "are as before, and the same call repeated then gives the normal result; short and interrupted reads and writes change nothing.",
     ["faults", "histories", "inputs"], "the allocation, read, write or close that fails x operations x instances",
     "Tests never fail an allocation or a read.",
     ["src/utils/parse_utils.hpp", "src/core/parsing.hpp", "src/pycft/_bindings.cpp", "src/pycft/set_cover_solver.py", "src/algorithms/Refinement.hpp", "src/main.cpp"],
     [("stream errors raised while reading", "parse_utils.hpp FileLineIterator"), ("sets added completely or not at all", "_bindings.cpp Instance.add"), ("state replaced after success only", "set_cover_solver.py"), ("output checked after close", "parsing.hpp write_solution")], ["operator new, read, write, writev and fclose replaced by counting ones which can fail"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for p in P:
    assert len(p["title"]) <= 80, p["id"]
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
