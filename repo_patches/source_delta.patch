From c71ad56312379dc51b4bc729a336e7efee8de649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 01/32] fix: accept a heuristic solution in 3-phase only if it
 beats the cutoff

(cutoff + fixed_cost) may round below best_sol.cost: with fractional costs an untouched (empty)
heuristic solution was then taken as an improvement, yielding an uncovering solution and, when it
was left empty, an endless refinement loop.
---
 src/algorithms/ThreePhase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/ThreePhase.hpp b/src/algorithms/ThreePhase.hpp
index 6f31983..9bf9ce5 100644
--- a/src/algorithms/ThreePhase.hpp
+++ b/src/algorithms/ThreePhase.hpp
@@ -61,7 +61,7 @@ public:
             sol.cost = cutoff;  // Sol get filled only if one with cost < cutoff is found
             subgrad.heuristic(env, core.inst, step_size, greedy, sol, lagr_mult);
 
-            if (sol.cost + fixing.fixed_cost < best_sol.cost) {
+            if (sol.cost < cutoff) {
                 _from_core_to_unfixed_sol(sol, core, fixing, best_sol);
                 CFT_IF_DEBUG(check_inst_solution(inst_copy, best_sol));
             }
-- 
2.43.0


From b91b77cb54b8ea3264b118413c4efc6f226b3f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 02/32] fix: remove redundant columns from greedy solution when
 the heuristic removal empties the set

The returned cost did not count the columns scheduled for removal, but they were left in the solution.
---
 src/greedy/Greedy.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/greedy/Greedy.hpp b/src/greedy/Greedy.hpp
index 0143a82..db0a281 100644
--- a/src/greedy/Greedy.hpp
+++ b/src/greedy/Greedy.hpp
@@ -120,10 +120,11 @@ private:
     }
 
     static bool _try_early_exit(RedundancyData& redund_info, std::vector<cidx_t>& sol) {
-        if (redund_info.partial_cost >= redund_info.best_cost || redund_info.redund_set.empty())
+        if (redund_info.partial_cost >= redund_info.best_cost)
             return true;  // Partial solution already worse than best cost
 
-        if (redund_info.partial_cov_count < rsize(redund_info.partial_cover))
+        if (!redund_info.redund_set.empty() &&
+            redund_info.partial_cov_count < rsize(redund_info.partial_cover))
             return false;  // Partial cover not completed yet, continue
 
         // Otherwise complete the solution removing redundant columns
-- 
2.43.0


From e179f53eec0515a33e268fbf88adc92374df0544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 03/32] fix: make the debug solution-cost check tolerance
 relative

An absolute 1e-6 aborts debug builds on valid instances with fractional or large costs.
---
 src/core/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/utils.hpp b/src/core/utils.hpp
index 6ebfb9d..71c75c4 100644
--- a/src/core/utils.hpp
+++ b/src/core/utils.hpp
@@ -28,7 +28,8 @@ inline void check_inst_solution(Instance const& inst, Solution const& sol) {
     real_t total_cost = 0.0_F;
     for (cidx_t j : sol.idxs)
         total_cost += inst.costs[j];
-    assert(abs(total_cost - sol.cost) < 1e-6_F);
+    // NOTE: the two sums might be accumulated in a different order, so the tolerance is relative
+    assert(abs(total_cost - sol.cost) <= 1e-4_F * max(1.0_F, abs(total_cost)));
 }
 #endif
 
-- 
2.43.0


From 707249c743c755427b8aed5739ee8b1dd198c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:45 +0000
Subject: [PATCH 04/32] fix: never accept a discarded greedy solution in the
 heuristic phase

When epsilon is zero (or negligible w.r.t. the costs) a greedy run that fails to beat the cutoff
returns the cutoff itself as cost and was stored as new best, with a wrong cost.
---
 src/subgradient/Subgradient.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subgradient/Subgradient.hpp b/src/subgradient/Subgradient.hpp
index 395dd0d..8981391 100644
--- a/src/subgradient/Subgradient.hpp
+++ b/src/subgradient/Subgradient.hpp
@@ -144,7 +144,7 @@ public:
             greedy_sol.idxs.clear();
             greedy_sol.cost = greedy(core_inst, lagr_mult, reduced_costs, greedy_sol.idxs, cutoff);
             print<5>(env, "HEUR> {:4}: Greedy solution {:.2f}\n", iter, best_sol.cost);
-            if (greedy_sol.cost <= best_sol.cost - env.epsilon) {
+            if (greedy_sol.cost < cutoff && greedy_sol.cost <= cutoff - env.epsilon) {
                 best_sol = greedy_sol;
                 print<4>(env, "HEUR> {:4}: Improved solution {:.2f}\n", iter, best_sol.cost);
                 CFT_IF_DEBUG(check_inst_solution(core_inst, best_sol));
-- 
2.43.0


From 9af1d27e7278b8bd6b49a60cfedc95dc1090911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:45 +0000
Subject: [PATCH 05/32] fix: tolerate rounding in the debug checks on
 subgradient bounds

The bound comparison needs a tolerance, and the relative difference of two null bounds is NaN.
---
 src/subgradient/Subgradient.hpp | 3 ++-
 src/subgradient/utils.hpp       | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/subgradient/Subgradient.hpp b/src/subgradient/Subgradient.hpp
index 8981391..beebc83 100644
--- a/src/subgradient/Subgradient.hpp
+++ b/src/subgradient/Subgradient.hpp
@@ -151,7 +151,8 @@ public:
             }
 
             if (sqr_norm < 0.999_F) {  // Squared norm is an integer
-                assert(best_core_lb <= best_sol.cost && "Optimum is above cutoff");
+                assert(best_core_lb - best_sol.cost <= 1e-4_F * max(1.0_F, best_sol.cost) &&
+                       "Optimum is above cutoff");
                 print<4>(env, "HEUR> {:4} Found optimal solution.\n", iter);
                 best_lagr_mult = lagr_mult;
                 return;
diff --git a/src/subgradient/utils.hpp b/src/subgradient/utils.hpp
index 402ad2e..5c1c95b 100644
--- a/src/subgradient/utils.hpp
+++ b/src/subgradient/utils.hpp
@@ -38,7 +38,7 @@ namespace cft { namespace local { namespace {
             if (iter == next_update_iter) {
                 next_update_iter += period;
                 real_t diff = (max_lower_bound - min_lower_bound) / abs(max_lower_bound);
-                assert(diff >= 0.0_F && "Negative difference in lower bounds");
+                assert(max_lower_bound >= min_lower_bound && "Negative difference in lower bounds");
                 if (diff > 0.01_F)
                     curr_step_size /= 2.0_F;
                 if (diff <= 0.001_F)
-- 
2.43.0


From fb8dbdbf3655138d1fc4f386a9f7a7832e01e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 06/32] fix: do not repeat the last line when reading past the
 end of a file

getline leaves the line untouched if eof was already reached (no trailing newline), so truncated
files were silently completed by parsing the last line over and over.
---
 src/utils/parse_utils.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 85eb441..f8aa182 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -130,10 +130,17 @@ struct FileLineIterator {
             throw std::invalid_argument(fmt::format("Cannot open file {}", path));
     }
 
+    // Returns an empty view when there are no more lines (see done()).
     StringView next() {
-        std::getline(in, line);
+        if (!std::getline(in, line))
+            line.clear();
         return trim(StringView(line));
     }
+
+    // True if the last call to next failed to read a line.
+    bool done() const {
+        return !in;
+    }
 };
 
 }  // namespace cft
-- 
2.43.0


From 6ab96cb719deaa8c843b3f3b813ae28acb13c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 07/32] fix: make the MPS parser terminate and stay in bounds
 on malformed files

Missing COLUMNS/RHS/BOUNDS sections looped forever, missing tokens were read out of bounds,
unknown row names were mapped to the first row, and columns without an objective entry got the
maximum representable cost instead of zero.
---
 src/core/parsing.hpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index de38c82..318e5fd 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -46,12 +46,15 @@ namespace local { namespace {
                                    std::unordered_map<std::string, ridx_t> const& rows_map) {
         // Check RHSs
         auto line_view = file_iter.next();
-        while (line_view != "BOUNDS") {
-            line_view   = trim(line_view);
+        while (line_view != "BOUNDS" && line_view != "ENDATA" && !file_iter.done()) {
             auto tokens = split(line_view);
+            if (tokens.empty()) {
+                line_view = file_iter.next();
+                continue;
+            }
             assert(tokens[0] == "rhs" || tokens[0] == "RHS");
 
-            for (size_t t = 1; t < tokens.size(); t += 2) {
+            for (size_t t = 1; t + 1 < tokens.size(); t += 2) {
                 auto row_name = tokens[t];
                 assert(rows_map.find(row_name.to_cpp_string()) != rows_map.end());
                 assert(tokens[t + 1] == "1" || tokens[t + 1] == "-1");
@@ -192,17 +195,25 @@ inline Instance parse_mps_instance(std::string const& path) {
     auto   obj_name = std::string();
     while (line_view != "COLUMNS") {
         auto tokens = split(line_view);
-        if (!tokens.empty() && tokens[0] == "N")
+        if (tokens.size() > 1 && tokens[0] == "N")
             obj_name = tokens[1].to_cpp_string();
-        if (!tokens.empty() && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L"))
+        if (tokens.size() > 1 && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L")) {
+            if (nrows == limits<ridx_t>::max())
+                throw std::out_of_range("Too many rows in MPS instance.");
             rows_map[tokens[1].to_cpp_string()] = nrows++;
+        }
         line_view = file_iter.next();
+        if (file_iter.done())
+            throw std::invalid_argument("Invalid file format: missing COLUMNS section.");
     }
 
     auto prev_col_name = std::string();
     line_view          = file_iter.next();
     inst.cols.begs.clear();
     while (line_view != "RHS") {
+        if (file_iter.done())
+            throw std::invalid_argument("Invalid file format: missing RHS section.");
+
         auto tokens = split(line_view);
         // Best effort to detect columns header line
         if (tokens.size() < 3 || (std::isdigit(tokens[2][0]) == 0 && tokens[2][0] != '-')) {
@@ -213,17 +224,21 @@ inline Instance parse_mps_instance(std::string const& path) {
         if (tokens[0] != prev_col_name) {  // new column
             prev_col_name = tokens[0].to_cpp_string();
             inst.cols.begs.push_back(csize(inst.cols.idxs));
-            inst.costs.push_back(limits<real_t>::max());
+            inst.costs.push_back(0.0_F);  // Omitted entries are zero
         }
 
+        if (tokens.size() % 2 == 0)
+            throw std::invalid_argument("Invalid file format: row name without a value.");
+
         for (size_t t = 1; t < tokens.size(); t += 2) {
             if (tokens[t] == obj_name)
                 inst.costs.back() = string_to<real_t>::parse(tokens[t + 1]);
             else {
-                auto row_name = tokens[t];
-                assert(rows_map.find(row_name.to_cpp_string()) != rows_map.end());
+                auto row_iter = rows_map.find(tokens[t].to_cpp_string());
+                if (row_iter == rows_map.end())
+                    throw std::invalid_argument("Invalid file format: unknown row name.");
                 assert(tokens[t + 1] == "1" || tokens[t + 1] == "-1");
-                inst.cols.idxs.push_back(rows_map[row_name.to_cpp_string()]);
+                inst.cols.idxs.push_back(row_iter->second);
             }
         }
 
-- 
2.43.0


From c98a6a7f41af6d80138a7b0b09313c43957278ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 08/32] fix: reject out of range row and column indexes in RAIL
 and CVRP files

A zero (RAIL) or negative (CVRP) row index, or a wrong column index in the initial solution, led to
out of bounds accesses.
---
 src/core/parsing.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 318e5fd..8ad5c41 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -129,7 +129,7 @@ inline Instance parse_rail_instance(std::string const& path) {
 
         for (ridx_t n = 0_R; n < j_nrows; n++) {
             inst.cols.idxs.push_back(string_to<ridx_t>::parse(tokens[n]) - 1_R);
-            if (inst.cols.idxs.back() >= num.rows)
+            if (inst.cols.idxs.back() < 0_R || inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
         }
         inst.cols.begs.push_back(csize(inst.cols.idxs));
@@ -160,7 +160,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
 
         while (!line_view.empty()) {
             fdata.inst.cols.idxs.push_back(string_to<ridx_t>::consume(line_view));
-            if (fdata.inst.cols.idxs.back() >= num.rows)
+            if (fdata.inst.cols.idxs.back() < 0_R || fdata.inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         }
         fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
@@ -169,6 +169,8 @@ inline FileData parse_cvrp_instance(std::string const& path) {
     line_view = file_iter.next();
     while (!line_view.empty()) {
         cidx_t j = string_to<cidx_t>::consume(line_view);
+        if (j < 0_C || j >= num.cols)
+            throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         fdata.init_sol.idxs.push_back(j);
         fdata.init_sol.cost += fdata.inst.costs[j];
     }
-- 
2.43.0


From 8f9361dc509735ce5ce021bdca80d984bc6a3b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 09/32] fix: drop repeated row indexes from parsed columns

A column listing a row twice was considered redundant because of itself, and its score counters were
decremented twice, leading to uncovered rows or endless loops.
---
 src/core/Instance.hpp | 24 ++++++++++++++++++++++++
 src/core/parsing.hpp  |  4 ++++
 2 files changed, 28 insertions(+)

diff --git a/src/core/Instance.hpp b/src/core/Instance.hpp
index 07eee2c..8bf92a2 100644
--- a/src/core/Instance.hpp
+++ b/src/core/Instance.hpp
@@ -56,6 +56,30 @@ inline void col_and_rows_check(SparseBinMat<ridx_t> const&             cols,
 
 #endif
 
+// Sets are made of distinct elements: drops the repeated row indexes of each column. A column would
+// otherwise be considered redundant because of itself.
+inline void remove_repeated_rows(SparseBinMat<ridx_t>& cols  // inout
+) {
+    auto   last_seen = std::vector<size_t>();  // For each row, 1 + last column where it was found
+    size_t w         = 0;
+    size_t beg       = 0;
+    for (size_t j = 0; j < cols.size(); ++j) {
+        size_t end = cols.begs[j + 1];
+        for (size_t r = beg; r < end; ++r) {
+            auto i = checked_cast<size_t>(cols.idxs[r]);
+            if (i >= last_seen.size())
+                last_seen.resize(i + 1, 0);
+            if (last_seen[i] == j + 1)
+                continue;
+            last_seen[i]   = j + 1;
+            cols.idxs[w++] = cols.idxs[r];
+        }
+        beg              = end;
+        cols.begs[j + 1] = w;
+    }
+    cols.idxs.resize(w);
+}
+
 // Completes instance initialization by creating rows
 inline void fill_rows_from_cols(SparseBinMat<ridx_t> const&       cols,   // in
                                 ridx_t                            nrows,  // in
diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 8ad5c41..0a76a5e 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -109,6 +109,7 @@ inline Instance parse_scp_instance(std::string const& path) {
     for (auto& col : cols)
         inst.cols.push_back(col);
 
+    remove_repeated_rows(inst.cols);
     fill_rows_from_cols(inst.cols, num.rows, inst.rows);
     return inst;
 }
@@ -135,6 +136,7 @@ inline Instance parse_rail_instance(std::string const& path) {
         inst.cols.begs.push_back(csize(inst.cols.idxs));
     }
 
+    remove_repeated_rows(inst.cols);
     fill_rows_from_cols(inst.cols, num.rows, inst.rows);
     return inst;
 }
@@ -175,6 +177,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
         fdata.init_sol.cost += fdata.inst.costs[j];
     }
 
+    remove_repeated_rows(fdata.inst.cols);
     fill_rows_from_cols(fdata.inst.cols, num.rows, fdata.inst.rows);
     return fdata;
 }
@@ -249,6 +252,7 @@ inline Instance parse_mps_instance(std::string const& path) {
     inst.cols.begs.push_back(csize(inst.cols.idxs));
 
     CFT_IF_DEBUG(local::mps_epilogue_check(file_iter, rows_map));
+    remove_repeated_rows(inst.cols);
     fill_rows_from_cols(inst.cols, nrows, inst.rows);
     return inst;
 }
-- 
2.43.0


From d12ce4df2a717148d1751dc1faa821efc7041a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 10/32] fix: report failures while writing the solution file

A full device or any other write error was ignored and the program exited successfully.
---
 src/core/parsing.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 0a76a5e..f2b64b3 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -277,6 +277,8 @@ inline void write_solution(std::string const& path, Solution const& sol) {
     for (cidx_t j : sol.idxs)
         fmt::print(file, " {}", j);
     file.close();
+    if (!file)
+        throw std::runtime_error("Failed to write file: " + path);
 }
 
 inline FileData parse_inst_and_initsol(Environment const& env) {
-- 
2.43.0


From 4644b5d49d660e2cffc73aac995136ab821b6dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 11/32] fix: do not narrow the number of nonzeros to the column
 index type

An instance whose columns fit the (user selectable) column index type may well have more nonzeros
than that: reserving the rows then failed with a length error.
---
 src/core/Instance.hpp |  2 +-
 src/core/parsing.hpp  | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/Instance.hpp b/src/core/Instance.hpp
index 8bf92a2..100009b 100644
--- a/src/core/Instance.hpp
+++ b/src/core/Instance.hpp
@@ -88,7 +88,7 @@ inline void fill_rows_from_cols(SparseBinMat<ridx_t> const&       cols,   // in
     rows.resize(nrows);
     for (auto& row : rows) {
         row.clear();
-        row.reserve(csize(cols.idxs) / as_cidx(nrows));
+        row.reserve(cols.idxs.size() / rows.size());
     }
 
     for (cidx_t j = 0_C; j < csize(cols); ++j)
diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index f2b64b3..ce48846 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -102,7 +102,7 @@ inline Instance parse_scp_instance(std::string const& path) {
     for (auto const& col : cols) {
         for (ridx_t i : col)
             inst.cols.idxs.push_back(i);
-        inst.cols.begs.push_back(csize(inst.cols.idxs));
+        inst.cols.begs.push_back(inst.cols.idxs.size());
     }
 
     inst.cols = SparseBinMat<ridx_t>();
@@ -133,7 +133,7 @@ inline Instance parse_rail_instance(std::string const& path) {
             if (inst.cols.idxs.back() < 0_R || inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
         }
-        inst.cols.begs.push_back(csize(inst.cols.idxs));
+        inst.cols.begs.push_back(inst.cols.idxs.size());
     }
 
     remove_repeated_rows(inst.cols);
@@ -165,7 +165,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
             if (fdata.inst.cols.idxs.back() < 0_R || fdata.inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         }
-        fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
+        fdata.inst.cols.begs.push_back(fdata.inst.cols.idxs.size());
     }
 
     line_view = file_iter.next();
@@ -228,7 +228,7 @@ inline Instance parse_mps_instance(std::string const& path) {
 
         if (tokens[0] != prev_col_name) {  // new column
             prev_col_name = tokens[0].to_cpp_string();
-            inst.cols.begs.push_back(csize(inst.cols.idxs));
+            inst.cols.begs.push_back(inst.cols.idxs.size());
             inst.costs.push_back(0.0_F);  // Omitted entries are zero
         }
 
@@ -249,7 +249,7 @@ inline Instance parse_mps_instance(std::string const& path) {
 
         line_view = file_iter.next();
     }
-    inst.cols.begs.push_back(csize(inst.cols.idxs));
+    inst.cols.begs.push_back(inst.cols.idxs.size());
 
     CFT_IF_DEBUG(local::mps_epilogue_check(file_iter, rows_map));
     remove_repeated_rows(inst.cols);
-- 
2.43.0


From a5addd86192832b3b9e7be2e1d2178c843d331c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 12/32] fix: reject integers not representable by the 64 bit
 parsing type

Underflowing integers were silently clamped, and negative values wrapped around when parsed as
unsigned (e.g., --heur-iters -1).
---
 src/utils/parse_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index f8aa182..9ff5527 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -94,10 +94,10 @@ struct string_to {
             oo_range = !std::isfinite(val);
         } else if (std::is_signed<val_t>::value) {
             val      = std::strtoll(str.data(), &end, 10);
-            oo_range = val == limits<val_t>::max() && errno == ERANGE;
+            oo_range = errno == ERANGE;
         } else {  // unsigned
             val      = std::strtoull(str.data(), &end, 10);
-            oo_range = val == limits<val_t>::max() && errno == ERANGE;
+            oo_range = errno == ERANGE || (val != 0 && ltrim(str)[0] == '-');  // "-1" is wrapped
         }
 
         if (oo_range || val < limits<val_t>::min() || limits<val_t>::max() < val)
-- 
2.43.0


From c23d1160137051feb383190be8fca48f08eeb4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 13/32] fix: reject uncoverable rows and invalid initial
 solutions when loading an instance

Rows not covered by any column made the solver loop forever or read out of bounds. The initial
solution was trusted blindly in release builds: wrong indexes were used to access the instance, and
a wrong cost or an uncovered row ended up in the final solution.
---
 src/core/parsing.hpp | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index ce48846..f031d77 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -19,10 +19,6 @@
 #include "utils/parse_utils.hpp"
 #include "utils/print.hpp"
 
-#ifndef NDEBUG
-#include "core/utils.hpp"
-#endif
-
 namespace cft {
 
 namespace local { namespace {
@@ -281,6 +277,35 @@ inline void write_solution(std::string const& path, Solution const& sol) {
         throw std::runtime_error("Failed to write file: " + path);
 }
 
+namespace local { namespace {
+    inline void check_feasible_instance(Instance const& inst) {
+        for (auto const& row : inst.rows)
+            if (row.empty())
+                throw std::invalid_argument("Infeasible instance: a row is not in any column.");
+    }
+
+    // Solution files might come from anywhere: check the solution and recompute its cost.
+    inline void check_and_fix_init_sol(Instance const& inst,  // in
+                                       Solution&       sol    // inout
+    ) {
+        auto selected = std::vector<bool>(inst.cols.size(), false);
+        auto covered  = std::vector<bool>(inst.rows.size(), false);
+        sol.cost      = 0.0_F;
+        for (cidx_t j : sol.idxs) {
+            if (j < 0_C || j >= csize(inst.cols) || selected[j])
+                throw std::invalid_argument("Invalid column index in the initial solution.");
+            selected[j] = true;
+            for (ridx_t i : inst.cols[j])
+                covered[i] = true;
+            sol.cost += inst.costs[j];
+        }
+        for (bool is_covered : covered)
+            if (!is_covered)
+                throw std::invalid_argument("The initial solution does not cover all the rows.");
+    }
+}  // namespace
+}  // namespace local
+
 inline FileData parse_inst_and_initsol(Environment const& env) {
     auto fdata = FileData();
 
@@ -305,10 +330,13 @@ inline FileData parse_inst_and_initsol(Environment const& env) {
         throw std::runtime_error("Parser does not exists.");
     }
 
-    if (!env.initsol_path.empty()) {
+    local::check_feasible_instance(fdata.inst);
+
+    if (!env.initsol_path.empty())
         fdata.init_sol = parse_solution(env.initsol_path);
-        CFT_IF_DEBUG(check_inst_solution(fdata.inst, fdata.init_sol));
-    }
+
+    if (!fdata.init_sol.idxs.empty())
+        local::check_and_fix_init_sol(fdata.inst, fdata.init_sol);
 
     if (env.use_unit_costs) {
         fdata.inst.costs.assign(csize(fdata.inst.costs), 1.0_F);
-- 
2.43.0


From b81432cffaeaf294802a98acacec65537de19d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 14/32] fix: return the empty solution for instances without
 rows

The maximum representable cost was reported instead of zero.
---
 src/algorithms/Refinement.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithms/Refinement.hpp b/src/algorithms/Refinement.hpp
index 7997b70..5b830be 100644
--- a/src/algorithms/Refinement.hpp
+++ b/src/algorithms/Refinement.hpp
@@ -96,6 +96,9 @@ inline CftResult run(Environment const& env,                // in
     cidx_t const ncols = csize(orig_inst.cols);
     ridx_t const nrows = rsize(orig_inst.rows);
 
+    if (nrows == 0_R)  // Nothing to cover
+        return {Solution{{}, 0.0_F}, DualState{{}, 0.0_F}};
+
     auto inst       = orig_inst;
     auto nofix_dual = DualState();
     auto best_sol   = Solution();
-- 
2.43.0


From 554c87faacd335b51677eb1aff38d12724d452e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 15/32] fix: make the seed set from Python seed the random
 number generator

---
 src/pycft/_bindings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index eb92987..5cb1b9b 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -66,7 +66,10 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("sol_path", &Environment::sol_path)
         .def_readwrite("initsol_path", &Environment::initsol_path)
         .def_readwrite("parser", &Environment::parser)
-        .def_readwrite("seed", &Environment::seed)
+        .def_property(
+            "seed",
+            [](Environment const& a) { return a.seed; },
+            [](Environment& a, uint64_t seed) { a.rnd = prng_t(a.seed = seed); })
         .def_readwrite("time_limit", &Environment::time_limit)
         .def_readwrite("verbose", &Environment::verbose)
         .def_readwrite("epsilon", &Environment::epsilon)
-- 
2.43.0


From a3c5bce3cb15925005229ce4f785a7b0bfa03c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 16/32] fix: expose the dual multipliers with the name used by
 get_dual_multipliers

---
 src/pycft/_bindings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index 5cb1b9b..5be6796 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -160,6 +160,8 @@ PYBIND11_MODULE(_bindings, m) {
         .def(py::init<>())
         .def_readwrite("idxs", &DualState::mults)
         .def_readwrite("cost", &DualState::lb)
+        .def_readwrite("mults", &DualState::mults)
+        .def_readwrite("lb", &DualState::lb)
         .def("copy", [](DualState const& a) { return a; })
         .def("__repr__", [](DualState const& a) {
             return fmt::format("DualState(mults={}, lb={})", a.mults, a.lb);
-- 
2.43.0


From a462b12d96125c9602696d9e409d88ade9f522a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 17/32] fix: keep the Python instance consistent when adding
 invalid or repeated items

A rejected set left a dangling column, or discarded the current solution; repeated items made a set
redundant because of itself; non-finite costs and (through the bindings) negative items were accepted.
---
 src/pycft/_bindings.cpp       | 12 +++++++++---
 src/pycft/set_cover_solver.py |  8 +++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index 5be6796..75e3719 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -124,9 +124,15 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("costs", &Instance::costs)
         .def("add",
              [](Instance& self, std::vector<ridx_t> const& col, real_t cost) {
-                 self.cols.push_back(col);
-                 if (cost < 0.0)
-                     throw std::runtime_error("Costs must be non-negative.");
+                 if (!(cost >= 0.0_F && cost <= limits<real_t>::max()))
+                     throw std::runtime_error("Costs must be non-negative and finite.");
+                 auto new_col = SparseBinMat<ridx_t>();
+                 for (ridx_t i : col)
+                     if (i < 0_R)
+                         throw std::runtime_error("Items must be zero-indexed.");
+                 new_col.push_back(col);
+                 remove_repeated_rows(new_col);
+                 self.cols.push_back(new_col.idxs);
                  self.costs.push_back(cost);
                  return self.costs.size() - 1;
              })
diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index d47876e..e76e503 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -61,13 +61,11 @@ class SetCoverSolver:
         if not all(0 <= e for e in elements):
             raise ValueError("Elements must be zero-indexed.")
         max_element = max(elements)
+        self._instance.add(elements, cost)
         if max_element > self._max_element:
+            # in case there is a new element, the solution is no longer valid
+            self._result = None
             self._max_element = max_element
-            self._result = (
-                None  # in case there is a new element, the solution is no longer
-            )
-            # valid
-        self._instance.add(elements, cost)
         self._initialized = False
         return len(self._instance.costs) - 1
 
-- 
2.43.0


From fa3249a04967d27a5799c65c6f067e3dee60609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 18/32] fix: make SetCoverSolver.from_file work

It always raised, accessing an attribute of the still missing result.
---
 src/pycft/set_cover_solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index e76e503..0691e76 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -80,9 +80,11 @@ class SetCoverSolver:
         env.parser = parser
         fdata = parse_inst_and_initsol(env)
         self._instance = fdata.inst.copy()
-        self._result.solution = fdata.init_sol.copy()
-        print(self._result)
-        self.num_elements = len(self._instance.costs)
+        self._max_element = len(self._instance.rows) - 1
+        self._result = None
+        if fdata.init_sol.idxs:
+            self._result = CftResult()
+            self._result.sol = fdata.init_sol.copy()
         self._initialized = True  # a file is always considered initialized
 
     def solve(
-- 
2.43.0


From 48870bccff63a2319269fe95b187ed3ea13c89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 19/32] fix: return the elements of a SparseBinMat column to
 Python

The returned span type is unknown to Python, and the index was not checked. Also CftResult printed
the cost in place of the selected columns.
---
 src/pycft/_bindings.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index 75e3719..90ce2a5 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -105,7 +105,13 @@ PYBIND11_MODULE(_bindings, m) {
         .def(py::init<>())
         .def_readwrite("idxs", &SparseBinMat<ridx_t>::idxs)
         .def_readwrite("begs", &SparseBinMat<ridx_t>::begs)
-        .def("__getitem__", [](SparseBinMat<ridx_t>& self, std::size_t i) { return self[i]; })
+        .def("__getitem__",
+             [](SparseBinMat<ridx_t> const& self, std::size_t i) {
+                 if (i >= self.size())
+                     throw py::index_error();
+                 auto elem = self[i];
+                 return std::vector<ridx_t>(elem.begin(), elem.end());
+             })
         .def("__len__", &SparseBinMat<ridx_t>::size)
         .def("__repr__",
              [](SparseBinMat<ridx_t> const& a) {
@@ -147,7 +153,7 @@ PYBIND11_MODULE(_bindings, m) {
         .def("copy", [](CftResult const& a) { return a; })
         .def("__repr__", [](CftResult const& a) {
             return fmt::format("CftResult(sol=({},{}), dual=({},{}))",
-                               a.sol.cost,
+                               a.sol.idxs,
                                a.sol.cost,
                                a.dual.mults,
                                a.dual.lb);
-- 
2.43.0


From 3f156cd3b1801a1b54cf1c075ef70a9c2e47957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 20/32] fix: support the documented use_unit_costs parameter of
 SetCoverSolver.solve

---
 src/pycft/set_cover_solver.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index 0691e76..5f4c0ed 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -51,6 +51,7 @@ class SetCoverSolver:
         self._instance = Instance()
         self._initialized = False
         self._max_element = -1
+        self._unit_costs = False  # True if the current result comes from unit costs
 
     def add_set(self, elements: list[int], cost: float) -> int:
         """
@@ -83,6 +84,7 @@ class SetCoverSolver:
         self._max_element = len(self._instance.rows) - 1
         self._result = None
         if fdata.init_sol.idxs:
+            self._unit_costs = False
             self._result = CftResult()
             self._result.sol = fdata.init_sol.copy()
         self._initialized = True  # a file is always considered initialized
@@ -99,6 +101,7 @@ class SetCoverSolver:
         abs_subgrad_exit: float = 1.0,
         rel_subgrad_exit: float = 0.001,
         min_fixing=0.3,
+        use_unit_costs: bool = False,
     ) -> None:
         """
         Solves the set cover problem using the specified parameters.
@@ -133,8 +136,16 @@ class SetCoverSolver:
             self._instance.rows.clear()
             self._instance.prepare()
             self._initialized = True
-        init_sol = Solution() if self._result is None else self._result.sol
-        self._result = run(env, self._instance, init_sol).copy()
+        inst = self._instance
+        if use_unit_costs:
+            inst = self._instance.copy()
+            inst.costs = [1.0] * len(self._instance.costs)
+        init_sol = Solution() if self._result is None else self._result.sol.copy()
+        if use_unit_costs or self._unit_costs:
+            costs = inst.costs
+            init_sol.cost = sum(costs[j] for j in init_sol.idxs)
+        self._unit_costs = use_unit_costs
+        self._result = run(env, inst, init_sol).copy()
 
     def get_solution(self) -> list[int] | None:
         """
-- 
2.43.0


From b985b44bda8ecaa147b3752038409916f47f2920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 21/32] fix: exclude the upper bound from the range of rnd_real

The result was rounded up to the upper bound for some generator outputs (e.g., within [0.9, 1.1)).
---
 src/utils/random.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/random.hpp b/src/utils/random.hpp
index dde8aaf..392d194 100644
--- a/src/utils/random.hpp
+++ b/src/utils/random.hpp
@@ -80,7 +80,8 @@ inline FlT canonical_gen(RndT& rnd) {
 // Generate a random real number in the [min, max) range
 template <typename FlT, typename RndT>
 inline FlT rnd_real(RndT& rnd, FlT min, FlT max) {
-    return min + (max - min) * canonical_gen<FlT>(rnd);
+    FlT result = min + (max - min) * canonical_gen<FlT>(rnd);
+    return result < max ? result : min;  // The sum above might be rounded up to max
 }
 
 // Generate a random integer in the [min, max] range
-- 
2.43.0


From d88410c16b2535697c737ee86dc73c88f78866d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 22/32] fix: never flip to true with null probability

---
 src/utils/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/random.hpp b/src/utils/random.hpp
index 392d194..9efdf6f 100644
--- a/src/utils/random.hpp
+++ b/src/utils/random.hpp
@@ -100,7 +100,7 @@ inline IntT roll_dice(RndT& rnd, IntT min, IntT max) {
 template <typename RndT>
 inline bool coin_flip(RndT& rnd, double true_prob = 0.5) {
     assert(0 <= true_prob && true_prob <= 1);
-    return canonical_gen<double>(rnd) <= true_prob;
+    return canonical_gen<double>(rnd) < true_prob;
 }
 
 }  // namespace cft
-- 
2.43.0


From b7b0c96ee31f8bd582b2810fddd36838d8178109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:43 +0000
Subject: [PATCH 23/32] fix: reset the fixing data when refinement does not fix
 any column

---
 src/algorithms/Refinement.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/Refinement.hpp b/src/algorithms/Refinement.hpp
index 5b830be..64c7d9d 100644
--- a/src/algorithms/Refinement.hpp
+++ b/src/algorithms/Refinement.hpp
@@ -131,10 +131,9 @@ inline CftResult run(Environment const& env,                // in
 
         inst             = orig_inst;
         auto cols_to_fix = select_cols_to_fix(env, inst, nofix_dual.mults, best_sol);
-        if (!cols_to_fix.empty()) {
-            make_identity_fixing_data(ncols, nrows, fixing);
+        make_identity_fixing_data(ncols, nrows, fixing);
+        if (!cols_to_fix.empty())
             fix_columns_and_compute_maps(cols_to_fix, inst, fixing, old2new);
-        }
         real_t nrows_real = as_real(rsize(orig_inst.rows));
         real_t free_perc  = as_real(rsize(inst.rows)) * 100.0_F / nrows_real;
         print<2>(env,
-- 
2.43.0


From ac550958a601e91ae9f8ff9c49e9abcfa4058f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 24/32] fix: do not narrow five times the number of rows to the
 index types

---
 src/algorithms/ThreePhase.hpp | 4 ++--
 src/subgradient/Pricer.hpp    | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/algorithms/ThreePhase.hpp b/src/algorithms/ThreePhase.hpp
index 9bf9ce5..e096553 100644
--- a/src/algorithms/ThreePhase.hpp
+++ b/src/algorithms/ThreePhase.hpp
@@ -153,14 +153,14 @@ private:
     static void _build_tentative_core_instance(Instance const& inst,      // in
                                                InstAndMap&     core_inst  // out
     ) {
-        static constexpr cidx_t min_row_coverage = 5_C;
+        static constexpr size_t min_row_coverage = 5ULL;
         ridx_t const            nrows            = rsize(inst.rows);
 
         clear_inst(core_inst.inst);
         core_inst.col_map.clear();
 
         // Select the first n columns of each row (there might be duplicates)
-        core_inst.col_map.reserve(checked_cast<size_t>(as_cidx(nrows) * min_row_coverage));
+        core_inst.col_map.reserve(inst.rows.size() * min_row_coverage);
         for (auto const& row : inst.rows)
             for (size_t n = 0; n < min(row.size(), min_row_coverage); ++n) {
                 cidx_t j = row[n];  // column covering row i
diff --git a/src/subgradient/Pricer.hpp b/src/subgradient/Pricer.hpp
index 0ac4d11..5f82a19 100644
--- a/src/subgradient/Pricer.hpp
+++ b/src/subgradient/Pricer.hpp
@@ -75,9 +75,10 @@ private:
             if (reduced_costs[j] < 0.1_F)
                 idxs.push_back(j);
 
-        cidx_t const maxsize = as_cidx(5_R * rsize(inst.rows));
-        if (csize(idxs) > maxsize) {
-            cft::nth_element(idxs, maxsize - 1_C, [&](cidx_t i) { return reduced_costs[i]; });
+        // NOTE: 5 * nrows might not be representable by the index types
+        size_t const maxsize = 5ULL * inst.rows.size();
+        if (idxs.size() > maxsize) {
+            cft::nth_element(idxs, maxsize - 1ULL, [&](cidx_t i) { return reduced_costs[i]; });
             idxs.resize(maxsize);
         }
 
-- 
2.43.0


From b9be1ee34eb05cffa715874c0dd863fa9c1e5c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 25/32] fix: check the row indexes of RAIL files before
 shifting them

---
 src/core/parsing.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index f031d77..71c4f3a 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -125,9 +125,10 @@ inline Instance parse_rail_instance(std::string const& path) {
             throw std::invalid_argument("Invalid file format: not a RAIL instance?");
 
         for (ridx_t n = 0_R; n < j_nrows; n++) {
-            inst.cols.idxs.push_back(string_to<ridx_t>::parse(tokens[n]) - 1_R);
-            if (inst.cols.idxs.back() < 0_R || inst.cols.idxs.back() >= num.rows)
+            ridx_t ridx = string_to<ridx_t>::parse(tokens[n]);
+            if (ridx <= 0_R || num.rows < ridx)
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
+            inst.cols.idxs.push_back(ridx - 1_R);
         }
         inst.cols.begs.push_back(inst.cols.idxs.size());
     }
-- 
2.43.0


From 840b8e03da92f75254ac02227db228374768b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 26/32] fix: rtrim of blank strings returned a view past their
 end

---
 src/utils/parse_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 9ff5527..2e89450 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -38,9 +38,9 @@ inline StringView ltrim(StringView str) {
 }
 
 inline StringView rtrim(StringView str) {
-    if (str.empty())
-        return str;
     size_t suffix = str.find_last_true(NotSpace{});
+    if (suffix == str.size())  // Only spaces
+        return str.remove_suffix(0);
     return str.remove_suffix(suffix + 1);
 }
 
-- 
2.43.0


From 34e72240bc3a11aab620562aea776d00669783dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 27/32] fix: the log line of the greedy solution showed the
 incumbent's cost

---
 src/subgradient/Subgradient.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subgradient/Subgradient.hpp b/src/subgradient/Subgradient.hpp
index beebc83..7024dbd 100644
--- a/src/subgradient/Subgradient.hpp
+++ b/src/subgradient/Subgradient.hpp
@@ -143,7 +143,7 @@ public:
 
             greedy_sol.idxs.clear();
             greedy_sol.cost = greedy(core_inst, lagr_mult, reduced_costs, greedy_sol.idxs, cutoff);
-            print<5>(env, "HEUR> {:4}: Greedy solution {:.2f}\n", iter, best_sol.cost);
+            print<5>(env, "HEUR> {:4}: Greedy solution {:.2f}\n", iter, greedy_sol.cost);
             if (greedy_sol.cost < cutoff && greedy_sol.cost <= cutoff - env.epsilon) {
                 best_sol = greedy_sol;
                 print<4>(env, "HEUR> {:4}: Improved solution {:.2f}\n", iter, best_sol.cost);
-- 
2.43.0


From c8d10f85ee2773b528e79769a5be0dd4be9e2e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 28/32] fix: pricing an empty instance left a stale core behind

---
 src/subgradient/Pricer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/subgradient/Pricer.hpp b/src/subgradient/Pricer.hpp
index 5f82a19..69d1565 100644
--- a/src/subgradient/Pricer.hpp
+++ b/src/subgradient/Pricer.hpp
@@ -31,8 +31,10 @@ public:
         cidx_t const ncols = csize(inst.cols);
 
         assert(nrows == rsize(lagr_mult));
-        if (nrows == 0_R || ncols == 0_C)
+        if (nrows == 0_R || ncols == 0_C) {
+            core = InstAndMap();  // Nothing to select
             return 0.0_F;
+        }
 
         core.col_map.clear();
         taken_idxs.assign(ncols, false);
-- 
2.43.0


From 2276ff34a35cdb4c08881f2b05783909170ee029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 29/32] fix: a failed read of an instance file was taken for
 its end

---
 src/utils/parse_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 2e89450..c7a3ecb 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -122,12 +122,14 @@ struct FileLineIterator {
         : in(path) {
         if (!in.is_open())
             throw std::invalid_argument(fmt::format("Cannot open file {}", path));
+        in.exceptions(std::ios::badbit);  // A failed read is not the end of the file
     }
 
     explicit FileLineIterator(char const* path)
         : in(path) {
         if (!in.is_open())
             throw std::invalid_argument(fmt::format("Cannot open file {}", path));
+        in.exceptions(std::ios::badbit);  // A failed read is not the end of the file
     }
 
     // Returns an empty view when there are no more lines (see done()).
-- 
2.43.0


From 8a96aff1413093b9b04561a6d4e947f30cd5bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 30/32] fix: a set refused for lack of memory was half added

---
 src/pycft/_bindings.cpp       | 14 +++++++++++---
 src/pycft/set_cover_solver.py |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index 90ce2a5..e774225 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -138,9 +138,17 @@ PYBIND11_MODULE(_bindings, m) {
                          throw std::runtime_error("Items must be zero-indexed.");
                  new_col.push_back(col);
                  remove_repeated_rows(new_col);
-                 self.cols.push_back(new_col.idxs);
-                 self.costs.push_back(cost);
-                 return self.costs.size() - 1;
+                 size_t ncols = self.costs.size();
+                 size_t nnz   = self.cols.idxs.size();
+                 try {
+                     self.costs.push_back(cost);
+                     self.cols.push_back(new_col.idxs);
+                 } catch (...) {  // All or nothing
+                     self.costs.resize(ncols);
+                     self.cols.idxs.resize(nnz);
+                     throw;
+                 }
+                 return ncols;
              })
         .def("copy", [](Instance const& a) { return a; })
         .def("prepare", [](Instance& self) { ::local::check_and_fill_instance(self); });
diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index 5f4c0ed..b2de548 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -62,13 +62,13 @@ class SetCoverSolver:
         if not all(0 <= e for e in elements):
             raise ValueError("Elements must be zero-indexed.")
         max_element = max(elements)
-        self._instance.add(elements, cost)
+        index = self._instance.add(elements, cost)
         if max_element > self._max_element:
             # in case there is a new element, the solution is no longer valid
             self._result = None
             self._max_element = max_element
         self._initialized = False
-        return len(self._instance.costs) - 1
+        return index
 
     def from_file(self, filename: str | Path, parser: str = "RAIL") -> None:
         """
-- 
2.43.0


From db6a1db5ba77aa0cec5a0b2486488852e65707fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 31/32] fix: a failed solve in the other cost mode mislabelled
 the kept result

---
 src/pycft/set_cover_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index b2de548..0a932c4 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -144,8 +144,8 @@ class SetCoverSolver:
         if use_unit_costs or self._unit_costs:
             costs = inst.costs
             init_sol.cost = sum(costs[j] for j in init_sol.idxs)
-        self._unit_costs = use_unit_costs
         self._result = run(env, inst, init_sol).copy()
+        self._unit_costs = use_unit_costs
 
     def get_solution(self) -> list[int] | None:
         """
-- 
2.43.0


From a73be62f9884af3e370dfd801b84a9133638d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 32/32] fix: a file load failing halfway left a mixed solver
 object

---
 src/pycft/set_cover_solver.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index 0a932c4..3232c44 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -80,13 +80,17 @@ class SetCoverSolver:
         env.inst_path = str(filename)
         env.parser = parser
         fdata = parse_inst_and_initsol(env)
-        self._instance = fdata.inst.copy()
-        self._max_element = len(self._instance.rows) - 1
-        self._result = None
+        instance = fdata.inst.copy()
+        max_element = len(instance.rows) - 1
+        result = None
         if fdata.init_sol.idxs:
-            self._unit_costs = False
-            self._result = CftResult()
-            self._result.sol = fdata.init_sol.copy()
+            result = CftResult()
+            result.sol = fdata.init_sol.copy()
+        # Nothing can fail from here on
+        self._instance = instance
+        self._max_element = max_element
+        self._result = result
+        self._unit_costs = False
         self._initialized = True  # a file is always considered initialized
 
     def solve(
-- 
2.43.0

