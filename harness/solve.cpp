// Whole-solver monitors: C01 (cover), C02 (cost), C03 (bound), C04 (warm start), C22 (refinement vs 3-phase),
// C23 (termination). Every mode drives the real cft::run / cft::ThreePhase on generated instances and judges what
// they return with oracles that use only the plain instance.
#include "vcase.hpp"
#include <cstdio>
#include <fcntl.h>
#include <sys/stat.h>

using namespace vc;

static void mode_c01(uint64_t k, vh::Rec& rec) {
    Case c    = make_case(k, rec, 0.15);
    auto inst = mk(c.p);
    auto copy = inst;
    auto env  = c.q.env();
    Solution warm;
    if (c.r.chance(0.3)) warm = mk_sol(c.p, some_cover(c.p, c.r));
    if (c.r.chance(0.08)) env.time_limit = 0.0;
    auto res = cft::run(env, inst, warm);
    auto m   = check_cover(c.p, res.sol.idxs);
    if (!m.empty()) rec.viol("run", "run: " + m + "; " + sol_str(res.sol));
    m = same_inst(inst, copy);
    if (!m.empty()) rec.viol("input", "run modified the instance: " + m);
    auto env2  = c.q.env();
    auto inst2 = copy;
    auto r3    = cft::ThreePhase()(env2, inst2);
    m          = check_cover(c.p, r3.sol.idxs);
    if (!m.empty()) rec.viol("3phase", "3-phase: " + m + "; " + sol_str(r3.sol));
    if (res.sol.idxs != r3.sol.idxs) rec.count("refined_solutions");
    rec.count(warm.idxs.empty() ? "cold" : "warm");
    note(rec, c, res);
}

static void mode_c02(uint64_t k, vh::Rec& rec) {
    Case     c    = make_case(k, rec, 0.1);
    auto     inst = mk(c.p);
    auto     env  = c.q.env();
    Solution warm;
    if (c.r.chance(0.3)) warm = mk_sol(c.p, some_cover(c.p, c.r));
    auto   res = cft::run(env, inst, warm);
    double sum;
    auto   bad_idx = [&](std::vector<cidx_t> const& x) {
        for (auto j : x) if (native_cast(j) < 0 || (long long)native_cast(j) >= c.p.ncols()) return true;
        return false;
    };
    if (bad_idx(res.sol.idxs)) rec.viol("run", "run: column out of range; " + sol_str(res.sol));
    else if (!cost_ok(c.p, res.sol, &sum)) rec.viol("run", vh::fmtv("run: reported cost %.9g, columns sum to %.9g", double(native_cast(res.sol.cost)), sum));
    auto env2  = c.q.env();
    auto inst2 = inst;
    auto r3    = cft::ThreePhase()(env2, inst2);
    if (bad_idx(r3.sol.idxs)) rec.viol("3phase", "3-phase: column out of range; " + sol_str(r3.sol));
    else if (!cost_ok(c.p, r3.sol, &sum)) rec.viol("3phase", vh::fmtv("3-phase: reported cost %.9g, columns sum to %.9g", double(native_cast(r3.sol.cost)), sum));
    // greedy stage, complete and with partial selections and cutoffs
    Greedy greedy;
    for (int t = 0; t < 3; ++t) {
        std::vector<real_t> mult(size_t(c.p.nrows), as_real(0.0)), red;
        if (t) for (auto& u : mult) u = as_real(c.r.unit() * c.p.costs[size_t(c.r.range(0, c.p.ncols() - 1))]);
        compute_reduced_costs(inst, mult, red);
        Solution s;
        if (t == 2) {
            for (int x = int(c.r.range(0, 4)); x > 0; --x) {
                auto j = as_cidx(c.r.range(0, c.p.ncols() - 1));
                if (std::find(s.idxs.begin(), s.idxs.end(), j) == s.idxs.end()) s.idxs.push_back(j);
            }
            if (check_cover(c.p, s.idxs).empty()) continue;  // complete already
        }
        real_t cut = t == 1 && c.r.chance(0.5) ? as_real(double(native_cast(res.sol.cost)) * (0.9 + 0.5 * c.r.unit())) : limits<real_t>::max();
        s.cost     = greedy(inst, mult, red, s.idxs, cut);
        if (!(s.cost < cut)) { rec.count("greedy_discarded"); continue; }
        rec.count("greedy_solutions");
        if (bad_idx(s.idxs)) rec.viol("greedy", "greedy: column out of range; " + sol_str(s));
        else if (!cost_ok(c.p, s, &sum)) rec.viol("greedy", vh::fmtv("greedy: reported cost %.9g, columns sum to %.9g", double(native_cast(s.cost)), sum));
    }
    if (c.p.intcost) rec.count("integer_costs");
    note(rec, c, res);
}

static void mode_c03(uint64_t k, vh::Rec& rec) {
    Case c    = make_case(k, rec, 0.4);
    auto inst = mk(c.p);
    auto env  = c.q.env();
    if (c.r.chance(0.1)) env.time_limit = 0.0;
    auto res   = cft::run(env, inst);
    auto env2  = c.q.env();
    auto inst2 = inst;
    auto r3    = cft::ThreePhase()(env2, inst2);
    std::vector<double> seen;
    if (check_cover(c.p, res.sol.idxs).empty()) seen.push_back(true_cost(c.p, res.sol.idxs));
    if (check_cover(c.p, r3.sol.idxs).empty()) seen.push_back(true_cost(c.p, r3.sol.idxs));
    double ref = upper_ref(c, seen);
    check_dual(rec, c, res.dual, ref, "run");
    check_dual(rec, c, r3.dual, ref, "3-phase");
    if (c.p.nrows <= 13 || c.known_opt == c.known_opt) rec.count("exact_optimum_known");

    // the subgradient stage on its own, from a core given by pricing, several calls with reused objects
    if (c.p.nrows >= 1) {
        InstAndMap          core;
        Pricer              pricer;
        Subgradient         sub;
        std::vector<real_t> mult(size_t(c.p.nrows), as_real(0.0));
        double              cmax = 0;
        for (double x : c.p.costs) cmax = std::max(cmax, x);
        for (auto& u : mult) u = as_real(c.r.chance(0.3) ? 0.0 : c.r.unit() * std::min(cmax, 1e5));
        double slack    = mult_slack(c.p, mult);
        auto   bound_ok = [&](double lb, char const* who) {
            slack = std::max(slack, 4 * mult_slack(c.p, mult));
            if (!(lb <= ref + lb_slack(c.p, ref) + slack)) rec.viol("stage-bound", vh::fmtv("%s: bound %.9g above the cost %.9g of a cover", who, lb, ref));
        };
        double plb = double(native_cast(pricer(inst, mult, core)));
        bound_ok(plb, "pricing");
        auto e = c.q.env();
        for (int t = 0; t < 2; ++t) {
            real_t step = as_real(0.1);
            double cut  = ref * (t ? 1.0 : 1.3) + 1.0;
            double lb   = double(native_cast(sub(e, inst, as_real(cut), pricer, core, step, mult)));
            bound_ok(lb, "subgradient");
            for (auto& u : mult)
                if (!std::isfinite(double(native_cast(u))) || double(native_cast(u)) < 0) { rec.viol("stage-mults", "subgradient: bad multiplier"); break; }
            if (double(native_cast(step)) <= 0 || !std::isfinite(double(native_cast(step)))) rec.viol("stage-step", "subgradient: step size not positive");
            bound_ok(double(native_cast(pricer(inst, mult, core))), "pricing at the subgradient multipliers");
            rec.count("stage_bounds", 2);
        }
    }
    note(rec, c, res);
}

static void mode_c04(uint64_t k, vh::Rec& rec) {
    Case c    = make_case(k, rec, 0.3);
    auto inst = mk(c.p);
    int  kind = int(c.r.range(0, 5));
    Solution warm;
    if (!c.start.empty()) warm = mk_sol(c.p, c.start);
    else if (kind <= 3 || rec.opt.kv.count("real")) warm = mk_sol(c.p, some_cover(c.p, c.r, kind % 4));
    else {  // a very good cover: best of several solves
        for (int t = 0; t < 3; ++t) {
            auto e   = gen_params(c.r, true, c.p.nrows > 60).env();
            auto res = cft::run(e, inst);
            if (warm.idxs.empty() || res.sol.cost < warm.cost) warm = res.sol;
        }
        if (!check_cover(c.p, warm.idxs).empty()) { rec.count("skipped_no_valid_start"); return; }
        if (c.r.chance(0.5)) c.r.shuffle(warm.idxs);
        warm = mk_sol(c.p, [&] { std::vector<int> x; for (auto j : warm.idxs) x.push_back(int(native_cast(j))); return x; }());
    }
    Solution cur = warm;
    int      len = rec.opt.kv.count("real") ? 1 : c.p.nrows > 60 ? 2 : int(c.r.range(1, 4));
    for (int t = 0; t < len; ++t) {
        Params q = t == 0 ? c.q : gen_params(c.r, true, c.p.nrows > 60);
        auto   e = q.env();
        if (c.r.chance(0.15)) e.time_limit = 0.0;
        auto res = cft::run(e, inst, cur);
        auto m   = check_cover(c.p, res.sol.idxs);
        if (!m.empty()) rec.viol("cover", vh::fmtv("step %d: ", t) + m);
        double a = true_cost(c.p, cur.idxs), b = m.empty() ? true_cost(c.p, res.sol.idxs) : 0;
        if (res.sol.cost > cur.cost) rec.viol("worse", vh::fmtv("step %d: warm start cost %.9g, result cost %.9g", t, double(native_cast(cur.cost)), double(native_cast(res.sol.cost))));
        if (m.empty() && b > a + 1e-5 * std::fabs(a)) rec.viol("worse", vh::fmtv("step %d: warm start columns cost %.9g, result columns cost %.9g", t, a, b));
        if (!(res.sol.cost < cur.cost) && ll(res.sol.idxs) != ll(cur.idxs))
            rec.viol("changed", vh::fmtv("step %d: no strict improvement but a different cover was returned: ", t) + sol_str(cur) + " -> " + sol_str(res.sol));
        rec.count(res.sol.cost < cur.cost ? "improved" : "kept");
        if (!m.empty()) return;
        cur = res.sol;
        note(rec, c, res);
    }
}

static void mode_c22(uint64_t k, vh::Rec& rec) {
    Case c     = make_case(k, rec, 0.2);
    auto inst  = mk(c.p);
    auto env   = c.q.env();
    auto res   = cft::run(env, inst);
    auto env2  = c.q.env();
    auto inst2 = inst;
    auto r3    = cft::ThreePhase()(env2, inst2);
    if (res.sol.cost > r3.sol.cost) rec.viol("worse", vh::fmtv("run cost %.9g above 3-phase cost %.9g", double(native_cast(res.sol.cost)), double(native_cast(r3.sol.cost))));
    CftResult a = res;
    a.sol       = r3.sol;
    auto m      = same_result(a, r3);
    if (!m.empty()) rec.viol("dual", "dual of run is not the one of the first 3-phase run: " + m);
    double stop = double(native_cast(as_real(c.q.beta) * r3.dual.lb + as_real(c.q.eps)));
    if (double(native_cast(r3.sol.cost)) <= stop) {
        rec.count("stopped_at_first_3phase");
        if (ll(res.sol.idxs) != ll(r3.sol.idxs) || !(res.sol.cost == r3.sol.cost)) rec.viol("stop", "stop criterion met by the first 3-phase run, but another solution was returned: " + sol_str(r3.sol) + " -> " + sol_str(res.sol));
        if (std::memcmp(env.rnd.state, env2.rnd.state, sizeof env.rnd.state) != 0) rec.viol("stop", "stop criterion met by the first 3-phase run, but the solver went on (generator state differs)");
    } else rec.count("went_on");
    if (res.sol.cost < r3.sol.cost) rec.count("improved_by_refinement");
    note(rec, c, res);
}

// ---- termination. Rounds are read from the solver's own round log (verbosity 2) when it is recognisable.
static uint64_t g_bb;
static void     mode_c23(uint64_t k, vh::Rec& rec) {
    Case c    = make_case(k, rec, 0.2);
    auto inst = mk(c.p);
    if (c.r.chance(0.5)) c.q.beta = c.r.pick(std::vector<double>{0, -1, 0.3});
    auto env    = c.q.env();
    env.verbose = 2;
    std::string log;
    CftResult   res;
    uint64_t    bb0 = g_bb;
    {
        Captured cap;
        res = cft::run(env, inst);
        log = cap.done();
    }
    double work = double(g_bb - bb0);
    // rounds: "REFN> <n>: Best solution <cost>, ..."
    std::vector<double> best;
    size_t              pos = 0;
    while ((pos = log.find("REFN>", pos)) != std::string::npos) {
        unsigned long n;
        char          rest[64];
        if (std::sscanf(log.c_str() + pos, "REFN> %lu: Best solution %60[-0-9.einfa]", &n, rest) == 2) best.push_back(std::strtod(rest, nullptr));
        pos += 5;
    }
    double alpha = double(float(c.q.alpha)), f = c.q.minfix;
    int    steps = 0;
    while (f < 1.0 && steps < 100000) { f *= alpha; ++steps; }
    // a round log line is printed after each unsuccessful round: the first one fixes min_fixing, each following one
    // without improvement multiplies by alpha; at fraction one everything is fixed and the loop ends.
    int budget = steps + 3, run = 0, longest = 0;
    for (size_t i = 0; i < best.size(); ++i) {
        if (i > 0 && best[i] < best[i - 1]) run = 0;
        ++run;
        longest = std::max(longest, run);
    }
    if (c.p.costs.size() && longest > budget) {
        // costs are printed with two decimals: improvements below that are invisible
        bool visible = c.p.intcost;
        if (visible) rec.viol("rounds", vh::fmtv("%d refinement rounds without improvement, budget %d", longest, budget));
    }
    // The rows covered by the fixed columns are at most the current fraction of all rows, and all of them at fraction one.
    std::vector<double> free_rows;
    pos = 0;
    while ((pos = log.find("REFN>", pos)) != std::string::npos) {
        unsigned long n;
        double        fc, fr;
        if (std::sscanf(log.c_str() + pos, "REFN> %lu: Fixed cost %lf, free rows %lf%%", &n, &fc, &fr) == 3) free_rows.push_back(fr);
        pos += 5;
    }
    if (c.p.intcost && free_rows.size() == best.size()) {
        double frac = 0;
        for (size_t i = 0; i < best.size(); ++i) {
            frac = i == 0 || best[i] < best[i - 1] ? c.q.minfix : std::min(1.0, frac * alpha);
            if (100.0 - free_rows[i] > 100.0 * frac * 1.00001 + 0.51) { rec.viol("fraction", vh::fmtv("round %zu fixes columns covering %g%% of the rows, the fraction is %g", i, 100.0 - free_rows[i], frac)); break; }
            if (frac >= 1.0 && free_rows[i] > 0) { rec.viol("fraction", vh::fmtv("round %zu leaves %g%% of the rows free at fraction one", i, free_rows[i])); break; }
            rec.count("fixed_fractions");
        }
    }
    if (!best.empty()) { rec.count("round_logs"); rec.count("rounds", best.size()); rec.maxi("max_rounds_without_improvement", longest); rec.maxi("max_rounds_over_budget", double(longest) / budget); }
    // work bound: rounds * phases * (iterations) * size, in basic blocks executed by the solver
    // (without a recognisable log: as many rounds as four improvements could take)
    double rounds = best.empty() ? 4.0 * budget + 1 : double(best.size()) + 1;
    double n      = double(c.p.nrows), nz = double(c.p.nnz()) + double(c.p.ncols()) + n;
    double per_phase = (10.0 * n + 400.0 + 4.0 * double(c.q.heur + 1) * std::sqrt(n + 1)) * nz;
    double bound     = rounds * (n + 1) * per_phase;
    if (work > 0) rec.maxi("max_work_over_bound", work / bound);
    if (work > 8 * bound) rec.viol("work", vh::fmtv("%.3g basic blocks executed, bound %.3g", work, bound));
    if (!check_cover(c.p, res.sol.idxs).empty()) rec.count("invalid_cover");
    note(rec, c, res);
}

#ifdef VERIF_BB
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { ++g_bb; }
#endif

// ---- C27: the subgradient and heuristic steps on their own, their log (verbosity 5) read as a trace.
static double core_bound(Instance const& in, std::vector<real_t> const& mult, double* slack) {
    double   s = 0;
    v::PInst p;
    p.nrows = int(in.rows.size());
    for (auto u : mult) s += double(native_cast(u));
    for (size_t j = 0; j < in.costs.size(); ++j) {
        double rc = double(native_cast(in.costs[j]));
        std::vector<int> c;
        for (auto i : in.cols[j]) { rc -= double(native_cast(mult[size_t(native_cast(i))])); c.push_back(int(native_cast(i))); }
        if (rc < 0) s += rc;
        p.cols.push_back(c);
        p.costs.push_back(double(native_cast(in.costs[j])));
    }
    *slack = 4 * mult_slack(p, mult);
    return s;
}

static void mode_c27(uint64_t k, vh::Rec& rec) {
    static Subgradient reused;
    static Greedy      greedy_reused;
    static Pricer      pricer_reused;
    Case c    = make_case(k, rec, 0.2);
    auto inst = mk(c.p);
    auto orig = inst;
    bool         re = c.r.chance(0.6);
    Subgradient  fresh;
    Greedy       gfresh;
    Pricer       pfresh;
    Subgradient& sub    = re ? reused : fresh;
    Greedy&      greedy = re ? greedy_reused : gfresh;
    Pricer&      pricer = re ? pricer_reused : pfresh;
    InstAndMap   core;
    double       cmax = 0;
    for (double x : c.p.costs) cmax = std::max(cmax, x);
    std::vector<real_t> mult(size_t(c.p.nrows), as_real(0.0));
    int kind = int(c.r.range(0, 2));
    if (kind == 1) for (auto& u : mult) u = as_real(c.r.unit() * std::min(cmax, 1e5) / 4);
    if (kind == 2)
        for (size_t j = 0; j < c.p.cols.size(); ++j)
            for (int i : c.p.cols[j]) {
                double x = std::min(1e5, c.p.costs[j] / double(c.p.cols[j].size()));
                if (double(native_cast(mult[size_t(i)])) == 0 || x < double(native_cast(mult[size_t(i)]))) mult[size_t(i)] = as_real(x);
            }
    pricer(inst, mult, core);
    double ref = upper_ref(c, {});
    auto   env = c.q.env();
    env.verbose = 5;
    if (c.r.chance(0.08)) env.time_limit = 0.0;
    auto mults_ok = [&](char const* who) {
        if (mult.size() != size_t(c.p.nrows)) { rec.viol("mults", vh::fmtv("%s: %zu multipliers for %d rows", who, mult.size(), c.p.nrows)); return false; }
        for (auto u : mult) if (!(double(native_cast(u)) >= 0 && std::isfinite(double(native_cast(u))))) { rec.viol("mults", vh::fmtv("%s: multiplier %g", who, double(native_cast(u)))); return false; }
        return true;
    };
    auto near = [](double a, double b) { return a == b || std::fabs(a - b) <= 0.0101 + 4e-6 * (std::fabs(a) + std::fabs(b)); };
    int calls = int(c.r.range(1, 3));
    for (int t = 0; t < calls; ++t) {
        // -- subgradient
        double scale  = c.r.pick(std::vector<double>{0.5, 1.0, 1.0, 1.2, 2.0});
        real_t cutoff = as_real(v::fl(ref * scale + (ref == 0 ? 1.0 : 0.0)));
        real_t step   = as_real(c.r.pick(std::vector<double>{0.1, 0.1, 0.01, 1.0}));
        std::string log;
        real_t      lb_r = as_real(0.0);
        {
            Captured cap;
            lb_r = sub(env, inst, cutoff, pricer, core, step, mult);
            log  = cap.done();
        }
        double lb = double(native_cast(lb_r));
        auto   m  = same_inst(inst, orig);
        if (!m.empty()) { rec.viol("input", "the subgradient step modified the instance: " + m); return; }
        if (!mults_ok("subgradient")) return;
        double st = double(native_cast(step));
        if (!(st >= 0.9e-6 && st <= 10.001)) { rec.viol("step", vh::fmtv("step size %g", st)); return; }
        m = sound_inst(core.inst);
        if (!m.empty()) { rec.viol("core", "core after the subgradient step: " + m); return; }
        double slack, cb = core_bound(core.inst, mult, &slack), maxlb = -std::numeric_limits<double>::infinity(), last = NAN, stop = double(native_cast(cutoff)) - double(native_cast(env.epsilon));
        long   it = -1, a;
        double x, y;
        bool   reached = false, any = false, optimal = false, priced = false;
        std::istringstream is(log);
        for (std::string l; std::getline(is, l);) {
            if (std::sscanf(l.c_str(), "SUBG> %ld: Current lower bound: %lf", &a, &x) == 2) {
                any = true;
                if (reached) { rec.viol("goes-on", "the subgradient step goes on after its bound reached the cutoff: " + l); return; }
                if (a <= it && it >= 0) { rec.viol("iterations", "iterations do not increase: " + l); return; }
                if (last == last && x < last - 1e-9) { rec.viol("iterations", "a lower core bound is reported as the best: " + l); return; }
                it     = a;
                last   = x;
                priced = false;
            } else if (std::sscanf(l.c_str(), "SUBG> %ld: LB: %lf Core LB: %lf", &a, &x, &y) == 3) {
                any = true;
                if (reached) { rec.viol("goes-on", "the subgradient step goes on after its bound reached the cutoff: " + l); return; }
                if (priced) { rec.viol("no-bound", "no core bound was taken as the best since the last pricing: " + l); return; }
                it     = std::max(it, a);
                maxlb  = std::max(maxlb, x);
                last   = NAN;
                priced = true;
                if (x > stop + 0.02 + 1e-5 * std::fabs(stop)) reached = true;
            } else if (l.find("Found optimal") != std::string::npos) optimal = true;
        }
        if (any) {
            rec.count("subgradient_logs");
            if (it >= 10L * c.p.nrows) { rec.viol("iterations", vh::fmtv("iteration %ld for %d rows", it, c.p.nrows)); return; }
            if (maxlb > -1e37 && !near(maxlb, lb)) { rec.viol("returned-bound", vh::fmtv("the subgradient step returns %.9g, its best bound was %.9g", lb, maxlb)); return; }
            if (!(maxlb > -1e37) && lb > -1e30) { rec.viol("returned-bound", vh::fmtv("the subgradient step returns %.9g, but never priced", lb)); return; }
            if (last == last && !optimal && std::fabs(cb - last) > 0.0101 + slack + 1e-5 * std::fabs(last)) { rec.viol("returned-mults", vh::fmtv("the multipliers returned have a core bound of %.9g, the best one found was %.9g", cb, last)); return; }
            if (last == last) rec.count("returned_multipliers_compared");
        }
        rec.eval();
        // -- heuristic
        auto core0 = core.inst;
        std::vector<real_t> m0 = mult, red;
        double   slack0, cb0 = core_bound(core.inst, m0, &slack0);
        Solution sol;
        int      ck = int(c.r.range(0, 3));
        real_t   cut = ck == 0 ? limits<real_t>::max() : as_real(v::fl(ref * c.r.pick(std::vector<double>{0.9, 1.0, 1.05, 1.3, 2.0})));
        sol.cost = cut;
        Solution g0;
        compute_reduced_costs(core.inst, m0, red);
        Greedy another;
        g0.cost = another(core.inst, m0, red, g0.idxs, cut);
        uint64_t iters = env.heur_iters;
        {
            Captured cap;
            sub.heuristic(env, core.inst, step, greedy, sol, mult);
            log = cap.done();
        }
        m = same_inst(core.inst, core0);
        if (!m.empty()) { rec.viol("input", "the heuristic step modified the core: " + m); return; }
        if (!mults_ok("heuristic")) return;
        rec.eval();
        double eps = double(native_cast(env.epsilon)), dcut = double(native_cast(cut)), dcost = double(native_cast(sol.cost));
        double tol = 8 * REAL_EPS * (std::fabs(dcut) + eps);
        if (sol.idxs.empty()) {
            if (!(sol.cost == cut)) { rec.viol("incumbent", vh::fmtv("cost changed from %.9g to %.9g without a solution", dcut, dcost)); return; }
            rec.count("incumbent_kept");
        } else {
            v::PInst cp;
            cp.nrows = c.p.nrows;
            cp.intcost = c.p.intcost;
            for (size_t j = 0; j < core.inst.costs.size(); ++j) {
                std::vector<int> col;
                for (auto i : core.inst.cols[j]) col.push_back(int(native_cast(i)));
                cp.cols.push_back(col);
                cp.costs.push_back(double(native_cast(core.inst.costs[j])));
            }
            m = check_cover(cp, sol.idxs);
            if (!m.empty()) { rec.viol("cover", "heuristic: " + m); return; }
            if (!cost_ok(cp, sol)) { rec.viol("cost", vh::fmtv("heuristic: cost %.9g, columns sum to %.9g", dcost, true_cost(cp, sol.idxs))); return; }
            if (!(sol.cost < cut) || (dcut < 1e37 && dcost > dcut - eps + tol)) { rec.viol("gain", vh::fmtv("heuristic: cost %.9g does not improve on %.9g by %.9g", dcost, dcut, eps)); return; }
            rec.count("incumbent_replaced");
        }
        double g = double(native_cast(g0.cost));
        bool   gwin = g0.cost < cut && (dcut > 1e37 || g < dcut - eps - tol);
        if (iters == 0 && !sol.idxs.empty()) { rec.viol("iterations", "a solution without any iteration"); return; }
        if (iters > 0 && gwin && cb0 + slack0 < dcut - eps - tol && !(dcost <= g)) { rec.viol("greedy", vh::fmtv("heuristic: cost %.9g, but greedy at the initial multipliers gives %.9g (cutoff %.9g)", dcost, g, dcut)); return; }
        if (iters > 0 && gwin) rec.count("greedy_beats_cutoff");
        double slack1, cb1 = core_bound(core.inst, mult, &slack1);
        if (cb1 < cb0 - slack0 - slack1 - 1e-5 * std::fabs(cb0)) { rec.viol("mults-worse", vh::fmtv("heuristic: core bound fell from %.9g to %.9g", cb0, cb1)); return; }
        is.clear();
        is.str(log);
        double best = dcut;
        for (std::string l; std::getline(is, l);) {
            if (std::sscanf(l.c_str(), "HEUR> %ld: Improved solution %lf", &a, &x) == 2) {
                if (x > best - (best < 1e37 ? eps : 0) + 0.0101 + 4e-6 * std::fabs(best)) { rec.viol("gain", vh::fmtv("not better than %.9g by epsilon: ", best) + l); return; }
                best = x;
                rec.count("improvements_logged");
            }
            if (std::sscanf(l.c_str(), "HEUR> %ld", &a) == 1 && (a < 0 || uint64_t(a) >= iters || (env.time_limit == 0.0 && a > 0))) { rec.viol("iterations", "more iterations than allowed: " + l); return; }
        }
        rec.maxi("max_rows", c.p.nrows);
        rec.maxi("max_core_cols", double(core.inst.costs.size()));
        if (c.p.nrows >= 2) rec.distinct(v::mix(v::mix(c.p.hash(), v::hash_str(c.q.str())), uint64_t(t)));
        // as in the 3-phase loop: price, perturb, again
        pricer(inst, mult, core);
        for (auto& u : mult) u = as_real(double(native_cast(u)) * (0.9 + 0.2 * c.r.unit()));
    }
    if (c.p.nrows <= 6) rec.sample(c.p.brief() + " | " + c.q.str());
}

static void one(uint64_t k, vh::Rec& rec) {
    auto& m = rec.opt.mode;
    if (m == "c01") mode_c01(k, rec);
    else if (m == "c02") mode_c02(k, rec);
    else if (m == "c03") mode_c03(k, rec);
    else if (m == "c04") mode_c04(k, rec);
    else if (m == "c22") mode_c22(k, rec);
    else if (m == "c23") mode_c23(k, rec);
    else if (m == "c27") mode_c27(k, rec);
    else { std::fprintf(stderr, "unknown mode\n"); std::exit(3); }
}
int main(int argc, char** argv) { return vh::run_main(argc, argv, one); }
