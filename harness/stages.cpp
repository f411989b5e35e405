// Monitors of the choices the method makes between solves: which columns are fixed (C28), and the control rules of
// the subgradient step (C29).
#include "algorithms/Refinement.hpp"
#include "vcase.hpp"
using namespace vc;

static double dbl(real_t x) { return double(native_cast(x)); }

static std::vector<real_t> gen_mults(v::PInst const& p, v::Rng& r, int kind) {
    size_t n = size_t(p.nrows);
    std::vector<double> best(n, 1e5);
    double cmax = 0;
    for (size_t j = 0; j < p.cols.size(); ++j) { cmax = std::max(cmax, p.costs[j]); for (int i : p.cols[j]) best[size_t(i)] = std::min(best[size_t(i)], p.costs[j] / double(p.cols[j].size())); }
    cmax = std::min(cmax, 1e5);
    std::vector<real_t> m;
    for (size_t i = 0; i < n; ++i) {
        double u = 0;
        if (kind == 1) u = best[i] * (0.7 + 0.6 * r.unit());
        if (kind == 2) u = best[i] * 3 * r.unit();
        if (kind == 3) u = r.chance(0.6) ? 0 : cmax * r.unit();
        if (kind == 4) u = double(r.range(0, 12)) / 4;
        if (kind == 5) u = best[i];
        m.push_back(as_real(u));
    }
    return m;
}

// ---- C28: refinement fixes the incumbent's columns of least gap contribution, as many as the fraction allows.
static bool refine_step(vh::Rec& rec, v::PInst const& p, Params const& q, std::vector<real_t> const& mult, std::vector<int> const& inc, std::vector<cidx_t> const& got, double frac) {
    size_t n = size_t(p.nrows);
    std::vector<int> cov(n, 0);
    for (int j : inc) for (int i : p.cols[size_t(j)]) ++cov[size_t(i)];
    std::map<int, std::pair<double, double>> delta;  // column -> contribution, rounding allowance
    for (int j : inc) {
        double d = 0, rc = p.costs[size_t(j)], mag = std::fabs(rc);
        for (int i : p.cols[size_t(j)]) {
            double u = dbl(mult[size_t(i)]), c = cov[size_t(i)];
            d += u * (c - 1) / c;
            rc -= u;
            mag += 2 * u;
        }
        d += std::max(rc, 0.0);
        delta[j] = {d, 4 * REAL_EPS * (double(p.cols[size_t(j)].size()) + 2) * mag};
    }
    std::set<int>     in;
    std::vector<char> seen(n, 0);
    size_t            rows = 0;
    for (auto x : got) {
        int j = int(native_cast(x));
        if (!delta.count(j)) { rec.viol("not-incumbent", vh::fmtv("column %d is fixed but not in the incumbent", j)); return false; }
        if (!in.insert(j).second) { rec.viol("twice", vh::fmtv("column %d is fixed twice", j)); return false; }
        for (int i : p.cols[size_t(j)]) if (!seen[size_t(i)]) { seen[size_t(i)] = 1; ++rows; }
    }
    double want = double(n) * frac, slack = 1e-5 * (want + 1);
    if (double(rows) > std::floor(want + slack)) { rec.viol("fraction", vh::fmtv("fixed columns cover %zu of %zu rows, fraction %.6g (%s)", rows, n, frac, q.str().c_str())); return false; }
    // nothing cheaper was left out, and the next one would not have fitted
    double lo = std::numeric_limits<double>::infinity();
    for (auto& d : delta) if (!in.count(d.first)) lo = std::min(lo, d.second.first + d.second.second);
    bool room = false, tested = false;
    for (auto& d : delta) {
        double x = d.second.first, t = d.second.second;
        if (in.count(d.first)) {
            if (x - t > lo) { rec.viol("order", vh::fmtv("column %d with gap contribution %.9g is fixed, one with %.9g is not", d.first, x, lo)); return false; }
        } else if (x - t <= lo) {  // may be the next in order
            size_t more = 0;
            for (int i : p.cols[size_t(d.first)]) more += !seen[size_t(i)];
            tested = true;
            if (double(rows + more) > std::floor(want - slack)) room = true;
        }
    }
    if (tested && !room) { rec.viol("too-few", vh::fmtv("fixed columns cover %zu of %zu rows, the next one would still fit into fraction %.6g", rows, n, frac)); return false; }
    rec.count(in.empty() ? "nothing_fixed" : tested ? "some_fixed" : "everything_fixed");
    return true;
}

static void mode_c28(uint64_t k, vh::Rec& rec) {
    uint64_t  s = v::mix(rec.opt.seed * 1000081 + 28, k);
    v::Rng    r(s);
    double    x = r.unit();
    v::GenCfg cfg;
    cfg.huge_costs = false;
    v::PInst p    = v::gen(s, x < 0.25 ? v::TINY : x < 0.5 ? v::WIDE : x < 0.93 ? v::SMALL : v::MEDIUM, cfg);
    auto     inst = mk(p), orig = inst;
    Params   q    = gen_params(r, true);
    q.alpha       = r.pick(std::vector<double>{1.01, 1.03, 1.1, 1.3, 2, 4});
    q.minfix      = r.chance(0.3) ? 0.01 + 0.99 * r.unit() : r.pick(std::vector<double>{0.01, 0.05, 0.1, 0.3, 0.5, 0.7, 0.95, 1});
    auto env      = q.env();
    rec.context   = p.brief() + " " + q.str() + (p.nnz() < 400 ? "\n" + p.dump() : std::string());
#ifndef VT_NO_LOCAL
    if (r.chance(0.5)) {  // refinement
        local::RefinementFixManager select;
        auto   mult = gen_mults(p, r, int(r.range(0, 5)));
        auto   cov  = some_cover(p, r);
        double cost = true_cost(p, mk_sol(p, cov).idxs), prev = std::numeric_limits<double>::infinity(), frac = 0;
        int    calls = int(r.range(1, 12));
        for (int t = 0; t < calls; ++t) {
            auto sol = mk_sol(p, cov);
            frac     = std::min(1.0, frac * dbl(env.alpha));
            if (dbl(sol.cost) < prev) frac = dbl(env.min_fixing);
            prev     = dbl(sol.cost);
            auto got = select(env, inst, mult, sol);
            rec.eval();
            auto m = same_inst(inst, orig);
            if (!m.empty()) { rec.viol("input", "choosing columns to fix modified the instance"); return; }
            rec.context += vh::fmtv("\ncall %d: %zu of %zu columns fixed, fraction %g", t, got.size(), cov.size(), frac);
            if (!refine_step(rec, p, q, mult, cov, got, frac)) return;
            if (p.nrows >= 2 && cov.size() >= 2) rec.distinct(v::mix(v::mix(p.hash(), v::hash_str(q.str())), uint64_t(t)));
            if (r.chance(0.35)) {  // another incumbent, kept if better
                auto c2 = some_cover(p, r);
                double k2 = dbl(mk_sol(p, c2).cost);
                if (k2 < prev) { cov = c2; rec.count("incumbent_improves"); }
            } else if (r.chance(0.2)) r.shuffle(cov);
        }
        rec.count("refinement_sequences");
        rec.maxi("max_fraction", frac);
        return;
    }
#endif
    // ---- the 3-phase fixing step
    ColFixing  colfix;
    static Greedy greedy_reused;
    Greedy     gfresh;
    Greedy&    greedy = r.chance(0.5) ? greedy_reused : gfresh;
    FixingData fixing;
    make_identity_fixing_data(csize(inst.cols), rsize(inst.rows), fixing);
    auto mult = gen_mults(p, r, int(r.range(0, 5)));
    for (int t = 0; !inst.rows.empty() && t < 8; ++t) {
        size_t n = inst.rows.size(), nc = inst.costs.size();
        if (n == 0 || nc == 0) break;
        std::vector<double> rc(nc), tol(nc);
        std::vector<std::vector<int>> col(nc);
        bool unsure = false;
        for (size_t j = 0; j < nc; ++j) {
            double d = dbl(inst.costs[j]), m = d;
            for (auto i : inst.cols[j]) { double u = dbl(mult[size_t(native_cast(i))]); d -= u; m += u; col[j].push_back(int(native_cast(i))); }
            rc[j]  = d;
            tol[j] = 4 * REAL_EPS * (double(col[j].size()) + 2) * m;
            if (std::fabs(d + 0.001) <= tol[j]) unsure = true;
        }
        auto   old_cols = fixing.curr2orig.col_map;
        auto   bm       = mult;
        size_t nf       = fixing.fixed_cols.size();
        int    orig_n   = r.pick(std::vector<int>{int(n), int(n), 199, 200, 399, 400, 1000});
        size_t most     = std::max<size_t>(1, size_t(orig_n) / 200);
        colfix(env, as_ridx(orig_n), inst, fixing, mult, greedy);
        rec.eval();
        std::map<int, size_t> back;
        for (size_t j = 0; j < nc; ++j) back[int(native_cast(old_cols[j]))] = j;
        std::set<size_t> F;
        for (size_t u = nf; u < fixing.fixed_cols.size(); ++u) {
            auto it = back.find(int(native_cast(fixing.fixed_cols[u])));
            if (it == back.end()) { rec.viol("unknown", "a column that was not there is fixed"); return; }
            F.insert(it->second);
        }
        if (F.empty()) { rec.viol("progress", "nothing fixed"); return; }
        if (!unsure) {
            std::vector<int> neg(n, 0), fc(n, 0);
            for (size_t j = 0; j < nc; ++j) if (rc[j] < -0.001) for (int i : col[j]) ++neg[size_t(i)];
            std::set<size_t>  N;
            std::vector<char> ncov(n, 0);
            for (size_t j = 0; j < nc; ++j) {
                if (!(rc[j] < -0.001)) continue;
                bool alone = true;
                for (int i : col[j]) alone = alone && neg[size_t(i)] == 1;
                if (!alone) continue;
                N.insert(j);
                for (int i : col[j]) ncov[size_t(i)] = 1;
            }
            size_t added = 0, unc = 0;
            for (size_t j : F) { added += !N.count(j); for (int i : col[j]) ++fc[size_t(i)]; }
            for (char c : ncov) unc += !c;
            rec.context = p.brief() + vh::fmtv(" step %d: %zu rows, %zu columns without overlap, %zu fixed, at most %zu more", t, n, N.size(), F.size(), most) + (p.nnz() < 400 ? "\n" + p.dump() : std::string());
            for (size_t j : N) {
                if (F.count(j)) continue;
                for (int i : col[j]) if (!fc[size_t(i)]) { rec.viol("not-fixed", vh::fmtv("column %zu of reduced cost %.9g overlaps with no other negative one, but is not fixed", j, rc[j])); return; }
                rec.count("without_overlap_but_redundant");
            }
            if (added > most) { rec.viol("too-many", vh::fmtv("%zu columns fixed besides the %zu without overlap, at most %zu allowed", added, N.size(), most)); return; }
            if (unc == 0 && added) { rec.viol("too-many", "columns fixed although those without overlap cover everything"); return; }
            if (unc > 0 && !added) { rec.viol("too-few", "no column fixed besides those without overlap"); return; }
            for (size_t j : F) if (!N.count(j)) {
                bool useful = false;
                for (int i : col[j]) useful = useful || !ncov[size_t(i)];
                if (!useful) { rec.viol("useless", vh::fmtv("column %zu is fixed but adds nothing to those without overlap", j)); return; }
            }
            if (most > 1 && unc > 0 && !inst.rows.empty() && F.size() == N.size() + added && added < most) {
                // fewer than allowed only if a redundant one was dropped: then the whole selection must have had one
                rec.count("fewer_than_allowed");
            }
            if (most == 1 && unc > 0) {  // the best one by score: gamma over (or times) the rows it still covers
                auto score = [&](size_t j, double* t) {
                    double g = rc[j], mag = tol[j] / (4 * REAL_EPS);
                    int    mu = 0;
                    for (int i : col[j]) if (ncov[size_t(i)]) { g += dbl(bm[size_t(i)]); mag += dbl(bm[size_t(i)]); } else ++mu;
                    *t = 8 * REAL_EPS * mag * (mu ? std::max(1.0, double(mu)) : 1);
                    if (mu == 0) return std::numeric_limits<double>::infinity();
                    return g > 0 ? g / mu : g * mu;
                };
                size_t a = 0;
                for (size_t j : F) if (!N.count(j)) a = j;
                double ta, tj, sa = score(a, &ta);
                for (size_t j = 0; j < nc; ++j) {
                    if (F.count(j) || N.count(j)) continue;
                    double sj = score(j, &tj);
                    if (sj + tj < sa - ta) { rec.viol("score", vh::fmtv("column %zu of score %.9g is fixed, column %zu scores %.9g", a, sa, j, sj)); return; }
                }
                rec.count("best_score_compared");
            }
            rec.maxi("max_without_overlap", double(N.size()));
            rec.maxi("max_added", double(added));
            rec.distinct(v::mix(v::mix(p.hash(), 77), uint64_t(t)));
        } else rec.count("too_close_to_the_threshold");
        rec.count("three_phase_fixing_steps");
        for (auto& u : mult) u = as_real(std::min(1e6, dbl(u) * (0.8 + 0.5 * r.unit())));
    }
}

// ---- C29: step size, exit and pricing rules of the subgradient step.

// The first multiplier update, u + step * (UB - LB) / |1 - cover|^2 * (1 - cover), seen through the second iteration.
static void first_update(vh::Rec& rec, uint64_t s, v::Rng& r, bool heuristic) {
    double    x = r.unit();
    v::GenCfg cfg;
    cfg.huge_costs = false;
    v::PInst p    = v::gen(s, x < 0.3 ? v::TINY : x < 0.5 ? v::WIDE : v::SMALL, cfg);
    auto     inst = mk(p);
    size_t   n    = size_t(p.nrows), nc = p.cols.size();
    auto     mult = gen_mults(p, r, r.pick(std::vector<int>{1, 1, 2, 3}));
    rec.context   = p.brief() + (heuristic ? " heuristic" : " subgradient") + (p.nnz() < 400 ? "\n" + p.dump() : std::string());
    auto bound = [&](std::vector<double> const& u, std::vector<double>& rc, double* mag) {
        double L = 0;
        *mag     = 0;
        for (double y : u) { L += y; *mag += y; }
        rc.assign(nc, 0);
        for (size_t j = 0; j < nc; ++j) {
            double d = p.costs[j], m = d;
            for (int i : p.cols[j]) { d -= u[size_t(i)]; m += u[size_t(i)]; }
            rc[j] = d;
            if (d < 0) { L += d; *mag += m; }
        }
        return L;
    };
    std::vector<double> u0, u1, rc, rc1;
    for (auto y : mult) u0.push_back(dbl(y));
    double mag0, mag1, L0 = bound(u0, rc, &mag0);
    for (size_t j = 0; j < nc; ++j) {
        double m = p.costs[j];
        for (int i : p.cols[j]) m += u0[size_t(i)];
        if (std::fabs(rc[j]) <= 8 * REAL_EPS * m) { rec.count("sign_of_reduced_cost_unsure"); return; }
    }
    std::vector<int> cov(n, 0);
    std::vector<size_t> neg;
    for (size_t j = 0; j < nc; ++j) if (rc[j] < 0) neg.push_back(j);
    if (heuristic) {
        for (size_t j : neg) for (int i : p.cols[j]) ++cov[size_t(i)];
    } else {
        std::sort(neg.begin(), neg.end(), [&](size_t a, size_t b) { return rc[a] < rc[b]; });
        for (size_t t = 1; t < neg.size(); ++t)
            if (rc[neg[t]] - rc[neg[t - 1]] <= 1e-5 * std::fabs(rc[neg[t]])) { rec.count("order_unsure"); return; }
        for (size_t j : neg) {
            bool useful = false;
            for (int i : p.cols[j]) useful = useful || !cov[size_t(i)];
            if (useful) for (int i : p.cols[j]) ++cov[size_t(i)];
        }
    }
    double norm = 0;
    for (int c : cov) norm += double(1 - c) * double(1 - c);
    if (norm < 1) { rec.count("optimal_at_once"); return; }
    double ub   = std::fabs(L0) * (1.1 + r.unit()) + 1, step = r.pick(std::vector<double>{0.1, 0.02, 0.5, 1});
    ub          = v::fl(ub);
    Params q;
    q.heur      = 2;
    q.eps       = 0;
    auto env    = q.env();
    env.verbose = 5;
    real_t stp  = as_real(step);
    u1          = u0;
    Subgradient sub;
    std::string log;
    if (heuristic) {
        Greedy   greedy, other;
        Solution sol, g;
        sol.cost = as_real(ub);
        // the incumbent may already be replaced at the first iteration
        std::vector<real_t> red;
        compute_reduced_costs(inst, mult, red);
        g.cost = other(inst, mult, red, g.idxs, sol.cost);
        if (g.cost < sol.cost) ub = dbl(g.cost);
        if (L0 >= ub) return;
        Captured cap;
        sub.heuristic(env, inst, stp, greedy, sol, mult);
        log = cap.done();
    } else {
        InstAndMap core;
        core.inst = inst;
        for (size_t j = 0; j < nc; ++j) core.col_map.push_back(as_cidx(int(j)));
        Captured cap;
        sub(env, inst, as_real(ub), Pricer(), core, stp, mult);
        log = cap.done();
    }
    double f = dbl(as_real(step)) * (ub - L0) / norm;
    for (size_t i = 0; i < n; ++i) u1[i] = std::min(1e6, std::max(0.0, u0[i] + f * double(1 - cov[i])));
    double L1 = bound(u1, rc1, &mag1), tol = 16 * REAL_EPS * (mag0 + mag1) + 1e-5 * (std::fabs(L0) + std::fabs(L1));
    rec.eval();
    if (p.nrows >= 2) rec.distinct(v::mix(p.hash(), uint64_t(step * 1000)));
    if (heuristic) {
        bool moved = L1 > L0 + tol, kept = L1 < L0 - tol;
        if (!moved && !kept) { rec.count("bounds_too_close"); return; }
        auto&  want = moved ? u1 : u0;
        double umax = 0;
        for (double y : u1) umax = std::max(umax, y);
        if (log.find("Found optimal") != std::string::npos) { rec.count("optimal_at_once"); return; }
        for (size_t i = 0; i < n; ++i)
            if (std::fabs(dbl(mult[i]) - want[i]) > 1e-4 * umax + 1e-5) { rec.viol("update", vh::fmtv("row %zu: multiplier %.9g after the second iteration, the rule gives %.9g (before %.9g, cover %d, bound %.9g -> %.9g)", i, dbl(mult[i]), want[i], u0[i], cov[i], L0, L1)); return; }
        rec.count(moved ? "updates_compared" : "worse_updates_discarded");
        return;
    }
    // subgradient: iteration 1 reports its bound if it is higher than that of iteration 0
    double got0 = NAN, got1 = NAN, y;
    long   a;
    std::istringstream is(log);
    for (std::string l; std::getline(is, l);)
        if (std::sscanf(l.c_str(), "SUBG> %ld: Current lower bound: %lf", &a, &y) == 2) {
            if (a == 0) got0 = y;
            if (a == 1) got1 = y;
        }
    if (!(got0 == got0)) { rec.count("no_trace"); return; }
    if (std::fabs(got0 - L0) > 0.0101 + tol) { rec.viol("first-bound", vh::fmtv("bound %.9g at the initial multipliers, expected %.9g", got0, L0)); return; }
    tol += 0.0101;
    if (L1 > L0 + tol) {
        if (!(got1 == got1) || std::fabs(got1 - L1) > tol) { rec.viol("update", vh::fmtv("bound %.9g at the second iteration, the rule gives %.9g (first %.9g)", got1, L1, L0)); return; }
        rec.count("updates_compared");
    } else if (L1 < L0 - tol) {
        if (got1 == got1) { rec.viol("update", vh::fmtv("bound %.9g at the second iteration, the rule gives %.9g (first %.9g)", got1, L1, L0)); return; }
        rec.count("worse_updates_discarded");
    }
}
static void mode_c29(uint64_t k, vh::Rec& rec) {
    uint64_t s = v::mix(rec.opt.seed * 1000099 + 29, k);
    v::Rng   r(s);
    int      what = int(r.range(0, 5));
#ifndef VT_NO_LOCAL
    if (what == 0) {  // step size
        double init = r.pick(std::vector<double>{0.1, 0.1, 1, 9, 1e-5, 0.01});
        local::StepSizeManager next(20, as_real(init));
        double step = init, lo = std::numeric_limits<double>::infinity(), hi = -lo, level = r.chance(0.2) ? -100.0 : std::pow(10.0, 4 * r.unit());
        int    iters = int(r.range(1, 400)), ups = 0, downs = 0;
        double spread = 0;
        rec.context = vh::fmtv("initial step %g, level %g", init, level);
        for (int i = 0; i < iters; ++i) {
            if (i % 20 == 1 || i == 0) {
                spread = r.pick(std::vector<double>{0, 1e-5, 5e-4, 9e-4, 2e-3, 8e-3, 1.2e-2, 0.1, 2});
                level *= 0.8 + 0.4 * r.unit();
            }
            double lb = v::fl(level * (1 - spread * r.unit()));
            lo = std::min(lo, lb);
            hi = std::max(hi, lb);
            bool sure = true;
            if (i > 0 && i % 20 == 0) {
                double diff = (hi - lo) / std::fabs(hi);
                sure = std::fabs(diff - 0.01) > 1e-5 && std::fabs(diff - 0.001) > 1e-5;
                if (diff > 0.01) { step /= 2; ++downs; }
                else if (diff <= 0.001) { step *= 1.5; ++ups; }
                step = std::min(10.0, std::max(1e-6, step));
                lo   = std::numeric_limits<double>::infinity();
                hi   = -lo;
            }
            double got = dbl(next(size_t(i), as_real(lb)));
            rec.eval();
            if (!sure) { step = got; rec.count("too_close_to_a_threshold"); }
            if (std::fabs(got - step) > 1e-5 * step) { rec.viol("step-size", vh::fmtv("iteration %d: step size %.9g, the rule gives %.9g", i, got, step)); return; }
        }
        rec.count("steps_enlarged", uint64_t(ups));
        rec.count("steps_halved", uint64_t(downs));
        if (iters > 20) rec.distinct(s);
        return;
    }
    if (what == 1) {  // exit
        Params q;
        q.absx = r.pick(std::vector<double>{1, 1, 0.1, 10, 0});
        q.relx = r.pick(std::vector<double>{0.001, 0.001, 0.1, 0});
        auto env = q.env();
        local::ExitConditionManager should_exit(300);
        double prev = -std::numeric_limits<double>::infinity(), lb = std::pow(10.0, 5 * r.unit()) * (r.chance(0.1) ? -1 : 1);
        int    periods = int(r.range(1, 8));
        rec.context = q.str();
        for (int i = 0; i <= 300 * periods; ++i) {
            if (r.chance(0.02)) lb += std::pow(10.0, -3 + 5 * r.unit()) / 10;
            bool want = false, sure = true;
            if (i > 0 && i % 300 == 0) {
                if (r.chance(0.15)) lb -= std::fabs(lb) * 0.3;  // bounds are reset by pricing: the best one may fall
                if (r.chance(0.3)) lb = prev == prev && std::isfinite(prev) ? prev + r.pick(std::vector<double>{0, 0.05, 0.5, 0.97, 1.1, 20}) : lb;
                lb          = v::fl(lb);
                double absi = lb - prev, reli = absi / lb;
                want = absi < q.absx && reli < q.relx;
                sure = !std::isfinite(prev) || (std::fabs(absi - q.absx) > 1e-5 * std::fabs(lb) + 1e-6 && std::fabs(reli - q.relx) > 1e-5);
                prev = lb;
            }
            bool got = should_exit(env, size_t(i), as_real(v::fl(lb)));
            rec.eval(i % 300 == 0);
            if (sure && got != want) { rec.viol("exit", vh::fmtv("iteration %d: %s at bound %.9g", i, got ? "stops" : "goes on", lb)); return; }
            if (got) rec.count("exits");
            if (i > 0 && i % 300 == 0 && !got) rec.count("goes_on");
        }
        rec.distinct(s);
        return;
    }
    if (what == 2) {  // pricing schedule
        size_t cap = size_t(r.pick(std::vector<int>{0, 3, 10, 33, 100, 1000}));
        local::PricingManager should(10, cap);
        size_t period = 10, at = 10;
        int    iters = int(r.range(5, 4000)), n = 0;
        rec.context = vh::fmtv("cap %zu", cap);
        double ub = std::pow(10.0, 4 * r.unit());
        for (int i = 0; i < iters; ++i) {
            bool got = should(size_t(i)), want = size_t(i) == at;
            rec.eval(want || got);
            if (got != want) { rec.viol("pricing", vh::fmtv("iteration %d: %s, the rule says iteration %zu", i, got ? "prices" : "does not price", at)); return; }
            if (!got) continue;
            double d    = r.pick(std::vector<double>{-0.1, 0, 0.5e-6, 1e-5, 0.01, 0.019, 0.03, 0.19, 0.3, 3});
            double core = v::fl(ub * r.unit()), real = v::fl(core - d * ub);
            double dd   = (double(float(core)) - real) / ub;
            if (std::fabs(dd - 1e-6) < 1e-6 && d != 0) { d = 0.01; real = v::fl(core - d * ub); dd = (core - real) / ub; }
            if (d <= 0.5e-6) { real = v::fl(core + std::fabs(d) * ub); dd = -1; }
            period = dd <= 1e-6 ? std::min(cap, 10 * period) : dd <= 0.02 ? std::min(cap, 5 * period) : dd <= 0.2 ? std::min(cap, 2 * period) : 10;
            if (period == 0) break;
            at += period;
            should.update(as_real(core), as_real(real), as_real(ub));
            ++n;
        }
        rec.count("pricing_updates", uint64_t(n));
        if (n) rec.distinct(s);
        return;
    }
#else
    what = 3 + what % 3;
#endif
    if (what >= 4) { first_update(rec, s, r, what == 4); return; }
    // the real step: its trace follows the pricing and exit rules
    v::PInst p    = v::gen(s, r.chance(0.3) ? v::SMALL : r.chance(0.8) ? v::MEDIUM : v::SMALL);
    auto     inst = mk(p);
    Params   q    = gen_params(r, false);
    auto     env  = q.env();
    env.verbose   = 5;
    if (r.chance(0.4)) { env.abs_subgrad_exit = as_real(0.0); env.rel_subgrad_exit = as_real(0.0); }
    Subgradient sub;
    Pricer      pricer;
    InstAndMap  core;
    auto        mult = gen_mults(p, r, int(r.range(0, 5)));
    pricer(inst, mult, core);
    double simple = 1e300;
    for (int t = 0; t < 3; ++t) simple = std::min(simple, v::simple_cover_cost(p, r));
    real_t cutoff = as_real(v::fl(simple * r.pick(std::vector<double>{1, 1, 1.5, 3}) + 1)), step = as_real(0.1);
    std::string log;
    {
        Captured cap;
        sub(env, inst, cutoff, pricer, core, step, mult);
        log = cap.done();
    }
    rec.eval();
    rec.context = p.brief() + " " + q.str() + vh::fmtv(" cutoff %g", dbl(cutoff));
    // sets of possible (next pricing iteration, period): deltas are known up to the printed precision
    size_t cap = std::min<size_t>(1000, size_t(p.nrows) / 3);
    std::set<size_t> periods{10};
    size_t last = 0;
    bool   first = true;
    std::istringstream is(log);
    long   a;
    double lb, core_lb;
    char   st[64];
    for (std::string l; std::getline(is, l);) {
        if (std::sscanf(l.c_str(), "SUBG> %ld: LB: %lf Core LB: %lf Step size: %63s", &a, &lb, &core_lb, st) != 4) continue;
        size_t it = size_t(a);
        if (!periods.count(it - last)) { rec.viol("pricing", vh::fmtv("priced after %zu iterations, the rule allows %zu: ", it - last, *periods.begin()) + l); return; }
        size_t period = it - last;
        last          = it;
        double ub     = dbl(cutoff), e = (0.0101 + 4e-6 * (std::fabs(lb) + std::fabs(core_lb))) / ub, d = (core_lb - lb) / ub;
        periods.clear();
        for (int g = -1; g <= 1; ++g) {
            double x = d + g * e;
            auto   put = [&](size_t f) { periods.insert(f ? std::min(cap, f * period) : 10); };
            put(x <= 1e-6 ? 10 : x <= 0.02 ? 5 : x <= 0.2 ? 2 : 0);
        }
        if (d - e <= 1e-6) { if (d + e > 1e-6) periods.insert(std::min(cap, 5 * period)); if (d + e > 0.02) periods.insert(std::min(cap, 2 * period)); }
        rec.count(first ? "first_pricings" : "later_pricings");
        first = false;
        if (periods.count(0)) break;  // never again
        double sz = std::atof(st);
        if (sz > 10.001 || sz < 0.9e-6) { rec.viol("step-size", "step size out of range: " + l); return; }
        size_t ups = it / 20;
        double hi = 0.1 * std::pow(1.5, double(ups)), lo = 0.1 * std::pow(0.5, double(ups));
        if (sz > 1.4 * hi || sz < 0.66 * lo) { rec.viol("step-size", "step size changed more often than every 20 iterations: " + l); return; }
    }
    if (!first) rec.distinct(v::mix(p.hash(), v::hash_str(q.str())));
}

static void one(uint64_t k, vh::Rec& rec) {
    if (rec.opt.mode == "c28") mode_c28(k, rec);
    else mode_c29(k, rec);
}
int main(int argc, char** argv) { return vh::run_main(argc, argv, one); }
