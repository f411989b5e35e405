// Glue between the plain instances of vcommon.hpp and the library under test.
#ifndef VERIF_VCFT_HPP
#define VERIF_VCFT_HPP

#include "hmain.hpp"
#include "vtypes.hpp"

#include "algorithms/Refinement.hpp"
#include "core/parsing.hpp"

namespace vc {
using namespace cft;

constexpr double REAL_EPS = double(std::numeric_limits<native_t<real_t>>::epsilon());

inline Instance mk(v::PInst const& p) {
    Instance in;
    for (auto const& c : p.cols) {
        std::vector<ridx_t> t;
        for (int i : c) t.push_back(as_ridx(i));
        in.cols.push_back(t);
    }
    for (double c : p.costs) in.costs.push_back(as_real(c));
    fill_rows_from_cols(in.cols, as_ridx(p.nrows), in.rows);
    return in;
}

inline std::string same_inst(Instance const& a, Instance const& b) {
    if (a.cols.begs != b.cols.begs) return "column boundaries differ";
    if (a.cols.idxs.size() != b.cols.idxs.size()) return "number of coefficients differs";
    for (size_t i = 0; i < a.cols.idxs.size(); ++i) if (a.cols.idxs[i] != b.cols.idxs[i]) return "column coefficients differ";
    if (a.rows.size() != b.rows.size()) return "number of rows differs";
    for (size_t i = 0; i < a.rows.size(); ++i) {
        if (a.rows[i].size() != b.rows[i].size()) return "row sizes differ";
        for (size_t n = 0; n < a.rows[i].size(); ++n) if (a.rows[i][n] != b.rows[i][n]) return "row contents differ";
    }
    if (a.costs.size() != b.costs.size()) return "number of costs differs";
    for (size_t i = 0; i < a.costs.size(); ++i) if (!(a.costs[i] == b.costs[i])) return "costs differ";
    return "";
}

// Structural soundness of an instance: consistent row and column views, in range, no repetition.
inline std::string sound_inst(Instance const& a, bool need_cover = true) {
    size_t const n = a.costs.size();
    if (a.cols.begs.empty()) return "no column boundaries";
    if (a.cols.size() != n) return vh::fmtv("%zu columns but %zu costs", a.cols.size(), n);
    if (a.cols.begs[0] != 0) return "first column does not start at zero";
    for (size_t j = 0; j < n; ++j) if (a.cols.begs[j + 1] < a.cols.begs[j]) return "column boundaries decrease";
    if (a.cols.begs[n] != a.cols.idxs.size()) return "last column does not end at the end";
    std::vector<std::vector<long long>> rows(a.rows.size());
    for (size_t j = 0; j < n; ++j) {
        for (size_t t = a.cols.begs[j]; t < a.cols.begs[j + 1]; ++t) {
            long long i = (long long)(native_cast(a.cols.idxs[t]));
            if (i < 0 || i >= (long long)rows.size()) return vh::fmtv("row index %lld out of range in column %zu", i, j);
            if (!rows[size_t(i)].empty() && rows[size_t(i)].back() == (long long)j) return vh::fmtv("row %lld repeated in column %zu", i, j);
            rows[size_t(i)].push_back((long long)j);
        }
        double c = double(native_cast(a.costs[j]));
        if (!std::isfinite(c)) return vh::fmtv("cost of column %zu is not finite", j);
    }
    for (size_t i = 0; i < rows.size(); ++i) {
        if (need_cover && rows[i].empty()) return vh::fmtv("row %zu is in no column", i);
        if (a.rows[i].size() != rows[i].size()) return vh::fmtv("row view of row %zu has %zu entries instead of %zu", i, a.rows[i].size(), rows[i].size());
        std::vector<long long> g;
        for (auto j : a.rows[i]) g.push_back((long long)(native_cast(j)));
        std::sort(g.begin(), g.end());
        if (g != rows[i]) return vh::fmtv("row view of row %zu differs from the columns", i);
    }
    return "";
}

inline std::vector<long long> ll(std::vector<cidx_t> const& x) {
    std::vector<long long> o;
    for (auto j : x) o.push_back((long long)(native_cast(j)));
    return o;
}
inline std::string check_cover(v::PInst const& p, std::vector<cidx_t> const& s) {
    auto x = ll(s);
    return v::check_cover(p, x.begin(), x.end());
}
inline double true_cost(v::PInst const& p, std::vector<cidx_t> const& s) {
    auto x = ll(s);
    return v::true_cost(p, x.begin(), x.end());
}
inline bool cost_ok(v::PInst const& p, Solution const& s, double* sum_out = nullptr) {
    double sum = true_cost(p, s.idxs);
    if (sum_out) *sum_out = sum;
    return v::cost_matches(p, sum, double(native_cast(s.cost)), s.idxs.size(), REAL_EPS);
}
// Slack for comparing a floating point bound with a cover cost.
inline double lb_slack(v::PInst const& p, double opt) {
    (void)p;
    return (REAL_EPS > 1e-10 ? 2e-5 : 1e-9) * std::fabs(opt) + (REAL_EPS > 1e-10 ? 1e-4 : 1e-7);
}

struct Params {
    uint64_t    seed = 0, heur = 250;
    double      eps = 0.999, alpha = 1.1, beta = 1.0, minfix = 0.3, absx = 1.0, relx = 0.001, tlim = -1;
    std::string str() const {
        return vh::fmtv("seed=%llu heur=%llu eps=%g alpha=%g beta=%g minfix=%g abs=%g rel=%g tlim=%g", (unsigned long long)seed,
                        (unsigned long long)heur, eps, alpha, beta, minfix, absx, relx, tlim);
    }
    Environment env() const {
        Environment e;
        e.verbose          = std::getenv("VERIF_LOUD") ? uint64_t(std::atoi(std::getenv("VERIF_LOUD"))) : 0;
        e.seed             = seed;
        e.rnd              = prng_t(seed);
        e.heur_iters       = heur;
        e.epsilon          = as_real(eps);
        e.alpha            = as_real(alpha);
        e.beta             = as_real(beta);
        e.min_fixing       = as_real(minfix);
        e.abs_subgrad_exit = as_real(absx);
        e.rel_subgrad_exit = as_real(relx);
        if (tlim >= 0) e.time_limit = tlim;
        e.timer.restart();
        return e;
    }
};

// wild: anything in the documented domain; otherwise the defaults with a smaller number of heuristic iterations.
inline Params gen_params(v::Rng& r, bool wild, bool big = false) {
    Params q;
    q.seed = r.chance(0.3) ? 0 : r.next() >> r.range(0, 63);
    q.heur = uint64_t(r.pick(std::vector<int>{10, 20, 40, 60, big ? 30 : 250}));
    if (!wild) return q;
    q.heur = uint64_t(r.pick(std::vector<int>{0, 1, 2, 5, 20, 50, big ? 20 : 120}));
    if (r.chance(0.6)) q.eps = r.pick(std::vector<double>{0, 0, 1e-6, 0.01, 0.5, 1, 1.5, 10, 1000});
    if (r.chance(0.6)) q.alpha = r.pick(std::vector<double>{1.03, 1.1, 1.3, 2, 4});
    if (r.chance(0.6)) q.beta = r.pick(std::vector<double>{0, 0.5, 0.99, 1.01, 1.1, 2, -1});
    if (r.chance(0.6)) q.minfix = r.pick(std::vector<double>{0.01, 0.05, 0.1, 0.3, 0.5, 0.7, 0.95, 1});
    if (r.chance(0.4)) q.absx = r.pick(std::vector<double>{0, 0.01, 0.1, 10, 1e9, -1});
    if (r.chance(0.4)) q.relx = r.pick(std::vector<double>{0, 1e-5, 0.01, 0.5, 1});
    return q;
}

// A valid cover to start from: redundant, greedy, everything, ...
inline std::vector<int> some_cover(v::PInst const& p, v::Rng& r, int kind = -1) {
    std::vector<int> s;
    if (kind < 0) kind = int(r.range(0, 3));
    if (kind == 0) v::simple_cover_cost(p, r, &s);
    else if (kind == 1) {  // random order, until covered
        std::vector<int>  o(p.cols.size());
        std::vector<char> cov(size_t(p.nrows), 0);
        int               left = p.nrows;
        for (size_t j = 0; j < o.size(); ++j) o[j] = int(j);
        r.shuffle(o);
        for (int j : o) {
            if (left == 0) break;
            bool use = r.chance(0.1);
            for (int i : p.cols[size_t(j)]) if (!cov[size_t(i)]) use = true;
            if (!use) continue;
            s.push_back(j);
            for (int i : p.cols[size_t(j)]) if (!cov[size_t(i)]) { cov[size_t(i)] = 1; --left; }
        }
    } else if (kind == 2) {
        for (int j = 0; j < p.ncols(); ++j) s.push_back(j);
        r.shuffle(s);
    } else {  // greedy plus extra columns
        v::simple_cover_cost(p, r, &s);
        for (int t = int(r.range(1, 4)); t > 0; --t) {
            int j = int(r.range(0, p.ncols() - 1));
            if (std::find(s.begin(), s.end(), j) == s.end()) s.push_back(j);
        }
        r.shuffle(s);
    }
    return s;
}
inline Solution mk_sol(v::PInst const& p, std::vector<int> const& x) {
    Solution s;
    double   c = 0;
    for (int j : x) { s.idxs.push_back(as_cidx(j)); c += p.costs[size_t(j)]; }
    s.cost = as_real(c);
    return s;
}
inline std::string sol_str(Solution const& s) {
    std::string o = vh::fmtv("cost %.9g idxs", double(native_cast(s.cost)));
    for (auto j : s.idxs) o += vh::fmtv(" %lld", (long long)native_cast(j));
    return o;
}
inline bool same_real(double a, double b) { return a == b || (a != a && b != b); }
inline std::string same_result(CftResult const& a, CftResult const& b) {
    if (ll(a.sol.idxs) != ll(b.sol.idxs)) return "solutions differ: " + sol_str(a.sol) + " vs " + sol_str(b.sol);
    if (!same_real(double(native_cast(a.sol.cost)), double(native_cast(b.sol.cost)))) return "costs differ";
    if (!same_real(double(native_cast(a.dual.lb)), double(native_cast(b.dual.lb)))) return vh::fmtv("lower bounds differ: %.9g %.9g", double(native_cast(a.dual.lb)), double(native_cast(b.dual.lb)));
    if (a.dual.mults.size() != b.dual.mults.size()) return "numbers of multipliers differ";
    for (size_t i = 0; i < a.dual.mults.size(); ++i)
        if (!same_real(double(native_cast(a.dual.mults[i])), double(native_cast(b.dual.mults[i])))) return vh::fmtv("multiplier %zu differs", i);
    return "";
}
inline uint64_t res_hash(CftResult const& a) {
    uint64_t h = 1469598103934665603ULL;
    auto     f = [&](uint64_t x) { h = (h ^ x) * 1099511628211ULL; h ^= h >> 31; };
    auto     d = [&](double x) { uint64_t b; std::memcpy(&b, &x, 8); f(b); };
    for (auto j : a.sol.idxs) f(uint64_t(native_cast(j)));
    d(double(native_cast(a.sol.cost)));
    d(double(native_cast(a.dual.lb)));
    for (auto m : a.dual.mults) d(double(native_cast(m)));
    return h;
}
}  // namespace vc
#endif
