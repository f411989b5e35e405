// Cases of the whole-solver harnesses: an instance, parameters, a private PRNG; and the oracles on results.
#ifndef VERIF_VCASE_HPP
#define VERIF_VCASE_HPP
#include <unistd.h>

#include "vcft.hpp"
#include "vreal.hpp"

namespace vc {
struct Case {
    v::PInst p;
    double   known_opt = std::numeric_limits<double>::quiet_NaN();
    Params   q;
    v::Rng   r{0};
    std::vector<int> start;  // a cover stored with the instance, if any
};

// Standard output while alive.
struct Captured {
    int  old = -1;
    char path[64];
    Captured() {
        std::fflush(stdout);
        std::snprintf(path, sizeof path, "/tmp/vcapXXXXXX");
        int fd = mkstemp(path);
        old    = dup(1);
        dup2(fd, 1);
        close(fd);
    }
    std::string done() {
        std::fflush(stdout);
        std::string s;
        if (FILE* f = std::fopen(path, "rb")) {
            char   b[65536];
            size_t n;
            while ((n = std::fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
            std::fclose(f);
        }
        dup2(old, 1);
        close(old);
        unlink(path);
        old = -1;
        return s;
    }
    ~Captured() { if (old >= 0) done(); }
};

inline v::Scale pick_scale(v::Rng& r, bool thorough) {
    double x = r.unit();
    if (thorough) return x < 0.35 ? v::TINY : x < 0.5 ? v::WIDE : x < 0.88 ? v::SMALL : x < 0.985 ? v::MEDIUM : v::LARGE;
    return x < 0.45 ? v::TINY : x < 0.6 ? v::WIDE : x < 0.975 ? v::SMALL : v::MEDIUM;
}

// Benchmark instances shipped with the repository: whole (first case of each, then now and then), or pieces.
inline Case real_case(uint64_t k, vh::Rec& rec) {
    Case     c;
    uint64_t s   = v::mix(rec.opt.seed * 1000003 + v::hash_str(rec.opt.mode) + 0x4ea1, k);
    auto     dir = rec.opt.get("real");
    c.r          = v::Rng(s);
    size_t nf    = v::real_count(dir);
    bool   whole = k < nf * (rec.opt.thorough ? 5 : 1);
    auto&  x     = v::real_at(dir, whole ? size_t(k) : size_t(c.r.range(0, int64_t(nf) - 1)), !whole);
    bool   huge  = whole && !rec.opt.thorough && x.p.nrows > 4000;  // minutes each: whole in the thorough tier only
    if (huge) { c.p = v::real_piece(x.p, c.r, 400, 2000); }
    else if (whole) { c.p = x.p; c.known_opt = x.opt; c.start = x.start; }
    else c.p = v::real_piece(x.p, c.r, int(c.r.pick(std::vector<int>{13, 60, 150, 300})), int(c.r.pick(std::vector<int>{200, 1000, 3000})));
    c.q = gen_params(c.r, c.r.chance(0.3), true);
    if (whole || huge) { c.q.heur = std::min<uint64_t>(c.q.heur, c.p.nnz() > 60000 ? 2 : 10); c.q.alpha = std::max(c.q.alpha, 1.5); c.q.minfix = std::max(c.q.minfix, 0.5); }
    else { c.q.alpha = std::max(c.q.alpha, 1.1); c.q.minfix = std::max(c.q.minfix, 0.1); }
    rec.count(whole && !huge ? "benchmark_instances" : "pieces_of_benchmark_instances");
    rec.context = c.p.brief() + " " + c.q.str();
    return c;
}

inline Case make_case(uint64_t k, vh::Rec& rec, double p_cert) {
    if (rec.opt.kv.count("real")) return real_case(k, rec);
    Case     c;
    uint64_t s = v::mix(rec.opt.seed * 1000003 + v::hash_str(rec.opt.mode), k);
    c.r        = v::Rng(s);
    auto sc    = pick_scale(c.r, rec.opt.thorough);
    if (rec.opt.kv.count("scale")) sc = v::Scale(std::atoi(rec.opt.get("scale").c_str()));
    bool quick_debug = rec.opt.kv.count("light") != 0;  // debug builds: cost grows with the square of the size
    if (quick_debug && sc > v::SMALL) sc = v::SMALL;
    if (c.r.chance(p_cert)) c.p = v::gen_cert(s, sc, &c.known_opt);
    else c.p = v::gen(s, sc);
    if (c.p.nrows <= 60 && c.r.chance(0.08)) {  // cost magnitudes
        double f = c.r.pick(std::vector<double>{1e-6, 1e-3, 1e4, 1e7, 1e15, 1e25});
        double hi = 0;
        for (auto& x : c.p.costs) { x = v::fl(x * f); hi = std::max(hi, x); }
        for (auto& x : c.p.costs) if (hi > 1e25) x = v::fl(x * (1e25 / hi));
        c.p.intcost = false;
        c.p.family += "*scaled";
        if (c.known_opt == c.known_opt) c.known_opt = std::numeric_limits<double>::quiet_NaN();
    }
    bool big = c.p.nrows > 60;
    c.q      = gen_params(c.r, c.r.chance(0.55), big);
    if (big) { c.q.alpha = std::max(c.q.alpha, 1.1); c.q.minfix = std::max(c.q.minfix, 0.1); }
    if (quick_debug && c.p.nnz() > 400) c.q.heur = std::min<uint64_t>(c.q.heur, 12);
    rec.context = c.p.brief() + " " + c.q.str() + (c.p.nnz() < 600 ? "\n" + c.p.dump() : std::string());
    return c;
}

inline void note(vh::Rec& rec, Case const& c, CftResult const& res) {
    rec.eval();
    rec.count("family." + c.p.family.substr(0, c.p.family.find('/')));
    rec.maxi("max_rows", c.p.nrows);
    rec.maxi("max_cols", c.p.ncols());
    if (res.sol.idxs.size() >= 2) rec.distinct(v::mix(c.p.hash(), v::hash_str(c.q.str())));
    if (c.p.nrows <= 6) rec.sample(c.p.brief() + " | " + c.q.str() + " | " + sol_str(res.sol) + vh::fmtv(" lb %.6g", double(native_cast(res.dual.lb))));
}

// Optimum (exact) or the best cover cost known to the harness.
inline double upper_ref(Case const& c, std::vector<double> const& seen) {
    double best = std::numeric_limits<double>::infinity();
    for (double x : seen) best = std::min(best, x);
    if (c.known_opt == c.known_opt) best = std::min(best, c.known_opt);
    if (c.p.nrows <= 13) return std::min(best, v::brute_opt(c.p));
    v::Rng r(c.p.hash());
    for (int t = 0; t < 3; ++t) best = std::min(best, v::simple_cover_cost(c.p, r));
    return best;
}

// Rounding allowance of a bound computed in real_t from multipliers of this magnitude.
inline double mult_slack(v::PInst const& p, std::vector<real_t> const& mult) {
    double tot = 0;
    size_t terms = mult.size();
    for (auto u : mult) tot += double(native_cast(u));
    for (size_t j = 0; j < p.cols.size(); ++j) {
        double m = std::fabs(p.costs[j]), rc = p.costs[j];
        for (int i : p.cols[j]) if (size_t(i) < mult.size()) { m += double(native_cast(mult[size_t(i)])); rc -= double(native_cast(mult[size_t(i)])); }
        if (rc < 8 * REAL_EPS * m) { tot += m; ++terms; }
    }
    return 2 * REAL_EPS * tot * (8.0 + std::sqrt(double(terms)));
}

inline void check_dual(vh::Rec& rec, Case const& c, DualState const& d, double ref, char const* who) {
    double lb = double(native_cast(d.lb));
    double ms = 4 * mult_slack(c.p, d.mults);
    if (std::fabs(ref) > 0) rec.maxi("max_rounding_allowance_over_optimum", ms / std::fabs(ref));
    if (!(lb <= ref + lb_slack(c.p, ref) + ms)) rec.viol("bound", vh::fmtv("%s: lower bound %.9g above the cost %.9g of a cover", who, lb, ref));
    if (d.mults.size() != size_t(c.p.nrows)) rec.viol("mults", vh::fmtv("%s: %zu multipliers for %d rows", who, d.mults.size(), c.p.nrows));
    for (size_t i = 0; i < d.mults.size(); ++i) {
        double m = double(native_cast(d.mults[i]));
        if (!std::isfinite(m) || m < 0) { rec.viol("mults", vh::fmtv("%s: multiplier %zu is %g", who, i, m)); break; }
    }
    if (lb > -1e30) rec.count("bounds_from_pricing");
    if (std::fabs(lb - ref) <= 1.0) rec.count("bounds_within_1_of_reference");
}

}  // namespace vc
#endif
