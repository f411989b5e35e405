// Monitor of the pricing step (C16): the core instance against a reference selection.
#include "vcft.hpp"
using namespace vc;

static void mode_c16(uint64_t k, vh::Rec& rec) {
    static Pricer     pricer_reused;
    static InstAndMap core_reused;
    uint64_t  s = v::mix(rec.opt.seed * 1000039 + 16, k);
    v::Rng    r(s);
    double    x = r.unit();
    v::PInst  p = v::gen(s, x < 0.25 ? v::TINY : x < 0.55 ? v::WIDE : x < 0.9 ? v::SMALL : v::MEDIUM);
    auto      inst = mk(p), orig = inst;
    size_t const n = size_t(p.nrows), nc = p.cols.size();
    std::vector<double> best(n, 1e30);
    double              cmax = 1;
    for (size_t j = 0; j < nc; ++j) { cmax = std::max(cmax, p.costs[j]); for (int i : p.cols[j]) best[size_t(i)] = std::min(best[size_t(i)], p.costs[j] / double(p.cols[j].size())); }
    int calls = int(r.range(1, 3));
    for (int c = 0; c < calls; ++c) {
        int kind = int(r.range(0, 5));
        std::vector<real_t> mult;
        std::vector<double> du;
        for (size_t i = 0; i < n; ++i) {
            double u = 0;
            if (kind == 1) u = best[i] * (0.9 + 0.2 * r.unit());
            if (kind == 2) u = best[i] * 3 * r.unit();
            if (kind == 3) u = r.chance(0.5) ? 0 : cmax * r.unit();
            if (kind == 4) u = cmax * 20;
            if (kind == 5) u = best[i];
            mult.push_back(as_real(std::min(1e6, u)));
            du.push_back(double(native_cast(mult.back())));
        }
        rec.context = p.brief() + vh::fmtv(" call %d mults=%d", c, kind) + (p.nnz() < 400 ? "\n" + p.dump() : std::string());
        std::vector<double> rc(nc), tol(nc);
        double L = 0, Lmag = 0;
        size_t terms = n;
        for (double u : du) { L += u; Lmag += u; }
        size_t negs = 0;
        for (size_t j = 0; j < nc; ++j) {
            double d = p.costs[j], m = std::fabs(d);
            for (int i : p.cols[j]) { d -= du[size_t(i)]; m += du[size_t(i)]; }
            rc[j]  = d;
            tol[j] = 2 * REAL_EPS * (double(p.cols[j].size()) + 1) * m;
            if (d < tol[j]) { Lmag += m; ++terms; }
            if (d < 0) L += d;
            negs += d < 0.1;
        }
        if (r.chance(0.05)) {  // an instance without rows (everything fixed) has an empty core
            Instance   none;
            InstAndMap stale = core_reused;
            auto       v0    = pricer_reused(none, std::vector<real_t>(), stale);
            rec.eval();
            if (!(native_cast(v0) == 0) || !stale.col_map.empty() || !stale.inst.costs.empty() || stale.inst.cols.size() != 0 || !stale.inst.rows.empty()) {
                rec.viol("empty", vh::fmtv("pricing an empty instance: bound %g, core of %zu columns", double(native_cast(v0)), stale.col_map.size()));
                return;
            }
            rec.count("empty_instances_priced");
        }
        InstAndMap  fresh_core;
        Pricer      fresh;
        bool        re   = r.chance(0.7);
        InstAndMap& core = re ? core_reused : fresh_core;
        double      val  = double(native_cast((re ? pricer_reused : fresh)(inst, mult, core)));
        rec.eval();
        rec.count("columns_priced", nc);
        auto m = same_inst(inst, orig);
        if (!m.empty()) { rec.viol("input", "pricing modified the instance: " + m); return; }
        double ltol = 4 * REAL_EPS * Lmag * (8 + std::sqrt(double(terms)) + double(n) / 16);
        if (!(std::fabs(val - L) <= ltol + 1e-6 * std::fabs(L))) rec.viol("bound", vh::fmtv("returned %.9g, the Lagrangian bound is %.9g", val, L));
        // faithful columns
        auto& map = core.col_map;
        if (map.size() != core.inst.costs.size()) { rec.viol("map", vh::fmtv("map of %zu entries for %zu columns", map.size(), core.inst.costs.size())); return; }
        if (core.inst.rows.size() != n) { rec.viol("rows", vh::fmtv("%zu rows in the core", core.inst.rows.size())); return; }
        m = sound_inst(core.inst);
        if (!m.empty()) { rec.viol("core", "core instance: " + m); return; }
        std::vector<char> in(nc, 0);
        for (size_t t = 0; t < map.size(); ++t) {
            auto j = size_t(native_cast(map[t]));
            if (j >= nc) { rec.viol("map", "map out of range"); return; }
            if (in[j]++) { rec.viol("twice", vh::fmtv("column %zu is in the core twice", j)); return; }
            if (double(native_cast(core.inst.costs[t])) != p.costs[j]) { rec.viol("cost", vh::fmtv("cost of column %zu differs", j)); return; }
            auto col = core.inst.cols[t];
            bool same = col.size() == p.cols[j].size();
            for (size_t q = 0; same && q < col.size(); ++q) same = int(native_cast(col[q])) == p.cols[j][q];
            if (!same) { rec.viol("coefs", vh::fmtv("coefficients of column %zu differ", j)); return; }
        }
        // rows keep their five cheapest columns
        std::vector<std::vector<int>> rows(n);
        for (size_t j = 0; j < nc; ++j) for (int i : p.cols[j]) rows[size_t(i)].push_back(int(j));
        for (size_t i = 0; i < n; ++i) {
            auto&               row = rows[i];
            std::vector<double> v0;
            double              tl = 0;
            for (int j : row) { v0.push_back(rc[size_t(j)]); tl = std::max(tl, tol[size_t(j)]); }
            size_t kk = std::min<size_t>(5, row.size());
            if (kk == 0) continue;
            std::nth_element(v0.begin(), v0.begin() + long(kk - 1), v0.end());
            double t = v0[kk - 1];
            size_t have = 0;
            for (int j : row) have += in[size_t(j)] && rc[size_t(j)] <= t + 2 * tl;
            if (have < kk) { rec.viol("row", vh::fmtv("row %zu keeps %zu of its %zu cheapest columns", i, have, kk)); return; }
        }
        // columns of small reduced cost
        std::vector<double> inrc;
        for (size_t j = 0; j < nc; ++j) if (in[j]) inrc.push_back(rc[j] - tol[j]);
        std::sort(inrc.begin(), inrc.end());
        size_t missing = 0;
        for (size_t j = 0; j < nc; ++j) {
            if (in[j] || !(rc[j] + tol[j] < 0.0999999)) continue;
            ++missing;
            size_t better = size_t(std::upper_bound(inrc.begin(), inrc.end(), rc[j] + tol[j]) - inrc.begin());
            if (better < 5 * n) { rec.viol("small", vh::fmtv("column %zu of reduced cost %.6g is missing, only %zu columns of the core are no worse (rows %zu)", j, rc[j], better, n)); return; }
        }
        rec.count("displaced_columns", missing);
        rec.maxi("max_core_over_full", double(map.size()) / double(nc));
        if (map.size() < nc) { rec.distinct(v::mix(v::mix(p.hash(), uint64_t(kind)), uint64_t(c))); rec.count("proper_selections"); }
        if (n <= 6) rec.sample(p.brief() + vh::fmtv(" core %zu of %zu columns, value %.6g", map.size(), nc, val));
    }
}
int main(int argc, char** argv) { return vh::run_main(argc, argv, mode_c16); }
