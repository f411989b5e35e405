// Monitor of column fixing (C15): sequences of random fixings and 3-phase fixing steps against a reference model.
#include "vcft.hpp"
using namespace vc;

static std::vector<int> vi(std::vector<cidx_t> const& x) {
    std::vector<int> o;
    for (auto j : x) o.push_back(int(native_cast(j)));
    return o;
}

// Is (inst, fixing) the residual of p after fixing `fixed` (original indexes, in order)?
static std::string model(v::PInst const& p, std::vector<int> const& fixed, Instance const& inst, FixingData const& f) {
    std::vector<char> cov(size_t(p.nrows), 0), isf(p.cols.size(), 0);
    double            cost = 0;
    for (int j : fixed) { isf[size_t(j)] = 1; cost += p.costs[size_t(j)]; for (int i : p.cols[size_t(j)]) cov[size_t(i)] = 1; }
    auto s = sound_inst(inst);
    if (!s.empty()) return "residual instance: " + s;
    if (f.curr2orig.row_map.size() != inst.rows.size()) return "row map and rows differ in size";
    if (f.curr2orig.col_map.size() != inst.costs.size()) return "column map and columns differ in size";
    std::vector<char> seen(size_t(p.nrows), 0);
    size_t            nleft = 0;
    for (char c : cov) nleft += !c;
    if (inst.rows.size() != nleft) return vh::fmtv("%zu rows left instead of %zu", inst.rows.size(), nleft);
    for (auto x : f.curr2orig.row_map) {
        auto i = size_t(native_cast(x));
        if (i >= cov.size()) return "row map out of range";
        if (cov[i]) return vh::fmtv("row %zu is left although a fixed column covers it", i);
        if (seen[i]++) return vh::fmtv("two rows mapped to row %zu", i);
    }
    size_t want = 0;
    for (size_t j = 0; j < p.cols.size(); ++j) {
        if (isf[j]) continue;
        for (int i : p.cols[j]) if (!cov[size_t(i)]) { ++want; break; }
    }
    if (fixed.empty()) want = p.cols.size();  // nothing fixed: empty columns are still there
    if (inst.costs.size() != want) return vh::fmtv("%zu columns left instead of %zu", inst.costs.size(), want);
    std::vector<char> cs(p.cols.size(), 0);
    for (size_t j = 0; j < inst.costs.size(); ++j) {
        auto o = size_t(native_cast(f.curr2orig.col_map[j]));
        if (o >= p.cols.size()) return "column map out of range";
        if (isf[o]) return vh::fmtv("fixed column %zu is left", o);
        if (cs[o]++) return vh::fmtv("two columns mapped to column %zu", o);
        if (double(native_cast(inst.costs[j])) != p.costs[o]) return vh::fmtv("cost of column %zu changed", o);
        std::vector<int> a, b;
        for (int i : p.cols[o]) if (!cov[size_t(i)]) a.push_back(i);
        for (size_t t = inst.cols.begs[j]; t < inst.cols.begs[j + 1]; ++t) b.push_back(int(native_cast(f.curr2orig.row_map[size_t(native_cast(inst.cols.idxs[t]))])));
        if (a != b) return vh::fmtv("coefficients of column %zu differ", o);
    }
    if (vi(f.fixed_cols) != fixed) {
        auto a = vi(f.fixed_cols), b = fixed;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (a != b) return "recorded fixed columns differ";
    }
    double fc = double(native_cast(f.fixed_cost));
    if (std::fabs(fc - cost) > 1e-5 * std::fabs(cost)) return vh::fmtv("fixed cost %.9g instead of %.9g", fc, cost);
    return "";
}

// a random residual cover, translated, covers the original instance at fixed + residual cost
static std::string translate(v::PInst const& p, Instance const& inst, FixingData const& f, v::Rng& r) {
    std::vector<char>   cov(inst.rows.size(), 0);
    std::vector<cidx_t> full = f.fixed_cols;
    double              cost = double(native_cast(f.fixed_cost));
    for (size_t i = 0; i < inst.rows.size(); ++i) {
        if (cov[i]) continue;
        size_t j = size_t(native_cast(inst.rows[i][size_t(r.range(0, int64_t(inst.rows[i].size()) - 1))]));
        full.push_back(f.curr2orig.col_map[j]);
        cost += double(native_cast(inst.costs[j]));
        for (size_t t = inst.cols.begs[j]; t < inst.cols.begs[j + 1]; ++t) cov[size_t(native_cast(inst.cols.idxs[t]))] = 1;
    }
    auto m = check_cover(p, full);
    if (!m.empty()) return "translated cover: " + m;
    double sum = true_cost(p, full);
    if (std::fabs(sum - cost) > 1e-5 * std::fabs(sum)) return vh::fmtv("translated cover costs %.9g, fixed + residual is %.9g", sum, cost);
    return "";
}

static void mode_c15(uint64_t k, vh::Rec& rec) {
    static Greedy    greedy;
    static ColFixing colfix;
    static IdxsMaps  maps_reused;
    uint64_t  s = v::mix(rec.opt.seed * 1000037 + 15, k);
    v::Rng    r(s);
    double    x = r.unit();
    v::GenCfg cfg;
    cfg.huge_costs = false;
    v::PInst p = v::gen(s, x < 0.3 ? v::TINY : x < 0.5 ? v::WIDE : x < 0.9 ? v::SMALL : v::MEDIUM, cfg);
    auto     inst = mk(p), orig = inst;
    FixingData fixing;
    if (r.chance(0.5)) { fixing.fixed_cols.push_back(as_cidx(0)); fixing.fixed_cost = as_real(3.0); fixing.curr2orig.col_map.assign(7, as_cidx(0)); }  // left over from earlier use
    make_identity_fixing_data(csize(inst.cols), rsize(inst.rows), fixing);
    std::vector<int> fixed;
    auto m = model(p, fixed, inst, fixing);
    rec.context = p.brief() + (p.nnz() < 400 ? "\n" + p.dump() : std::string());
    if (!m.empty()) { rec.viol("identity", m); return; }
    bool steps3 = r.chance(0.5);
    if (p.nrows > 60 && steps3 && r.chance(0.6)) steps3 = false;
    std::vector<real_t> mult;
    double cmax = 1;
    for (double c : p.costs) cmax = std::max(cmax, c);
    for (int i = 0; i < p.nrows; ++i) mult.push_back(as_real(r.chance(0.2) ? 0.0 : r.unit() * cmax * r.pick(std::vector<double>{0.05, 0.3, 1.0})));
    rec.eval();
    Environment env = Params().env();
    int         n   = 0, before = 0;
    rec.context += steps3 ? "\n3-phase steps" : "\nrandom fixings";
    while (!inst.rows.empty()) {
        if (++n > p.nrows + 2) { rec.viol("progress", "more fixing steps than rows"); return; }
        before = int(inst.rows.size());
        if (steps3 && r.chance(0.85)) {
            std::map<int, double> by_row;
            for (size_t i = 0; i < inst.rows.size(); ++i) by_row[int(native_cast(fixing.curr2orig.row_map[i]))] = double(native_cast(mult[i]));
            size_t nf = fixing.fixed_cols.size();
            auto   old = vi(fixing.fixed_cols);
            colfix(env, as_ridx(r.chance(0.5) ? p.nrows : p.nrows * 5), inst, fixing, mult, greedy);
            auto now = vi(fixing.fixed_cols);
            if (now.size() <= nf) { rec.viol("progress", "the fixing step fixed no column"); return; }
            if (!std::equal(old.begin(), old.end(), now.begin())) { rec.viol("history", "earlier fixed columns changed"); return; }
            for (size_t t = nf; t < now.size(); ++t) {
                if (now[t] < 0 || now[t] >= p.ncols()) { rec.viol("range", "fixed column out of range"); return; }
                for (size_t u = 0; u < t; ++u) if (now[u] == now[t]) { rec.viol("twice", vh::fmtv("column %d fixed twice", now[t])); return; }
            }
            fixed = now;
            if (mult.size() != inst.rows.size()) { rec.viol("mults", vh::fmtv("%zu multipliers for %zu rows", mult.size(), inst.rows.size())); return; }
            for (size_t i = 0; i < mult.size() && i < fixing.curr2orig.row_map.size(); ++i) {
                auto o = int(native_cast(fixing.curr2orig.row_map[i]));
                if (!by_row.count(o) || by_row[o] != double(native_cast(mult[i]))) { rec.viol("mults", vh::fmtv("multiplier of surviving row %d changed", o)); return; }
            }
            rec.count("three_phase_fixing_steps");
            if (r.chance(0.7)) for (auto& u : mult) u = as_real(std::min(1e6, double(native_cast(u)) * (0.8 + 0.6 * r.unit())));
        } else {
            std::vector<cidx_t> sel;
            std::vector<int>    o;
            int nc = int(inst.costs.size());
            for (int j = 0; j < nc; ++j) o.push_back(j);
            r.shuffle(o);
            int want = int(r.chance(0.6) ? r.range(1, 3) : r.range(1, std::max(1, nc / 2)));
            if (r.chance(0.03)) want = nc;
            for (int t = 0; t < want && t < nc; ++t) sel.push_back(as_cidx(o[size_t(t)]));
            if (r.chance(0.5)) std::sort(sel.begin(), sel.end());
            std::map<int, double> by_row;
            auto old_rows = fixing.curr2orig.row_map;
            auto old_cols = fixing.curr2orig.col_map;
            for (auto j : sel) fixed.push_back(int(native_cast(fixing.curr2orig.col_map[size_t(native_cast(j))])));
            IdxsMaps  fresh;
            IdxsMaps& maps = r.chance(0.5) ? maps_reused : fresh;
            fix_columns_and_compute_maps(sel, inst, fixing, maps);
            // the maps returned describe this step, and keep the multipliers aligned
            if (!inst.rows.empty()) {
                std::vector<real_t> nm(inst.rows.size(), as_real(-1.0));
                if (maps.row_map.size() != old_rows.size() || maps.col_map.size() != old_cols.size()) { rec.viol("maps", "old-to-new maps have the wrong size"); return; }
                for (size_t i = 0; i < maps.row_map.size(); ++i)
                    if (maps.row_map[i] != removed_ridx) {
                        auto w = size_t(native_cast(maps.row_map[i]));
                        if (w >= nm.size() || fixing.curr2orig.row_map[w] != old_rows[i]) { rec.viol("maps", "old-to-new row map does not match the recorded original rows"); return; }
                        nm[w] = mult[i];
                    }
                for (size_t j = 0; j < maps.col_map.size(); ++j)
                    if (maps.col_map[j] != removed_cidx) {
                        auto w = size_t(native_cast(maps.col_map[j]));
                        if (w >= inst.costs.size() || fixing.curr2orig.col_map[w] != old_cols[j]) { rec.viol("maps", "old-to-new column map does not match the recorded original columns"); return; }
                    }
                for (auto u : nm) if (u < as_real(0.0)) { rec.viol("maps", "a surviving row has no old row"); return; }
                mult = nm;
            }
            rec.count("random_fixings");
        }
        m = model(p, fixed, inst, fixing);
        if (!m.empty()) {
            rec.context += "\nfixed";
            for (int j : fixed) rec.context += vh::fmtv(" %d", j);
            rec.viol("residual", vh::fmtv("after step %d: ", n) + m);
            return;
        }
        m = translate(p, inst, fixing, r);
        if (!m.empty()) { rec.viol("translation", vh::fmtv("after step %d: ", n) + m); return; }
        rec.count("residuals_checked");
    }
    rec.maxi("max_steps", n);
    if (n > 1) rec.distinct(v::mix(p.hash(), uint64_t(n)));
    if (p.nrows <= 8) { std::string f; for (int j : fixed) f += vh::fmtv(" %d", j); rec.sample(p.brief() + vh::fmtv(" fixed in %d steps:", n) + f); }
}

int main(int argc, char** argv) { return vh::run_main(argc, argv, mode_c15); }
