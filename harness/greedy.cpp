// Monitors of the greedy stage (C13) and of the redundancy removal (C14).
#include "vcft.hpp"
using namespace vc;

struct G {
    v::PInst            p;
    Instance            inst;
    std::vector<real_t> mult, red;
    std::vector<double> du, dred, mag;  // the same in double, and the magnitude of the terms
    v::Rng              r{0};
};

static G make(uint64_t k, vh::Rec& rec, bool jitter) {
    G        g;
    uint64_t s = v::mix(rec.opt.seed * 1000033 + v::hash_str(rec.opt.mode), k);
    g.r        = v::Rng(s);
    double x   = g.r.unit();
    v::GenCfg cfg;
    cfg.huge_costs = false;
    g.p = v::gen(s, x < 0.35 ? v::TINY : x < 0.5 ? v::WIDE : x < 0.93 ? v::SMALL : v::MEDIUM, cfg);
    if (jitter) {
        for (auto& c : g.p.costs) c = v::fl(c * (0.5 + g.r.unit()) + 0.01 * g.r.unit());
        g.p.intcost = false;
    }
    g.inst    = mk(g.p);
    int  kind = int(g.r.range(0, 4));
    auto n    = size_t(g.p.nrows);
    g.mult.assign(n, as_real(0.0));
    std::vector<double> best(n, 1e30);
    double              cmax = 1;
    for (size_t j = 0; j < g.p.cols.size(); ++j) {
        cmax = std::max(cmax, g.p.costs[j]);
        for (int i : g.p.cols[j]) best[size_t(i)] = std::min(best[size_t(i)], g.p.costs[j] / double(g.p.cols[j].size()));
    }
    for (size_t i = 0; i < n; ++i) {
        double u = 0;
        if (kind == 1) u = best[i] * (0.9 + 0.2 * g.r.unit());
        if (kind == 2) u = best[i] * 3 * g.r.unit();
        if (kind == 3) u = g.r.chance(0.5) ? 0 : cmax * g.r.unit();
        if (kind == 4) u = std::min(1e6, cmax * 20 * g.r.unit());
        g.mult[i] = as_real(u);
        g.du.push_back(double(native_cast(g.mult[i])));
    }
    compute_reduced_costs(g.inst, g.mult, g.red);
    for (size_t j = 0; j < g.p.cols.size(); ++j) {
        double d = g.p.costs[j], m = std::fabs(d);
        for (int i : g.p.cols[j]) { d -= g.du[size_t(i)]; m += g.du[size_t(i)]; }
        g.dred.push_back(d);
        g.mag.push_back(m);
    }
    rec.context = g.p.brief() + vh::fmtv(" mults=%d jitter=%d", kind, int(jitter)) + (g.p.nnz() < 400 ? "\n" + g.p.dump() : std::string());
    if (g.p.nrows < 12) {
        rec.context += "mult";
        for (double u : g.du) rec.context += vh::fmtv(" %.9g", u);
    }
    return g;
}

// Reference view of the selection so far.
struct State {
    G const&            g;
    std::vector<int>    cov;
    std::vector<char>   in;
    int                 left;
    State(G const& g_) : g(g_), cov(size_t(g_.p.nrows), 0), in(g_.p.cols.size(), 0), left(g_.p.nrows) {}
    void add(int j) {
        in[size_t(j)] = 1;
        for (int i : g.p.cols[size_t(j)]) if (cov[size_t(i)]++ == 0) --left;
    }
    // score and its rounding uncertainty
    double score(size_t j, double* tol) const {
        double gam = g.dred[j];
        int    mu  = 0;
        for (int i : g.p.cols[j]) { if (cov[size_t(i)]) gam += g.du[size_t(i)]; else ++mu; }
        double e = 4 * REAL_EPS * (double(g.p.cols[j].size()) + 2) * g.mag[j];
        if (mu == 0) { *tol = 0; return std::numeric_limits<double>::infinity(); }
        if (gam > e) { *tol = e / mu; return gam / mu; }
        if (gam < -e) { *tol = e * mu; return gam * mu; }
        *tol = e * mu;
        return gam > 0 ? gam / mu : gam * mu;
    }
    // best column, and whether it is the only possible one
    int best(bool* unique) const {
        int    b = -1;
        double bs = 0, bt = 0;
        std::vector<double> sc(g.p.cols.size()), tl(g.p.cols.size());
        for (size_t j = 0; j < g.p.cols.size(); ++j) {
            sc[j] = score(j, &tl[j]);
            if (std::isinf(sc[j])) continue;
            if (b < 0 || sc[j] < bs) { b = int(j); bs = sc[j]; bt = tl[j]; }
        }
        *unique = true;
        for (size_t j = 0; j < sc.size(); ++j) if (int(j) != b && !std::isinf(sc[j]) && sc[j] - tl[j] <= bs + bt) *unique = false;
        return b;
    }
    bool acceptable(int c) const {
        double t, s = score(size_t(c), &t);
        if (std::isinf(s)) return false;
        for (size_t j = 0; j < g.p.cols.size(); ++j) {
            double tj, sj = score(j, &tj);
            if (!std::isinf(sj) && sj + tj < s - t) return false;
        }
        return true;
    }
};

static std::vector<int> vi(std::vector<cidx_t> const& x) {
    std::vector<int> o;
    for (auto j : x) o.push_back(int(native_cast(j)));
    return o;
}
static std::string bad(G const& g, std::vector<cidx_t> const& s) {  // indexes, repetitions
    std::set<int> seen;
    for (int j : vi(s)) {
        if (j < 0 || j >= g.p.ncols()) return vh::fmtv("column %d out of range", j);
        if (!seen.insert(j).second) return vh::fmtv("column %d selected twice", j);
    }
    return "";
}
static std::string str(std::vector<int> const& x) { std::string o; for (int j : x) o += vh::fmtv(" %d", j); return o; }

// Cheapest way to drop redundant columns (those in no row covered once); false when more than `maxr` are redundant.
static bool best_drop(v::PInst const& p, std::vector<int> const& sol, double* best, int* nred, int maxr = 10) {
    std::vector<int> cov(size_t(p.nrows), 0), red;
    for (int j : sol) for (int i : p.cols[size_t(j)]) ++cov[size_t(i)];
    double fix = 0;
    std::vector<char> part(size_t(p.nrows), 0);
    for (int j : sol) {
        bool r = true;
        for (int i : p.cols[size_t(j)]) if (cov[size_t(i)] <= 1) r = false;
        if (r) red.push_back(j);
        else { fix += p.costs[size_t(j)]; for (int i : p.cols[size_t(j)]) part[size_t(i)] = 1; }
    }
    *nred = int(red.size());
    if (int(red.size()) > maxr) return false;
    int need = 0;
    for (char c : part) need += !c;
    *best = std::numeric_limits<double>::infinity();
    for (int m = 0; m < (1 << red.size()); ++m) {
        double            c = fix;
        std::vector<char> q = part;
        for (size_t t = 0; t < red.size(); ++t) if (m >> t & 1) { c += p.costs[size_t(red[t])]; for (int i : p.cols[size_t(red[t])]) q[size_t(i)] = 1; }
        if (c < *best && std::find(q.begin(), q.end(), 0) == q.end()) *best = c;
    }
    return true;
}

static void mode_c13(uint64_t k, vh::Rec& rec) {
    static Greedy reused;
    G      g   = make(k, rec, v::Rng(k * 77 + rec.opt.seed).chance(0.6));
    auto&  r   = g.r;
    double tol = 1e-5;
    // partial selection
    std::vector<cidx_t> sol0;
    if (r.chance(0.6))
        for (int t = int(r.range(1, std::max(1, std::min(6, g.p.ncols() / 3)))); t > 0; --t) {
            auto j = as_cidx(r.range(0, g.p.ncols() - 1));
            if (std::find(sol0.begin(), sol0.end(), j) == sol0.end()) sol0.push_back(j);
        }
    if (r.chance(0.05)) { sol0.clear(); for (int j : some_cover(g.p, r)) sol0.push_back(as_cidx(j)); }
    rec.context += "\npartial" + str(vi(sol0));
    State st0(g);
    for (int j : vi(sol0)) st0.add(j);
    bool const complete = st0.left == 0;

    auto call = [&](std::vector<cidx_t>& s, real_t cut, cidx_t cap) {
        if (r.chance(0.7)) return reused(g.inst, g.mult, g.red, s, cut, cap);
        Greedy fresh;
        return fresh(g.inst, g.mult, g.red, s, cut, cap);
    };
    auto   inf = limits<real_t>::max();
    auto   all = limits<cidx_t>::max();
    auto   s   = sol0;
    real_t c   = call(s, inf, all);
    auto   judge = [&](std::vector<cidx_t> const& x, real_t cost, char const* who) {
        auto b = bad(g, x);
        if (b.empty()) b = check_cover(g.p, x);
        if (!b.empty()) { rec.viol("cover", std::string(who) + ": " + b + ":" + str(vi(x))); return false; }
        double sum = true_cost(g.p, x);
        if (!v::cost_matches(g.p, sum, double(native_cast(cost)), x.size(), REAL_EPS)) {
            rec.viol("cost", vh::fmtv("%s: cost %.9g, columns sum to %.9g", who, double(native_cast(cost)), sum));
            return false;
        }
        return true;
    };
    if (!(c < inf)) {
        if (!complete) rec.viol("no-cover", "no cutoff and no cap, but no cover was returned");
        rec.count("already_complete");
        rec.eval();
        return;
    }
    judge(s, c, "no cutoff");
    rec.eval();
    if (s.size() > 1) rec.distinct(v::mix(g.p.hash(), v::hash_str(rec.context)));
    if (g.p.nrows <= 6) rec.sample(g.p.brief() + " partial" + str(vi(sol0)) + " ->" + str(vi(s)) + vh::fmtv(" cost %g", double(native_cast(c))));

    // the sequence of additions, while it is determined by the scores
    std::vector<int> seq;
    State            st = st0;
    bool             det = true;
    while (st.left > 0) {
        bool u;
        int  b = st.best(&u);
        if (b < 0) break;
        if (!u) { det = false; break; }
        st.add(b);
        seq.push_back(b);
    }
    if (det && !complete) {
        rec.count("determined_sequences");
        rec.count("determined_additions", seq.size());
        std::set<int> ok(seq.begin(), seq.end());
        for (int j : vi(sol0)) ok.insert(j);
        for (int j : vi(s)) if (!ok.count(j)) { rec.viol("not-best", vh::fmtv("column %d was added, but best scores give", j) + str(seq)); break; }
        std::vector<int> full = vi(sol0);
        full.insert(full.end(), seq.begin(), seq.end());
        double best;
        int    nred;
        if (best_drop(g.p, full, &best, &nred)) {
            rec.count("greedy_with_enumerated_removal", nred > 0);
            double got = true_cost(g.p, s);
            if (got > best + tol * std::fabs(best)) rec.viol("redundant", vh::fmtv("cost %.9g after the removal of redundant columns, %.9g is possible", got, best));
        }
    }
    // with a cap
    for (int t = 0; t < 3; ++t) {
        size_t cap = sol0.size() + size_t(r.range(t == 0 ? 0 : 1, std::max<int64_t>(2, int64_t(seq.size()) + 1)));
        auto   x   = sol0;
        real_t cc  = call(x, inf, as_cidx(cap));
        rec.count("capped_calls");
        auto b = bad(g, x);
        if (!b.empty()) { rec.viol("cap", "with a cap: " + b); break; }
        if (x.size() > std::max(cap, sol0.size())) rec.viol("cap", vh::fmtv("%zu columns with cap %zu (partial selection of %zu)", x.size(), cap, sol0.size()));
        if (sol0.size() >= cap && ll(x) != ll(sol0)) rec.viol("cap", "columns changed although the cap was already reached");
        if (check_cover(g.p, x).empty() && cc < inf) judge(x, cc, "with a cap");
        size_t steps = cap - std::min(cap, sol0.size());
        if (steps > 0 && seq.size() >= steps) {  // the first `steps` additions are determined
            std::set<int> ok(seq.begin(), seq.begin() + long(steps));
            std::set<int> start;
            for (int j : vi(sol0)) start.insert(j);
            auto got = vi(x);
            for (int j : got) if (!ok.count(j) && !start.count(j)) { rec.viol("not-best", vh::fmtv("cap %zu: column %d was added, but best scores give", cap, j) + str(seq)); break; }
            int last = seq[steps - 1];
            if (std::find(got.begin(), got.end(), last) == got.end()) rec.viol("cap-short", vh::fmtv("cap %zu: the addition of column %d is missing", cap, last));
        }
    }
    // one addition at a time, ties included
    State            chain = st0;
    std::vector<int> sel   = vi(sol0);
    for (int t = 0; t < (g.p.nrows > 60 ? 3 : 12) && chain.left > 0; ++t) {
        std::vector<cidx_t> x;
        for (int j : sel) x.push_back(as_cidx(j));
        call(x, inf, as_cidx(sel.size() + 1));
        std::vector<int> added;
        for (int j : vi(x)) if (j < 0 || j >= g.p.ncols() || !chain.in[size_t(j)]) added.push_back(j);
        if (added.size() != 1 || added[0] < 0 || added[0] >= g.p.ncols()) { rec.viol("step", vh::fmtv("one more column allowed, but %zu were added", added.size())); break; }
        if (!chain.acceptable(added[0])) {
            bool u;
            rec.viol("not-best", vh::fmtv("column %d added after%s, but column %d has a better score", added[0], str(sel).c_str(), chain.best(&u)));
            break;
        }
        rec.count("single_additions");
        chain.add(added[0]);
        sel.push_back(added[0]);
    }
    // cutoffs around the cost
    double base = double(native_cast(c));
    if (!complete)
        for (double f : {0.3, 0.8, 0.999, 1.0, 1.001, 1.2}) {
            auto   x   = sol0;
            real_t cut = as_real(base * f);
            real_t cc  = call(x, cut, all);
            rec.count("cutoff_calls");
            if (cc < cut) {
                judge(x, cc, "with a cutoff");
                if (f < 1 && det) rec.count("below_cutoff_by_other_removals");
            } else if (f > 1 && det && double(native_cast(cut)) > base * (1 + 1e-5)) rec.viol("cutoff", vh::fmtv("cutoff %.9g: no cover was returned, but without cutoff the cost is %.9g", base * f, base));
        }
}

static std::string inv(G const& g, std::vector<int> const& sol, RedundancyData const& d) {
    std::set<int> rem, red;
    for (int j : vi(d.cols_to_remove)) if (!rem.insert(j).second) return vh::fmtv("column %d removed twice", j);
    for (auto x : d.redund_set) red.insert(int(native_cast(x.idx)));
    std::vector<unsigned> tot(size_t(g.p.nrows), 0), part(size_t(g.p.nrows), 0);
    double                cost = 0;
    for (int j : sol) {
        if (rem.count(j)) continue;
        for (int i : g.p.cols[size_t(j)]) ++tot[size_t(i)];
        if (red.count(j)) continue;
        for (int i : g.p.cols[size_t(j)]) ++part[size_t(i)];
        cost += g.p.costs[size_t(j)];
    }
    size_t cov = 0;
    for (size_t i = 0; i < tot.size(); ++i) {
        if (tot[i] == 0) return vh::fmtv("row %zu has been uncovered", i);
        if (d.total_cover[i] != tot[i]) return vh::fmtv("total coverage of row %zu is %u instead of %u", i, unsigned(d.total_cover[i]), tot[i]);
        if (d.partial_cover[i] != part[i]) return vh::fmtv("partial coverage of row %zu is %u instead of %u", i, unsigned(d.partial_cover[i]), part[i]);
        cov += part[i] > 0;
    }
    if (size_t(native_cast(d.partial_cov_count)) != cov) return vh::fmtv("%zu rows covered, recorded %zu", cov, size_t(native_cast(d.partial_cov_count)));
    if (std::fabs(double(native_cast(d.partial_cost)) - cost) > 1e-5 * std::fabs(cost) + 1e-30) return vh::fmtv("kept columns cost %.9g, recorded %.9g", cost, double(native_cast(d.partial_cost)));
    return "";
}

static void mode_c14(uint64_t k, vh::Rec& rec) {
    G     g = make(k, rec, v::Rng(k * 77 + rec.opt.seed).chance(0.4));
    auto& r = g.r;
    static RedundancyData reused;
    // a cover with a chosen amount of redundancy
    auto sol = some_cover(g.p, r, int(r.range(0, 1)));
    if (r.chance(0.8)) {
        int want = int(r.chance(0.7) ? r.range(1, 9) : r.range(10, 30));
        for (int t = 0; t < want; ++t) {
            int j = int(r.range(0, g.p.ncols() - 1));
            if (std::find(sol.begin(), sol.end(), j) == sol.end()) sol.push_back(j);
        }
    }
    r.shuffle(sol);
    double best;
    int    nred;
    bool   few  = best_drop(g.p, sol, &best, &nred);
    double full = 0;
    for (int j : sol) full += g.p.costs[size_t(j)];
    real_t cut  = limits<real_t>::max();
    int    kind = int(r.range(0, 3));
    if (kind == 0) cut = as_real(full * (0.5 + 0.6 * r.unit()));
    if (kind == 1 && few) cut = as_real(best * r.pick(std::vector<double>{0.99, 1.0, 1.01, 1.3}));
    rec.context += "\ncover" + str(sol) + vh::fmtv("\ncutoff %.9g redundant %d", double(native_cast(cut)), nred);
    std::vector<cidx_t> cs;
    for (int j : sol) cs.push_back(as_cidx(j));
    RedundancyData local;
    RedundancyData& d = r.chance(0.7) ? reused : local;
    d.total_cover.reset(rsize(g.inst.rows));
    for (auto j : cs) d.total_cover.cover(g.inst.cols[j]);
    complete_init_redund_set(g.inst, cs, cut, d);
    rec.eval();
    rec.count(few ? "few_redundant" : "many_redundant");
    if (nred > 0) rec.distinct(v::mix(g.p.hash(), v::hash_str(rec.context)));
    if (g.p.nrows <= 6) rec.sample(g.p.brief() + " cover" + str(sol) + vh::fmtv(" redundant %d", nred));
    if (d.partial_cost >= cut) { rec.count("over_cutoff_at_start"); return; }
    if (int(d.redund_set.size()) != nred) rec.viol("set", vh::fmtv("%zu redundant columns found instead of %d", d.redund_set.size(), nred));
    auto m = inv(g, sol, d);
    if (!m.empty()) { rec.viol("init", "after the initialisation: " + m); return; }
    size_t before = d.redund_set.size();
    heuristic_removal(g.inst, d);
    m = inv(g, sol, d);
    if (!m.empty()) { rec.viol("heuristic", "after the heuristic removal: " + m); return; }
    if (before <= 10 && !d.cols_to_remove.empty()) rec.viol("heuristic", "heuristic removal with at most ten redundant columns");
    for (auto x : d.redund_set) {
        bool red = true;
        for (int i : g.p.cols[size_t(native_cast(x.idx))]) if (d.total_cover[size_t(i)] <= 1) red = false;
        if (!red) { rec.viol("heuristic", vh::fmtv("column %d is still listed as redundant", int(native_cast(x.idx)))); break; }
    }
    rec.count("heuristically_removed", d.cols_to_remove.size());
    bool   done = d.partial_cov_count == rsize(g.inst.rows) || d.redund_set.empty();
    if (d.partial_cost >= cut) { rec.count("over_cutoff"); return; }
    if (d.redund_set.size() > 10) {
        if (!done) rec.viol("heuristic", vh::fmtv("%zu redundant columns left", d.redund_set.size()));
        rec.count("covered_without_the_rest");
        return;
    }
    // what is left for the enumeration, by brute force
    std::vector<int> rest;
    std::set<int>    rem0;
    for (int j : vi(d.cols_to_remove)) rem0.insert(j);
    for (int j : sol) if (!rem0.count(j)) rest.push_back(j);
    double best2;
    int    nred2;
    bool   few2 = best_drop(g.p, rest, &best2, &nred2);
    if (d.redund_set.empty()) { rec.count("nothing_to_enumerate"); return; }
    enumeration_removal(g.inst, d);
    std::set<int> rem;
    for (int j : vi(d.cols_to_remove)) if (!rem.insert(j).second) rec.viol("enumeration", vh::fmtv("column %d removed twice", j));
    std::vector<cidx_t> kept;
    for (int j : sol) if (!rem.count(j)) kept.push_back(as_cidx(j));
    m = check_cover(g.p, kept);
    if (!m.empty()) { rec.viol("uncovered", "after the enumeration: " + m); return; }
    double got = true_cost(g.p, kept);
    rec.count("enumerations");
    rec.maxi("max_enumerated", double(nred2));
    double lim = double(native_cast(cut));
    if (few2) {
        if (best2 < lim * (1 - 1e-6)) {
            if (got > best2 + 1e-5 * std::fabs(best2)) rec.viol("not-optimal", vh::fmtv("cover of cost %.9g left, %.9g is possible", got, best2));
            if (std::fabs(double(native_cast(d.best_cost)) - got) > 1e-5 * std::fabs(got) + 1e-30) rec.viol("cost", vh::fmtv("recorded cost %.9g, columns cost %.9g", double(native_cast(d.best_cost)), got));
            rec.count("optimal_removals");
        } else if (best2 > lim * (1 + 1e-6)) {
            if (d.best_cost < cut) rec.viol("cutoff", vh::fmtv("cost %.9g recorded below the cutoff, the best is %.9g", double(native_cast(d.best_cost)), best2));
            rec.count("nothing_below_cutoff");
        }
    }
}

static void one(uint64_t k, vh::Rec& rec) {
    if (rec.opt.mode == "c13") mode_c13(k, rec);
    else if (rec.opt.mode == "c14") mode_c14(k, rec);
    else std::exit(3);
}
int main(int argc, char** argv) { return vh::run_main(argc, argv, one); }
