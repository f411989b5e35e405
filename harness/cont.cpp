// C25: model-based operation sequences on the containers and helpers.
#include "vcft.hpp"
#include "vclock.hpp"

#include <deque>

#include "core/Instance.hpp"
#include "core/utils.hpp"
#include "utils/CoverCounters.hpp"
#include "utils/SortedArray.hpp"
#include "utils/Span.hpp"
#include "utils/SparseBinMat.hpp"
#include "utils/sort.hpp"

using namespace vc;
using vh::fmtv;

struct El { int key, id; };
struct ByKey { int const* tab; int operator()(El const& e) const { return tab ? tab[e.key] : e.key; } };

// ------------------------------------------------------------------ SortedArray
template <size_t N>
static void sorted_array(vh::Rec& rec, v::Rng& r) {
    std::vector<int> tab(64);
    int  spread = int(r.pick(std::vector<int>{1, 3, 10, 64, 100000}));
    for (auto& x : tab) x = int(r.range(-spread, spread));
    bool use_tab = r.chance(0.5);
    SortedArray<El, N, ByKey> a{ByKey{use_tab ? tab.data() : nullptr}};
    auto key = [&](El const& e) { return use_tab ? tab[size_t(e.key)] : e.key; };
    std::vector<int> offered;       // keys offered since the last clear, ascending
    std::map<int, int> by_id;       // id -> key of everything offered
    int              id = 0;
    uint64_t         h  = N;
    int              nops = int(r.range(1, 60)), order = int(r.range(0, 2)), cur = int(r.range(0, 63));
    std::string      trace;
    for (int t = 0; t < nops; ++t) {
        if (r.chance(0.02)) { a.clear(); offered.clear(); by_id.clear(); trace += " clear"; if (a.size() != 0) rec.viol("sorted-array", "not empty after clear"); continue; }
        cur   = order == 0 ? int(r.range(0, 63)) : order == 1 ? std::min(63, cur + int(r.range(0, 2))) : std::max(0, cur - int(r.range(0, 2)));
        El e{use_tab ? cur : cur - 32 < -30 ? -30 : cur - 32, id++};
        trace += fmtv(" %d", key(e));
        bool full = a.size() == N;
        int  last = a.size() ? key(a.back()) : 0;
        bool ok;
        if (!full && r.chance(0.2)) { a.insert(e); ok = true; }
        else if (r.chance(0.5)) ok = a.try_insert(e);
        else { El c = e; ok = a.try_insert(std::move(c)); }
        h = v::mix(h, uint64_t(key(e) + 1000));
        offered.insert(std::upper_bound(offered.begin(), offered.end(), key(e)), key(e));
        by_id[e.id] = key(e);
        rec.context = fmtv("SortedArray<%zu> offered:", N) + trace;
        if (a.size() != std::min(N, offered.size())) { rec.viol("sorted-array", fmtv("holds %zu elements after %zu offers", a.size(), offered.size())); return; }
        std::set<int> ids;
        bool          present = false;
        for (size_t i = 0; i < a.size(); ++i) {
            El const& x = a[i];
            if (key(x) != offered[i]) { rec.viol("sorted-array", fmtv("key %zu is %d, expected %d", i, key(x), offered[i])); return; }
            if (!ids.insert(x.id).second || !by_id.count(x.id) || by_id[x.id] != key(x)) { rec.viol("sorted-array", "an element is repeated or was never offered"); return; }
            present = present || x.id == e.id;
        }
        if (present != ok) { rec.viol("sorted-array", ok ? "try_insert returned true for an element that is not held" : "try_insert returned false for an element that is held"); return; }
        if (full && key(e) < last && !ok) { rec.viol("sorted-array", "a smaller element was refused"); return; }
        if (full && key(e) > last && ok) { rec.viol("sorted-array", "a larger element was taken"); return; }
        size_t n = 0;
        for (El const& x : a) { if (&x != &a[n]) { rec.viol("sorted-array", "iteration differs from indexing"); return; } ++n; }
        if (n != a.size() || &a.back() != &a[n - 1]) { rec.viol("sorted-array", "iteration or back() differs from indexing"); return; }
        rec.count("sorted_array_ops");
    }
    rec.distinct(h);
}

// ------------------------------------------------------------------ CoverCounters
static void counters(vh::Rec& rec, v::Rng& r) {
    size_t n = size_t(r.range(1, 40));
    CoverCounters c(n);
    std::vector<uint32_t> m(n, 0);
    std::vector<std::vector<ridx_t>> in;
    uint64_t h = n;
    // now and then a row is covered a great many times before the random sequence goes on
    if (r.chance(0.12)) {
        std::vector<ridx_t> s;
        for (int x : v::rnd_subset(r, int(n), int(r.range(1, std::min<int64_t>(int64_t(n), 4))))) s.push_back(as_ridx(x));
        int64_t many = r.chance(0.3) ? r.range(65500, 65600) : r.chance(0.5) ? r.range(120, 140) : r.range(240, 520);
        rec.context = fmtv("CoverCounters of %zu, the same %zu rows covered %d times", n, s.size(), int(many));
        for (int64_t k = 0; k < many; ++k) {
            size_t got = c.cover(s), exp = k == 0 ? s.size() : 0;
            for (auto i : s) ++m[size_t(i)];
            if (got != exp) { rec.viol("counters", fmtv("cover %d reported %zu rows newly covered, expected %zu", int(k), got, exp)); return; }
            if (!c.is_redundant_cover(s) || c.is_redundant_uncover(s) != (k > 0)) { rec.viol("counters", fmtv("redundancy wrong after %d covers", int(k) + 1)); return; }
        }
        int keep = int(r.range(0, 3));
        for (int64_t k = many; k > keep; --k) {
            if (k > 40 + keep && r.chance(0.01)) for (size_t i = 0; i < n; ++i) if (c[i] != m[i]) { rec.viol("counters", fmtv("counter %zu is %u, expected %u", i, unsigned(c[i]), unsigned(m[i]))); return; }
            size_t exp = k == 1 ? s.size() : 0, got = c.uncover(s);
            for (auto i : s) --m[size_t(i)];
            if (got != exp) { rec.viol("counters", fmtv("uncover from %d reported %zu rows uncovered, expected %zu", int(k), got, exp)); return; }
        }
        for (int k = 0; k < keep; ++k) in.push_back(s);
        rec.count("counter_deep");
        h = v::mix(h, uint64_t(many));
    }
    for (int t = int(r.range(1, 60)); t > 0; --t) {
        if (r.chance(0.03)) { n = size_t(r.range(1, 40)); c.reset(n); m.assign(n, 0); in.clear(); }
        std::vector<ridx_t> s;
        for (int x : v::rnd_subset(r, int(n), int(r.range(0, std::min<int64_t>(int64_t(n), 8))))) s.push_back(as_ridx(x));
        bool red_c = true, red_u = true;
        for (auto i : s) { red_c = red_c && m[size_t(i)] > 0; red_u = red_u && m[size_t(i)] > 1; }
        rec.context = fmtv("CoverCounters of %zu after %zu subsets", n, in.size());
        if (c.is_redundant_cover(s) != red_c) { rec.viol("counters", "is_redundant_cover differs"); return; }
        if (c.is_redundant_uncover(s) != red_u) { rec.viol("counters", "is_redundant_uncover differs"); return; }
        size_t exp = 0, got;
        if (!in.empty() && r.chance(0.45)) {
            size_t w = size_t(r.range(0, int64_t(in.size()) - 1));
            for (auto i : in[w]) exp += --m[size_t(i)] == 0;
            auto sp = make_span(in[w].data(), in[w].data() + in[w].size());
            got     = r.chance(0.5) ? c.uncover(in[w]) : c.uncover(sp);
            in.erase(in.begin() + long(w));
        } else {
            for (auto i : s) exp += m[size_t(i)]++ == 0;
            got = c.cover(s);
            in.push_back(s);
        }
        if (got != exp) { rec.viol("counters", fmtv("reported %zu rows changed, expected %zu", got, exp)); return; }
        if (c.size() != n) { rec.viol("counters", "size differs"); return; }
        for (size_t i = 0; i < n; ++i) if (c[i] != m[i]) { rec.viol("counters", fmtv("counter %zu is %u, expected %u", i, unsigned(c[i]), unsigned(m[i]))); return; }
        h = v::mix(h, exp + 77 * s.size());
        rec.count("counter_ops");
    }
    rec.distinct(h);
}

// ------------------------------------------------------------------ SparseBinMat, instances
template <typename M>
static bool same_mat(M const& a, std::vector<std::vector<int>> const& m) {
    if (a.size() != m.size() || a.empty() != m.empty()) return false;
    for (size_t j = 0; j < m.size(); ++j) {
        auto s = a[j];
        if (s.size() != m[j].size() || s.empty() != m[j].empty()) return false;
        size_t t = 0;
        for (auto x : s) { if (int(x) != m[j][t] || int(s[t]) != m[j][t]) return false; ++t; }
        if (t != m[j].size() || (t && int(s.back()) != m[j].back())) return false;
    }
    return true;
}

static void matrix(vh::Rec& rec, v::Rng& r) {
    SparseBinMat<ridx_t>          a;
    std::vector<std::vector<int>> m;
    int  nr = int(r.range(1, 30));
    uint64_t h = 5;
    for (int t = int(r.range(1, 25)); t > 0; --t) {
        int                 what = int(r.range(0, 9));
        std::vector<int>    s    = v::rnd_subset(r, nr, int(r.range(0, 6)));
        std::vector<ridx_t> x;
        for (int i : s) x.push_back(as_ridx(i));
        if (what == 0 && r.chance(0.3)) { a.clear(); m.clear(); }
        else if (what == 1) { int p = int(r.range(0, nr - 1)), q = int(r.range(0, nr - 1)); a.push_back({p, q}); m.push_back({p, q}); }
        else if (what == 2 && !m.empty()) {  // overwrite through the mutable span
            size_t j = size_t(r.range(0, int64_t(m.size()) - 1));
            auto   s2 = a[j];
            for (size_t i = 0; i < m[j].size(); ++i) { m[j][i] = int(r.range(0, nr - 1)); s2[i] = as_ridx(m[j][i]); }
        } else if (what == 3 && !m.empty()) {  // from a span of another matrix
            size_t j = size_t(r.range(0, int64_t(m.size()) - 1));
            auto   b = a;
            a.push_back(b[j]);
            m.push_back(m[j]);
        } else { a.push_back(x); m.push_back(s); }
        rec.context = fmtv("SparseBinMat of %zu", m.size());
        auto const& ca = a;
        if (!same_mat(ca, m) || !same_mat(a, m)) { rec.viol("matrix", "contents differ from what was stored"); return; }
        h = v::mix(h, m.size() * 31 + s.size());
        rec.count("matrix_ops");
    }
    // rows from columns, into a dirty vector; copying columns to another instance
    v::PInst p = v::gen(r.next(), v::TINY);
    Instance in;
    in.rows.resize(size_t(r.range(0, 20)), std::vector<cidx_t>{as_cidx(3), as_cidx(1)});
    for (auto const& c : p.cols) { std::vector<ridx_t> t; for (int i : c) t.push_back(as_ridx(i)); in.cols.push_back(t); }
    for (double c : p.costs) in.costs.push_back(as_real(c));
    fill_rows_from_cols(in.cols, as_ridx(p.nrows), in.rows);
    rec.context = p.dump();
    auto msg    = sound_inst(in);
    if (!msg.empty()) rec.viol("rows", "fill_rows_from_cols: " + msg);
    if (in.rows.size() != size_t(p.nrows)) rec.viol("rows", "wrong number of rows");
    Instance out;
    std::vector<int> pick;
    for (int t = int(r.range(0, 8)); t > 0; --t) {
        int j = int(r.range(0, p.ncols() - 1));
        pick.push_back(j);
        push_back_col_from(in, as_cidx(j), out);
    }
    std::vector<std::vector<int>> want;
    for (int j : pick) want.push_back(p.cols[size_t(j)]);
    if (!same_mat(out.cols, want) || out.costs.size() != pick.size()) rec.viol("copy", "push_back_col_from stored another column");
    else for (size_t t = 0; t < pick.size(); ++t) if (double(native_cast(out.costs[t])) != p.costs[size_t(pick[t])]) rec.viol("copy", "push_back_col_from stored another cost");
    // reduced costs with hook
    std::vector<real_t> u(size_t(p.nrows));
    for (auto& x : u) x = as_real(double(r.range(0, 40)) / 4.0);
    std::vector<real_t> red(size_t(r.range(0, 50)), as_real(7.0));
    std::vector<std::pair<long, double>> seen;
    compute_reduced_costs(in, u, red, [&](real_t c, cidx_t j) { seen.push_back({long(j), double(native_cast(c))}); });
    bool ok = red.size() == size_t(p.ncols()) && seen.size() == red.size();
    for (int j = 0; ok && j < p.ncols(); ++j) {
        double ref = p.costs[size_t(j)], mag = std::fabs(ref);
        for (int i : p.cols[size_t(j)]) { ref -= double(native_cast(u[size_t(i)])); mag += std::fabs(double(native_cast(u[size_t(i)]))); }
        double g = double(native_cast(red[size_t(j)]));
        ok = std::fabs(g - ref) <= 64 * REAL_EPS * (mag + 1) && seen[size_t(j)].first == j && seen[size_t(j)].second == g;
    }
    if (!ok) rec.viol("reduced", "compute_reduced_costs differs from cost minus multipliers");
    clear_inst(in);
    if (!in.cols.empty() || in.cols.size() != 0 || !in.rows.empty() || !in.costs.empty()) rec.viol("clear", "clear_inst left something");
    rec.distinct(h);
}

// ------------------------------------------------------------------ algorithms
static void algos(vh::Rec& rec, v::Rng& r) {
    size_t n = size_t(r.chance(0.1) ? r.range(0, 300) : r.range(0, 20));
    int spread = int(r.pick(std::vector<int>{0, 2, 50, 1000000}));
    std::vector<int> x(n), tab(size_t(2 * spread + 1 > 4096 ? 4096 : 2 * spread + 1));
    for (auto& t : tab) t = int(r.range(-50, 50));
    for (auto& e : x) e = int(r.range(0, std::max(0, spread)));
    rec.context = "values:";
    for (size_t i = 0; i < n && i < 60; ++i) rec.context += fmtv(" %d", x[i]);
    bool kk  = r.chance(0.5);
    auto key = [&](int e) { return kk ? tab[size_t(e) % tab.size()] : e; };
    auto perm = [&](std::vector<int> a, std::vector<int> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; };
    auto y = x;
    if (kk || r.chance(0.5)) cft::sort(y, key); else cft::sort(y);
    for (size_t i = 1; i < n; ++i) if (key(y[i]) < key(y[i - 1])) { rec.viol("sort", "not sorted"); break; }
    if (!perm(x, y)) rec.viol("sort", "not a permutation");
    if (n) {
        size_t k = size_t(r.range(0, int64_t(n) - 1));
        y        = x;
        if (kk || r.chance(0.5)) cft::nth_element(y, k, key); else cft::nth_element(y, k);
        if (!perm(x, y)) rec.viol("nth_element", "not a permutation");
        for (size_t i = 0; i < n; ++i)
            if ((i < k && key(y[i]) > key(y[k])) || (i > k && key(y[i]) < key(y[k]))) { rec.viol("nth_element", fmtv("element %zu is on the wrong side of %zu", i, k)); break; }
        int mn = key(range_min(x, key)), ref = key(x[0]);
        for (int e : x) ref = std::min(ref, key(e));
        if (mn != ref) rec.viol("range_min", "not the minimum");
        if (std::find(x.begin(), x.end(), range_min(x, key)) == x.end()) rec.viol("range_min", "not an element");
        auto sp = make_span(x.data(), n);
        if (range_min(sp) != *std::min_element(x.begin(), x.end())) rec.viol("range_min", "not the minimum of a span");
        if (sp.size() != n || sp.begin() != x.data() || sp.end() != x.data() + n || &sp.back() != &x[n - 1]) rec.viol("span", "span differs");
    }
    // sort a part through a span
    if (n > 2) {
        size_t b = size_t(r.range(0, int64_t(n) - 1)), e = size_t(r.range(int64_t(b), int64_t(n)));
        y        = x;
        auto sp  = make_span(y.data() + b, y.data() + e);
        cft::sort(sp);
        auto z   = x;
        std::sort(z.begin() + long(b), z.begin() + long(e));
        if (y != z) rec.viol("sort", "sorting a span");
    }
    int  mod  = int(r.range(1, 4)), lim = int(r.range(0, std::max(1, spread)));
    auto pred = [&](int e) { return mod == 4 ? true : mod == 3 ? false : mod == 2 ? e % 2 == 0 : e < lim; };
    y         = x;
    cft::remove_if(y, pred);
    std::vector<int> z;
    for (int e : x) if (!pred(e)) z.push_back(e);
    if (y != z) rec.viol("remove_if", "kept elements differ");
    if (any(x, pred) != std::any_of(x.begin(), x.end(), pred)) rec.viol("any", "differs");
    if (all(x, pred) != std::all_of(x.begin(), x.end(), pred)) rec.viol("all", "differs");
    // numbers
    for (int t = 0; t < 10; ++t) {
        int64_t a = r.range(-5, 5), b = r.range(-5, 5), c = r.range(-5, 5), d = r.range(-5, 5);
        if (cft::min(a, b) != std::min(a, b) || cft::max(a, b) != std::max(a, b)) rec.viol("minmax", "two arguments");
        if (cft::min(a, b, c) != std::min({a, b, c}) || cft::max(a, b, c) != std::max({a, b, c})) rec.viol("minmax", "three arguments");
        if (cft::min(a, int(b), short(c), d) != std::min({a, b, c, d}) || cft::max(a, int(b), short(c), d) != std::max({a, b, c, d})) rec.viol("minmax", "four arguments");
        if (cft::abs(a) != std::llabs(a)) rec.viol("abs", "differs");
        if (b <= c) { int64_t e = a < b ? b : a > c ? c : a; if (cft::clamp(a, b, c) != e) rec.viol("clamp", fmtv("clamp(%lld,%lld,%lld)", (long long)a, (long long)b, (long long)c)); }
        double f = r.unit() * 8 - 4, lo = r.unit() * 4 - 4, hi = r.unit() * 4;
        if (cft::clamp(f, lo, hi) != (f < lo ? lo : f > hi ? hi : f)) rec.viol("clamp", "real");
        if (cft::abs(f) != std::fabs(f)) rec.viol("abs", "real");
        if (cft::min(f, lo) != std::min(f, lo) || cft::max(f, hi) != std::max(f, hi)) rec.viol("minmax", "real");
    }
    int arr[7] = {};
    if (cft::size(arr) != 7 || cft::size(x) != n) rec.viol("size", "differs");
    rec.distinct(v::mix(n, v::hash_str(rec.context)));
    rec.count("algorithm_inputs");
}

// ------------------------------------------------------------------ time
template <typename U>
static void chrono_unit(vh::Rec& rec, v::Rng& r, int64_t unit_ns) {
    vclk::reset();
    vclk::now_ns = r.range(0, int64_t(1) << 50);
    Chrono<U> c;
    int64_t   start = vclk::now_ns;
    for (int t = 0; t < 4; ++t) {
        int64_t d = r.chance(0.1) ? 0 : r.range(0, int64_t(1) << r.range(0, 50));
        vclk::now_ns += d;
        int64_t e = vclk::now_ns - start, want = e / unit_ns;
        rec.context = fmtv("unit %lld ns, %lld ns elapsed", (long long)unit_ns, (long long)e);
        auto near   = [&](double got, double conv_ns, char const* u) {
            double w = double(want) * double(unit_ns) / conv_ns;
            if (!(std::fabs(got - w) <= 1e-12 * std::fabs(w))) rec.viol("chrono", fmtv("elapsed in %s is %.17g, expected %.17g", u, got, w));
        };
        if (c.elapsed() != want) rec.viol("chrono", fmtv("elapsed() is %lld, expected %lld", (long long)c.elapsed(), (long long)want));
        near(c.template elapsed<nsec>(), 1, "nsec");
        near(c.template elapsed<usec>(), 1e3, "usec");
        near(c.template elapsed<msec>(), 1e6, "msec");
        near(c.template elapsed<sec>(), 1e9, "sec");
        near(c.template elapsed<minutes>(), 6e10, "minutes");
        near(c.template elapsed<hours>(), 3.6e12, "hours");
        if (r.chance(0.5)) {
            int w = int(r.range(0, 3));
            if (w == 0) { int64_t g = c.restart(); if (g != want) rec.viol("chrono", "restart() does not return the elapsed time"); }
            else if (w == 1) near(c.template restart<msec>(), 1e6, "restart msec");
            else if (w == 2) near(c.template restart<sec>(), 1e9, "restart sec");
            else near(c.template restart<usec>(), 1e3, "restart usec");
            start = vclk::now_ns;
            if (c.elapsed() != 0) rec.viol("chrono", "elapsed after restart is not zero");
        }
        rec.count("clock_checks", 8);
        rec.distinct(v::mix(uint64_t(e), uint64_t(unit_ns)));
    }
}

static void mode_c25(uint64_t k, vh::Rec& rec) {
    v::Rng r(v::mix(rec.opt.seed * 1000003 + 25, k));
    sorted_array<1>(rec, r); sorted_array<2>(rec, r); sorted_array<5>(rec, r); sorted_array<17>(rec, r);
    counters(rec, r);
    matrix(rec, r);
    algos(rec, r);
    chrono_unit<nsec>(rec, r, 1); chrono_unit<usec>(rec, r, 1000); chrono_unit<msec>(rec, r, 1000000);
    chrono_unit<sec>(rec, r, 1000000000); chrono_unit<minutes>(rec, r, 60000000000LL); chrono_unit<hours>(rec, r, 3600000000000LL);
    { Chrono<> c; vclk::now_ns += 5000; if (c.elapsed() != 5) rec.viol("chrono", "the default unit is not the microsecond"); }
    rec.sample(rec.context, 7);
    rec.eval(9);
}
int main(int argc, char** argv) { return vh::run_main(argc, argv, mode_c25); }
