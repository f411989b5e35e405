// Common support for the /verif harnesses: PRNG, plain instance model, generators, oracles.
// Deliberately independent of the code under test (no cft header is included here).
#ifndef VERIF_VCOMMON_HPP
#define VERIF_VCOMMON_HPP

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace v {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    // inclusive
    int64_t range(int64_t lo, int64_t hi) {
        return lo + int64_t(next() % uint64_t(hi - lo + 1));
    }
    double unit() { return double(next() >> 11) / 9007199254740992.0; }
    bool   chance(double p) { return unit() < p; }
    template <typename C>
    auto pick(C const& c) -> decltype(c[0]) { return c[size_t(next() % c.size())]; }
    template <typename T>
    void shuffle(std::vector<T>& x) {
        for (size_t i = x.size(); i > 1; --i) std::swap(x[i - 1], x[size_t(next() % i)]);
    }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x9E3779B97F4A7C15ULL + b + 0x1234567);
    r.next();
    return r.next();
}
inline uint64_t hash_str(std::string const& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

// ---------------------------------------------------------------- plain instance
struct PInst {
    std::string                   family;
    int                           nrows = 0;
    std::vector<std::vector<int>> cols;
    std::vector<double>           costs;      // always exactly representable as float
    bool                          intcost = true;  // all costs are small integers

    int      ncols() const { return int(cols.size()); }
    size_t   nnz() const { size_t n = 0; for (auto& c : cols) n += c.size(); return n; }
    uint64_t hash() const {
        uint64_t h = 14695981039346656037ULL;
        auto     f = [&](uint64_t x) { h = (h ^ x) * 1099511628211ULL; h ^= h >> 29; };
        f(uint64_t(nrows));
        for (auto& c : cols) { f(c.size() + 7777); for (int i : c) f(uint64_t(i)); }
        for (double c : costs) { uint64_t b; std::memcpy(&b, &c, 8); f(b); }
        return h;
    }
    std::string brief() const {
        char buf[160];
        std::snprintf(buf, sizeof buf, "%s %dx%d nnz=%zu h=%016llx", family.c_str(), nrows, ncols(), nnz(),
                      (unsigned long long)hash());
        return buf;
    }
    std::string dump() const {
        std::ostringstream o;
        o.precision(17);
        o << "rows " << nrows << " cols " << ncols() << "\n";
        for (int j = 0; j < ncols(); ++j) {
            o << "c" << j << " cost " << costs[size_t(j)] << " :";
            for (int i : cols[size_t(j)]) o << ' ' << i;
            o << "\n";
        }
        return o.str();
    }
};

inline double fl(double x) { return double(float(x)); }

// Adds what is needed so that each row is coverable.
inline void make_feasible(PInst& p, Rng& r, double cost_hi) {
    std::vector<char> seen(size_t(p.nrows), 0);
    for (auto& c : p.cols) for (int i : c) seen[size_t(i)] = 1;
    std::vector<int> miss;
    for (int i = 0; i < p.nrows; ++i) if (!seen[size_t(i)]) miss.push_back(i);
    r.shuffle(miss);
    while (!miss.empty()) {
        size_t           k = std::min<size_t>(miss.size(), size_t(r.range(1, 4)));
        std::vector<int> c(miss.end() - long(k), miss.end());
        miss.resize(miss.size() - k);
        p.cols.push_back(c);
        p.costs.push_back(p.intcost ? double(r.range(1, std::max<int64_t>(1, int64_t(cost_hi)))) : fl(r.unit() * cost_hi + 0.01));
    }
}

inline std::vector<int> rnd_subset(Rng& r, int n, int k) {
    std::set<int>    s;
    std::vector<int> out;
    k = std::min(k, n);
    while (int(s.size()) < k) {
        int x = int(r.range(0, n - 1));
        if (s.insert(x).second) out.push_back(x);
    }
    return out;
}

enum Scale { TINY, SMALL, MEDIUM, LARGE, WIDE };

// ncap / rcap / nnzcap allow a harness to keep instances within narrow index types.
struct GenCfg {
    int  rcap = 30000, ncap = 1000000, nnzcap = 1 << 30;
    bool empty_cols = true;
    bool zero_costs = true;
    bool frac_costs = true;
    bool huge_costs = true;
};

inline void assign_costs(PInst& p, Rng& r, GenCfg const& g, int mode) {
    size_t n = p.cols.size();
    p.costs.assign(n, 1.0);
    p.intcost = true;
    switch (mode) {
    case 0: break;                                                        // unicost
    case 1: for (auto& c : p.costs) c = double(r.range(1, 2)); break;     // rail
    case 2: for (auto& c : p.costs) c = double(r.range(1, 100)); break;   // scp
    case 3: for (auto& c : p.costs) c = double(r.range(100, 3000)); break;  // cvrp
    case 4:                                                               // fractional
        if (!g.frac_costs) { for (auto& c : p.costs) c = double(r.range(1, 9)); break; }
        p.intcost = false;
        for (auto& c : p.costs) c = fl(0.01 + r.unit() * 10.0);
        break;
    case 5:                                                               // proportional to size
        for (size_t j = 0; j < n; ++j) p.costs[j] = double(1 + p.cols[j].size() * size_t(r.range(1, 3)));
        break;
    case 6:                                                               // some zero costs
        for (auto& c : p.costs) c = (g.zero_costs && r.chance(0.15)) ? 0.0 : double(r.range(1, 20));
        break;
    case 7:                                                               // wide dynamic range
        if (!g.huge_costs) { for (auto& c : p.costs) c = double(r.range(1, 200)); break; }
        for (auto& c : p.costs) c = double(r.range(1, 9)) * std::pow(10.0, double(r.range(0, 4)));
        break;
    case 8:                                                               // all equal, not one
        { double k = double(r.range(2, 50)); for (auto& c : p.costs) c = k; }
        break;
    case 9:                                                               // fractional, cents
        if (!g.frac_costs) { for (auto& c : p.costs) c = double(r.range(1, 9)); break; }
        p.intcost = false;
        for (auto& c : p.costs) c = fl(double(r.range(1, 1000)) / 100.0);
        break;
    case 10:                                                              // one very cheap class
        for (auto& c : p.costs) c = r.chance(0.1) ? 1.0 : double(r.range(50, 60));
        break;
    default: break;
    }
}

inline PInst gen(uint64_t seed, Scale sc, GenCfg const& g = GenCfg()) {
    Rng   r(seed);
    PInst p;
    int   nr, nc;
    switch (sc) {
    case TINY: nr = int(r.range(1, 12)); nc = int(r.range(1, 22)); break;
    case SMALL: nr = int(r.range(2, 60)); nc = int(r.range(3, 250)); break;
    case WIDE: nr = int(r.range(3, 13)); nc = int(r.range(60, 600)); break;
    case MEDIUM: nr = int(r.range(40, 260)); nc = int(r.range(80, 1500)); break;
    default: nr = int(r.range(300, 900)); nc = int(r.range(600, 5000)); break;
    }
    nr = std::min(nr, g.rcap);
    nc = std::min(nc, g.ncap);
    p.nrows = nr;
    int st = int(r.range(0, 11));
    int cm = int(r.range(0, 10));
    auto add = [&](std::vector<int> c) {
        if (p.ncols() < g.ncap) p.cols.push_back(std::move(c));
    };
    switch (st) {
    case 0:  // uniform random density
        p.family = "uniform";
        for (int j = 0; j < nc; ++j) add(rnd_subset(r, nr, int(r.range(1, std::max(1, std::min(nr, 12))))));
        break;
    case 1:  // intervals (rail/crew like)
        p.family = "interval";
        for (int j = 0; j < nc; ++j) {
            int b = int(r.range(0, nr - 1)), l = int(r.range(1, std::max(1, nr / 6 + 1)));
            std::vector<int> c;
            for (int i = b; i < std::min(nr, b + l); ++i) if (r.chance(0.85)) c.push_back(i);
            if (c.empty()) c.push_back(b);
            add(c);
        }
        break;
    case 2:  // cyclic (scpcyc/clr like): row i covered by few columns
        p.family = "cyclic";
        { int k = int(r.range(2, std::max(2, std::min(nr, 6))));
          for (int j = 0; j < nr && j < nc; ++j) {
              std::set<int> c;
              for (int t = 0; t < k; ++t) c.insert((j * 1 + t * t) % nr);
              add(std::vector<int>(c.begin(), c.end()));
          } }
        break;
    case 3:  // block diagonal
        p.family = "blocks";
        { int nb = int(r.range(2, 6));
          for (int j = 0; j < nc; ++j) {
              int b = int(r.range(0, nb - 1)), lo = b * nr / nb, hi = std::max(lo, (b + 1) * nr / nb - 1);
              if (lo >= nr) lo = hi = nr - 1;
              hi = std::min(hi, nr - 1);
              auto c = rnd_subset(r, hi - lo + 1, int(r.range(1, 8)));
              for (int& i : c) i += lo;
              add(c);
          } }
        break;
    case 4:  // identity plus random: forced columns
        p.family = "forced";
        for (int i = 0; i < nr && i < nc; ++i) if (r.chance(0.7)) add({i});
        for (int j = 0; j < nc / 2; ++j) add(rnd_subset(r, nr, int(r.range(1, 5))));
        break;
    case 5:  // duplicates and dominated columns
        p.family = "dups";
        for (int j = 0; j < nc; ++j) {
            if (p.cols.size() > 2 && r.chance(0.5)) {
                auto c = p.cols[size_t(r.range(0, int64_t(p.cols.size()) - 1))];
                if (c.size() > 1 && r.chance(0.4)) c.pop_back();
                r.shuffle(c);
                add(c);
            } else add(rnd_subset(r, nr, int(r.range(1, std::max(1, nr / 3)))));
        }
        break;
    case 6:  // one column covers everything (cheap or dear) + fragments
        p.family = "bigcol";
        { std::vector<int> all; for (int i = 0; i < nr; ++i) all.push_back(i);
          for (int j = 0; j < nc; ++j) add(rnd_subset(r, nr, int(r.range(1, std::max(1, nr / 4)))));
          r.shuffle(all); add(all); }
        break;
    case 7:  // dense
        p.family = "dense";
        for (int j = 0; j < std::min(nc, 400); ++j) {
            std::vector<int> c;
            double           d = 0.1 + 0.4 * r.unit();
            for (int i = 0; i < nr; ++i) if (r.chance(d)) c.push_back(i);
            if (c.empty()) c.push_back(int(r.range(0, nr - 1)));
            r.shuffle(c);
            add(c);
        }
        break;
    case 8:  // power law row popularity
        p.family = "skewed";
        for (int j = 0; j < nc; ++j) {
            std::set<int> c;
            int           k = int(r.range(1, 10));
            for (int t = 0; t < k; ++t) c.insert(std::min(nr - 1, int(nr * std::pow(r.unit(), 3.0))));
            add(std::vector<int>(c.begin(), c.end()));
        }
        break;
    case 9:  // Steiner-like: all pairs/triples => very symmetric
        p.family = "pairs";
        for (int j = 0; j < nc; ++j) {
            int a = int(r.range(0, nr - 1)), b = int(r.range(0, nr - 1)), c = (a + b) % nr;
            std::set<int> s{a, b, c};
            add(std::vector<int>(s.begin(), s.end()));
        }
        break;
    case 10:  // redundancy trap: many small cheap sets plus larger ones covering them
        p.family = "redund";
        for (int i = 0; i + 1 < nr && p.ncols() < nc; i += 1) add({i, i + 1});
        for (int j = 0; j < nc / 3; ++j) add(rnd_subset(r, nr, int(r.range(2, std::max(2, nr / 5)))));
        break;
    default:  // the repository's own test shape: 10% partition columns + random small ones
        p.family = "easy";
        for (int b = 0; b < nr; b += 10) {
            std::vector<int> c;
            for (int i = b; i < std::min(nr, b + 10); ++i) c.push_back(i);
            add(c);
        }
        for (int j = 0; j < nc; ++j) add(rnd_subset(r, nr, int(r.range(1, 9))));
        break;
    }
    if (p.cols.empty()) p.cols.push_back({0});
    // keep nnz within limits
    while (int(p.nnz()) > g.nnzcap && p.cols.size() > 1) p.cols.pop_back();
    bool frac = (cm == 4 || cm == 9) && g.frac_costs;
    p.intcost = !frac;
    {
        std::vector<double> keep;
        make_feasible(p, r, 10);
        p.costs.clear();
    }
    if (g.empty_cols && r.chance(0.15)) {
        int k = int(r.range(1, 3));
        for (int t = 0; t < k; ++t)
            p.cols.insert(p.cols.begin() + r.range(0, int64_t(p.cols.size())), std::vector<int>());
    }
    if (r.chance(0.5)) r.shuffle(p.cols);
    assign_costs(p, r, g, cm);
    char buf[32];
    std::snprintf(buf, sizeof buf, "/c%d", cm);
    p.family += buf;
    return p;
}

// An instance with a known optimum at any size: integer row prices u, a partition whose columns cost exactly the
// prices they collect, all other columns at least that. By LP duality the optimum is the sum of the prices.
// The good columns are often the last ones of each row, so that a core made of first columns misses them.
inline PInst gen_cert(uint64_t seed, Scale sc, double* opt) {
    Rng   r(mix(seed, 0xce27));
    PInst p;
    int   nr, nc;
    switch (sc) {
    case TINY: nr = int(r.range(2, 14)); nc = int(r.range(3, 60)); break;
    case SMALL: nr = int(r.range(5, 60)); nc = int(r.range(20, 500)); break;
    case MEDIUM: nr = int(r.range(60, 260)); nc = int(r.range(300, 2600)); break;
    case WIDE: nr = int(r.range(3, 13)); nc = int(r.range(60, 600)); break;
    default: nr = int(r.range(300, 800)); nc = int(r.range(3000, 9000)); break;
    }
    p.nrows = nr;
    p.family = "cert";
    std::vector<long> u(static_cast<size_t>(nr));
    int hi = int(r.pick(std::vector<int>{1, 3, 20, 500}));
    long tot = 0;
    for (auto& x : u) { x = long(r.range(1, hi)); tot += x; }
    struct C { std::vector<int> rows; long cost; };
    std::vector<C> good, bad;
    std::vector<int> perm;
    for (int i = 0; i < nr; ++i) perm.push_back(i);
    int nplanted = int(r.range(1, 3));
    for (int t = 0; t < nplanted; ++t) {
        r.shuffle(perm);
        for (int b = 0; b < nr;) {
            int l = int(std::min<int64_t>(nr - b, r.range(1, std::max(1, nr / 4 + 1))));
            C   c{std::vector<int>(perm.begin() + b, perm.begin() + b + l), 0};
            std::sort(c.rows.begin(), c.rows.end());
            for (int i : c.rows) c.cost += u[size_t(i)];
            good.push_back(c);
            b += l;
        }
    }
    int surplus = int(r.pick(std::vector<int>{0, 1, 5, 100}));
    for (int j = 0; j < nc; ++j) {
        C c{rnd_subset(r, nr, int(r.range(1, std::max(1, std::min(nr, 9))))), 0};
        for (int i : c.rows) c.cost += u[size_t(i)];
        c.cost += r.range(0, surplus);
        bad.push_back(c);
    }
    std::vector<C> all;
    int order = int(r.range(0, 2));
    if (order == 0) { all = good; all.insert(all.end(), bad.begin(), bad.end()); }
    else { std::sort(bad.begin(), bad.end(), [](C const& a, C const& b) { return a.cost > b.cost; }); all = bad; all.insert(all.end(), good.begin(), good.end()); }
    if (order == 2) r.shuffle(all);
    for (auto& c : all) { p.cols.push_back(c.rows); p.costs.push_back(double(c.cost)); }
    *opt = double(tot);
    p.family += "/o" + std::to_string(order) + "s" + std::to_string(surplus);
    return p;
}

// ---------------------------------------------------------------- oracles
// Checks a solution against the plain instance. Empty string: fine.
template <typename It>
std::string check_cover(PInst const& p, It b, It e) {
    std::vector<char> cov(size_t(p.nrows), 0), used(p.cols.size(), 0);
    for (It it = b; it != e; ++it) {
        long long j = (long long)(*it);
        if (j < 0 || j >= p.ncols()) return "column index " + std::to_string(j) + " out of range [0," + std::to_string(p.ncols()) + ")";
        if (used[size_t(j)]) return "column " + std::to_string(j) + " selected twice";
        used[size_t(j)] = 1;
        for (int i : p.cols[size_t(j)]) cov[size_t(i)] = 1;
    }
    for (int i = 0; i < p.nrows; ++i)
        if (!cov[size_t(i)]) return "row " + std::to_string(i) + " not covered";
    return "";
}
template <typename It>
double true_cost(PInst const& p, It b, It e) {
    long double s = 0;
    for (It it = b; it != e; ++it) s += p.costs[size_t(*it)];
    return double(s);
}
// Reported cost vs sum of costs: exact for integers with an exactly representable total, otherwise a
// rounding allowance of a few ulp per addition at the largest magnitude involved.
inline bool cost_matches(PInst const& p, double sum, double reported, size_t n, double eps /*real epsilon*/) {
    if (!(reported == reported)) return false;
    double big = 1.0 / eps;  // integers below this are exact
    if (p.intcost && std::fabs(sum) < big) return reported == sum;
    return std::fabs(sum - reported) <= 4.0 * eps * (double(n) + 4.0) * (std::fabs(sum) + 1e-30);
}

// Exact optimum by DP over row subsets (nrows <= 16).
inline double brute_opt(PInst const& p) {
    size_t              full = (size_t(1) << p.nrows) - 1;
    std::vector<double> d(full + 1, std::numeric_limits<double>::infinity());
    std::vector<unsigned> m(p.cols.size());
    std::vector<std::vector<size_t>> byrow(size_t(p.nrows));
    for (size_t j = 0; j < p.cols.size(); ++j) {
        for (int i : p.cols[j]) m[j] |= 1u << i;
        for (int i : p.cols[j]) byrow[size_t(i)].push_back(j);
    }
    d[0] = 0;
    for (size_t s = 0; s < full; ++s) {
        if (std::isinf(d[s])) continue;
        int i = 0;
        while (s >> i & 1) ++i;
        for (size_t j : byrow[size_t(i)]) {
            size_t t = s | m[j];
            if (d[s] + p.costs[j] < d[t]) d[t] = d[s] + p.costs[j];
        }
    }
    return d[full];
}

// A decent cover, independent of the code under test (Chvatal greedy, randomised ties), as a witness.
inline double simple_cover_cost(PInst const& p, Rng& r, std::vector<int>* out = nullptr) {
    std::vector<int> mu(p.cols.size()), cov(size_t(p.nrows), 0);
    std::vector<std::vector<int>> rows(size_t(p.nrows));
    for (int j = 0; j < p.ncols(); ++j) for (int i : p.cols[size_t(j)]) rows[size_t(i)].push_back(j);
    for (size_t j = 0; j < p.cols.size(); ++j) mu[j] = int(p.cols[j].size());
    int              left = p.nrows;
    double           tot  = 0;
    std::vector<int> sol;
    while (left > 0) {
        int    b  = -1;
        double bs = 1e300;
        for (int j = 0; j < p.ncols(); ++j)
            if (mu[size_t(j)] > 0) {
                double s = (p.costs[size_t(j)] * (1.0 + 0.02 * r.unit())) / mu[size_t(j)];
                if (s < bs) { bs = s; b = j; }
            }
        if (b < 0) return std::numeric_limits<double>::infinity();
        sol.push_back(b);
        for (int i : p.cols[size_t(b)])
            if (!cov[size_t(i)]++) { --left; for (int j : rows[size_t(i)]) --mu[size_t(j)]; }
            else {}
    }
    // drop redundant, dearest first
    std::sort(sol.begin(), sol.end(), [&](int a, int b) { return p.costs[size_t(a)] > p.costs[size_t(b)]; });
    std::fill(cov.begin(), cov.end(), 0);
    for (int j : sol) for (int i : p.cols[size_t(j)]) ++cov[size_t(i)];
    std::vector<int> fin;
    for (int j : sol) {
        bool red = true;
        for (int i : p.cols[size_t(j)]) if (cov[size_t(i)] < 2) red = false;
        if (red) for (int i : p.cols[size_t(j)]) --cov[size_t(i)];
        else { fin.push_back(j); tot += p.costs[size_t(j)]; }
    }
    if (out) *out = fin;
    return tot;
}

}  // namespace v
#endif
