// Writers of the supported text formats, independent of the code under test, with any legal layout.
#ifndef VERIF_VFMT_HPP
#define VERIF_VFMT_HPP
#include <fstream>
#include <string>

#include "vcommon.hpp"

namespace v {
struct Layout {
    Rng  r;
    bool plain, crlf, tabs, shuffle, final_newline;
    explicit Layout(uint64_t seed) : r(seed) {
        plain         = r.chance(0.25);
        crlf          = !plain && r.chance(0.2);
        tabs          = !plain && r.chance(0.3);
        shuffle       = r.chance(0.6);
        final_newline = plain || r.chance(0.6);
    }
    std::string nl() { return crlf ? "\r\n" : "\n"; }
    std::string sep() {
        if (plain) return " ";
        std::string s;
        for (int k = r.chance(0.8) ? 1 : int(r.range(2, 9)); k > 0; --k) s += (tabs && r.chance(0.3)) ? "\t" : " ";
        return s;
    }
    std::string lead() { return plain || r.chance(0.5) ? "" : sep(); }
    static int& digits() { static int d = 9; return d; }  // enough for the real type in use
    std::string num(double x) {
        char b[64];
        if (x == std::floor(x) && std::fabs(x) < 1e15) {
            int k = plain ? 0 : int(r.range(0, 9));
            if (k == 0 || k > 4) std::snprintf(b, sizeof b, "%.0f", x);
            else if (k == 1) std::snprintf(b, sizeof b, "%.1f", x);
            else if (k == 2) std::snprintf(b, sizeof b, "%.6f", x);
            else if (k == 3) std::snprintf(b, sizeof b, "%.17e", x);
            else std::snprintf(b, sizeof b, "%04.0f", x);
        } else {
            int k = int(r.range(0, 2));
            int d = digits();
            if (k == 0) std::snprintf(b, sizeof b, "%.*g", d, x);
            else if (k == 1) std::snprintf(b, sizeof b, "%.17g", x);
            else std::snprintf(b, sizeof b, "%.*E", d + 1, x);
        }
        return b;
    }
    std::string idx(long long i) {
        char b[32];
        std::snprintf(b, sizeof b, (!plain && r.chance(0.03)) ? "%05lld" : "%lld", i);
        return b;
    }
    void chop(std::string& s) {  // ends the file without a line break
        if (final_newline) return;
        while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
    }
};

inline std::vector<int> ordered(std::vector<int> c, Layout& l) {
    if (l.shuffle) l.r.shuffle(c);
    return c;
}

inline std::string write_rail(PInst const& p, uint64_t seed) {
    Layout      l(seed);
    std::string o = l.lead() + l.idx(p.nrows) + l.sep() + l.idx(p.ncols()) + l.lead() + l.nl();
    for (int j = 0; j < p.ncols(); ++j) {
        o += l.lead() + l.num(p.costs[size_t(j)]) + l.sep() + l.idx((long long)p.cols[size_t(j)].size());
        for (int i : ordered(p.cols[size_t(j)], l)) o += l.sep() + l.idx(i + 1);
        o += l.lead() + l.nl();
    }
    l.chop(o);
    return o;
}

inline std::string write_scp(PInst const& p, uint64_t seed) {
    Layout      l(seed);
    std::string o    = l.lead() + l.idx(p.nrows) + l.sep() + l.idx(p.ncols()) + l.lead() + l.nl();
    int         wrap = l.r.chance(0.4) ? 12 : l.r.chance(0.3) ? 1 : l.r.chance(0.3) ? 1000000 : int(l.r.range(2, 30));
    auto        list = [&](std::vector<std::string> const& x) {
        for (size_t n = 0; n < x.size();) {
            size_t m = std::min(x.size(), n + size_t(l.plain || l.r.chance(0.7) ? wrap : int(l.r.range(1, wrap))));
            o += l.lead();
            for (size_t t = n; t < m; ++t) o += (t > n ? l.sep() : "") + x[t];
            o += l.lead() + l.nl();
            n = m;
        }
    };
    std::vector<std::string> t;
    for (double c : p.costs) t.push_back(l.num(c));
    list(t);
    std::vector<std::vector<int>> rows(static_cast<size_t>(p.nrows));
    for (int j = 0; j < p.ncols(); ++j) for (int i : p.cols[size_t(j)]) rows[size_t(i)].push_back(j);
    for (auto const& row : rows) {
        o += l.lead() + l.idx((long long)row.size()) + l.lead() + l.nl();
        t.clear();
        for (int j : ordered(row, l)) t.push_back(l.idx(j + 1));
        list(t);
    }
    l.chop(o);
    return o;
}

// warm may be empty: then the line of the initial solution is missing or blank.
inline std::string write_cvrp(PInst const& p, uint64_t seed, std::vector<int> const& warm) {
    Layout      l(seed);
    std::string o = l.lead() + l.idx(p.nrows) + l.sep() + l.idx(p.ncols()) + l.lead() + l.nl();
    for (int j = 0; j < p.ncols(); ++j) {
        double c = p.costs[size_t(j)];
        o += l.lead() + l.num(c) + l.sep() + l.num(fl(c * (1.0 + l.r.unit()) + double(l.r.range(0, 1000))));
        for (int i : ordered(p.cols[size_t(j)], l)) o += l.sep() + l.idx(i);
        o += l.lead() + l.nl();
    }
    if (!warm.empty()) {
        o += l.lead();
        for (size_t t = 0; t < warm.size(); ++t) o += (t ? l.sep() : "") + l.idx(warm[t]);
        o += l.lead() + l.nl();
    } else if (l.r.chance(0.3)) o += l.lead() + l.nl();
    l.chop(o);
    return o;
}

inline std::string write_mps(PInst const& p, uint64_t seed) {
    Layout      l(seed);
    std::string o;
    int         style = int(l.r.range(0, 2));
    char const* obj   = l.r.pick(std::vector<char const*>{"OBJ", "r_000000", "COST", "1", "z"});
    auto rn = [&](int i) {
        char b[40];
        std::snprintf(b, sizeof b, style == 0 ? "R%d" : style == 1 ? "r_%06d" : "c%d.row", i + 1);
        return std::string(b);
    };
    auto cn = [&](int j) {
        char b[40];
        std::snprintf(b, sizeof b, style == 0 ? "C%d" : style == 1 ? "x_%06d" : "%dvar", j + 1);
        return std::string(b);
    };
    for (int k = int(l.r.range(0, 3)); k > 0; --k) o += "* comment ROWS and COLUMNS 1 2" + l.nl();
    o += "NAME" + l.sep() + "test" + l.nl();
    if (l.r.chance(0.2)) o += "OBJSENSE" + l.nl() + " MIN" + l.nl();
    o += "ROWS" + l.lead() + l.nl();
    int              obj_pos = l.r.chance(0.7) ? 0 : int(l.r.range(0, p.nrows));
    std::vector<int> order;
    for (int i = 0; i < p.nrows; ++i) order.push_back(i);
    char const* sense = l.r.pick(std::vector<char const*>{"G", "E", "L", "?"});
    for (int i = 0; i <= p.nrows; ++i) {
        if (i == obj_pos) o += l.sep() + "N" + l.sep() + obj + l.nl();
        if (i < p.nrows) o += l.sep() + (sense[0] == '?' ? l.r.pick(std::vector<char const*>{"G", "E", "L"}) : sense) + l.sep() + rn(i) + l.lead() + l.nl();
    }
    o += "COLUMNS" + l.lead() + l.nl();
    if (l.r.chance(0.3)) o += "    MARKER                 'MARKER'                 'INTORG'" + l.nl();
    int per = int(l.r.range(1, 3));
    bool neg = sense[0] == 'L';
    for (int j = 0; j < p.ncols(); ++j) {
        std::vector<std::string> ent;
        for (int i : ordered(p.cols[size_t(j)], l)) {
            int k = l.plain ? 0 : int(l.r.range(0, 5));
            (void)k;
            ent.push_back(rn(i) + l.sep() + (neg ? "-1" : "1"));
        }
        if (p.costs[size_t(j)] != 0 || ent.empty() || l.r.chance(0.5)) {
            std::string c = std::string(obj) + l.sep() + l.num(p.costs[size_t(j)]);
            size_t pos = l.shuffle ? size_t(l.r.range(0, int64_t(ent.size()))) : 0;
            ent.insert(ent.begin() + long(pos), c);
        }
        for (size_t n = 0; n < ent.size();) {
            size_t m = std::min(ent.size(), n + size_t(l.plain ? 2 : l.r.range(1, per)));
            o += l.sep() + cn(j);
            for (; n < m; ++n) o += l.sep() + ent[n];
            o += l.lead() + l.nl();
        }
        if (l.r.chance(0.01)) o += "    MARKER                 'MARKER'                 'INTEND'" + l.nl();
    }
    o += "RHS" + l.lead() + l.nl();
    char const* rh = l.r.chance(0.5) ? "RHS" : "rhs";
    for (int i = 0; i < p.nrows; ++i) o += l.sep() + rh + l.sep() + rn(i) + l.sep() + (neg ? "-1" : "1") + l.nl();
    if (l.r.chance(0.6)) {
        o += "BOUNDS" + l.nl();
        for (int j = 0; j < p.ncols(); ++j) o += " UP BND " + cn(j) + " 1" + l.nl();
    }
    o += "ENDATA" + l.nl();
    l.chop(o);
    return o;
}

inline std::string write_sol(std::vector<int> const& s, double cost, uint64_t seed) {
    Layout      l(seed);
    std::string o = l.lead() + l.num(cost);
    for (int j : s) o += l.sep() + l.idx(j);
    o += l.lead() + l.nl();
    l.chop(o);
    return o;
}

inline void spit(std::string const& path, std::string const& text) {
    std::ofstream f(path, std::ios::binary);
    f.write(text.data(), std::streamsize(text.size()));
}
inline std::string slurp(std::string const& path) {
    std::ifstream      f(path, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
enum Fmt { RAIL, SCP, CVRP, MPS };
inline char const* fmt_name(int f) { static char const* n[] = {"RAIL", "SCP", "CVRP", "MPS"}; return n[f]; }
inline std::string write_fmt(int f, PInst const& p, uint64_t seed, std::vector<int> const& warm = {}) {
    return f == RAIL ? write_rail(p, seed) : f == SCP ? write_scp(p, seed) : f == CVRP ? write_cvrp(p, seed, warm) : write_mps(p, seed);
}
}  // namespace v
#endif
