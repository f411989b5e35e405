// C10 (formats), C09 (hostile files), C11 (solution files), C12 (command line options), C20 (unit costs when loading).
#include "vcase.hpp"
#include "vfmt.hpp"

#include "core/CliArgs.hpp"

#include <unistd.h>

using namespace vc;

static double nd(real_t x) { return double(native_cast(x)); }

static std::string tmpname(vh::Rec& rec, char const* what) {
    return rec.opt.dir + "/" + rec.opt.mode + "-" + std::to_string(getpid()) + "-" + std::to_string(rec.k) + what;
}
struct Files {  // removed at the end of the case
    std::vector<std::string> f;
    std::string add(std::string const& n, std::string const& text) { f.push_back(n); v::spit(n, text); return n; }
    std::string add(std::string const& n) { f.push_back(n); return n; }
    ~Files() { for (auto& n : f) std::remove(n.c_str()); }
};

static Instance direct(int f, std::string const& path, Solution* init = nullptr) {
    if (f == v::RAIL) return parse_rail_instance(path);
    if (f == v::SCP) return parse_scp_instance(path);
    if (f == v::MPS) return parse_mps_instance(path);
    auto d = parse_cvrp_instance(path);
    if (init) *init = d.init_sol;
    return d.inst;
}

// The loaded instance against the one that was written.
static std::string same_as(v::PInst const& p, Instance const& in, bool unit = false) {
    auto m = sound_inst(in, false);
    if (!m.empty()) return m;
    if (in.rows.size() != size_t(p.nrows)) return vh::fmtv("%zu rows instead of %d", in.rows.size(), p.nrows);
    if (in.costs.size() != p.cols.size()) return vh::fmtv("%zu columns instead of %d", in.costs.size(), p.ncols());
    for (size_t j = 0; j < p.cols.size(); ++j) {
        std::vector<int> a(p.cols[j]), b;
        for (auto i : in.cols[j]) b.push_back(int(native_cast(i)));
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (a != b) return vh::fmtv("column %zu has other rows", j);
        double want = unit ? 1.0 : nd(as_real(p.costs[j]));
        if (!(nd(in.costs[j]) == want)) return vh::fmtv("cost of column %zu is %.9g instead of %.9g", j, nd(in.costs[j]), want);
    }
    return "";
}

static v::PInst file_inst(v::Rng& r, vh::Rec& rec) {
    using CL = std::numeric_limits<vt::c_native>;
    using RL = std::numeric_limits<vt::r_native>;
    v::GenCfg g;
    g.rcap = int(std::min<long double>(30000, (long double)RL::max() - 1));
    g.ncap = int(std::min<long double>(100000, (long double)CL::max() / 2 - 1));
    if (r.chance(0.0006)) {  // beyond 16 bits: a row in very many columns, or columns with very many rows
        v::PInst p;
        bool     wide = r.chance(0.6);
        p.family = wide ? "huge-wide" : "huge-tall";
        p.nrows  = wide ? int(r.range(1, 9)) : int(std::min<int64_t>(g.rcap, r.range(15000, 32000)));
        int n    = wide ? int(std::min<int64_t>(g.ncap, r.range(32000, 70000))) : int(r.range(3, 12));
        for (int j = 0; j < n; ++j) {
            std::vector<int> c;
            for (int i = 0; i < p.nrows; ++i)
                if (wide ? i == 0 || r.chance(0.15) : j == 0 || r.chance(0.4)) c.push_back(i);
            if (wide && j < p.nrows && (c.empty() || c.back() < j)) c.push_back(j);
            if (c.empty()) c.push_back(0);
            p.cols.push_back(c);
            p.costs.push_back(double(r.range(0, 99)));
        }
        std::vector<char> cov(size_t(p.nrows), 0);
        for (auto& c : p.cols) for (int i : c) cov[size_t(i)] = 1;
        for (int i = 0; i < p.nrows; ++i) if (!cov[size_t(i)]) { auto& c = p.cols[0]; c.insert(std::lower_bound(c.begin(), c.end(), i), i); }
        rec.count("huge_instances");
        return p;
    }
    double   x = r.unit();
    v::PInst p = v::gen(r.next(), x < 0.5 ? v::TINY : x < 0.9 ? v::SMALL : x < 0.95 ? v::WIDE : x < 0.997 || !rec.opt.thorough ? v::MEDIUM : v::LARGE, g);
    if (r.chance(0.1)) {
        double f = r.pick(std::vector<double>{1e-6, 1e-3, 1e4, 1e7, 1e15, 1e20});
        for (auto& c : p.costs) c = v::fl(c * f);
        p.intcost = false;
    }
    return p;
}

static std::string check_warm(v::PInst const& p, Solution const& s, std::vector<int> const& want, bool unit = false) {
    if (s.idxs.size() != want.size()) return vh::fmtv("initial solution of %zu columns instead of %zu", s.idxs.size(), want.size());
    for (size_t t = 0; t < want.size(); ++t) if ((long long)native_cast(s.idxs[t]) != want[t]) return vh::fmtv("column %zu of the initial solution is %lld instead of %d", t, (long long)native_cast(s.idxs[t]), want[t]);
    if (want.empty()) return "";
    if (unit) return nd(s.cost) == double(want.size()) ? "" : vh::fmtv("initial solution of %zu columns costs %.9g in unit cost mode", want.size(), nd(s.cost));
    double sum;
    return cost_ok(p, s, &sum) ? "" : vh::fmtv("initial solution costs %.9g, its columns %.9g", nd(s.cost), sum);
}

// ------------------------------------------------------------------------------------------------ C10
static void mode_c10(uint64_t k, vh::Rec& rec) {
    uint64_t s = v::mix(rec.opt.seed * 1000003 + 10, k);
    v::Rng   r(s);
    auto     p = file_inst(r, rec);
    Files    files;
    auto     warm = some_cover(p, r);
    auto     warm2 = some_cover(p, r);
    rec.context = p.brief() + (p.nnz() < 200 ? "\n" + p.dump() : std::string());
    Instance got[4];
    for (int f = 0; f < 4; ++f) {
        uint64_t ls    = r.next();
        bool     in_w  = f == v::CVRP && r.chance(0.7);
        auto     text  = v::write_fmt(f, p, ls, in_w ? warm : std::vector<int>());
        auto     path  = files.add(tmpname(rec, r.chance(0.2) ? " a file.x" : ".inst") + std::to_string(f), text);
        Environment env;
        env.verbose   = 0;
        env.inst_path = path;
        env.parser    = v::fmt_name(f);
        bool ext = r.chance(0.3);
        if (ext) env.initsol_path = files.add(path + ".init", v::write_sol(warm2, true_cost(p, mk_sol(p, warm2).idxs), r.next()));
        std::string who = std::string(v::fmt_name(f)) + vh::fmtv(" layout %llu", (unsigned long long)ls);
        try {
            auto d = parse_inst_and_initsol(env);
            auto m = same_as(p, d.inst);
            if (!m.empty()) { rec.context += "\n" + text.substr(0, 3000); rec.viol("load", who + ": " + m); return; }
            m = check_warm(p, d.init_sol, ext ? warm2 : in_w ? warm : std::vector<int>());
            if (!m.empty()) { rec.context += "\n" + text.substr(0, 3000); rec.viol("initial", who + ": " + m); return; }
            Solution ds;
            auto     x = direct(f, path, &ds);
            m = same_inst(x, d.inst);
            if (!m.empty()) rec.viol("direct", who + ": loader and parser disagree: " + m);
            if (f == v::CVRP && in_w) { m = check_warm(p, ds, warm); if (!m.empty()) rec.viol("direct", who + ": " + m); }
            got[f] = d.inst;
        } catch (std::exception const& e) {
            rec.context += "\n" + text.substr(0, 3000);
            rec.viol("refused", who + ": valid file refused: " + e.what());
            return;
        }
        rec.eval();
        rec.count(std::string("format.") + v::fmt_name(f));
        if (ext || in_w) rec.count("initial_solutions");
    }
    for (int f = 1; f < 4; ++f) {
        if (got[f].costs.size() != got[0].costs.size() || got[f].rows.size() != got[0].rows.size()) { rec.viol("formats", "sizes differ between formats"); return; }
        for (size_t j = 0; j < got[0].costs.size(); ++j) if (!(got[0].costs[j] == got[f].costs[j])) { rec.viol("formats", "costs differ between formats"); return; }
        for (size_t i = 0; i < got[0].rows.size(); ++i) if (ll(got[0].rows[i]) != ll(got[f].rows[i])) { rec.viol("formats", vh::fmtv("row %zu differs between RAIL and %s", i, v::fmt_name(f))); return; }
        rec.eval();
    }
    rec.maxi("max_cols", p.ncols());
    rec.maxi("max_rows", p.nrows);
    if (p.ncols() > 1) rec.distinct(v::mix(p.hash(), s));
    if (p.nrows < 8) rec.sample(p.brief());
}

// The instances shipped with the repository, read by our own reader and by the loader, the extension being irrelevant.
static void mode_c10real(uint64_t k, vh::Rec& rec) {
    auto dir = rec.opt.get("real");
    auto x   = v::real_at(dir, size_t(k), false);  // every round writes another layout
    rec.context = x.path;
    Environment env;
    env.verbose   = 0;
    env.inst_path = x.path;
    env.parser    = x.parser;
    try {
        auto d = parse_inst_and_initsol(env);
        auto m = same_as(x.p, d.inst);
        if (!m.empty()) { rec.viol("shipped", x.name + ": " + m); return; }
        m = check_warm(x.p, d.init_sol, x.start);
        if (!m.empty()) { rec.viol("shipped", x.name + ": " + m); return; }
    } catch (std::exception const& e) { rec.viol("shipped", x.name + " refused: " + e.what()); return; }
    rec.eval();
    rec.count("shipped." + x.parser);
    rec.count("shipped_coefficients", x.p.nnz());
    if (!x.start.empty()) rec.count("shipped_initial_solutions");
    rec.distinct(x.p.hash());
    Files files;  // rewritten by our writers in each format, with another layout
    if (x.p.nnz() < 200000 || k % 4 == 0)
        for (int f = 0; f < 4; ++f) {
            uint64_t ls   = v::mix(rec.opt.seed, k * 4 + uint64_t(f));
            env.inst_path = files.add(tmpname(rec, ".r") + std::to_string(f), v::write_fmt(f, x.p, ls, x.start));
            env.parser    = v::fmt_name(f);
            try {
                auto d = parse_inst_and_initsol(env);
                auto m = same_as(x.p, d.inst);
                if (m.empty() && f == v::CVRP) m = check_warm(x.p, d.init_sol, x.start);
                if (!m.empty()) { rec.viol("shipped", x.name + " rewritten as " + v::fmt_name(f) + ": " + m); return; }
            } catch (std::exception const& e) { rec.viol("shipped", x.name + " rewritten as " + v::fmt_name(f) + " refused: " + e.what()); return; }
            rec.eval();
        }
}

// ------------------------------------------------------------------------------------------------ C09
static std::string hostile_token(v::Rng& r) {
    static std::vector<std::string> const t = {"-1", "0", "1", "2", "127", "128", "255", "256", "-128", "32766", "32767", "32768", "65535", "65536", "2147483646", "2147483647", "2147483648", "-2147483648", "-2147483649",
        "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "99999999999999999999999999", "1e5", "1e39", "-1e39", "1e400", "1e-400", "nan", "NAN", "-nan", "inf", "-inf",
        "infinity", "0x10", "010", "+3", "-0", "--1", "1-", "1.5", ".5", "5.", "1,5", "a", "", "#", "*", "ROWS", "COLUMNS", "RHS", "N", "G", "ENDATA", "\"", "\xff\xfe", "3.4028235e38", "3.4028236e38", "1e4000", "1e5000", "1_000", "١"};
    if (r.chance(0.3)) return std::to_string(r.range(-3, 40));
    if (r.chance(0.1)) return std::string(size_t(r.range(1, 400)), char(r.range(33, 126)));
    if (r.chance(0.05)) return std::string(size_t(r.range(20, 4000)), '9');
    return r.pick(t);
}
static std::vector<std::string> lines_of(std::string const& t) {
    std::vector<std::string> o;
    std::string              c;
    for (char x : t) { c += x; if (x == '\n') { o.push_back(c); c.clear(); } }
    if (!c.empty()) o.push_back(c);
    return o;
}
static std::string join(std::vector<std::string> const& l) { std::string o; for (auto& x : l) o += x; return o; }

static std::string mutate(std::string t, v::Rng& r, std::string const& other) {
    int kind = int(r.range(0, 15));
    auto pos = [&](size_t n) { return n ? size_t(r.next() % n) : 0; };
    switch (kind) {
    case 0: return t.substr(0, pos(t.size() + 1));
    case 1: if (!t.empty()) t[pos(t.size())] = char(r.range(0, 255)); return t;
    case 2: if (!t.empty()) { size_t a = pos(t.size()); t.erase(a, size_t(r.range(1, r.chance(0.5) ? 3 : 60))); } return t;
    case 3: t.insert(pos(t.size() + 1), std::string(size_t(r.range(1, 5)), char(r.pick(std::vector<int>{0, 9, 10, 13, 32, 11, 12, 45, 48, 57, 128, 255, 46, 101, int(r.range(0, 255))})))); return t;
    case 4: case 5: case 6: case 7: case 8: case 9: {  // replace, remove, insert or double a token (often early in the file)
        std::vector<std::pair<size_t, size_t>> tok;
        for (size_t a = 0; a < t.size();) {
            while (a < t.size() && std::isspace((unsigned char)t[a])) ++a;
            size_t b = a;
            while (b < t.size() && !std::isspace((unsigned char)t[b])) ++b;
            if (b > a) tok.emplace_back(a, b - a);
            a = b;
        }
        if (tok.empty()) return hostile_token(r);
        auto x = tok[r.chance(0.3) ? pos(std::min<size_t>(2, tok.size())) : pos(tok.size())];
        int  how = int(r.range(0, 5));
        if (how <= 2) t.replace(x.first, x.second, hostile_token(r));
        else if (how == 3) t.erase(x.first, x.second);
        else if (how == 4) t.insert(x.first, hostile_token(r) + " ");
        else { auto y = tok[pos(tok.size())]; std::string w = t.substr(y.first, y.second); t.replace(x.first, x.second, w); }
        return t;
    }
    case 10: { auto l = lines_of(t); if (l.empty()) return t; l.erase(l.begin() + long(pos(l.size()))); return join(l); }
    case 11: { auto l = lines_of(t); if (l.empty()) return t; auto x = l[pos(l.size())]; l.insert(l.begin() + long(pos(l.size() + 1)), x); return join(l); }
    case 12: { auto l = lines_of(t); if (l.size() < 2) return t; std::swap(l[pos(l.size())], l[pos(l.size())]); return join(l); }
    case 13: return t.substr(0, pos(t.size() + 1)) + other.substr(pos(other.size() + 1));
    case 14: { auto l = lines_of(t); l.insert(l.begin() + long(pos(l.size() + 1)), r.chance(0.5) ? "\n" : "   \t \r\n"); return join(l); }
    default: { size_t a = pos(t.size() + 1); for (int n = int(r.range(1, 40)); n > 0; --n) t.insert(a, 1, char(r.range(0, 255))); return t; }
    }
}

static void mode_c09(uint64_t k, vh::Rec& rec) {
    uint64_t s = v::mix(rec.opt.seed * 1000003 + 9, k);
    v::Rng   r(s);
    Files    files;
    using CL = std::numeric_limits<vt::c_native>;
    using RL = std::numeric_limits<vt::r_native>;
    v::GenCfg g;
    g.rcap = int(std::min<long double>(3000, (long double)RL::max() - 1));
    g.ncap = int(std::min<long double>(3000, (long double)CL::max() - 1));
    v::PInst p = v::gen(r.next(), r.chance(0.75) ? v::TINY : v::SMALL, g);
    if (p.ncols() > 120) { p.cols.resize(120); p.costs.resize(120); std::vector<char> c(size_t(p.nrows), 0); for (auto& x : p.cols) for (int i : x) c[size_t(i)] = 1; std::vector<int> miss; for (int i = 0; i < p.nrows; ++i) if (!c[size_t(i)]) miss.push_back(i); if (!miss.empty()) { p.cols.push_back(miss); p.costs.push_back(3); } }
    int  f    = int(r.range(0, 3));
    auto warm = some_cover(p, r);
    std::string text;
    int  base = int(r.range(0, 19));
    if (base == 0) text = "";
    else if (base == 1) { for (int n = int(r.range(0, 300)); n > 0; --n) text += char(r.range(0, 255)); }
    else if (base == 2) { for (int n = int(r.range(0, 80)); n > 0; --n) text += hostile_token(r) + (r.chance(0.3) ? "\n" : " "); }
    else if (base == 3) text = v::write_fmt(int(r.range(0, 3)), p, r.next(), warm);  // maybe of another format
    else text = v::write_fmt(f, p, r.next(), r.chance(0.7) ? warm : std::vector<int>());
    std::string other = v::write_fmt(int(r.range(0, 3)), p, r.next(), warm);
    int nm = base < 2 ? 0 : int(r.pick(std::vector<int>{0, 1, 1, 1, 1, 2, 2, 3, 5, 12}));
    bool sol_hostile = r.chance(0.3);
    if (sol_hostile && r.chance(0.7)) nm = 0;
    for (int n = 0; n < nm; ++n) text = mutate(text, r, other);
    auto path = files.add(tmpname(rec, ".txt"), text);
    Environment env;
    env.verbose   = 0;
    env.inst_path = path;
    env.parser    = v::fmt_name(f);
    env.use_unit_costs = r.chance(0.1);
    std::string sol;
    if (sol_hostile) {
        int b = int(r.range(0, 9));
        if (b == 0) sol = "";
        else if (b == 1) for (int n = int(r.range(0, 200)); n > 0; --n) sol += char(r.range(0, 255));
        else if (b == 2) for (int n = int(r.range(0, 30)); n > 0; --n) sol += hostile_token(r) + " ";
        else sol = v::write_sol(warm, r.chance(0.5) ? 1.0 : 1e30, r.next());
        if (b > 2) for (int n = int(r.range(0, 3)); n > 0; --n) sol = mutate(sol, r, other);
        env.initsol_path = files.add(path + ".init", sol);
    }
    rec.context = vh::fmtv("parser %s, file (%zu bytes):\n", v::fmt_name(f), text.size()) + text.substr(0, 2500) + (sol_hostile ? "\ninitial solution:\n" + sol.substr(0, 800) : "");
    rec.eval();
    bool loaded = false;
    try {
        auto d = parse_inst_and_initsol(env);
        loaded = true;
        auto m = sound_inst(d.inst, true);
        if (!m.empty()) rec.viol("unsound", "loaded instance: " + m);
        else if (!d.init_sol.idxs.empty()) {
            std::vector<char> sel(d.inst.costs.size(), 0), cov(d.inst.rows.size(), 0);
            double            sum = 0, mag = 0;
            for (auto jj : d.init_sol.idxs) {
                long long j = (long long)native_cast(jj);
                if (j < 0 || size_t(j) >= sel.size()) { rec.viol("initial", vh::fmtv("initial solution has column %lld", j)); return; }
                if (sel[size_t(j)]++) { rec.viol("initial", vh::fmtv("initial solution repeats column %lld", j)); return; }
                sum += nd(d.inst.costs[size_t(j)]);
                mag += std::fabs(nd(d.inst.costs[size_t(j)]));
                for (auto i : d.inst.cols[size_t(j)]) cov[size_t(native_cast(i))] = 1;
            }
            for (size_t i = 0; i < cov.size(); ++i) if (!cov[i]) { rec.viol("initial", vh::fmtv("initial solution leaves row %zu uncovered", i)); return; }
            double c = nd(d.init_sol.cost);
            if (mag < 1e37 && !(std::fabs(c - sum) <= 4 * REAL_EPS * (double(sel.size()) + 4) * (mag + 1e-30))) rec.viol("initial", vh::fmtv("initial solution has cost %.9g, its columns sum to %.9g", c, sum));
            rec.count("initial_solutions_accepted");
        }
        rec.maxi("max_loaded_rows", double(d.inst.rows.size()));
    } catch (std::exception const& e) {
        rec.count("rejected");
        rec.count(std::string("rejected_by_") + v::fmt_name(f));
    }
    if (loaded) rec.count(nm || base <= 3 ? "hostile_accepted_as_sound" : "unmodified_accepted");
    // The parsers on their own: consistent views (coverage of the rows is checked by the loader).
    for (int g2 = 0; g2 < 4; ++g2) {
        if (g2 != f && !r.chance(0.25)) continue;
        try {
            auto x = direct(g2, path);
            auto m = sound_inst(x, false);
            if (!m.empty()) rec.viol("unsound", std::string("parser ") + v::fmt_name(g2) + ": " + m);
            rec.count("parsers_accepted");
        } catch (std::exception const&) { rec.count("parsers_rejected"); }
        rec.eval();
    }
    try { auto x = parse_solution(path); (void)x; } catch (std::exception const&) {}
    if (nm > 0 || sol_hostile || base <= 3) rec.distinct(v::hash_str(text + "|" + sol) + uint64_t(f));
    if (text.size() < 100) rec.sample(std::string(v::fmt_name(f)) + ": " + text);
}

// ------------------------------------------------------------------------------------------------ C11 (in process)
// An independent reader of solution files.
static bool read_sol(std::string const& text, double* cost, std::vector<long long>* idx, std::string* why) {
    std::istringstream in(text);
    std::string        w;
    if (!(in >> w)) { *why = "the file is empty"; return false; }
    char* e = nullptr;
    *cost = std::strtod(w.c_str(), &e);
    if (*e) { *why = "cost '" + w + "' is not a number"; return false; }
    while (in >> w) {
        long long j = std::strtoll(w.c_str(), &e, 10);
        if (*e) { *why = "column '" + w + "' is not a number"; return false; }
        idx->push_back(j);
    }
    return true;
}
static void mode_c11(uint64_t k, vh::Rec& rec) {
    uint64_t s = v::mix(rec.opt.seed * 1000003 + 11, k);
    v::Rng   r(s);
    Files    files;
    auto     path = files.add(tmpname(rec, r.chance(0.2) ? " s p.sol" : ".sol"));
    Solution a;
    using CL = std::numeric_limits<vt::c_native>;
    size_t n = size_t(r.chance(0.1) ? r.range(1000, 20000) : r.range(r.chance(0.1) ? 0 : 1, 60));
    for (size_t t = 0; t < n; ++t) {
        long long j = (long long)(r.next() >> r.range(1, 63));
        if ((long double)j >= (long double)CL::max()) j = (long long)(std::min<long double>((long double)CL::max(), 9e18L) - 1) % (j + 1);
        a.idxs.push_back(as_cidx(j));
    }
    int kind = int(r.range(0, 5));
    double c = kind == 0 ? double(r.range(0, 100000)) : kind == 1 ? double(r.range(0, 1 << 24)) : kind == 2 ? r.unit() * 1000 : kind == 3 ? std::pow(10.0, r.unit() * 70 - 35) : kind == 4 ? double(r.range(0, 100000)) / 100 : double(r.next() >> r.range(0, 63));
    a.cost = real_t(native_t<real_t>(c));
    rec.context = sol_str(a).substr(0, 1000);
    if (r.chance(0.4)) v::spit(path, std::string(size_t(r.range(1, 200000)), char(r.range('0', '9'))));  // overwritten, maybe longer
    write_solution(path, a);
    double                 rc = 0;
    std::vector<long long> ri;
    std::string            why;
    auto                   text = v::slurp(path);
    if (!read_sol(text, &rc, &ri, &why)) { rec.viol("file", why + ": " + text.substr(0, 200)); return; }
    if (ri != ll(a.idxs)) rec.viol("file", "the file lists other columns");
    double want = nd(a.cost);
    if (std::fabs(rc - want) > 1e-6 * std::fabs(want) && std::fabs(rc - want) > 1e-45) rec.viol("file", vh::fmtv("the file has cost %.17g instead of %.17g", rc, want));
    auto b = parse_solution(path);
    if (!(b.cost == a.cost)) rec.viol("round-trip", vh::fmtv("cost %.17g comes back as %.17g", want, nd(b.cost)));
    if (ll(b.idxs) != ll(a.idxs)) rec.viol("round-trip", "columns come back different");
    // places where it cannot be written
    std::string bad = r.pick(std::vector<std::string>{"/dev/full", rec.opt.dir + "/no/such/dir/x.sol", rec.opt.dir, ""});
    if (!(bad == "/dev/full" && access("/dev/full", W_OK) != 0)) {
        bool threw = false;
        try { write_solution(bad, a); } catch (std::exception const&) { threw = true; }
        if (!threw) rec.viol("silent", "no error although nothing can be written to '" + bad + "'");
        rec.count("failing_writes");
    }
    rec.eval();
    if (n > 1) rec.distinct(v::mix(s, n));
    if (n < 8) rec.sample(text);
    rec.maxi("max_columns", double(n));
}

// ------------------------------------------------------------------------------------------------ C12
struct Ref {
    std::string inst, sol, init, parser = "RAIL";
    uint64_t    seed = 0, heur = 250, verbose = 4;
    double      tlim = std::numeric_limits<double>::infinity();
    long double eps = 0.999L, beta = 1.0L, absx = 1.0L, relx = 0.001L;
    bool        unit = false;
};
static std::string sol_name(std::string s) {
    auto a = s.find_last_of("/\\");
    if (a != std::string::npos) s = s.substr(a + 1);
    auto d = s.find_last_of('.');
    if (d != std::string::npos) s = s.substr(0, d);
    return s + ".sol";
}
static void mode_c12(uint64_t k, vh::Rec& rec) {
    uint64_t s = v::mix(rec.opt.seed * 1000003 + 12, k);
    v::Rng   r(s);
    std::vector<std::string> a{"prog"};
    Ref  e;
    bool bad = false;
    std::string why;
    auto name = [&](bool inst) {
        std::string n;
        static std::vector<std::string> const dirs = {"", "", "./", "../", "/tmp/", "a.b/", "dir.d/sub/", "C:\\x\\", "/", "..\\"};
        n = r.pick(dirs);
        std::string stem;
        for (int t = int(r.range(1, 9)); t > 0; --t) stem += r.pick(std::vector<char>{'a', 'b', 'Z', '0', '9', '_', '-', ' '});
        if (stem[0] == ' ' || stem[0] == '-') stem[0] = 'q';
        n += stem;
        for (int t = int(r.pick(std::vector<int>{0, 1, 1, 1, 2})); t > 0; --t) n += r.pick(std::vector<std::string>{".txt", ".scp", ".mps", ".x", ".", ".sol", ".tar"});
        (void)inst;
        if (r.chance(0.06)) n = r.pick(std::vector<std::string>{"-u", "--seed", "-h", "-i", "--", "-", "--help", "-o", "-7", "--x.txt"});  // whatever follows the option is its value
        return n;
    };
    auto integer = [&](uint64_t* out, bool* ok) {
        *ok = true;
        int  c = int(r.range(0, 19));
        if (c == 0) { *ok = false; return r.pick(std::vector<std::string>{"x", "-1", "-3", "18446744073709551616", "99999999999999999999", "", "abc", "-", "--seed", ".5", "e5"}); }
        uint64_t val = c == 1 ? ~0ull : c == 2 ? 0 : c < 8 ? r.next() >> r.range(0, 63) : uint64_t(r.range(0, 1000));
        *out = val;
        std::string t = std::to_string(val);
        if (r.chance(0.05)) t = "00" + t;
        if (r.chance(0.05)) t = "+" + t;
        if (r.chance(0.05)) t = " " + t;
        return t;
    };
    auto real = [&](long double* out, bool wide, bool* ok) {
        *ok = true;
        int c = int(r.range(0, 19));
        if (c == 0) { *ok = false; return r.pick(wide || sizeof(native_t<real_t>) > 4 ? std::vector<std::string>{"x", "", "nan", "inf", "-inf", "1e400", "-1e400", "-", ".", "--beta"} : std::vector<std::string>{"x", "", "nan", "inf", "-inf", "1e39", "-1e39", "1e400", "-", ".", "-g"}); }
        char b[64];
        if (c < 6) std::snprintf(b, sizeof b, "%lld", (long long)r.range(-5, 100000));
        else if (c < 12) std::snprintf(b, sizeof b, "%.*f", int(r.range(1, 12)), (r.unit() - 0.2) * std::pow(10.0, double(r.range(0, 5))));
        else if (c < 16) std::snprintf(b, sizeof b, "%.9g", r.unit() * std::pow(10.0, double(r.range(-30, 30))));
        else if (c < 18) std::snprintf(b, sizeof b, "%.3e", r.unit());
        else std::snprintf(b, sizeof b, ".%d", int(r.range(0, 99)));
        *out = std::strtold(b, nullptr);
        return std::string(b);
    };
    auto given = [&](char const* sh, char const* lo) { a.push_back(r.chance(0.5) ? sh : lo); };
    int  n     = int(r.range(0, 9));
    bool want_inst = r.chance(0.93);
    int  at = int(r.range(0, n));
    bool okv;
    std::set<int> used;
    int  first = want_inst && r.chance(0.3) ? int(r.range(0, at)) : -1;  // an instance path that is overruled later
    for (int t = 0; t <= n; ++t) {
        if (t == first) { given("-i", "--inst"); a.push_back(name(true)); rec.count("instance_given_twice"); }
        if (want_inst && t == at) { given("-i", "--inst"); e.inst = name(true); a.push_back(e.inst); }
        if (t == n) break;
        int o = int(r.range(0, 15));
        used.insert(o);
        switch (o) {
        case 0: given("-p", "--parser"); e.parser = r.pick(std::vector<std::string>{"RAIL", "SCP", "CVRP", "MPS", "none"}); a.push_back(e.parser); break;
        case 1: given("-o", "--out-sol"); e.sol = name(false); a.push_back(e.sol); break;
        case 2: given("-w", "--init-sol"); e.init = name(false); a.push_back(e.init); break;
        case 3: given("-s", "--seed"); a.push_back(integer(&e.seed, &okv)); if (!okv) { bad = true; why = "seed"; } break;
        case 4: { given("-t", "--timelimit"); long double x = 0; a.push_back(real(&x, true, &okv)); if (okv) e.tlim = double(x); else { bad = true; why = "time limit"; } break; }
        case 5: given("-v", "--verbose"); a.push_back(integer(&e.verbose, &okv)); if (!okv) { bad = true; why = "verbose"; } break;
        case 6: given("-e", "--epsilon"); a.push_back(real(&e.eps, false, &okv)); if (!okv) { bad = true; why = "epsilon"; } break;
        case 7: given("-g", "--heur-iters"); a.push_back(integer(&e.heur, &okv)); if (!okv) { bad = true; why = "heur-iters"; } break;
        case 8: given("-b", "--beta"); a.push_back(real(&e.beta, false, &okv)); if (!okv) { bad = true; why = "beta"; } break;
        case 9: given("-a", "--abs-subg-exit"); a.push_back(real(&e.absx, false, &okv)); if (!okv) { bad = true; why = "abs"; } break;
        case 10: given("-r", "--rel-subg-exit"); a.push_back(real(&e.relx, false, &okv)); if (!okv) { bad = true; why = "rel"; } break;
        case 11: case 12: given("-u", "--unit-costs"); e.unit = true; break;
        case 13: if (r.chance(0.3)) given("-h", "--help"); else given("-u", "--unit-costs"), e.unit = true; break;
        default: a.push_back(r.pick(std::vector<std::string>{"--nothing", "-z", "x", "-", "--", "42", "-I", "--Inst", "--seeds", "-se", "", "instance.txt", "-i=3", "--unit-cost", "-uu", "\xff", "--inst "})); break;
        case 15: if (t == n - 1 && !want_inst) break;
            if (t == n - 1 && at < n) { a.push_back(r.pick(std::vector<std::string>{"-i", "-s", "--timelimit", "-o", "--epsilon", "--nothing"})); }  // no value follows
            break;
        }
        if (bad) {  // what follows does not matter
            for (int z = int(r.range(0, 2)); z > 0; --z) a.push_back("-u");
            if (at > t) { a.push_back("-i"); a.push_back("x.txt"); }
            break;
        }
    }
    std::vector<char const*> argv;
    for (auto& x : a) argv.push_back(x.c_str());
    std::string cmd;
    for (auto& x : a) cmd += " '" + x + "'";
    rec.context = cmd;
    rec.eval();
    if (a.size() > 3) rec.distinct(v::hash_str(cmd));
    if (k % 7 == 0) rec.sample(cmd);
    Environment env;
    try {
        env = parse_cli_args(int(argv.size()), argv.data());
    } catch (std::exception const& x) {
        if (!bad && want_inst) rec.viol("refused", std::string("valid arguments refused: ") + x.what());
        rec.count(bad ? "malformed_refused" : "missing_instance_refused");
        return;
    }
    if (bad) { rec.viol("accepted", "malformed value of " + why + " accepted"); return; }
    if (!want_inst) { rec.viol("accepted", "accepted without an instance path"); return; }
    if (e.sol.empty()) e.sol = sol_name(e.inst);
    auto str = [&](char const* w, std::string const& got, std::string const& want) { if (got != want) rec.viol("value", std::string(w) + " is '" + got + "' instead of '" + want + "'"); };
    auto num = [&](char const* w, uint64_t got, uint64_t want) { if (got != want) rec.viol("value", vh::fmtv("%s is %llu instead of %llu", w, (unsigned long long)got, (unsigned long long)want)); };
    using RN = native_t<real_t>;
    auto rea = [&](char const* w, real_t got, long double want) { if (!(native_cast(got) == RN(want))) rec.viol("value", vh::fmtv("%s is %.12g instead of %.12Lg", w, nd(got), want)); };
    str("instance path", env.inst_path, e.inst);
    str("solution path", env.sol_path, e.sol);
    str("initial solution path", env.initsol_path, e.init);
    str("parser", env.parser, e.parser);
    num("seed", env.seed, e.seed);
    num("heuristic iterations", env.heur_iters, e.heur);
    num("verbosity", env.verbose, e.verbose);
    num("unit costs", env.use_unit_costs, e.unit);
    if (!(env.time_limit == e.tlim)) rec.viol("value", vh::fmtv("time limit is %.12g instead of %.12g", env.time_limit, e.tlim));
    rea("epsilon", env.epsilon, e.eps);
    rea("beta", env.beta, e.beta);
    rea("abs_subgrad_exit", env.abs_subgrad_exit, e.absx);
    rea("rel_subgrad_exit", env.rel_subgrad_exit, e.relx);
    rea("alpha", env.alpha, 1.1L);
    rea("min_fixing", env.min_fixing, 0.3L);
    prng_t g(e.seed);
    for (int t = 0; t < 8; ++t) if (!(g() == env.rnd())) { rec.viol("generator", "the generator does not start from the given seed"); break; }
    rec.count("accepted");
    for (int o : used) rec.count("option_" + std::to_string(o));
}

// ------------------------------------------------------------------------------------------------ C20 (loader)
static void mode_c20(uint64_t k, vh::Rec& rec) {
    uint64_t s = v::mix(rec.opt.seed * 1000003 + 20, k);
    v::Rng   r(s);
    auto     p = v::gen(r.next(), r.chance(0.6) ? v::TINY : r.chance(0.95) ? v::SMALL : v::MEDIUM);
    Files    files;
    auto     warm = some_cover(p, r);
    int      f    = int(r.range(0, 3));
    bool     in_w = f == v::CVRP && r.chance(0.6), ext = r.chance(0.4);
    Environment env;
    auto q = gen_params(r, r.chance(0.5), p.nrows > 60);
    if (p.nrows > 60) { q.alpha = std::max(q.alpha, 1.2); q.minfix = std::max(q.minfix, 0.2); }
    env = q.env();
    env.inst_path = files.add(tmpname(rec, ".inst"), v::write_fmt(f, p, r.next(), in_w ? warm : std::vector<int>()));
    env.parser    = v::fmt_name(f);
    if (ext) env.initsol_path = files.add(env.inst_path + ".init", v::write_sol(warm, true_cost(p, mk_sol(p, warm).idxs), r.next()));
    rec.context = p.brief() + " " + q.str() + (p.nnz() < 300 ? "\n" + p.dump() : "");
    env.use_unit_costs = true;
    auto d = parse_inst_and_initsol(env);
    auto m = same_as(p, d.inst, true);
    if (!m.empty()) { rec.viol("load", "unit cost mode: " + m); return; }
    m = check_warm(p, d.init_sol, ext || in_w ? warm : std::vector<int>(), true);
    if (!m.empty()) { rec.viol("initial", m); return; }
    rec.eval();
    // the same result as the instance with every cost equal to one
    auto     u = p;
    u.costs.assign(u.cols.size(), 1.0);
    auto     in_u = d.inst;
    for (size_t j = 0; j < in_u.costs.size(); ++j) in_u.costs[j] = as_real(1.0);
    Solution w;
    if (ext || in_w) w = mk_sol(u, warm);
    auto e1 = q.env(), e2 = q.env();
    auto a  = cft::run(e1, d.inst, d.init_sol);
    auto b  = cft::run(e2, in_u, w);
    m = same_result(a, b);
    if (!m.empty()) rec.viol("result", "differs from the solve of the instance with all costs one: " + m);
    if (!(nd(a.sol.cost) == double(a.sol.idxs.size()))) rec.viol("cost", vh::fmtv("%zu columns but cost %.9g", a.sol.idxs.size(), nd(a.sol.cost)));
    if (!check_cover(u, a.sol.idxs).empty()) rec.viol("cover", check_cover(u, a.sol.idxs));
    if ((ext || in_w) && a.sol.cost > w.cost) rec.viol("worse", "worse than the initial solution");
    rec.eval();
    // later in normal mode
    env.use_unit_costs = false;
    auto d2 = parse_inst_and_initsol(env);
    m = same_as(p, d2.inst);
    if (m.empty()) m = check_warm(p, d2.init_sol, ext || in_w ? warm : std::vector<int>());
    if (!m.empty()) rec.viol("normal", "after a unit cost load: " + m);
    rec.eval();
    // a start that is none is refused in either mode
    auto bad = warm;
    int  kind = int(r.range(0, 3));
    if (kind == 0 && !bad.empty()) bad.push_back(bad[size_t(r.range(0, int(bad.size()) - 1))]);
    else if (kind == 1) bad.push_back(int(p.cols.size()) + int(r.range(0, 3)));
    else if (kind == 2) bad.push_back(-1 - int(r.range(0, 2)));
    else if (bad.size() > 1) bad.resize(size_t(r.range(1, int(bad.size()) - 1)));
    env.initsol_path = files.add(env.inst_path + ".bad", v::write_sol(bad, double(bad.size()), r.next()));
    std::string verdict[2];
    for (int unit = 0; unit < 2; ++unit) {
        env.use_unit_costs = unit != 0;
        try {
            auto x = parse_inst_and_initsol(env);
            if (!x.init_sol.idxs.empty() && !check_cover(p, x.init_sol.idxs).empty())
                rec.viol("bad-start", vh::fmtv("kind %d, unit costs %d: ", kind, unit) + check_cover(p, x.init_sol.idxs));
            verdict[unit] = "loaded";
        } catch (std::exception const& e) { verdict[unit] = "refused"; }
    }
    if (verdict[0] != verdict[1]) rec.viol("verdict", vh::fmtv("start of kind %d: ", kind) + verdict[0] + " with the given costs, " + verdict[1] + " with unit costs");
    rec.count("bad_starts_" + verdict[1]);
    rec.eval();
    rec.count(std::string("format.") + v::fmt_name(f));
    if (ext || in_w) rec.count("initial_solutions");
    if (a.sol.idxs.size() > 1) rec.distinct(v::mix(p.hash(), s));
    if (p.nrows < 7) rec.sample(p.brief() + " | " + sol_str(a.sol));
}

static void one(uint64_t k, vh::Rec& rec) {
    auto const& m = rec.opt.mode;
    if (m == "c09") mode_c09(k, rec);
    else if (m == "c10") mode_c10(k, rec);
    else if (m == "c10real") mode_c10real(k, rec);
    else if (m == "c11") mode_c11(k, rec);
    else if (m == "c12") mode_c12(k, rec);
    else if (m == "c20") mode_c20(k, rec);
    else std::exit(3);
}
int main(int argc, char** argv) { v::Layout::digits() = sizeof(native_t<real_t>) > 4 ? 17 : 9; return vh::run_main(argc, argv, one); }
