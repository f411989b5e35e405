// C26: what the command line program prints. The real main() of the program is run in this process at every verbosity
// level; its standard output is captured and checked against a trace specification of the log.
#include <cstddef>
#include <vector>
#ifndef VT_NO_LOCAL
// What the fixing of columns really does, step by step, to compare with what the log says.
struct Fixed {
    char   where;  // 'C' columns fixed in the 3-phase, 'R' in refinement, 'P' pricing after a fixing
    size_t ncols_fixed, rows_left, cols_left;
    double cost;
};
static std::vector<Fixed> fixed_steps;
#include "fixing/FixingData.hpp"
namespace cft {
template <char W>
void vt_fix(std::vector<cidx_t> const& cols, Instance& inst, FixingData& fixing, IdxsMaps& old2new) {
    size_t n = cols.size();
    fix_columns_and_compute_maps(cols, inst, fixing, old2new);
    fixed_steps.push_back({W, n, inst.rows.size(), inst.costs.size(), static_cast<double>(fixing.fixed_cost)});
}
}  // namespace cft
#define fix_columns_and_compute_maps vt_fix<'C'>
#include "fixing/ColFixing.hpp"
#include "subgradient/Subgradient.hpp"
namespace cft {
class VtPricer : public Pricer {
public:
    real_t operator()(Instance const& inst, std::vector<real_t> const& mults, InstAndMap& core) {
        real_t lb = Pricer::operator()(inst, mults, core);
        fixed_steps.push_back({'P', 0, 0, core.inst.costs.size(), static_cast<double>(lb)});
        return lb;
    }
};
}  // namespace cft
#define Pricer VtPricer
#include "algorithms/ThreePhase.hpp"
#undef Pricer
#undef fix_columns_and_compute_maps
#define fix_columns_and_compute_maps vt_fix<'R'>
#include "algorithms/Refinement.hpp"
#undef fix_columns_and_compute_maps
#else
struct Fixed { char where; size_t ncols_fixed, rows_left, cols_left; double cost; };
static std::vector<Fixed> fixed_steps;
#endif
#define main accft_main
#include "main.cpp"
#undef main
#include "vcase.hpp"
#include "vfmt.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace vc;

struct Redirect {
    int         fd, old = -1;
    std::string path;
    Redirect(int fd_, std::string p) : fd(fd_), path(std::move(p)) {
        std::fflush(nullptr);
        int f = open(path.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
        old   = dup(fd);
        dup2(f, fd);
        close(f);
    }
    std::string done() {
        std::fflush(nullptr);
        dup2(old, fd);
        close(old);
        old = -1;
        auto s = v::slurp(path);
        unlink(path.c_str());
        return s;
    }
    ~Redirect() { if (old >= 0) done(); }
};

struct Run {
    int         rc = -1;
    std::string out, err, sol;
};

static Run program(std::vector<std::string> const& a, std::string const& sol, std::string const& tmp) {
    std::vector<char const*> argv;
    for (auto& x : a) argv.push_back(x.c_str());
    Run r;
    unlink(sol.c_str());
    {
        Redirect o(1, tmp + ".out"), e(2, tmp + ".err");
        fixed_steps.clear();
        r.rc  = accft_main(int(argv.size()), argv.data());
        r.err = e.done();
        r.out = o.done();
    }
    r.sol = v::slurp(sol);
    return r;
}

// Non-blank lines, elapsed times and the verbosity masked.
static std::vector<std::string> lines(std::string const& s) {
    std::vector<std::string> out;
    std::istringstream       is(s);
    for (std::string l; std::getline(is, l);) {
        if (l.find_first_not_of(" \t\r") == std::string::npos) continue;
        if (l.compare(0, 3, " -v") == 0) l = " -v";
        std::string m;
        for (size_t i = 0; i < l.size();) {
            size_t e = i;
            while (e < l.size() && (std::isdigit((unsigned char)l[e]) || l[e] == '.')) ++e;
            bool start = i == 0 || l[i - 1] == ' ';
            if (e > i && start && e < l.size() && l[e] == 's' && (e + 1 == l.size() || !std::isalnum((unsigned char)l[e + 1]))) { m += "#s"; i = e + 1; continue; }
            if (e > i) { m += l.substr(i, e - i); i = e; continue; }
            m += l[i++];
        }
        out.push_back(m);
    }
    return out;
}

struct Spec {
    vh::Rec&                           rec;
    v::PInst const&                    p;
    std::map<std::string, std::string> want;  // long option -> value
    double                             eps, opt, final_cost, warm;
    std::string                        bad;
    uint64_t                           events;
    std::vector<Fixed>                 steps;
    static bool near(double a, double b, double scale) { return (a == b) || std::fabs(a - b) <= 0.0101 + 4e-6 * (std::fabs(a) + std::fabs(b) + scale); }
    void fail(std::string const& m, std::string const& l) { if (bad.empty()) bad = m + " at: " + l; }

    static size_t count(std::string const& s, char const* w) {
        size_t n = 0;
        for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; ++p) ++n;
        return n;
    }
    void check(std::string const& log) {
        double const INF = std::numeric_limits<double>::infinity();
        double cmax = 0;
        for (double c : p.costs) cmax = std::max(cmax, c);
        double B = warm, L = NAN, F = 0, X = INF;          // refinement: incumbent, bound, fixed cost, result of the last 3-phase run
        double best = INF, fixed = 0, ub = INF, imp = INF, greedy = NAN;  // 3-phase
        long   rows = -1, ncols = p.ncols(), it = -1, refn = -1, runs = 0, sub_it = -1;
        double seg = -INF;
        bool   fixed_line = false, size_seen = false, first_sub = true;
        // The steps observed, if they are all there: one for each report of columns fixed
        size_t at_c = 0, at_r = 0;
        std::vector<Fixed> sc, sr;
        std::vector<Fixed const*> priced;  // what was priced after each 3-phase fixing
        for (auto& f : steps) {
            if (f.where == 'C') sc.push_back(f), priced.push_back(nullptr);
            else if (f.where == 'R') sr.push_back(f);
            else if (!priced.empty() && !priced.back()) priced.back() = &f;
        }
        bool spy = !steps.empty() && count(log, "CFIX> Fixing ") == sc.size() && count(log, ": Fixed cost ") >= sr.size();
        size_t unfixed = count(log, ": Fixed cost ") - std::min(count(log, ": Fixed cost "), sr.size());  // rounds that fix nothing
        if (!steps.empty() && !spy) rec.count("logs_with_other_steps");
        std::istringstream is(log);
        for (std::string l; std::getline(is, l);) {
            char const* s = l.c_str();
            long        a, b, c;
            double      x, y, z;
            char        name[40];
            int         n = 0;
            if (s[0] == ' ' && s[1] == '-' && s[3] == ',') {
                auto eq = l.find(" = ");
                if (std::sscanf(s, " -%*c,--%39s", name) != 1 || eq == std::string::npos) continue;
                auto w = want.find(name);
                if (w == want.end()) continue;
                auto got = l.substr(eq + 3);
                ++events;
                char* e;
                float gf = std::strtof(got.c_str(), &e);
                bool  num = !got.empty() && *e == 0;
                char* e2;
                float wf = std::strtof(w->second.c_str(), &e2);
                if (got != w->second && !(num && !w->second.empty() && *e2 == 0 && gf == wf)) fail("parameter is not '" + w->second + "'", l);
                want.erase(w);
            } else if (std::sscanf(s, "CFT> Instance size: %ld x %ld", &a, &b) == 2) {
                size_seen = true;
                ++events;
                if (a != p.nrows || b != p.ncols()) fail("instance size is not the one of the instance", l);
            } else if (std::sscanf(s, "3PHS> Three-phase iteration %ld:", &a) == 1) {
                ++events;
                if (a == 0) {
                    ++runs;
                    best = INF;
                    fixed = 0;
                    it    = -1;
                    if (runs == 1) rows = p.nrows;
                    ncols = p.ncols();
                }
                if (a != it + 1) fail("iterations are not numbered in sequence", l);
                if (rows == 0) fail("another iteration although no row is left", l);
                it = a;
                imp = INF;
            } else if (std::sscanf(s, "SUBG> Subgradient start: UB %lf, cutoff %lf", &x, &y) == 2) {
                ++events;
                if (best < INF && !near(x, best - fixed, best)) fail(vh::fmtv("upper bound is not best %.9g minus fixed %.9g", best, fixed), l);
                if (best == INF) best = x + fixed;
                ub = x;
                if (!near(y, x - eps, x)) fail("cutoff is not upper bound minus epsilon", l);
                sub_it = -1;
                seg    = -INF;
                first_sub = runs == 1 && it == 0;
            } else if (std::sscanf(s, "SUBG> %ld: Current lower bound: %lf", &a, &x) == 2) {
                ++events;
                if (a <= sub_it) fail("subgradient iterations do not increase", l);
                if (x < seg) fail("bound decreases without pricing", l);
                sub_it = a;
                seg    = x;
            } else if (std::sscanf(s, "SUBG> %ld: LB: %lf Core LB: %lf", &a, &x, &y) == 3) {
                ++events;
                if (a < sub_it) fail("subgradient iterations do not increase", l);
                if (seg > -INF && !near(seg, y, y)) fail("core bound is not the best one reported since the last pricing", l);
                if (first_sub && x > opt + 0.01 + 2e-5 * (std::fabs(opt) + 1) + 1e-6 * cmax * p.nrows) fail(vh::fmtv("bound above the cost %.9g of a cover", opt), l);
                sub_it = a;
                seg    = -INF;
            } else if (std::sscanf(s, "HEUR> %ld: Greedy solution %lf", &a, &x) == 2) {
                ++events;
                greedy = x;
            } else if (std::sscanf(s, "HEUR> %ld: Improved solution %lf", &a, &x) == 2) {
                ++events;
                if (x > std::min(ub, imp) + 0.0101 + 4e-6 * std::fabs(ub)) fail("the improved solution is worse than before", l);
                if (!near(greedy, x, x)) fail(vh::fmtv("the improved solution is not the greedy solution %.9g just found", greedy), l);
                imp = x;
            } else if (std::sscanf(s, "CFIX> Fixing %ld columns (%ld + %ld)", &a, &b, &c) == 3) {
                ++events;
                if (a != b + c || a < 1 || b < 0) fail("counts of fixed columns do not add up", l);
                if (spy && at_c < sc.size() && size_t(a) != sc[at_c].ncols_fixed) fail(vh::fmtv("%zu columns were fixed", sc[at_c].ncols_fixed), l);
                ++at_c;
            } else if (std::sscanf(s, "3PHS> Remaining rows: %ld", &a) == 1) {
                ++events;
                if (rows >= 0 && a >= rows) fail("no row was covered by the fixing", l);
                if (spy && at_c > 0 && at_c <= sc.size() && size_t(a) != sc[at_c - 1].rows_left) fail(vh::fmtv("%zu rows are left", sc[at_c - 1].rows_left), l);
                rows = a;
            } else if (std::sscanf(s, "3PHS> Remaining columns: %ld", &a) == 1) {
                ++events;
                if (a > ncols || (rows == 0) != (a == 0)) fail("remaining columns", l);
                if (spy && at_c > 0 && at_c <= sc.size() && size_t(a) != sc[at_c - 1].cols_left) fail(vh::fmtv("%zu columns are left", sc[at_c - 1].cols_left), l);
                ncols = a;
            } else if (std::sscanf(s, "3PHS> Core instance cols: %ld", &a) == 1) {
                ++events;
                if (a > ncols || (a == 0) != (ncols == 0)) fail("more columns in the core than in the instance", l);
                if (spy && at_c > 0 && at_c <= sc.size() && priced[at_c - 1]) {
                    if (size_t(a) != priced[at_c - 1]->cols_left) fail(vh::fmtv("the core has %zu columns", priced[at_c - 1]->cols_left), l);
                    rec.count("pricings_compared");
                }
            } else if (std::sscanf(s, "3PHS> Current LB: %lf", &x) == 1) {
                ++events;
                if (spy && at_c > 0 && at_c <= sc.size() && priced[at_c - 1]) {
                    double e = priced[at_c - 1]->cost + sc[at_c - 1].cost;
                    if (!near(x, e, std::fabs(e) + sc[at_c - 1].cost)) fail(vh::fmtv("fixed cost %.9g and the bound %.9g of what is left", sc[at_c - 1].cost, priced[at_c - 1]->cost), l);
                }
            } else if (std::sscanf(s, "3PHS> Fixed cost: %lf", &x) == 1) {
                ++events;
                if (x < fixed - 0.011 - 4e-6 * fixed) fail("fixed cost decreases", l);
                if (spy && at_c > 0 && at_c <= sc.size() && !near(x, sc[at_c - 1].cost, sc[at_c - 1].cost)) fail(vh::fmtv("the fixed columns cost %.9g", sc[at_c - 1].cost), l);
                double nb = std::min(best, imp + fixed);
                best  = nb;
                fixed = x;
            } else if (std::sscanf(s, "3PHS> Best solution: %lf%n", &x, &n) == 1 && std::strstr(s, ", time") == nullptr) {
                ++events;
                if (!near(x, best, best)) fail(vh::fmtv("best solution is not the %.9g implied by the heuristic phase", best), l);
                best = x;
            } else if (std::sscanf(s, "3PHS> Best solution: %lf, time", &x) == 1) {
                ++events;
                if (!near(x, best, best)) fail(vh::fmtv("best solution is not the %.9g reported before", best), l);
                X = x;
            } else if (std::sscanf(s, "REFN> %ld: Best solution %lf, lb %lf, gap %lf", &a, &x, &y, &z) >= 3) {
                ++events;
                if (a != refn + 1) fail("rounds are not numbered in sequence", l);
                refn = a;
                double e = std::min(B, X + F);
                if (!near(x, e, e)) fail(vh::fmtv("incumbent is not the better of %.9g and %.9g + %.9g", B, X, F), l);
                if (refn > 0 && y != L) fail("the bound changes", l);
                if (y > opt + 0.01 + 2e-5 * (std::fabs(opt) + 1) + 1e-6 * cmax * p.nrows) fail(vh::fmtv("bound above the cost %.9g of a cover", opt), l);
                double g = 100 * (x - y) / x;
                if (x > 1 && y > -1e30 && std::isfinite(g) && std::fabs(z - g) > 0.02 + 2 / x + 2 * std::fabs(y) / (x * x) + 1e-4 * std::fabs(g)) fail("wrong gap", l);
                B = x;
                L = y;
                fixed_line = false;
            } else if (std::sscanf(s, "REFN> %ld: Fixed cost %lf, free rows %lf", &a, &x, &z) == 3) {
                ++events;
                if (a != refn || fixed_line) fail("rounds are not numbered in sequence", l);
                fixed_line = true;
                if (x > B + 0.011 + 4e-6 * B) fail("fixed cost above the cost of the incumbent it comes from", l);
                if (z < 0 || z > 100) fail("share of free rows", l);
                if (spy) {
                    // a round without a step fixes nothing: no cost, all rows free
                    auto same = [&](double cost, size_t left) { return near(x, cost, cost) && std::fabs(z - 100.0 * double(left) / p.nrows) < 0.5001 + 1e-4; };
                    if (at_r < sr.size() && same(sr[at_r].cost, sr[at_r].rows_left)) { ++at_r; rec.count("rounds_compared_with_the_fixing_done"); }
                    else if (unfixed > 0 && same(0, size_t(p.nrows))) --unfixed;
                    else fail(at_r < sr.size() ? vh::fmtv("the fixed columns cost %.9g and %zu of %d rows are left", sr[at_r].cost, sr[at_r].rows_left, int(p.nrows)) : std::string("no columns were fixed"), l);
                }
                F    = x;
                X    = INF;
                rows = -1;
                if (z == 0) X = 0;  // all fixed: the incumbent itself, or what its columns imply
            } else if (std::sscanf(s, "CFT> Best solution %lf", &x) == 1) {
                ++events;
                double e = std::min(B, X + F);
                if (z == 0 && fixed_line) e = B;
                if (X == INF) e = B;
                if (!near(x, final_cost, final_cost)) fail(vh::fmtv("the solution written costs %.9g", final_cost), l);
                if (!near(x, e, e)) fail(vh::fmtv("final cost is not the incumbent %.9g", e), l);
            }
        }
        if (!size_seen) { rec.count("logs_without_instance_size"); }
        rec.count("trace_events", events);
        rec.count("three_phase_runs", uint64_t(runs));
        rec.count("refinement_rounds", uint64_t(refn + 1));
        for (auto& w : want) rec.count("parameters_not_listed." + w.first);
    }
};

static void one(uint64_t k, vh::Rec& rec) {
    v::Rng r(v::mix(rec.opt.seed * 1000003 + 26, k));
    double u = r.unit();
    v::PInst p = u < 0.1 ? v::gen_cert(r.next(), v::SMALL, &u) : v::gen(r.next(), u < 0.4 ? v::TINY : u < 0.9 ? v::SMALL : u < 0.95 ? v::WIDE : v::MEDIUM);
    bool unit = r.chance(0.1);
    std::string base = rec.opt.dir + vh::fmtv("/log%llu-%llu", (unsigned long long)rec.opt.shard, (unsigned long long)getpid());
    int  f    = int(r.range(0, 3));
    auto warm = some_cover(p, r);
    bool wf   = r.chance(0.25);
    std::string inst = base + ".inst", init = base + ".init", sol = base + ".sol";
    v::spit(inst, v::write_fmt(f, p, r.next()));
    double wcost = std::numeric_limits<double>::infinity();
    if (wf) {
        wcost = 0;
        for (int j : warm) wcost += unit ? 1.0 : p.costs[size_t(j)];
        v::spit(init, v::write_sol(warm, true_cost(p, mk_sol(p, warm).idxs), r.next()));
    }
    auto q = gen_params(r, r.chance(0.6), p.nrows > 60);
    q.heur = std::min<uint64_t>(q.heur, p.nrows > 60 ? 10 : 60);
    auto g = [](double x) { return vh::fmtv("%.9g", x); };
    std::vector<std::string> a{"accft", "-i", inst, "-p", v::fmt_name(f), "-o", sol, "-s", std::to_string(q.seed), "-g", std::to_string(q.heur), "-e", g(q.eps), "-b", g(q.beta), "-a", g(q.absx), "-r", g(q.relx)};
    if (wf) { a.push_back("-w"); a.push_back(init); }
    if (unit) a.push_back("-u");
    std::string tl = "inf";
    if (r.chance(0.08)) { tl = r.pick(std::vector<std::string>{"0", "1000"}); a.push_back("-t"); a.push_back(tl); }
    rec.context.clear();
    for (auto& x : a) rec.context += " " + x;
    rec.context += "\n" + p.brief() + (p.nnz() < 200 ? "\n" + p.dump() : "");
    uint64_t                 top = r.chance(0.2) ? r.pick(std::vector<uint64_t>{6, 100, ~0ull}) : 5;
    std::vector<uint64_t>    levels{0, 1, 2, 3, 4, 5};
    if (top > 5) levels.push_back(top);
    std::vector<std::string> prev;
    Run                      first;
    std::string              log;
    std::vector<Fixed>       steps;
    for (uint64_t lv : levels) {
        auto b = a;
        if (lv != 4 || r.chance(0.5)) { b.push_back("-v"); b.push_back(std::to_string(lv)); }  // four is the default
        auto x = program(b, sol, base);
        rec.eval();
        if (x.rc != 0) { rec.viol("status", vh::fmtv("verbosity %llu: exit status %d: ", (unsigned long long)lv, x.rc) + x.err); break; }
        if (!x.err.empty()) { rec.viol("stderr", vh::fmtv("verbosity %llu: something on the error output of a successful run: ", (unsigned long long)lv) + x.err.substr(0, 200)); break; }
        if (lv == 0) {
            first = x;
            if (!x.out.empty()) { rec.viol("silent", "verbosity 0 prints: " + x.out.substr(0, 300)); break; }
            continue;
        }
        if (x.sol != first.sol) { rec.viol("result", vh::fmtv("verbosity %llu: another solution is written than at verbosity 0: ", (unsigned long long)lv) + x.sol.substr(0, 200) + " | " + first.sol.substr(0, 200)); break; }
        auto cur = lines(x.out);
        if (cur.empty()) { rec.viol("nothing", vh::fmtv("verbosity %llu prints nothing", (unsigned long long)lv)); break; }
        size_t t = 0;
        for (auto& l : cur) if (t < prev.size() && l == prev[t]) ++t;
        if (t < prev.size()) { rec.viol("levels", vh::fmtv("verbosity %llu does not print this line of the level below: ", (unsigned long long)lv) + prev[t]); break; }
        if (lv > 5 && cur != prev) { rec.viol("levels", vh::fmtv("verbosity %llu prints something else than verbosity 5", (unsigned long long)lv)); break; }
        rec.count("lines_compared", prev.size());
        prev = cur;
        if (lv == 5) log = x.out, steps = fixed_steps;
        // The report of each level on its own: the final cost.
        auto   at = x.out.rfind("Best solution");
        double c0 = std::strtod(first.sol.c_str(), nullptr), c1 = at == std::string::npos ? c0 : std::strtod(x.out.c_str() + at + 13, nullptr);
        if (at == std::string::npos) rec.count("logs_without_final_cost");
        if (!Spec::near(c0, c1, c0)) { rec.viol("final", vh::fmtv("verbosity %llu: the log ends with cost %.9g, the file has cost %.9g", (unsigned long long)lv, c1, c0)); break; }
    }
    if (!log.empty()) {
        v::PInst pu = p;
        if (unit) for (auto& c : pu.costs) c = 1.0;
        double opt = pu.nrows <= 13 ? v::brute_opt(pu) : v::simple_cover_cost(pu, r);
        Spec   s{rec, pu, {}, q.eps, opt, std::strtod(first.sol.c_str(), nullptr), wcost, "", 0, steps};
        s.want = {{"inst", inst}, {"parser", v::fmt_name(f)}, {"out-sol", sol}, {"init-sol", wf ? init : ""}, {"seed", std::to_string(q.seed)}, {"timelimit", tl}, {"verbose", "5"},
                  {"epsilon", g(q.eps)}, {"heur-iters", std::to_string(q.heur)}, {"beta", g(q.beta)}, {"abs-subg-exit", g(q.absx)}, {"rel-subg-exit", g(q.relx)}, {"unit-costs", unit ? "true" : "false"}};
        s.check(log);
        if (!s.bad.empty()) rec.viol("trace", s.bad);
        if (s.events > 30) rec.distinct(v::hash_str(rec.context));
        rec.maxi("max_trace_events", double(s.events));
        if (p.nrows < 8) rec.sample(p.brief() + vh::fmtv(" | %llu log events", (unsigned long long)s.events));
    }
    for (auto& x : {inst, init, sol}) unlink(x.c_str());
}
int main(int argc, char** argv) { return vh::run_main(argc, argv, one); }
