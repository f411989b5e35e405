// C05: the time limit, under a virtual clock that jumps past the limit at a chosen clock reading.
#include "vcase.hpp"
#include "vclock.hpp"

using namespace vc;

static uint64_t g_bb, g_at_jump;
static double const FACTOR = 8;  // margin over the largest ratio seen on the unchanged code (below 2)
#ifdef VERIF_BB
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { ++g_bb; }
#endif
static bool g_jumped;
static void jumped() { g_jumped = true; g_at_jump = g_bb; }

struct Out {
    CftResult res;
    double    after = 0, total = 0;
    uint64_t  reads = 0;
    bool      jumped = false;
};

// kind 0: cft::run, 1: 3-phase
static Out go(Case const& c, Instance const& inst, Solution const& warm, int kind, double limit, uint64_t at, double jump_s, double before_s, int64_t tick) {
    Out o;
    vclk::reset();
    auto env       = c.q.env();
    if (limit >= 0) env.time_limit = limit;
    vclk::now_ns += int64_t(before_s * 1e9);
    vclk::reads   = 0;
    vclk::tick_ns = tick;
    vclk::jump_at = at;
    vclk::jump_ns = int64_t(jump_s * 1e9);
    vclk::on_jump = jumped;
    g_jumped      = before_s > limit && limit >= 0;
    uint64_t b0 = g_at_jump = g_bb;
    if (kind == 0) o.res = cft::run(env, inst, warm);
    else { auto i2 = inst; o.res = cft::ThreePhase()(env, i2); }
    o.total  = double(g_bb - b0);
    o.after  = double(g_bb - g_at_jump);
    o.reads  = vclk::reads;
    o.jumped = g_jumped;
    return o;
}

static void mode_c05(uint64_t k, vh::Rec& rec) {
    Case c = make_case(k, rec, 0.15);
    v::Rng& r = c.r;
    bool hard = c.p.nrows <= 60 && r.chance(0.5);   // no early stop by the gap: long runs
    if (hard) { c.q.eps = 0; c.q.beta = r.pick(std::vector<double>{0, 0.5, 1}); }
    bool small = c.p.nrows <= 30 && c.p.nnz() <= 600;
    if (small && r.chance(0.25)) { c.q.alpha = 1.02; c.q.minfix = 0.02; c.q.heur = std::min<uint64_t>(c.q.heur, 20); }
    else if (small && r.chance(0.3)) { c.q.heur = uint64_t(r.pick(std::vector<int>{400, 1500})); c.q.alpha = std::max(c.q.alpha, 1.3); }
    else { c.q.alpha = std::max(c.q.alpha, 1.1); c.q.minfix = std::max(c.q.minfix, 0.1); }
    c.q.tlim = -1;
    auto     inst = mk(c.p);
    Solution warm;
    if (r.chance(0.3)) warm = mk_sol(c.p, some_cover(c.p, r));
    int      kind = r.chance(0.2) ? 1 : 0;
    if (kind) warm = Solution();
    double limit = r.pick(std::vector<double>{0.001, 0.5, 10, 3600});
    char const* who = kind ? "3-phase" : "run";

    // what one pass costs: the reference for the promptness bound
    double ref_ub = -1;
    auto   judge  = [&](Out const& o, std::string const& what) {
        auto m = check_cover(c.p, o.res.sol.idxs);
        if (!m.empty()) { rec.viol("cover", std::string(who) + " " + what + ": " + m + "; " + sol_str(o.res.sol)); return; }
        double sum;
        if (!cost_ok(c.p, o.res.sol, &sum)) rec.viol("cost", std::string(who) + " " + what + vh::fmtv(": reported %.9g, columns sum to %.9g", double(native_cast(o.res.sol.cost)), sum));
        if (ref_ub < 0) ref_ub = upper_ref(c, {sum});
        check_dual(rec, c, o.res.dual, std::min(ref_ub, sum), (std::string(who) + " " + what).c_str());
        if (!warm.idxs.empty() && o.res.sol.cost > warm.cost) rec.viol("worse", std::string(who) + " " + what + ": worse than the warm start");
        rec.eval();
        rec.distinct(v::mix(c.p.hash(), v::hash_str(what)));
    };
    // unlimited run (base line)
    double   t0   = double(clock()) / CLOCKS_PER_SEC;
    Out base = go(c, inst, warm, kind, -1, ~uint64_t(0), 0, 0, 0);
    judge(base, "without limit");
    double   cpu1 = double(clock()) / CLOCKS_PER_SEC - t0;
    uint64_t Q = base.reads;
    rec.maxi("max_clock_readings_in_a_run", double(Q));
    if (Q > 0) {  // a limit that is not reached
        uint64_t q = uint64_t(r.range(0, int64_t(Q) - 1));
        Out      o = go(c, inst, warm, kind, limit, q, limit * 0.95, 0, 0);
        auto     m = same_result(base.res, o.res);
        if (!m.empty()) rec.viol("unreached", vh::fmtv("%s: limit %g s, %g s elapsed from reading %llu: differs from the run without limit: ", who, limit, limit * 0.95, (unsigned long long)q) + m);
        rec.eval();
        rec.count("limit_not_reached");
    }
    // work allowed after expiry: one greedy, one fixing, a few pricings, at most one pricing period of subgradient
    double n = c.p.nrows, nz = double(c.p.nnz()) + c.p.ncols() + n;
    double period = std::min(1000.0, n / 3.0);
    double bound  = (period + 60.0) * (nz + 20.0);
    auto   prompt = [&](Out const& o, std::string const& what) {
        if (o.total <= 0) return;
        rec.maxi("max_work_after_expiry_over_bound", o.after / bound);
        if (rec.opt.kv.count("calib")) rec.maxi("calib_" + std::to_string(int(std::log2(n))), o.after / bound);
        if (o.after > FACTOR * bound) rec.viol("late", std::string(who) + " " + what + vh::fmtv(": %.4g basic blocks after expiry, bound %.4g (whole run %.4g)", o.after, FACTOR * bound, base.total));
    };
    // zero limit, limit already past at the start
    {
        Out o = go(c, inst, warm, kind, 0, ~uint64_t(0), 0, 0, 1000 * int64_t(r.range(1, 5)));
        judge(o, "limit zero");
        prompt(o, "limit zero");
        o = go(c, inst, warm, kind, limit, ~uint64_t(0), 0, limit * 1.1, 0);
        judge(o, "limit already past");
        prompt(o, "limit already past");
        rec.count("expired_at_start", 2);
    }
    // expiry at clock readings of the run
    std::vector<uint64_t> qs;
    uint64_t cap = c.p.nrows > 60 ? 12 : rec.opt.thorough ? 120 : 30;
    cap = std::max<uint64_t>(6, std::min(cap, uint64_t((rec.opt.thorough ? 4.0 : 0.15) / (cpu1 + 1e-6))));
    if (Q <= cap) for (uint64_t q = 0; q < Q; ++q) qs.push_back(q);
    else {
        std::set<uint64_t> s;
        for (uint64_t q = 0; q < cap / 3; ++q) s.insert(q);
        for (uint64_t q = 0; q < cap / 6; ++q) s.insert(Q - 1 - q);
        while (s.size() < cap) s.insert(uint64_t(r.range(0, int64_t(Q) - 1)));
        qs.assign(s.begin(), s.end());
    }
    rec.count(Q <= cap ? "runs_with_all_readings_enumerated" : "runs_with_sampled_readings");
    for (uint64_t q : qs) {
        Out  o    = go(c, inst, warm, kind, limit, q, limit * 1.05 + 1e-6, 0, 0);
        auto what = vh::fmtv("expired at reading %llu of %llu", (unsigned long long)q, (unsigned long long)Q);
        if (!o.jumped) { rec.viol("readings", std::string(who) + " " + what + ": the run is not reproducible up to that reading"); break; }
        judge(o, what);
        prompt(o, what);
        rec.count("expiry_points");
        if (o.reads < Q) rec.count("runs_cut_short");
    }
    rec.sample(c.p.brief() + " " + c.q.str() + vh::fmtv(" readings %llu", (unsigned long long)Q), 5);
}
int main(int argc, char** argv) { return vh::run_main(argc, argv, mode_c05); }
