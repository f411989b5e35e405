// C06 (repeatability) and C21 (independence of the index types): results of the real solver as recorded values.
#include "vcase.hpp"
#include "vclock.hpp"

#include <new>

using namespace vc;

// ---- every heap block starts with a chosen byte pattern
static unsigned char g_fill = 0;
static bool          g_fill_on = false;
static void* fill_alloc(size_t n) {
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (g_fill_on) std::memset(p, g_fill, n);
    return p;
}
void* operator new(size_t n) { return fill_alloc(n); }
void* operator new[](size_t n) { return fill_alloc(n); }
void  operator delete(void* p) noexcept { std::free(p); }
void  operator delete[](void* p) noexcept { std::free(p); }
void  operator delete(void* p, size_t) noexcept { std::free(p); }
void  operator delete[](void* p, size_t) noexcept { std::free(p); }

__attribute__((noinline)) static void fill_stack(unsigned char c) {
    volatile unsigned char a[192 * 1024];
    for (size_t i = 0; i < sizeof a; ++i) a[i] = c;
    asm volatile("" ::"r"(a) : "memory");
}

static uint64_t rnd_hash(Environment const& e) { uint64_t h = 7; for (auto x : e.rnd.state) h = v::mix(h, uint64_t(x)); return h; }

static CftResult solve(Params const& q, Instance const& inst, Solution const& warm, uint64_t verbose, uint64_t* rnd = nullptr) {
    vclk::reset();
    auto env    = q.env();
    env.verbose = verbose;
    auto r      = cft::run(env, inst, warm);
    if (rnd) *rnd = rnd_hash(env);
    return r;
}

struct Noisy {  // scoped perturbation of memory and time
    Noisy(v::Rng& r) {
        g_fill    = (unsigned char)(r.pick(std::vector<int>{0x00, 0xff, 0x7f, 0x80, 0xcc, 0x3f, 0x01}));
        g_fill_on = true;
        fill_stack((unsigned char)(r.pick(std::vector<int>{0x00, 0xff, 0x7f, 0x80, 0xcc, 0x3f, 0x01})));
    }
    ~Noisy() { g_fill_on = false; }
};

static void mode_c06(uint64_t k, vh::Rec& rec) {
    static ThreePhase             shared3;     // reused over all the cases of the process
    static std::vector<Instance>  olds;
    static std::vector<Params>    oldq;
    Case    c    = make_case(k, rec, 0.1);
    v::Rng& r    = c.r;
    auto    inst = mk(c.p);
    Solution warm;
    if (r.chance(0.25)) warm = mk_sol(c.p, some_cover(c.p, r));
    uint64_t rnd0 = 0, rnd1 = 0;
    g_fill_on  = false;
    auto base  = solve(c.q, inst, warm, 0, &rnd0);
    auto check = [&](CftResult const& x, std::string const& what, CftResult const& ref) {
        auto m = same_result(ref, x);
        if (!m.empty()) rec.viol("differs", what + ": " + m);
        rec.eval();
    };
    rec.val("run", res_hash(base));
    rec.val("run-generator", rnd0);
    // again, with other memory contents, verbosity, time passing
    for (int t = 0; t < 2; ++t) {
        Noisy    nz(r);
        uint64_t vb = t == 0 ? uint64_t(r.range(1, 5)) : 0;
        vclk::reset();
        auto env      = c.q.env();
        env.verbose   = vb;
        vclk::tick_ns = t ? r.range(0, 3000000) : 0;
        auto copy = inst;
        auto x    = cft::run(env, t ? copy : inst, warm);
        check(x, vh::fmtv("repeated with verbosity %d, heap pattern %02x", int(vb), unsigned(g_fill)), base);
        rnd1 = rnd_hash(env);
        if (rnd1 != rnd0) rec.viol("generator", vh::fmtv("generator state differs after the repetition with verbosity %d", int(vb)));
        rec.count("repetitions");
    }
    // after solving something else
    if (!olds.empty()) {
        size_t o = size_t(r.range(0, int64_t(olds.size()) - 1));
        { Noisy nz(r); solve(oldq[o], olds[o], Solution(), 0); }
        Noisy nz(r);
        check(solve(c.q, inst, warm, 0), "after another solve", base);
        rec.count("after_other_solves");
    }
    // the 3-phase object, new and reused
    {
        auto e1 = c.q.env();
        auto i1 = inst;
        auto a  = cft::ThreePhase()(e1, i1);
        rec.val("3-phase", res_hash(a));
        Noisy nz(r);
        auto  e2 = c.q.env();
        auto  i2 = inst;
        auto  b  = shared3(e2, i2);
        auto  m  = same_result(a, b);
        if (!m.empty()) rec.viol("reused", "3-phase object reused over instances: " + m);
        if (rnd_hash(e1) != rnd_hash(e2)) rec.viol("reused", "generator state differs after the reused 3-phase object");
        e2      = c.q.env();
        i2      = inst;
        b       = shared3(e2, i2);
        m       = same_result(a, b);
        if (!m.empty()) rec.viol("reused", "3-phase object reused on the same instance: " + m);
        rec.eval(2);
        rec.count("reused_three_phase", 2);
    }
    // stages with shared and new objects
    {
        static Subgradient sub_s;
        static Pricer      pr_s;
        static Greedy      gr_s;
        static InstAndMap  core_s;
        auto stages = [&](Subgradient& sub, Pricer& pr, Greedy& gr, InstAndMap& core) {
            auto env = c.q.env();
            std::vector<real_t> u(size_t(c.p.nrows));
            v::Rng rr(c.p.hash());
            for (auto& x : u) x = as_real(rr.unit() * 3.0);
            uint64_t h    = 1;
            auto     put  = [&](real_t x) { double d = double(native_cast(x)); uint64_t b; std::memcpy(&b, &d, 8); h = v::mix(h, b); };
            put(pr(inst, u, core));
            for (auto j : core.col_map) h = v::mix(h, uint64_t(native_cast(j)));
            real_t step = as_real(0.1);
            double tot  = 0;
            for (double x : c.p.costs) tot += x;
            put(sub(env, inst, as_real(tot), pr, core, step, u));
            put(step);
            for (auto x : u) put(x);
            Solution s;
            s.cost   = as_real(tot * 2 + 1);
            auto env2 = env;
            env2.heur_iters = std::min<uint64_t>(env.heur_iters, 30);
            sub.heuristic(env2, core.inst, step, gr, s, u);
            put(s.cost);
            for (auto j : s.idxs) h = v::mix(h, uint64_t(native_cast(j)));
            for (auto x : u) put(x);
            return h;
        };
        Subgradient s1; Pricer p1; Greedy g1; InstAndMap c1;
        uint64_t a = stages(s1, p1, g1, c1);
        Noisy    nz(r);
        uint64_t b = stages(sub_s, pr_s, gr_s, core_s);
        if (a != b) rec.viol("reused", "subgradient, pricing and greedy objects reused over instances give another result");
        rec.val("stages", a);
        rec.eval();
        rec.count("reused_stages");
    }
    if (olds.size() < 12) { olds.push_back(inst); oldq.push_back(c.q); }
    else { size_t o = size_t(r.range(0, 11)); olds[o] = inst; oldq[o] = c.q; }
    note(rec, c, base);
}

// ---- C21. Classes of instances by the width they need: 0 fits 8 bit rows and columns, 1 8 bit rows and 16 bit
// columns, 2 anything ordinary, 3 thousands of rows (16 bit) with the time limit past at the start.
static void mode_c21(uint64_t k, vh::Rec& rec) {
    uint64_t s = v::mix(rec.opt.seed * 1000003 + 21, k);
    v::Rng   r(s);
    int      cls = k % 50 == 49 ? 3 : int(k % 3);
    using CL = std::numeric_limits<vt::c_native>;
    using RL = std::numeric_limits<vt::r_native>;
    long double cmax = (long double)CL::max(), rmax = (long double)RL::max();
    if (cls == 0 && (cmax < 255 || rmax < 255)) return;
    if (cls == 1 && (cmax < 32767 || rmax < 255)) return;
    if (cls == 2 && (cmax < 32767 || rmax < 32767)) return;
    if (cls == 3 && (cmax < 32767 || rmax < 32767)) return;
    v::PInst p;
    Case     c;
    if (cls <= 2) {
        v::GenCfg g;
        if (cls == 0) { g.rcap = 255; g.ncap = 255; }
        if (cls == 1) { g.rcap = 255; g.ncap = 32767; }
        for (int t = 0; t < 50; ++t) {
            v::Scale sc = cls == 2 ? (r.chance(0.5) ? v::TINY : v::SMALL) : r.chance(0.2) && !rec.opt.kv.count("light") ? v::MEDIUM : r.chance(0.5) ? v::SMALL : v::TINY;
            p = v::gen(r.next(), sc, g);
            if (p.nrows <= g.rcap && p.ncols() <= (cls == 2 ? 32767 : g.ncap) && p.nnz() < 15000) break;
        }
        if (cls == 0 && (p.nrows > 255 || p.ncols() > 255)) return;
        if (p.ncols() > 32767) return;
        if (cls == 0 && r.chance(0.1)) while (p.ncols() < 255) { p.cols.push_back(p.cols[size_t(r.range(0, p.ncols() - 1))]); p.costs.push_back(double(r.range(1, 30))); p.intcost = false; }
    } else {
        p.family = "manyrows";
        p.nrows  = int(r.range(6000, 32767));
        int nb   = int(r.range(3, 40));
        for (int t = 0; t < nb; ++t) {
            std::vector<int> a;
            for (int i = t; i < p.nrows; i += nb) a.push_back(i);
            p.cols.push_back(a);
        }
        for (int t = 0; t < nb; ++t) {
            std::vector<int> a;
            int b = int(r.range(0, p.nrows - 1));
            for (int i = b; i < std::min(p.nrows, b + p.nrows / nb); ++i) a.push_back(i);
            p.cols.push_back(a);
        }
        for (size_t t = 0; t < p.cols.size(); ++t) p.costs.push_back(double(r.range(1, 50)));
    }
    c.p = p;
    c.r = r;
    c.q = gen_params(c.r, c.r.chance(0.4), p.nrows > 60);
    if (p.nrows > 60) { c.q.alpha = std::max(c.q.alpha, 1.2); c.q.minfix = std::max(c.q.minfix, 0.2); c.q.heur = std::min<uint64_t>(c.q.heur, 20); }
    if (rec.opt.kv.count("light") && c.p.nnz() > 400) c.q.heur = std::min<uint64_t>(c.q.heur, 12);
    rec.context = c.p.brief() + " " + c.q.str() + (c.p.nnz() < 600 ? "\n" + c.p.dump() : std::string());
    auto     inst = mk(c.p);
    Solution warm;
    if (c.r.chance(0.2)) warm = mk_sol(c.p, some_cover(c.p, c.r));
    vclk::reset();
    auto env = c.q.env();
    if (cls == 3) { env.time_limit = 1.0; vclk::now_ns += 2000000000; }
    auto res = cft::run(env, inst, warm);
    auto m   = check_cover(c.p, res.sol.idxs);
    if (!m.empty()) { rec.viol("cover", m + "; " + sol_str(res.sol)); return; }
    double sum;
    if (!cost_ok(c.p, res.sol, &sum)) rec.viol("cost", vh::fmtv("reported cost %.9g, columns sum to %.9g", double(native_cast(res.sol.cost)), sum));
    check_dual(rec, c, res.dual, cls == 3 ? sum : upper_ref(c, {sum}), "run");
    if (!warm.idxs.empty() && res.sol.cost > warm.cost) rec.viol("worse", "worse than the warm start");
    rec.val("run", res_hash(res));
    rec.val("run-generator", rnd_hash(env));
    if (cls != 3) {
        auto e2 = c.q.env();
        auto i2 = inst;
        auto b  = cft::ThreePhase()(e2, i2);
        rec.val("3-phase", res_hash(b));
    }
    rec.count("class_" + std::to_string(cls));
    note(rec, c, res);
}

static void one(uint64_t k, vh::Rec& rec) {
    if (rec.opt.mode == "c06") mode_c06(k, rec);
    else if (rec.opt.mode == "c21") mode_c21(k, rec);
    else std::exit(3);
}
int main(int argc, char** argv) { return vh::run_main(argc, argv, one); }
