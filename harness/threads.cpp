// C07: many activities of the library at the same time, each compared with what it gives alone.
#include "vcase.hpp"
#include "vfmt.hpp"

#include "core/CliArgs.hpp"

#include <atomic>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <unistd.h>

using namespace vc;

struct Barrier {
    std::mutex m; std::condition_variable cv; int n, in = 0;
    explicit Barrier(int k) : n(k) {}
    void wait() {
        std::unique_lock<std::mutex> l(m);
        if (++in >= n) cv.notify_all();
        else cv.wait(l, [&] { return in >= n; });
    }
};

static uint64_t mixd(uint64_t h, double d) { uint64_t b; std::memcpy(&b, &d, 8); return v::mix(h, b); }
static double   nd(real_t x) { return double(native_cast(x)); }
static uint64_t rnd_hash(Environment const& e) { uint64_t h = 7; for (auto x : e.rnd.state) h = v::mix(h, uint64_t(x)); return h; }

struct Shared {  // what all the threads may look at (never written once they run)
    v::PInst    p;
    Instance    inst;
    Solution    warm;
    std::string files[4], solfile;
};

enum Kind { RUN_SHARED, RUN_WARM, RUN_PRIVATE, THREE, STAGES, LOAD, LOAD_SOLVE, SOLFILE, ARGS, FIXING, RNG, NKINDS };
static char const* NAMES[] = {"run_shared", "run_warm_shared", "run_private", "three_phase", "stages", "load", "load_and_run", "solution_file", "arguments", "fixing", "random"};

struct Task {
    Kind        kind;
    uint64_t    seed;
    v::PInst    p;       // private instance
    Params      q;
    uint64_t    verbose = 0;
    std::string file;    // private output file
    int         fmt = 0;
    uint64_t    alone = 0;
};

static uint64_t inst_hash(Instance const& a) {
    uint64_t h = 3;
    for (auto x : a.cols.begs) h = v::mix(h, x);
    for (auto i : a.cols.idxs) h = v::mix(h, uint64_t(native_cast(i)));
    for (auto& r : a.rows) for (auto j : r) h = v::mix(h, uint64_t(native_cast(j)));
    for (auto c : a.costs) h = mixd(h, nd(c));
    return h;
}

static uint64_t perform(Task const& t, Shared const& sh) {
    auto   env = t.q.env();
    v::Rng r(t.seed);
    env.verbose = t.verbose;
    switch (t.kind) {
    case RUN_SHARED: { auto x = cft::run(env, sh.inst); return v::mix(res_hash(x), rnd_hash(env)); }
    case RUN_WARM: { auto x = cft::run(env, sh.inst, sh.warm); return v::mix(res_hash(x), rnd_hash(env)); }
    case RUN_PRIVATE: { auto in = mk(t.p); auto x = cft::run(env, in); return v::mix(res_hash(x), rnd_hash(env)); }
    case THREE: {
        ThreePhase tp;
        uint64_t   h = 1;
        for (int k = 0; k < 2; ++k) { auto in = k ? mk(t.p) : sh.inst; h = v::mix(h, res_hash(tp(env, in))); }
        return v::mix(h, rnd_hash(env));
    }
    case STAGES: {
        Instance const& in = sh.inst;
        Pricer pr; InstAndMap core; Subgradient sub; Greedy gr;
        std::vector<real_t> u(in.rows.size());
        for (auto& x : u) x = as_real(r.unit() * 3);
        uint64_t h = mixd(5, nd(pr(in, u, core)));
        real_t   step = as_real(0.1);
        double   tot = 0;
        for (double x : sh.p.costs) tot += x;
        h = mixd(h, nd(sub(env, in, as_real(tot), pr, core, step, u)));
        Solution s;
        s.cost = as_real(tot * 2 + 1);
        auto e2 = env;
        e2.heur_iters = std::min<uint64_t>(env.heur_iters, 20);
        sub.heuristic(e2, core.inst, step, gr, s, u);
        h = mixd(h, nd(s.cost));
        for (auto x : u) h = mixd(h, nd(x));
        for (auto j : s.idxs) h = v::mix(h, uint64_t(native_cast(j)));
        return v::mix(h, inst_hash(core.inst));
    }
    case LOAD: case LOAD_SOLVE: {
        env.inst_path = sh.files[t.fmt];
        env.parser    = v::fmt_name(t.fmt);
        if (t.seed % 3 == 0) env.initsol_path = sh.solfile;
        env.use_unit_costs = t.seed % 5 == 0;
        auto     d = parse_inst_and_initsol(env);
        uint64_t h = inst_hash(d.inst);
        for (auto j : d.init_sol.idxs) h = v::mix(h, uint64_t(native_cast(j)));
        if (!d.init_sol.idxs.empty()) h = mixd(h, nd(d.init_sol.cost));
        if (t.kind == LOAD_SOLVE) h = v::mix(h, res_hash(cft::run(env, d.inst, d.init_sol)));
        // and a failing one
        try { env.parser = v::fmt_name((t.fmt + 1) % 4); auto e = parse_inst_and_initsol(env); h = v::mix(h, inst_hash(e.inst)); }
        catch (std::exception const&) { h = v::mix(h, 99); }
        return h;
    }
    case SOLFILE: {
        uint64_t h = 11;
        for (int k = 0; k < 3; ++k) {
            Solution s;
            for (int n = int(r.range(1, 200)); n > 0; --n) s.idxs.push_back(as_cidx(r.range(0, 100000)));
            s.cost = as_real(r.unit() * std::pow(10.0, double(r.range(0, 8))));
            write_solution(t.file, s);
            auto b = parse_solution(t.file);
            h = mixd(h, nd(b.cost));
            for (auto j : b.idxs) h = v::mix(h, uint64_t(native_cast(j)));
            if (!(b.cost == s.cost) || ll(b.idxs) != ll(s.idxs)) h = v::mix(h, 0xbad);
        }
        return h;
    }
    case ARGS: {
        std::string s1 = std::to_string(r.next()), s2 = std::to_string(r.range(0, 500)), s3 = vh::fmtv("%.4f", r.unit()), s4 = vh::fmtv("%.3f", r.unit() * 1000), f = sh.files[0];
        char const* a[] = {"prog", "--seed", s1.c_str(), "-i", f.c_str(), "-g", s2.c_str(), "-e", s3.c_str(), "--timelimit", s4.c_str(), "-u", "--nope", "-v", t.verbose ? "3" : "0"};
        auto e = parse_cli_args(int(sizeof a / sizeof *a), a);
        if (t.seed % 4 == 0) print_cli_help_msg();
        print_arg_values(e);
        uint64_t h = v::mix(rnd_hash(e), e.seed);
        h = v::mix(h, e.heur_iters + v::hash_str(e.inst_path) * 3 + v::hash_str(e.sol_path) + (e.use_unit_costs ? 1 : 0));
        return mixd(mixd(h, nd(e.epsilon)), e.time_limit);
    }
    case FIXING: {
        auto in = mk(t.p);
        FixingData fx;
        make_identity_fixing_data(csize(in.cols), rsize(in.rows), fx);
        uint64_t h = 17;
        for (int k = 0; k < 3 && in.rows.size() > 1; ++k) {
            std::vector<cidx_t> c;
            CoverCounters cov(rsize(in.rows));
            for (int n = int(r.range(1, 3)); n > 0; --n) {
                auto j = as_cidx(r.range(0, int64_t(in.costs.size()) - 1));
                if (cov.is_redundant_cover(in.cols[j])) continue;
                cov.cover(in.cols[j]);
                c.push_back(j);
            }
            IdxsMaps om;
            if (c.empty()) break;
            fix_columns_and_compute_maps(c, in, fx, om);
            h = v::mix(h, inst_hash(in));
            h = mixd(h, nd(fx.fixed_cost));
            for (auto j : fx.fixed_cols) h = v::mix(h, uint64_t(native_cast(j)));
        }
        return h;
    }
    default: {
        prng_t   g(t.seed);
        uint64_t h = 23;
        for (int k = 0; k < 300; ++k) { h = v::mix(h, uint64_t(roll_dice(g, 0, 1000))); h = mixd(h, nd(rnd_real(g, as_real(-1.0), as_real(1.0)))); h = v::mix(h, coin_flip(g, 0.5) ? 1 : 0); }
        return h;
    }
    }
}

static void mode_c07(uint64_t k, vh::Rec& rec) {
    uint64_t s = v::mix(rec.opt.seed * 1000003 + 7, k);
    v::Rng   r(s);
    bool     slow = !rec.opt.get("slow").empty();
    auto     scale = [&]() { double x = r.unit(); return x < (slow ? 0.7 : 0.4) ? v::TINY : x < 0.97 ? v::SMALL : v::MEDIUM; };
    auto     sh = std::make_shared<Shared>();
    sh->p    = v::gen(r.next(), scale());
    sh->inst = mk(sh->p);
    auto wc  = some_cover(sh->p, r);
    sh->warm = mk_sol(sh->p, wc);
    std::string base = rec.opt.dir + "/c07-" + std::to_string(getpid()) + "-" + std::to_string(k);
    for (int f = 0; f < 4; ++f) {
        sh->files[f] = base + "." + v::fmt_name(f);
        v::spit(sh->files[f], v::write_fmt(f, sh->p, r.next(), f == v::CVRP && r.chance(0.5) ? wc : std::vector<int>()));
    }
    sh->solfile = base + ".init";
    v::spit(sh->solfile, v::write_sol(wc, 1, r.next()));
    int nt = int(r.range(2, 8));
    std::vector<std::vector<Task>> th(static_cast<size_t>(nt));
    std::vector<Task*>             all;
    int same = r.chance(0.3) ? int(r.range(0, NKINDS - 1)) : -1;
    uint64_t h = sh->p.hash();
    std::string names;
    for (auto& list : th)
        for (int n = int(r.range(1, 3)); n > 0; --n) {
            Task t;
            t.kind = Kind(same >= 0 ? same : int(r.range(0, NKINDS - 1)));
            t.seed = r.next();
            t.p    = v::gen(r.next(), scale());
            t.q    = gen_params(r, r.chance(0.5), true);
            t.q.heur  = std::min<uint64_t>(t.q.heur, slow ? 15 : 40);
            t.q.alpha = std::max(t.q.alpha, 1.3);
            t.verbose = r.chance(0.5) ? uint64_t(r.range(0, 5)) : 0;
            t.fmt     = int(r.range(0, 3));
            t.file    = base + ".sol" + std::to_string(all.size() + list.size() * 16 + size_t(&list - &th[0]) * 256);
            h = v::mix(h, uint64_t(t.kind) * 31 + t.seed);
            names += std::string(" ") + NAMES[t.kind];
            list.push_back(t);
        }
    rec.context = sh->p.brief() + " threads " + std::to_string(nt) + names;
    // alone
    uint64_t before = inst_hash(sh->inst);
    for (auto& list : th) for (auto& t : list) t.alone = perform(t, *sh);
    // together
    Barrier bar(nt);
    std::vector<std::vector<uint64_t>>    got(static_cast<size_t>(nt));
    std::vector<std::vector<std::string>> err(static_cast<size_t>(nt));
    std::atomic<int> live{0}, peak{0}, overlap{0};
    std::vector<std::thread> ts;
    for (int i = 0; i < nt; ++i) {
        uint64_t dseed = r.next();
        ts.emplace_back([&, i, dseed]() {
            v::Rng d(dseed);
            bar.wait();
            for (auto const& t : th[size_t(i)]) {
                if (d.chance(0.5)) usleep(useconds_t(d.range(0, 300)));
                int now = ++live, pk = peak.load();
                if (now > 1) ++overlap;
                while (now > pk && !peak.compare_exchange_weak(pk, now)) {}
                try { got[size_t(i)].push_back(perform(t, *sh)); err[size_t(i)].push_back(""); }
                catch (std::exception const& e) { got[size_t(i)].push_back(0); err[size_t(i)].push_back(e.what()); }
                --live;
                if (d.chance(0.3)) std::this_thread::yield();
            }
        });
    }
    for (auto& t : ts) t.join();
    for (int i = 0; i < nt; ++i)
        for (size_t n = 0; n < th[size_t(i)].size(); ++n) {
            auto const& t = th[size_t(i)][n];
            rec.eval();
            rec.count(std::string("task.") + NAMES[t.kind]);
            if (!err[size_t(i)][n].empty()) rec.viol("exception", vh::fmtv("%s fails when other threads are active: %s", NAMES[t.kind], err[size_t(i)][n].c_str()));
            else if (got[size_t(i)][n] != t.alone) rec.viol("interference", vh::fmtv("%s gives another result when other threads are active", NAMES[t.kind]));
        }
    if (inst_hash(sh->inst) != before) rec.viol("shared", "the shared instance was modified");
    rec.maxi("threads", nt);
    rec.maxi("activities_at_once", peak.load());
    rec.count("activities_started_while_another_ran", uint64_t(overlap.load()));
    if (peak.load() > 1) rec.distinct(h);
    rec.sample(rec.context);
    for (auto& f : sh->files) std::remove(f.c_str());
    std::remove(sh->solfile.c_str());
    for (auto& list : th) for (auto& t : list) std::remove(t.file.c_str());
}

static void one(uint64_t k, vh::Rec& rec) {
    if (rec.opt.mode == "c07") mode_c07(k, rec);
    else std::exit(3);
}
int main(int argc, char** argv) { return vh::run_main(argc, argv, one); }
