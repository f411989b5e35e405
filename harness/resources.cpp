// Monitor of resources (C30): every allocation of the process is counted; repeated work must not accumulate memory or
// descriptors, whatever its outcome, and the memory a solve or a load needs stays in proportion to the instance.
#include <cstdlib>
#include <dirent.h>
#include <functional>
#include <malloc.h>
#include <new>

static size_t g_live = 0, g_peak = 0, g_news = 0;
static void*  counted(size_t n) {
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    g_live += malloc_usable_size(p);
    if (g_live > g_peak) g_peak = g_live;
    ++g_news;
    return p;
}
static void uncounted(void* p) {
    if (!p) return;
    g_live -= malloc_usable_size(p);
    std::free(p);
}
void* operator new(size_t n) { return counted(n); }
void* operator new[](size_t n) { return counted(n); }
void  operator delete(void* p) noexcept { uncounted(p); }
void  operator delete[](void* p) noexcept { uncounted(p); }
void  operator delete(void* p, size_t) noexcept { uncounted(p); }
void  operator delete[](void* p, size_t) noexcept { uncounted(p); }

#include "core/CliArgs.hpp"
#include "vcase.hpp"
#include "vfmt.hpp"
using namespace vc;

static int fds() {
    int  n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (readdir(d)) ++n;
    closedir(d);
    return n;
}

static size_t bytes_of(v::PInst const& p) {  // what the instance itself needs
    return p.nnz() * (sizeof(ridx_t) + sizeof(cidx_t)) + p.cols.size() * (sizeof(real_t) + sizeof(size_t)) + size_t(p.nrows) * sizeof(std::vector<cidx_t>);
}

struct Work {
    char const* name;
    bool        solve;
    std::function<void()> f;
};

static void one(uint64_t k, vh::Rec& rec) {
    Case   c    = make_case(k, rec, 0.1);
    v::Rng r    = c.r;
    auto   inst = mk(c.p);
    auto   dir  = rec.opt.dir + vh::fmtv("/c30-%d", int(getpid()));
    bool   small = c.p.nrows <= 60;
    c.q.heur    = std::min<uint64_t>(c.q.heur, small ? 40 : 10);
    c.q.alpha   = std::max(c.q.alpha, 1.3);
    c.q.minfix  = std::max(c.q.minfix, 0.2);
    if (r.chance(0.1)) c.q.tlim = 0;
    int         fmt  = int(r.range(0, 3));
    auto        warm = some_cover(c.p, r);
    std::string path = dir + ".inst", sol = dir + ".sol", nodir = dir + ".none/x";
    v::PInst    fp = c.p;
    if (fmt == v::RAIL) for (auto& x : fp.costs) x = std::min(1e6, std::floor(x));  // any cost will do here
    std::string text = v::write_fmt(fmt, fp, r.next(), warm);
    int bad = int(r.range(0, 5));
    if (bad == 1) text = text.substr(0, size_t(r.range(0, int64_t(text.size()))));
    if (bad == 2 && !text.empty()) for (int t = 0; t < 3; ++t) text[size_t(r.range(0, int64_t(text.size()) - 1))] = char(r.pick(std::vector<int>{'x', ' ', '\n', '-', '9', '0'}));
    v::spit(path, text);
    if (r.chance(0.5)) v::spit(sol, v::write_sol(warm, 1.0, r.next()));
    else v::spit(sol, r.pick(std::vector<std::string>{"", "1 0 x", "5 0 0 0", "2 99999", "abc"}));
    rec.context += vh::fmtv("\nformat %s damage %d", v::fmt_name(fmt), bad);
    Environment env;
    env.inst_path = path;
    env.parser    = v::fmt_name(fmt);
    env.verbose   = 0;
    if (r.chance(0.5)) env.initsol_path = sol;
    if (r.chance(0.3)) env.use_unit_costs = true;
    Work w;
    size_t input = 0;
    int op = int(r.range(0, 9));
    if (op <= 3) {
        auto start = r.chance(0.4) ? mk_sol(c.p, warm) : Solution{};
        w = {"run", true, [&, start] { auto e = c.q.env(); auto x = cft::run(e, inst, start); }};
    } else if (op <= 6) {
        input = text.size();
        w = {"load", false, [&] { try { auto x = parse_inst_and_initsol(env); rec.count("loaded"); } catch (std::exception const&) { rec.count("rejected"); } }};
    } else if (op == 7) {
        auto s = mk_sol(c.p, warm);
        auto target = r.chance(0.5) ? sol : nodir;
        w = {"write", false, [&, s, target] { try { write_solution(target, s); rec.count("written"); } catch (std::exception const&) { rec.count("not_written"); } }};
    } else if (op == 8) {
        std::vector<std::string> a{"accft", "-i", path, "-p", v::fmt_name(fmt), r.pick(std::vector<std::string>{"-s", "-e", "-z"}), r.pick(std::vector<std::string>{"5", "x"})};
        if (r.chance(0.5)) { a.push_back("-o"); if (r.chance(0.5)) a.push_back("out"); }
        w = {"arguments", false, [a, &rec] {
                 std::vector<char const*> v;
                 for (auto& x : a) v.push_back(x.c_str());
                 try { auto e = parse_cli_args(int(v.size()), v.data()); rec.count("parsed"); } catch (std::exception const&) { rec.count("refused"); }
             }};
    } else {
        w = {"three-phase", true, [&] { auto e = c.q.env(); auto i = inst; auto x = ThreePhase()(e, i); }};
    }
    rec.context += std::string("\n") + w.name;
    int    reps = small ? 6 : 4;
    size_t live = 0, peak = 0, news = 0;
    int    open = 0;
    for (int t = 0; t < reps; ++t) {
        size_t before = g_live, n0 = g_news;
        g_peak        = g_live;
        w.f();
        size_t grown = g_live - before, pk = g_peak - before;
        n0           = g_news - n0;
        int fd       = fds();
        rec.eval();
        if (t >= 2) {
            if (g_live > live) { rec.viol("memory", vh::fmtv("%s: %zu bytes more are held after each repetition (%d)", w.name, g_live - live, t)); return; }
            if (fd > open) { rec.viol("descriptors", vh::fmtv("%s: %d descriptors more are open after each repetition (%d)", w.name, fd - open, t)); return; }
            if (pk > peak + peak / 2 + 4096) { rec.viol("peak", vh::fmtv("%s: peak memory grows from %zu to %zu on repetition", w.name, peak, pk)); return; }
        }
        (void)grown;
        live = g_live;
        open = fd;
        peak = std::max(peak, pk);
        news = n0;
    }
    size_t base = bytes_of(c.p);
    double ratio = w.solve ? double(peak) / double(base + 2000) : input ? double(peak) / double(base + input + 20000) : 0;
    rec.maxi(std::string("peak_over_instance.") + w.name, ratio);
    if (ratio > (w.solve ? 12 : 6)) rec.viol("proportion", vh::fmtv("%s: peak of %zu bytes for an instance of %zu bytes", w.name, peak, base));
    rec.count(std::string("repeated.") + w.name);
    rec.maxi("max_allocations_per_call", double(news));
    if (c.p.nrows >= 2) rec.distinct(v::mix(v::mix(c.p.hash(), v::hash_str(w.name)), uint64_t(bad)));
    unlink(path.c_str());
    unlink(sol.c_str());
}
int main(int argc, char** argv) { return vh::run_main(argc, argv, one); }
