// C31: failures of memory and I/O. Every allocation, read and write of the operations under test goes through here and
// can be made to fail, be cut short or be interrupted; the outcome must be the normal one or an exception, nothing may be
// lost or leaked, and the operation must work normally afterwards.
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <execinfo.h>
#include <malloc.h>
#include <new>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace fault {
enum What { NONE, MEMORY, MEMORY_ON, READ, WRITE, SHORT, INTR, CLOSE };
static bool     armed = false;
static What     what  = NONE;
static long     at = 0, seen_mem = 0, seen_read = 0, seen_write = 0, hit = 0;
static size_t   live = 0;
static uint64_t rnd  = 1;
static uint64_t next() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; }
static uint64_t* sites = nullptr;  // where recorded, the call path of each allocation
static long      nsites = 0;
static bool     mem_fails() {
    if (!armed) return false;
    ++seen_mem;
    if (sites && seen_mem <= nsites) {
        armed = false;
        void*    f[16];
        int      n = backtrace(f, 16);
        uint64_t h = 1469598103934665603ULL;
        for (int i = 0; i < n; ++i) h = (h ^ reinterpret_cast<uint64_t>(f[i])) * 1099511628211ULL;
        sites[seen_mem - 1] = h;
        armed = true;
    }
    if ((what == MEMORY && seen_mem == at) || (what == MEMORY_ON && seen_mem >= at)) { ++hit; return true; }
    return false;
}
static void* get(size_t n) {
    void* p = std::malloc(n ? n : 1);
    if (p) live += malloc_usable_size(p);
    return p;
}
static void put(void* p) {
    if (!p) return;
    live -= malloc_usable_size(p);
    std::free(p);
}
}  // namespace fault

void* operator new(size_t n) {
    if (fault::mem_fails()) throw std::bad_alloc();
    void* p = fault::get(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return fault::mem_fails() ? nullptr : fault::get(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return fault::mem_fails() ? nullptr : fault::get(n); }
void  operator delete(void* p) noexcept { fault::put(p); }
void  operator delete[](void* p) noexcept { fault::put(p); }
void  operator delete(void* p, size_t) noexcept { fault::put(p); }
void  operator delete[](void* p, size_t) noexcept { fault::put(p); }
void  operator delete(void* p, std::nothrow_t const&) noexcept { fault::put(p); }
void  operator delete[](void* p, std::nothrow_t const&) noexcept { fault::put(p); }

extern "C" ssize_t read(int fd, void* b, size_t n) {
    if (fault::armed) {
        ++fault::seen_read;
        if (fault::what == fault::READ && fault::seen_read >= fault::at) { ++fault::hit; errno = EIO; return -1; }
        if (fault::what == fault::INTR && fault::next() % 2) { ++fault::hit; errno = EINTR; return -1; }
        if (fault::what == fault::SHORT && n > 1) { ++fault::hit; n = 1 + fault::next() % (n < 9 ? n : 9); }
    }
    return syscall(SYS_read, fd, b, n);
}
extern "C" ssize_t write(int fd, void const* b, size_t n) {
    if (fault::armed && fd > 2) {
        ++fault::seen_write;
        if (fault::what == fault::WRITE && fault::seen_write >= fault::at) { ++fault::hit; errno = ENOSPC; return -1; }
        if (fault::what == fault::INTR && fault::next() % 2) { ++fault::hit; errno = EINTR; return -1; }
        if (fault::what == fault::SHORT && n > 1) { ++fault::hit; n = 1 + fault::next() % (n < 9 ? n : 9); }
    }
    return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, struct iovec const* v, int c) {
    if (fault::armed && fd > 2) {
        ++fault::seen_write;
        if (fault::what == fault::WRITE && fault::seen_write >= fault::at) { ++fault::hit; errno = ENOSPC; return -1; }
        if (fault::what == fault::INTR && fault::next() % 2) { ++fault::hit; errno = EINTR; return -1; }
        if (fault::what == fault::SHORT && c > 0 && v[0].iov_len > 1) { ++fault::hit; return syscall(SYS_write, fd, v[0].iov_base, 1 + fault::next() % (v[0].iov_len - 1)); }
    }
    return syscall(SYS_writev, fd, v, c);
}

#define main accft_main
#include "main.cpp"
#undef main
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <unordered_map>

#include "vcase.hpp"
#include "vfmt.hpp"
using namespace vc;

extern "C" int fclose(FILE* f) {
    static auto real = reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fclose"));
    int         r    = real(f);
    if (fault::armed && fault::what == fault::CLOSE) { ++fault::hit; errno = EIO; return EOF; }
    return r;
}

// What an operation did: its result as bytes, or how it failed.
struct Outcome {
    std::string result;
    int         failed = 0;  // 1 bad_alloc, 2 another std::exception, 3 something else
    char        msg[300] = {};
};

static void put(std::string& s, void const* p, size_t n) { s.append(static_cast<char const*>(p), n); }
template <typename T>
static void put(std::string& s, std::vector<T> const& v) {
    size_t n = v.size();
    put(s, &n, sizeof n);
    put(s, v.data(), n * sizeof(T));
}
static void put(std::string& s, Solution const& x) { put(s, &x.cost, sizeof x.cost); put(s, x.idxs); }
static void put(std::string& s, Instance const& x) {
    put(s, x.cols.idxs);
    put(s, x.cols.begs);
    put(s, x.costs);
    for (auto const& r : x.rows) put(s, r);
}
static void put(std::string& s, CftResult const& x) { put(s, x.sol); put(s, x.dual.mults); put(s, &x.dual.lb, sizeof x.dual.lb); }

struct Op {
    char const* name;
    std::function<void(Outcome&)> f;       // arms faults around the code under test only
    bool reads, writes;
};

template <typename F>
static void guarded(Outcome& o, F&& f) {
    try {
        fault::armed = true;
        f();
        fault::armed = false;
    } catch (std::bad_alloc const&) { fault::armed = false; o.failed = 1;
    } catch (std::exception const& e) { fault::armed = false; o.failed = 2; std::snprintf(o.msg, sizeof o.msg, "%s", e.what());
    } catch (...) { fault::armed = false; o.failed = 3; }
}

struct Quiet {  // descriptors 1 and 2 of this process to files while alive
    int a, b;
    std::string path;
    explicit Quiet(std::string p) : path(std::move(p)) {
        std::fflush(nullptr);
        a = dup(1), b = dup(2);
        int f = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
        dup2(f, 2);
        close(f);
        f = open("/dev/null", O_WRONLY);
        dup2(f, 1);
        close(f);
    }
    std::string done() {
        std::fflush(nullptr);
        dup2(a, 1), dup2(b, 2);
        close(a), close(b);
        auto s = v::slurp(path);
        unlink(path.c_str());
        return s;
    }
};

static void one(uint64_t k, vh::Rec& rec) {
    Case   c    = make_case(k, rec, 0.1);
    v::Rng r    = c.r;
    bool   small = c.p.nrows <= 60;
    auto   base = rec.opt.dir + vh::fmtv("/c31-%d", int(getpid()));
    c.q.heur    = std::min<uint64_t>(c.q.heur, small ? 20 : 5);
    c.q.alpha   = std::max(c.q.alpha, 1.5);
    c.q.minfix  = std::max(c.q.minfix, 0.3);
    c.q.tlim    = INFINITY;
    auto const inst = mk(c.p);
    std::string inst_bytes;
    put(inst_bytes, inst);
    auto     warm = some_cover(c.p, r);
    int      fmt  = int(r.range(0, 3));
    v::PInst fp   = c.p;
    if (fmt == v::RAIL) for (auto& x : fp.costs) x = std::min(1e6, std::floor(x));
    std::string path = base + ".inst", sol = base + ".sol", start = base + ".start";
    std::string text = v::write_fmt(fmt, fp, r.next(), warm);
    Environment env;
    env.inst_path = path;
    env.parser    = v::fmt_name(fmt);
    env.verbose   = 0;
    env.sol_path  = sol;
    bool with_start = r.chance(0.5);
    if (with_start) env.initsol_path = start;
    env.use_unit_costs = r.chance(0.2);
    std::string start_text = v::write_sol(warm, 1.0, r.next());
    auto        s0         = r.chance(0.4) ? mk_sol(c.p, warm) : Solution{};
    auto        ws         = mk_sol(c.p, warm);

    Op     op;
    ThreePhase reused;
    double x = r.unit();
    if (x < 0.3) op = {"run", [&](Outcome& o) {
        auto      e = c.q.env();
        CftResult res;
        guarded(o, [&] { res = cft::run(e, inst, s0); });
        if (!o.failed) put(o.result, res);
    }, false, false};
    else if (x < 0.4) op = {"three-phase, object reused", [&](Outcome& o) {
        auto      e = c.q.env();
        auto      i = inst;
        CftResult res;
        guarded(o, [&] { res = reused(e, i); });
        if (!o.failed) put(o.result, res);
    }, false, false};
    else if (x < 0.7) op = {"load", [&](Outcome& o) {
        FileData fd;
        guarded(o, [&] { fd = parse_inst_and_initsol(env); });
        if (!o.failed) put(o.result, fd.inst), put(o.result, fd.init_sol);
    }, true, false};
    else if (x < 0.85) op = {"write", [&](Outcome& o) {
        guarded(o, [&] { write_solution(sol, ws); });
        if (!o.failed) o.result = v::slurp(sol);
        unlink(sol.c_str());
    }, false, true};
    else if (x < 0.92 && c.p.nrows > 0) {
        auto mults = std::vector<real_t>(inst.rows.size());
        for (auto& u : mults) u = as_real(r.unit() * (r.chance(0.5) ? 1.0 : c.p.costs[r.next() % c.p.costs.size()]));
        std::vector<real_t> reduced;
        compute_reduced_costs(inst, mults, reduced);
        if (x < 0.88) op = {"price", [&inst, mults](Outcome& o) {
            InstAndMap core;
            Pricer     price;
            real_t     lb = as_real(0.0);
            guarded(o, [&] { lb = price(inst, mults, core); });
            if (!o.failed) put(o.result, &lb, sizeof lb), put(o.result, core.inst), put(o.result, core.col_map);
        }, false, false};
        else if (x < 0.9) op = {"greedy", [&inst, mults, reduced](Outcome& o) {
            Greedy              greedy;
            std::vector<cidx_t> s;
            real_t              cost = as_real(0.0);
            guarded(o, [&] { cost = greedy(inst, mults, reduced, s); });
            if (!o.failed) put(o.result, &cost, sizeof cost), put(o.result, s);
        }, false, false};
        else op = {"fix columns", [&inst, &c, mults](Outcome& o) {
            auto                i = inst;
            auto                e = c.q.env();
            FixingData          fixing;
            std::vector<real_t> u = mults;
            Greedy              greedy;
            ColFixing           fix;
            make_identity_fixing_data(csize(i.cols), rsize(i.rows), fixing);
            guarded(o, [&] { fix(e, rsize(i.rows), i, fixing, u, greedy); });
            if (!o.failed) put(o.result, i), put(o.result, u), put(o.result, fixing.fixed_cols), put(o.result, fixing.curr2orig.col_map), put(o.result, &fixing.fixed_cost, sizeof fixing.fixed_cost);
        }, false, false};
    }
    else if (!small) return;
    else op = {"program", [&](Outcome& o) {
        std::vector<std::string> a{"accft", "-i", path, "-p", env.parser, "-o", sol, "-v", "0", "-s", std::to_string(c.q.seed), "-g", std::to_string(c.q.heur)};
        if (with_start) a.insert(a.end(), {"-w", start});
        std::vector<char const*> av;
        for (auto& y : a) av.push_back(y.c_str());
        unlink(sol.c_str());
        int   rc = 0;
        Quiet q(base + ".err");
        guarded(o, [&] { rc = accft_main(int(av.size()), av.data()); });
        auto err = q.done();
        if (o.failed) rec.viol("program-throws", "an exception leaves main()");
        if (rc != 0) {
            o.failed = 1;
            if (err.find_first_not_of(" \n") == std::string::npos) rec.viol("silent-failure", "the program fails without a message");
        } else o.result = v::slurp(sol);
        unlink(sol.c_str());
    }, true, true};
    bool reuses = op.name[0] == 't';
    v::spit(path, text);
    v::spit(start, start_text);
    rec.context += vh::fmtv("\n%s, format %s%s", op.name, v::fmt_name(fmt), with_start ? ", initial solution" : "");

    fault::what = fault::NONE;
    Outcome want;
    for (int t = 0; t < 2; ++t) {
        Outcome o;
        fault::seen_mem = fault::seen_read = fault::seen_write = 0;
        op.f(o);
        if (o.failed) { rec.viol("normal", vh::fmtv("%s fails without any fault: %s", op.name, o.msg)); return; }
        want = o;
    }
    long   nmem = fault::seen_mem, nread = fault::seen_read, nwrite = fault::seen_write;
    rec.maxi("max_allocations_of_an_operation", double(nmem));
    size_t live = 0;

    struct Plan { fault::What w; long at; };
    std::vector<Plan> plan;
    long cap = rec.opt.thorough ? 400 : small ? 60 : 12;
    // Allocations of every call path: the first, the last and one in between of each
    if (nmem > cap && nmem <= 300000) {
        std::vector<uint64_t> sites(static_cast<size_t>(nmem), 0);
        fault::sites = sites.data(), fault::nsites = nmem;
        Outcome o;
        fault::seen_mem = fault::seen_read = fault::seen_write = 0;
        op.f(o);
        fault::sites = nullptr;
        std::unordered_map<uint64_t, std::vector<long>> by;
        std::vector<uint64_t>                           order;
        for (long i = 0; i < nmem; ++i) {
            auto& l = by[sites[size_t(i)]];
            if (l.empty()) order.push_back(sites[size_t(i)]);
            l.push_back(i + 1);
        }
        rec.maxi("max_allocation_call_paths", double(order.size()));
        rec.count("allocation_call_paths", order.size());
        while (order.size() > size_t(cap)) { std::swap(order[r.next() % order.size()], order.back()); order.pop_back(); }
        for (auto h : order) {
            auto& l = by[h];
            auto  add = [&](long a) { plan.push_back({r.chance(0.7) ? fault::MEMORY : fault::MEMORY_ON, a}); };
            add(l[0]);
            if (l.size() > 1) add(l.back());
            if (l.size() > 2) add(l[r.next() % l.size()]);
        }
        cap /= 3;
    }
    if (nmem <= cap) for (long i = 1; i <= nmem; ++i) plan.push_back({r.chance(0.7) ? fault::MEMORY : fault::MEMORY_ON, i});
    else for (long i = 0; i < cap; ++i) plan.push_back({r.chance(0.7) ? fault::MEMORY : fault::MEMORY_ON, i < cap / 4 ? i + 1 : i < cap / 3 ? nmem - (i - cap / 4) : long(r.range(1, nmem))});
    if (op.reads) {
        for (long i = 1; i <= std::min(nread, 12L); ++i) plan.push_back({fault::READ, i});
        plan.push_back({fault::READ, nread});
    }
    if (op.writes) {
        for (long i = 1; i <= std::min(nwrite, 12L); ++i) plan.push_back({fault::WRITE, i});
        plan.push_back({fault::CLOSE, 0});
    }
    if (op.reads || op.writes) for (int i = 0; i < 2; ++i) plan.push_back({fault::SHORT, 0}), plan.push_back({fault::INTR, 0});
    static char const* const names[] = {"none", "allocation fails", "all allocations fail from", "read fails", "write fails", "short reads and writes", "interrupted reads and writes", "close fails"};
    for (auto const& f : plan) {
        auto where = vh::fmtv("%s: %s (%ld of %ld allocations, %ld reads, %ld writes)", op.name, names[f.w], f.at, nmem, nread, nwrite);
        live = fault::live;
        Outcome o;
        fault::what = f.w;
        fault::at   = f.at;
        fault::rnd  = r.next() | 1;
        fault::hit = fault::seen_mem = fault::seen_read = fault::seen_write = 0;
        op.f(o);
        fault::what = fault::NONE;
        rec.eval();
        if (fault::hit) rec.count(std::string("faults.") + names[f.w]);
        if (o.failed) rec.count("reported");
        else rec.count(fault::hit ? "survived" : "fault_not_reached");
        if (o.failed == 3) { rec.viol("exception", where + ": something that is no std::exception is thrown"); return; }
        if (o.failed && !fault::hit) { rec.viol("failure", where + ": fails although nothing went wrong: " + o.msg); return; }
        if (o.failed && (f.w == fault::SHORT || f.w == fault::INTR)) { rec.viol("failure", where + ": fails: " + o.msg); return; }
        if (o.failed == 2 && f.w <= fault::MEMORY_ON) { rec.viol("misreported", where + ": reported as \"" + o.msg + "\""); return; }
        if (!o.failed && o.result != want.result) { rec.viol("absorbed", where + ": the failure is not reported, but the result is another one"); return; }
        if (!o.failed && fault::hit && (f.w == fault::WRITE || f.w == fault::CLOSE) && op.name[0] == 'w') { rec.viol("absorbed", where + ": the failure is not reported"); return; }
        o = Outcome();
        where.shrink_to_fit();
        std::string now;
        put(now, inst);
        if (now != inst_bytes) { rec.viol("instance", where + ": the instance given has changed"); return; }
        now = std::string();
        (void)live;
    }
    // Nothing is lost: the same fault a second time holds no more memory than the first.
    if (!reuses) for (int t = 0; t < 6 && !plan.empty(); ++t) {
        auto f = r.pick(plan);
        size_t held[3];
        for (int u = 0; u < 3; ++u) {
            { Outcome o;
              fault::what = f.w, fault::at = f.at, fault::rnd = 77;
              fault::hit = fault::seen_mem = fault::seen_read = fault::seen_write = 0;
              op.f(o);
              fault::what = fault::NONE; }
            held[u] = fault::live;
        }
        rec.eval(3);
        if (held[2] > held[1]) { rec.viol("leak", vh::fmtv("%s: %s (%ld): %zu bytes are lost", op.name, names[f.w], f.at, held[2] - held[1])); return; }
    }
    Outcome o;
    op.f(o);
    if (o.failed || o.result != want.result) { rec.viol("afterwards", vh::fmtv("%s: after the faults the result is another one%s%s", op.name, o.failed ? ": " : "", o.msg)); return; }
    rec.count(std::string("operations.") + op.name);
    if (c.p.nrows >= 2) rec.distinct(v::mix(v::mix(c.p.hash(), v::hash_str(op.name)), uint64_t(fmt)));
    unlink(path.c_str());
    unlink(start.c_str());
}
int main(int argc, char** argv) {
    void* f[4];
    backtrace(f, 4);  // loads what it needs
    return vh::run_main(argc, argv, one);
}
