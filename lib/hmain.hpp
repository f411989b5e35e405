// Main loop of the C++ harnesses: deterministic numbered cases, one JSON line per observation, progress in a status
// file (so that the driver knows which case crashed or hung), CPU time watchdog per case.
#ifndef VERIF_HMAIN_HPP
#define VERIF_HMAIN_HPP

#include <csignal>
#include <cstdarg>
#include <exception>
#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

#include "vcommon.hpp"

namespace vh {

struct Opt {
    std::string mode, out, status, dir = ".";
    uint64_t    seed = 1, n = 1, from = 0, shard = 0, nshards = 1;
    int64_t     only     = -1;
    double      cpu      = 20;
    bool        thorough = false;
    bool        verbose  = false;
    std::map<std::string, std::string> kv;
    std::string get(std::string const& k, std::string const& d = "") const {
        auto it = kv.find(k);
        return it == kv.end() ? d : it->second;
    }
};

struct TooMany {};

inline std::string esc(std::string const& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

inline std::string fmtv(char const* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmtv(char const* f, ...) {
    va_list a, b;
    va_start(a, f);
    va_copy(b, a);
    int n = std::vsnprintf(nullptr, 0, f, a);
    va_end(a);
    std::string s(size_t(n) + 1, 0);
    std::vsnprintf(&s[0], s.size(), f, b);
    va_end(b);
    s.resize(size_t(n));
    return s;
}

struct Rec {
    Opt                             opt;
    FILE*                           out = nullptr;
    int                             sfd = -1;
    uint64_t                        k   = 0;
    uint64_t                        evals = 0, nviol = 0, nsamples = 0;
    std::unordered_set<uint64_t>    dist;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, double>   maxima;
    bool                            oracle_off = false;
    std::string                     context;  // dump of the current case, printed with a violation

    // A violated property: `kind` is stable (used in keys), `msg` is for humans.
    // With --oracle off (C08) only failures of the code's own checks count: other properties have their own checks.
    void viol(std::string const& kind, std::string const& msg) {
        if (oracle_off && msg.find("Assertion failed") == std::string::npos) { ++counters["ignored_reports_of_other_properties"]; return; }
        ++nviol;
        std::fprintf(out, "{\"t\":\"viol\",\"k\":%llu,\"kind\":\"%s\",\"msg\":\"%s\",\"context\":\"%s\"}\n", (unsigned long long)k,
                     esc(kind).c_str(), esc(msg).c_str(), esc(context.substr(0, 6000)).c_str());
        std::fflush(out);
        if (opt.verbose) std::fprintf(stderr, "VIOL case %llu %s: %s\n%s\n", (unsigned long long)k, kind.c_str(), msg.c_str(), context.c_str());
        if (nviol >= 5 && opt.only < 0) throw TooMany();
    }
    void eval(uint64_t n = 1) { evals += n; }
    // Registers a distinct non-trivial case by its hash.
    void distinct(uint64_t h) { if (dist.size() < 400000) dist.insert(h); }
    void count(std::string const& n, uint64_t d = 1) { counters[n] += d; }
    void maxi(std::string const& n, double v) { auto it = maxima.find(n); if (it == maxima.end()) maxima[n] = v; else if (v > it->second) it->second = v; }
    // A value to be compared across runs or builds by the driver.
    void val(std::string const& name, uint64_t h) {
        std::fprintf(out, "{\"t\":\"val\",\"k\":%llu,\"n\":\"%s\",\"h\":\"%llx\"}\n", (unsigned long long)k, esc(name).c_str(), (unsigned long long)h);
    }
    void sample(std::string const& s, uint64_t every = 1) {
        if (nsamples >= 3 || (every > 1 && k % every != 0)) return;
        ++nsamples;
        std::fprintf(out, "{\"t\":\"sample\",\"k\":%llu,\"s\":\"%s\"}\n", (unsigned long long)k, esc(s).c_str());
    }
    void finish() {
        std::fprintf(out, "{\"t\":\"end\",\"evals\":%llu,\"counters\":{", (unsigned long long)evals);
        bool f = true;
        for (auto& c : counters) { std::fprintf(out, "%s\"%s\":%llu", f ? "" : ",", esc(c.first).c_str(), (unsigned long long)c.second); f = false; }
        std::fprintf(out, "},\"maxima\":{");
        f = true;
        for (auto& c : maxima) { std::fprintf(out, "%s\"%s\":%.9g", f ? "" : ",", esc(c.first).c_str(), std::isfinite(c.second) ? c.second : 1e300); f = false; }
        std::fprintf(out, "},\"dist\":[");
        f = true;
        for (auto h : dist) { std::fprintf(out, "%s\"%llx\"", f ? "" : ",", (unsigned long long)h); f = false; }
        std::fprintf(out, "]}\n");
        std::fflush(out);
    }
};

inline int& status_fd() { static int fd = -1; return fd; }
inline void on_alarm(int) {
    if (status_fd() >= 0) { ssize_t r = pwrite(status_fd(), "T", 1, 0); (void)r; }
    _exit(75);
}
inline void set_cpu(double s) {
    itimerval it{};
    it.it_value.tv_sec  = long(s);
    it.it_value.tv_usec = long((s - double(long(s))) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}

template <typename F>
int run_main(int argc, char** argv, F fn) {
    Rec  rec;
    Opt& o = rec.opt;
    for (int a = 1; a + 1 < argc; a += 2) {
        std::string k = argv[a], v = argv[a + 1];
        if (k == "--mode") o.mode = v;
        else if (k == "--out") o.out = v;
        else if (k == "--status") o.status = v;
        else if (k == "--dir") o.dir = v;
        else if (k == "--seed") o.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--n") o.n = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--from") o.from = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--shard") o.shard = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--nshards") o.nshards = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--only") o.only = std::strtoll(v.c_str(), nullptr, 10);
        else if (k == "--cpu") o.cpu = std::strtod(v.c_str(), nullptr);
        else if (k == "--tier") o.thorough = v == "thorough";
        else if (k == "--verbose") o.verbose = v == "1";
        else if (k.substr(0, 2) == "--") o.kv[k.substr(2)] = v;
    }
    rec.oracle_off = o.get("oracle") == "off";
    rec.out = o.out.empty() ? stdout : std::fopen(o.out.c_str(), "a");
    if (!rec.out) return 3;
    if (!o.status.empty()) {
        rec.sfd = open(o.status.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
        status_fd() = rec.sfd;
    }
    struct sigaction sa {};
    sa.sa_handler = on_alarm;
    sigaction(SIGPROF, &sa, nullptr);
    try {
        for (uint64_t k = o.from; k < o.n; ++k) {
            if (o.only >= 0 ? k != uint64_t(o.only) : k % o.nshards != o.shard) continue;
            rec.k = k;
            rec.context.clear();
            if (rec.sfd >= 0) {
                char b[40];
                std::snprintf(b, sizeof b, "R%-30llu\n", (unsigned long long)k);
                ssize_t r = pwrite(rec.sfd, b, std::strlen(b), 0);
                (void)r;
            }
            if (o.cpu > 0) set_cpu(o.cpu);
            try {
                fn(k, rec);
            } catch (TooMany const&) {
                throw;
            } catch (std::exception const& e) {
                rec.viol("exception", std::string("unexpected exception: ") + e.what());
            }
        }
    } catch (TooMany const&) {}
    set_cpu(0);
    rec.finish();
    if (rec.sfd >= 0) { ssize_t r = pwrite(rec.sfd, "E", 1, 0); (void)r; }
    if (rec.out != stdout) std::fclose(rec.out);
    return 0;
}
}  // namespace vh
#endif
