// Preloaded into Python (C31): the k-th allocation made by C++ code after vf_arm(k, ...) fails.
// Only allocations made below one of the functions given by vf_ranges count: pybind11 ends the process when its own
// tables cannot grow.
#include <cstdint>
#include <cstdlib>
#include <execinfo.h>
#include <new>
static bool armed = false, on = false;
static long at = 0, seen = 0, hit = 0;
static uintptr_t const* ranges = nullptr;  // begin, end, begin, end, ... in increasing order
static long nranges = 0;
static bool inside() {
    void* b[48];
    int   n = backtrace(b, 48);
    for (int i = 2; i < n; ++i) {
        uintptr_t a = reinterpret_cast<uintptr_t>(b[i]) - 1;
        long      lo = 0, hi = nranges;  // last range beginning at or before a
        while (hi - lo > 0) {
            long m = (lo + hi) / 2;
            if (ranges[2 * m] <= a) lo = m + 1;
            else hi = m;
        }
        if (lo > 0 && a < ranges[2 * lo - 1]) return true;
    }
    return false;
}
extern "C" void vf_ranges(uintptr_t const* r, long n) {
    ranges = r;
    nranges = n;
    void* b[4];
    backtrace(b, 4);
}
static bool fails() {
    if (!armed) return false;
    armed = false;  // backtrace may allocate
    bool in = inside();
    armed = true;
    if (!in) return false;
    ++seen;
    if (on ? seen >= at : seen == at) { ++hit; return true; }
    return false;
}
extern "C" void vf_arm(long k, int persistent) { at = k; on = persistent != 0; seen = hit = 0; armed = true; }
extern "C" long vf_disarm() { armed = false; return seen; }
extern "C" long vf_hits() { return hit; }
void* operator new(size_t n) {
    void* p = fails() ? nullptr : std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return fails() ? nullptr : std::malloc(n ? n : 1); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return fails() ? nullptr : std::malloc(n ? n : 1); }
void  operator delete(void* p) noexcept { std::free(p); }
void  operator delete[](void* p) noexcept { std::free(p); }
void  operator delete(void* p, size_t) noexcept { std::free(p); }
void  operator delete[](void* p, size_t) noexcept { std::free(p); }
