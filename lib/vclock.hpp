// A virtual steady clock: replaces std::chrono::steady_clock::now() in the program that includes it (one source only).
// By default time stands still; vclk::hook decides what each reading returns.
#ifndef VERIF_VCLOCK_HPP
#define VERIF_VCLOCK_HPP
#include <atomic>
#include <chrono>
#include <cstdint>
namespace vclk {
static int64_t  now_ns  = 1000000000;   // current virtual time
static uint64_t reads   = 0;            // readings so far
static int64_t  tick_ns = 0;            // added at each reading
static uint64_t jump_at = ~uint64_t(0);  // at this reading (0-based) time jumps ...
static int64_t  jump_ns = 0;            // ... by this much
static void (*on_jump)() = nullptr;
inline void reset() { now_ns = 1000000000; reads = 0; tick_ns = 0; jump_at = ~uint64_t(0); jump_ns = 0; }
}  // namespace vclk
namespace std { namespace chrono { inline namespace _V2 {
__attribute__((used)) steady_clock::time_point steady_clock::now() noexcept {
    vclk::now_ns += vclk::tick_ns;
    if (vclk::reads++ == vclk::jump_at) { vclk::now_ns += vclk::jump_ns; if (vclk::on_jump) vclk::on_jump(); }
    return time_point(duration(vclk::now_ns));
}
}}}
#endif
