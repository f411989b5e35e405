// Monitor of the random helpers (C17): stub generators with extreme outputs, independent xoshiro reference.
#include "hmain.hpp"
#include "core/cft.hpp"
#include "utils/random.hpp"
using namespace cft;

// ---- independent reference (prng.di.unimi.it, Blackman & Vigna)
template <typename U> U rotl(U x, int k) { return U((x << k) | (x >> (int(sizeof(U)) * 8 - k))); }
struct Ref64 {
    uint64_t s[4];
    uint64_t next(bool pp) {
        uint64_t r = pp ? rotl<uint64_t>(s[0] + s[3], 23) + s[0] : s[0] + s[3], t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl<uint64_t>(s[3], 45);
        return r;
    }
};
struct Ref32 {
    uint32_t s[4];
    uint32_t next(bool pp) {
        uint32_t r = pp ? rotl<uint32_t>(s[0] + s[3], 7) + s[0] : s[0] + s[3], t = s[1] << 9;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl<uint32_t>(s[3], 11);
        return r;
    }
};
static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
// published first outputs for state {1, 2, 3, 4}: validates the reference itself
static void self_check() {
    Ref64 a{{1, 2, 3, 4}}, b = a;
    Ref32 c{{1, 2, 3, 4}}, d = c;
    uint64_t pp64[] = {41943041ULL, 58720359ULL, 3588806011781223ULL, 3591011842654386ULL}, p64[] = {5ULL, 211106232532999ULL, 211106635186183ULL, 9223759065350669058ULL};
    uint32_t pp32[] = {641U, 1573767U, 3222811527U, 3517856514U}, p32[] = {5U, 12295U, 25178119U, 27286542U};
    for (int i = 0; i < 4; ++i)
        if (a.next(true) != pp64[i] || b.next(false) != p64[i] || c.next(true) != pp32[i] || d.next(false) != p32[i]) { std::fprintf(stderr, "the reference generator is wrong\n"); std::exit(3); }
}

template <typename U>
struct Stub {
    using result_type = U;
    static constexpr U min() { return 0; }
    static constexpr U max() { return U(~U(0)); }
    std::vector<U> v;
    explicit Stub(std::vector<U> x) : v(std::move(x)) {}
    size_t         i = 0;
    U operator()() { return v[i++ % v.size()]; }
};

template <typename U>
static std::vector<U> extremes(v::Rng& r) {
    std::vector<U> o = {U(0), U(1), U(~U(0)), U(~U(0) - 1), U(U(1) << (sizeof(U) * 8 - 1)), U((U(1) << (sizeof(U) * 8 - 1)) - 1)};
    for (int b = 0; b < int(sizeof(U)) * 8; ++b) { o.push_back(U(U(1) << b)); o.push_back(U((U(1) << b) - 1)); o.push_back(U(~(U(1) << b))); o.push_back(U(~U(0) << b)); }
    for (int t = 0; t < 40; ++t) o.push_back(U(r.next()));
    return o;
}

template <typename F, typename Gen>
static void canon(vh::Rec& rec, Gen& g, size_t n, char const* name) {
    for (size_t t = 0; t < n; ++t) {
        F x = canonical_gen<F>(g);
        if (!(x >= F(0) && x < F(1))) { rec.viol("canonical", vh::fmtv("%s: canonical value %.20Lg", name, (long double)x)); return; }
    }
    rec.count("canonical_values", n);
}
template <typename F>
static void reals(vh::Rec& rec, v::Rng& r, char const* name) {
    auto chk = [&](F lo, F hi) {
        Stub<uint32_t> a{extremes<uint32_t>(r)};
        Stub<uint64_t> b{extremes<uint64_t>(r)};
        for (size_t t = 0; t < a.v.size(); ++t) {
            F x = rnd_real(a, lo, hi);
            if (!(x >= lo && x < hi)) { rec.viol("real", vh::fmtv("%s: %.20Lg from [%.20Lg, %.20Lg) with a 32 bit generator", name, (long double)x, (long double)lo, (long double)hi)); return; }
        }
        for (size_t t = 0; t < b.v.size(); ++t) {
            F x = rnd_real(b, lo, hi);
            if (!(x >= lo && x < hi)) { rec.viol("real", vh::fmtv("%s: %.20Lg from [%.20Lg, %.20Lg) with a 64 bit generator", name, (long double)x, (long double)lo, (long double)hi)); return; }
        }
        rec.count("real_draws", a.v.size() + b.v.size());
    };
    F lo, hi;
    switch (r.range(0, 5)) {
    case 0: lo = F(r.unit() * 100 - 50); hi = lo + F(r.unit() * 100 + 0.001); break;
    case 1: lo = F(r.unit() * 1000); hi = std::nextafter(lo, F(1e9)); break;                          // adjacent values
    case 2: lo = F(-r.unit() * 1000); hi = std::nextafter(std::nextafter(lo, F(1e9)), F(1e9)); break;
    case 3: lo = F(0.9); hi = F(1.1); break;                                                           // as the solver uses it
    case 4: lo = F(-1e30 * r.unit()); hi = F(1e30 * (r.unit() + 0.1)); break;
    default: lo = F(r.range(-5, 5)); hi = lo + F(r.range(1, 5)); break;
    }
    if (hi > lo) chk(lo, hi);
}
template <typename I, typename Gen>
static void dice(vh::Rec& rec, Gen& g, I lo, I hi, char const* name, bool all) {
    uint64_t           width = uint64_t(int64_t(hi) - int64_t(lo)) + 1;
    std::set<int64_t>  seen;
    size_t             n = all ? size_t(width) * 60 + 60 : 200;
    for (size_t t = 0; t < n; ++t) {
        I x = roll_dice<I>(g, lo, hi);
        if (!(x >= lo && x <= hi)) { rec.viol("dice", vh::fmtv("%s: %lld from [%lld, %lld]", name, (long long)x, (long long)lo, (long long)hi)); return; }
        if (all) seen.insert(int64_t(x));
    }
    if (all && seen.size() != width) rec.viol("dice", vh::fmtv("%s: only %zu of the %llu values of [%lld, %lld] in %zu rolls", name, seen.size(), (unsigned long long)width, (long long)lo, (long long)hi, n));
    rec.count("rolls", n);
}
// Wide ranges: not each value can be waited for, but no part of the digits may be missing.
template <typename I, typename Gen>
static void wide_dice(vh::Rec& rec, Gen& g, v::Rng& r, int maxbits, char const* name) {
    int             bits = r.range(9, maxbits);
    uint64_t        w    = (1ULL << (bits - 1)) + r.next() % (1ULL << (bits - 1));  // number of values, at least 256
    I               lo   = I(std::numeric_limits<I>::is_signed ? -int64_t(r.next() % (w / 2 + 1)) : int64_t(r.next() % 1000)), hi = I(lo + I(w - 1));
    std::set<uint64_t> low, mod;
    std::vector<int>   slice(8, 0);
    for (int t = 0; t < 600; ++t) {
        I x = roll_dice<I>(g, lo, hi);
        if (!(x >= lo && x <= hi)) { rec.viol("dice", vh::fmtv("%s: %lld from [%lld, %lld]", name, (long long)x, (long long)lo, (long long)hi)); return; }
        uint64_t o = uint64_t(x) - uint64_t(lo);
        low.insert(o & 255);
        mod.insert(o % 251);
        ++slice[size_t(double(o) / double(w) * 8) % 8];
    }
    // 600 draws hit about 232 of 256 values and each slice about 75 times (at least 50 with the bias of a modulus)
    size_t least = size_t(*std::min_element(slice.begin(), slice.end()));
    if (low.size() < 160 || mod.size() < 160 || least < 12) rec.viol("dice-wide", vh::fmtv("%s: 600 rolls of [%lld, %lld] show only %zu of 256 low parts, %zu of 251 residues, %zu in one eighth of the range", name, (long long)lo, (long long)hi, low.size(), mod.size(), least));
    rec.count("wide_rolls", 600);
}
template <typename G, typename U, typename R>
static void sequence(vh::Rec& rec, uint64_t seed, bool pp, R ref, char const* name, size_t n) {
    G        g(seed), same(seed);
    uint64_t x = seed;
    for (auto& w : ref.s) w = U(splitmix(x));
    for (size_t t = 0; t < n; ++t) {
        U a = g(), b = same(), c = ref.next(pp);
        if (a != b) { rec.viol("seed", vh::fmtv("%s: same seed %llu, different values", name, (unsigned long long)seed)); return; }
        if (a != c) { rec.viol("sequence", vh::fmtv("%s seed %llu: value %zu is %llu, reference %llu", name, (unsigned long long)seed, t, (unsigned long long)a, (unsigned long long)c)); return; }
    }
    // arbitrary states
    G h(seed ^ 0x55);
    for (int i = 0; i < 4; ++i) ref.s[i] = h.state[i] = U(splitmix(x)) | U(i == 0);
    for (size_t t = 0; t < n; ++t) if (h() != ref.next(pp)) { rec.viol("sequence", vh::fmtv("%s: differs from the reference after %zu values from a given state", name, t)); return; }
    if (G::min() != std::numeric_limits<U>::min() || G::max() != std::numeric_limits<U>::max()) rec.viol("limits", vh::fmtv("%s: min/max do not describe the generator", name));
    rec.count("reference_values", 2 * n);
}
template <typename Gen>
static void uniform(vh::Rec& rec, Gen& g, char const* name) {
    int    n = 4000, low = 0, high = 0;
    double sum = 0;
    for (int t = 0; t < n; ++t) {
        double x = double(canonical_gen<float>(g));
        sum += x; low += x < 0.1; high += x >= 0.9;
    }
    sum /= n;
    // 10 standard deviations: 0.046 on the mean, 190 on a count of 400
    if (sum < 0.45 || sum > 0.55 || low < 200 || low > 600 || high < 200 || high > 600) rec.viol("uniform", vh::fmtv("%s: mean %.3f, %d below 0.1, %d above 0.9 of %d", name, sum, low, high, n));
    int heads = 0;
    for (int t = 0; t < n; ++t) heads += coin_flip(g, 0.25);
    if (heads < 700 || heads > 1300) rec.viol("uniform", vh::fmtv("%s: %d heads of %d with probability 0.25", name, heads, n));
}

static void mode_c17(uint64_t k, vh::Rec& rec) {
    v::Rng   r(v::mix(rec.opt.seed * 1000003 + 17, k));
    uint64_t seed = r.chance(0.2) ? r.pick(std::vector<uint64_t>{0, 1, ~0ULL, 1ULL << 63, 0xffffffffULL, 1ULL << 32}) : r.next() >> r.range(0, 63);
    rec.context   = vh::fmtv("case %llu seed %llu", (unsigned long long)k, (unsigned long long)seed);
    size_t n      = size_t(r.range(4, 200));
    sequence<Xoshiro256PP, uint64_t>(rec, seed, true, Ref64(), "xoshiro256++", n);
    sequence<Xoshiro256P, uint64_t>(rec, seed, false, Ref64(), "xoshiro256+", n);
    sequence<Xoshiro128PP, uint32_t>(rec, seed, true, Ref32(), "xoshiro128++", n);
    sequence<Xoshiro128P, uint32_t>(rec, seed, false, Ref32(), "xoshiro128+", n);
    Stub<uint32_t> a{extremes<uint32_t>(r)};
    Stub<uint64_t> b{extremes<uint64_t>(r)};
    canon<float>(rec, a, a.v.size(), "float/32");
    canon<double>(rec, a, a.v.size(), "double/32");
    canon<long double>(rec, a, a.v.size(), "long double/32");
    canon<float>(rec, b, b.v.size(), "float/64");
    canon<double>(rec, b, b.v.size(), "double/64");
    canon<long double>(rec, b, b.v.size(), "long double/64");
    reals<float>(rec, r, "float");
    reals<double>(rec, r, "double");
    reals<long double>(rec, r, "long double");
    Xoshiro256PP  g64(seed);
    Xoshiro128P   g32(seed);
    Xoshiro128PP  g32b(seed);
    Xoshiro256P   g64b(seed);
    int64_t lo = r.range(-100, 100), hi = lo + r.range(0, 40);
    dice<int32_t>(rec, g64, int32_t(lo), int32_t(hi), "int32/64", true);
    dice<int64_t>(rec, g32, lo, hi, "int64/32", true);
    dice<int16_t>(rec, g32b, int16_t(lo), int16_t(hi), "int16/32", true);
    dice<uint64_t>(rec, g64b, uint64_t(lo + 100), uint64_t(hi + 100), "uint64/64", true);
    dice<uint32_t>(rec, g32, uint32_t(lo + 100), uint32_t(hi + 100), "uint32/32", true);
    dice<int32_t>(rec, b, int32_t(lo), int32_t(hi), "int32/stub64", false);
    dice<int32_t>(rec, a, int32_t(lo), int32_t(hi), "int32/stub32", false);
    dice<int64_t>(rec, b, r.range(-1000000000000LL, 0), r.range(1, 1000000000000LL), "wide int64/stub64", false);
    dice<int32_t>(rec, a, int32_t(r.range(-1000000000, 0)), int32_t(r.range(1, 1000000000)), "wide int32/stub32", false);
    dice<int16_t>(rec, a, int16_t(r.range(-30000, -1)), int16_t(r.range(0, 2000)), "wide int16/stub32", false);
    if (k % 4 == 0) {
        wide_dice<int64_t>(rec, g64, r, 61, "wide int64/64");
        wide_dice<uint64_t>(rec, g64b, r, 61, "wide uint64/64");
        wide_dice<int32_t>(rec, g64, r, 30, "wide int32/64");
        wide_dice<uint32_t>(rec, g32, r, 30, "wide uint32/32");
        wide_dice<int32_t>(rec, g32b, r, 30, "wide int32/32");
        wide_dice<int16_t>(rec, g32, r, 14, "wide int16/32");
    }
    if (k % 8 == 0) { uniform(rec, g64, "xoshiro256++"); uniform(rec, g64b, "xoshiro256+"); uniform(rec, g32, "xoshiro128+"); uniform(rec, g32b, "xoshiro128++"); }
    // coin flips
    double p = r.unit(), q = std::min(1.0, p + r.unit() * 0.2);
    for (size_t t = 0; t < a.v.size() + b.v.size(); ++t) {
        Stub<uint32_t> x{{t < a.v.size() ? a.v[t] : uint32_t(0)}};
        Stub<uint64_t> y{{t < b.v.size() ? b.v[t] : ~0ULL}};
        if (coin_flip(x, 0.0) || coin_flip(y, 0.0)) { rec.viol("coin", "success with probability 0"); break; }
        if (!coin_flip(x, 1.0) || !coin_flip(y, 1.0)) { rec.viol("coin", "failure with probability 1"); break; }
        bool mono = true;
        if (coin_flip(x, p) && !coin_flip(x, q)) mono = false;
        if (coin_flip(y, p) && !coin_flip(y, q)) mono = false;
        if (!mono) { rec.viol("coin", "a more likely flip fails where a less likely one succeeds"); break; }
        rec.count("coin_flips", 8);
    }
    // Environments and helpers are pure functions of the generator
    Xoshiro128P u(seed), w(seed);
    for (int t = 0; t < 20; ++t)
        if (rnd_real(u, 0.9F, 1.1F) != rnd_real(w, 0.9F, 1.1F) || roll_dice(u, 1, 6) != roll_dice(w, 1, 6) || coin_flip(u) != coin_flip(w)) { rec.viol("seed", "same seed, different helper results"); break; }
    rec.eval();
    rec.distinct(v::mix(seed, n));
    rec.sample(rec.context);
}
int main(int argc, char** argv) { self_check(); return vh::run_main(argc, argv, mode_c17); }
