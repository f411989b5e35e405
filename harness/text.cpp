// Monitor of text and number parsing (C24).
#include "hmain.hpp"
#include "core/cft.hpp"
#include "utils/parse_utils.hpp"
using namespace cft;

static std::string q(std::string const& s) {
    std::string o = "\"";
    for (unsigned char c : s) o += c >= 32 && c < 127 ? std::string(1, char(c)) : vh::fmtv("\\x%02x", c);
    return o + "\"";
}
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }

// Reference for integers: blanks, sign, digits. Returns the number of characters used (0: no number).
static size_t ref_int(std::string const& s, __int128& val, bool& huge) {
    size_t i = 0;
    while (i < s.size() && sp(s[i])) ++i;
    bool neg = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    size_t d = i;
    val = 0; huge = false;
    for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) {
        val = val * 10 + (s[i] - '0');
        if (val > (__int128)1 << 70) { huge = true; val = (__int128)1 << 70; }
    }
    if (i == d) return 0;
    if (neg) val = -val;
    return i;
}

template <typename T>
static void integer(vh::Rec& rec, std::string const& s, char const* name) {
    __int128 val;
    bool     huge;
    size_t   used = ref_int(s, val, huge);
    bool     ok   = used > 0 && !huge && val >= (__int128)std::numeric_limits<T>::lowest() && val <= (__int128)std::numeric_limits<T>::max();
    std::string copy = s;  // its own zero terminated buffer
    StringView  view(copy);
    bool        threw = false;
    T           got   = 0;
    try { got = string_to<T>::consume(view); } catch (std::exception const&) { threw = true; }
    rec.count("integers_parsed");
    if (threw == ok) { rec.viol("throw", vh::fmtv("%s from %s: %s", name, q(s).c_str(), ok ? "refused" : "accepted")); return; }
    bool threw2 = false;
    T    got2   = 0;
    try { got2 = string_to<T>::parse(StringView(copy)); } catch (std::exception const&) { threw2 = true; }
    if (threw2 != threw || got2 != got) rec.viol("parse", vh::fmtv("%s from %s: parse and consume differ", name, q(s).c_str()));
    if (!ok) { rec.count("integers_refused"); return; }
    if ((__int128)got != val) rec.viol("value", vh::fmtv("%s from %s: %lld", name, q(s).c_str(), (long long)got));
    else if (view.to_cpp_string() != s.substr(used)) rec.viol("rest", vh::fmtv("%s from %s: rest %s", name, q(s).c_str(), q(view.to_cpp_string()).c_str()));
}

template <typename T> static T ref_fl(char const* s, char** e);
template <> float ref_fl<float>(char const* s, char** e) { return std::strtof(s, e); }
template <> double ref_fl<double>(char const* s, char** e) { return std::strtod(s, e); }
template <> long double ref_fl<long double>(char const* s, char** e) { return std::strtold(s, e); }

template <typename T>
static void real(vh::Rec& rec, std::string const& s, char const* name) {
    std::string copy = s;
    char *      e1, *e2;
    T           direct = ref_fl<T>(copy.c_str(), &e1);
    long double wide   = std::strtold(copy.c_str(), &e2);
    size_t      used   = size_t(e2 - copy.c_str());
    bool        ok     = used > 0 && std::isfinite(wide) && std::fabs(wide) <= (long double)std::numeric_limits<T>::max();
    StringView  view(copy);
    bool        threw = false;
    T           got   = 0;
    try { got = string_to<T>::consume(view); } catch (std::exception const&) { threw = true; }
    rec.count("reals_parsed");
    // between the largest value and the rounding limit above it, both outcomes are fine
    if (used > 0 && std::isfinite(wide) && !ok && std::isfinite(direct)) { rec.count("reals_in_the_rounding_zone"); return; }
    if (threw == ok) { rec.viol("throw", vh::fmtv("%s from %s: %s", name, q(s).c_str(), ok ? "refused" : "accepted")); return; }
    bool threw2 = false;
    T    got2   = 0;
    try { got2 = string_to<T>::parse(StringView(copy)); } catch (std::exception const&) { threw2 = true; }
    if (threw2 != threw || got2 != got) rec.viol("parse", vh::fmtv("%s from %s: parse and consume differ", name, q(s).c_str()));
    if (!ok) { rec.count("reals_refused"); return; }
    if (got != direct && got != T(wide)) rec.viol("value", vh::fmtv("%s from %s: %.20Lg", name, q(s).c_str(), (long double)got));
    if (std::signbit(got) != std::signbit(direct)) rec.viol("value", vh::fmtv("%s from %s: wrong sign", name, q(s).c_str()));
    else if (view.to_cpp_string() != s.substr(used)) rec.viol("rest", vh::fmtv("%s from %s: rest %s", name, q(s).c_str(), q(view.to_cpp_string()).c_str()));
}

static void numbers(vh::Rec& rec, std::string const& s) {
    integer<int8_t>(rec, s, "int8"); integer<int16_t>(rec, s, "int16"); integer<int32_t>(rec, s, "int32"); integer<int64_t>(rec, s, "int64");
    integer<uint8_t>(rec, s, "uint8"); integer<uint16_t>(rec, s, "uint16"); integer<uint32_t>(rec, s, "uint32"); integer<uint64_t>(rec, s, "uint64");
    real<float>(rec, s, "float"); real<double>(rec, s, "double"); real<long double>(rec, s, "long double");
}

static std::string gen_number(v::Rng& r) {
    std::string s;
    for (int t = int(r.range(0, 5)) - 3; t > 0; --t) s += r.pick(std::string(" \t\r\n\v\f"));
    if (r.chance(0.35)) s += r.pick(std::string("+--"));
    if (r.chance(0.03)) s += r.pick(std::string("+- "));
    int kind = int(r.range(0, 11));
    auto lim = [&](long double base, int d) { char b[80]; std::snprintf(b, sizeof b, "%.0Lf", base + (long double)d); return std::string(b); };
    auto digits = [&](int lo, int hi) { std::string o; for (int t = int(r.range(lo, hi)); t > 0; --t) o += char('0' + r.range(0, 9)); return o; };
    switch (kind) {
    case 0: s += digits(1, 3); break;
    case 1: s += digits(1, 25); break;
    case 2: s += lim(r.pick(std::vector<long double>{127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647.0L, 2147483648.0L, 4294967295.0L, 9223372036854775807.0L, 9223372036854775808.0L, 18446744073709551615.0L, 18446744073709551616.0L}), int(r.range(-2, 2))); break;
    case 3: s += digits(0, 6) + "." + digits(0, 8); break;
    case 4: s += digits(1, 6) + "." + digits(0, 20) + r.pick(std::string("eE")) + r.pick(std::vector<std::string>{"", "+", "-"}) + digits(1, 3); break;
    case 5: s += r.pick(std::vector<std::string>{"inf", "INF", "nan", "NaN", "infinity", "Infinity", "nan(12)", "in", "na"}); break;
    case 6: s += r.pick(std::vector<std::string>{"0x1p3", "0x10", "0X1.8p-2", "0x", "0b1", "017"}); break;
    case 7: s += r.pick(std::vector<std::string>{"3.4028234663852886e38", "3.4028235677973366e38", "3.4028236e38", "1.7976931348623157e308", "1.7976931348623159e308", "1.18973149535723176502e4932", "1e4933", "1e39", "1e-45", "1e-46", "1e-400", "1e-5000", "0.000", "1.00000005960464477539062500000001", "16777217", "9007199254740993"}); break;
    case 8: s += r.pick(std::vector<std::string>{"", " ", "abc", ".", "+", "-", "e5", "--1", "+-1", "$", ",5", ".e1"}); break;
    case 9: s += "00000" + digits(0, 10); break;
    case 10: { char b[64]; std::snprintf(b, sizeof b, "%.*g", int(r.range(1, 17)), (r.unit() - 0.5) * std::pow(10.0, double(r.range(-40, 40)))); s += b; break; }
    default: s += digits(1, 4) + r.pick(std::vector<std::string>{"x", "e", "e+", ".5.5", "/2", ";", ",3", "_"}); break;
    }
    if (r.chance(0.4)) s += r.pick(std::vector<std::string>{" ", " 12", "\t-5 x", "\n", " abc", "  ", "\r"});
    return s;
}

// reference text functions
static std::string rtrim_r(std::string s) { while (!s.empty() && sp(s.back())) s.pop_back(); return s; }
static std::string ltrim_r(std::string s) { size_t i = 0; while (i < s.size() && sp(s[i])) ++i; return s.substr(i); }
static int sgn(int x) { return (x > 0) - (x < 0); }

static void views(vh::Rec& rec, std::string const& s, std::string const& t, v::Rng& r) {
    StringView a(s), b(t.data(), t.size());
    auto bad = [&](char const* what) { rec.viol("view", std::string(what) + " on " + q(s) + " and " + q(t)); };
    rec.count("view_checks");
    if (a.size() != s.size() || a.empty() != s.empty() || a.to_cpp_string() != s) return bad("size/content");
    if (std::string(a.begin(), a.end()) != s) return bad("iteration");
    for (size_t i = 0; i < s.size(); ++i) if (a[i] != s[i]) return bad("operator[]");
    if ((a == b) != (s == t) || (a != b) != (s != t)) return bad("equality");
    bool ascii = true;
    for (char c : s + t) if ((unsigned char)c > 127) ascii = false;
    if (ascii) {
        if (sgn(a.compare(b)) != sgn(s.compare(t))) return bad("compare");
        if ((a < b) != (s < t) || (a <= b) != (s <= t) || (a > b) != (s > t) || (a >= b) != (s >= t)) return bad("order");
    } else if (sgn(a.compare(b)) != -sgn(b.compare(a)) || (a.compare(b) == 0) != (s == t)) return bad("compare");
    size_t x = size_t(r.range(0, int64_t(s.size()))), y = size_t(r.range(int64_t(x), int64_t(s.size())));
    if (a.remove_prefix(x).to_cpp_string() != s.substr(x)) return bad("remove_prefix");
    if (a.remove_suffix(x).to_cpp_string() != s.substr(0, x)) return bad("remove_suffix");
    if (a.get_substr(x, y).to_cpp_string() != s.substr(x, y - x)) return bad("get_substr");
    char c  = s.empty() ? 'a' : s[size_t(r.range(0, int64_t(s.size()) - 1))];
    for (char w : {c, 'a', ' '}) {
        size_t f = s.find(w), l = s.rfind(w);
        auto   is = [w](char z) { return z == w; };
        if (a.find_first_true(is) != (f == std::string::npos ? s.size() : f)) return bad("find_first_true");
        if (a.find_last_true(is) != (l == std::string::npos ? s.size() : l)) return bad("find_last_true");
    }
    // blanks
    if (ltrim(a).to_cpp_string() != ltrim_r(s)) return bad("ltrim");
    if (rtrim(a).to_cpp_string() != rtrim_r(s)) return bad("rtrim");
    if (trim(a).to_cpp_string() != rtrim_r(ltrim_r(s))) return bad("trim");
    std::vector<std::string> words;
    std::string              w;
    for (char z : s) { if (sp(z)) { if (!w.empty()) words.push_back(w); w.clear(); } else w += z; }
    if (!w.empty()) words.push_back(w);
    auto parts = split(a);
    if (parts.size() != words.size()) return bad("split");
    for (size_t i = 0; i < words.size(); ++i) if (parts[i].to_cpp_string() != words[i]) return bad("split");
    if (a.to_cpp_string() != s) return bad("the view changed");
}

static std::string rnd_text(v::Rng& r, bool bytes) {
    std::string s;
    static std::string const al = "  \t\nab1-.,/\\xyZ\r\v\f:";
    for (int t = int(r.range(0, r.chance(0.1) ? 60 : 8)); t > 0; --t) s += bytes && r.chance(0.2) ? char(r.range(0, 255)) : r.pick(al);
    return s;
}

static void lines(vh::Rec& rec, v::Rng& r) {
    std::string text;
    for (int t = int(r.range(0, 12)); t > 0; --t) text += rnd_text(r, true) + (r.chance(0.7) ? "\n" : r.chance(0.3) ? "\r\n" : "");
    std::string path = rec.opt.dir + "/lines." + std::to_string(getpid());
    { FILE* f = std::fopen(path.c_str(), "wb"); if (!f) return; std::fwrite(text.data(), 1, text.size(), f); std::fclose(f); }
    std::vector<std::string> ref;
    size_t                   b = 0;
    while (b < text.size()) {
        size_t e = text.find('\n', b);
        ref.push_back(text.substr(b, e == std::string::npos ? std::string::npos : e - b));
        if (e == std::string::npos) break;
        b = e + 1;
    }
    {
        FileLineIterator it(path);
        for (size_t i = 0; i < ref.size(); ++i) {
            auto x = it.next().to_cpp_string(), y = rtrim_r(ltrim_r(ref[i]));
            if (x != y) { rec.viol("line", vh::fmtv("line %zu of %s is %s, expected %s", i, q(text).c_str(), q(x).c_str(), q(y).c_str())); break; }
        }
        for (int t = 0; t < 2; ++t) if (!it.next().empty()) { rec.viol("line", "a line after the end of " + q(text)); break; }
    }
    unlink(path.c_str());
    bool threw = false;
    try { FileLineIterator it(path); } catch (std::exception const&) { threw = true; }
    if (!threw) rec.viol("line", "a missing file was opened");
    rec.count("files_read");
    rec.count("lines_read", ref.size());
}

static void mode_c24(uint64_t k, vh::Rec& rec) {
    v::Rng r(v::mix(rec.opt.seed * 1000003 + 24, k));
    for (int t = 0; t < 20; ++t) {
        auto s      = gen_number(r);
        rec.context = q(s);
        numbers(rec, s);
        rec.distinct(v::hash_str(s));
        rec.sample(q(s), 3);
        rec.eval();
    }
    for (int t = 0; t < 20; ++t) {
        bool bytes  = r.chance(0.3);
        auto s      = rnd_text(r, bytes), u = r.chance(0.3) ? s : r.chance(0.5) ? s + rnd_text(r, bytes) : rnd_text(r, bytes);
        rec.context = q(s) + " " + q(u);
        views(rec, s, u, r);
        rec.distinct(v::hash_str("v" + s));
        rec.eval();
    }
    if (k % 4 == 0) lines(rec, r);
    // exhaustive short strings, shared among the first cases
    if (k < 256) {
        static std::string const al = " 1-.ae\t9";
        size_t n = al.size();
        for (size_t len = 0; len <= 4; ++len) {
            size_t tot = 1;
            for (size_t i = 0; i < len; ++i) tot *= n;
            for (size_t c = k; c < tot; c += 256) {
                std::string s;
                for (size_t i = 0, x = c; i < len; ++i, x /= n) s += al[x % n];
                rec.context = q(s);
                numbers(rec, s);
                views(rec, s, "1a", r);
                rec.count("exhaustive_short_strings");
            }
        }
    }
}
int main(int argc, char** argv) { return vh::run_main(argc, argv, mode_c24); }
