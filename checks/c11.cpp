// flavour: asan
// C11: numeric encoding preserves order and value.
#include "hx.hpp"
#include "utils/elen.hpp"
#include "utils/elen.h"
#include <type_traits>
using namespace hx;

struct Sym { char neg, pos; };
static bool below(const std::string &a, const std::string &b) { return a < b; }   // byte-wise (unsigned)
template <typename T> static std::string str(T x) { char b[80]; if (std::is_floating_point<T>::value) snprintf(b, sizeof b, "%.17g", (double) x); else if (std::is_signed<T>::value) snprintf(b, sizeof b, "%lld", (long long) x); else snprintf(b, sizeof b, "%llu", (unsigned long long) x); return b; }

// ---- integers ---------------------------------------------------------------------------------
template <typename T> struct CApi;
#define CAPI(T) template <> struct CApi<T> { static char *enc(T v, char n, char p) { return elen_encode_##T(v, n, p); } static T dec(const char *s, size_t *l, char n, char p) { return elen_decode_##T(s, l, n, p); } };
CAPI(uint8_t) CAPI(uint16_t) CAPI(uint32_t) CAPI(uint64_t) CAPI(int8_t) CAPI(int16_t) CAPI(int32_t) CAPI(int64_t)
template <typename T> static std::string int_one(T v, Sym y, bool capi) {
    std::string e; T d = 0; std::size_t used = 777;
    try { e = elen::encode::integers<T>(v, y.neg, y.pos); } catch (std::exception &x) { mc::fail("int-encode-throws", "%s: %s", str(v).c_str(), x.what()); }
    try { d = elen::decode::integers<T>(e, &used, y.neg, y.pos); } catch (std::exception &x) { mc::fail("int-decode-throws", "%s -> '%s': %s", str(v).c_str(), show(e).c_str(), x.what()); }
    mc::transition();
    MC_CHECK(d == v, "int-roundtrip", "%s bytes: %s -> '%s' -> %s (symbols '%c' '%c')", std::to_string(sizeof(T)).c_str(), str(v).c_str(), show(e).c_str(), str(d).c_str(), y.neg, y.pos);
    if (v != 0) {
        MC_CHECK(used == e.size(), "int-prefix-length", "%s: the encoding '%s' has %zu characters, the decoder reports %zu", str(v).c_str(), show(e).c_str(), e.size(), used);
        std::string longer = e + "12" + y.neg + y.pos; used = 777; T d2 = 0;
        try { d2 = elen::decode::integers<T>(longer, &used, y.neg, y.pos); } catch (std::exception &x) { mc::fail("int-decode-throws", "'%s': %s", show(longer).c_str(), x.what()); }
        MC_CHECK(d2 == v && used == e.size(), "int-not-self-delimiting", "%s followed by other text decodes to %s with length %zu", str(v).c_str(), str(d2).c_str(), used);
    }
    if (capi) {
        char *c = CApi<T>::enc(v, y.neg, y.pos); std::string ce = c ? c : "(null)"; T cd = CApi<T>::dec(ce.c_str(), nullptr, y.neg, y.pos); free(c);
        MC_CHECK(ce == e && cd == v, "int-c-api", "%s: C gives '%s' -> %s, C++ '%s'", str(v).c_str(), show(ce).c_str(), str(cd).c_str(), show(e).c_str());
    }
    return e;
}
template <typename T> static void int_order(std::vector<T> v, Sym y, bool capi) {
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); std::string last;
    for (size_t i = 0; i < v.size(); i++) {
        std::string e = int_one<T>(v[i], y, capi);
        if (i) MC_CHECK(below(last, e), "int-order", "%zu bytes: %s < %s but '%s' is not before '%s'", sizeof(T), str(v[i - 1]).c_str(), str(v[i]).c_str(), show(last).c_str(), show(e).c_str());
        last = e;
    }
}
template <typename T> static std::vector<T> around(int radius) {
    std::vector<T> v; typedef std::numeric_limits<T> L; std::vector<T> c{T(0), L::min(), L::max()};
    for (T p = 1;; p *= 10) { c.push_back(p); c.push_back(T(0) - p); if (p > L::max() / 10) break; }
    for (T p = 1;; p *= 2) { c.push_back(p); c.push_back(T(0) - p); if (p > L::max() / 2) break; }
    for (T x : c) for (int r = -radius; r <= radius; r++) { __int128 w = (__int128) x + r; if (w >= (__int128) L::min() && w <= (__int128) L::max()) v.push_back((T) w); }
    return v;
}
template <typename T> static void all_ints(Sym y, int part, int parts) {
    long long lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(), n = hi - lo + 1, a = lo + n / parts * part, b = part == parts - 1 ? hi : lo + n / parts * (part + 1);
    std::string last; for (long long i = a; i <= b; i++) { std::string e = int_one<T>((T) i, y, false); if (i > a) MC_CHECK(below(last, e), "int-order", "%lld < %lld but '%s' is not before '%s'", i - 1, i, show(last).c_str(), show(e).c_str()); last = e; if (!(i & 0xffff)) mc::beat(); }
}
static void small_ints() { static const Sym S[] = {{'/', ':'}, {'\x01', ':'}, {'-', 'A'}, {'!', '~'}}; int s = mc::choose(4), t = mc::choose(4), part = mc::choose(16);
    switch (t) { case 0: all_ints<int8_t>(S[s], part, 16); break; case 1: all_ints<uint8_t>(S[s], part, 16); break; case 2: all_ints<int16_t>(S[s], part, 16); break; default: all_ints<uint16_t>(S[s], part, 16); }
    mc::state("si" + std::to_string(s) + "," + std::to_string(t) + "," + std::to_string(part)); }
static void boundary_ints() { static const Sym S[] = {{'/', ':'}, {'\x01', ':'}, {'-', 'A'}}; int s = mc::choose(3), t = mc::choose(8), r = 150;
    switch (t) { case 0: int_order(around<int8_t>(r), S[s], true); break; case 1: int_order(around<uint8_t>(r), S[s], true); break; case 2: int_order(around<int16_t>(r), S[s], true); break; case 3: int_order(around<uint16_t>(r), S[s], true); break;
        case 4: int_order(around<int32_t>(r), S[s], true); break; case 5: int_order(around<uint32_t>(r), S[s], true); break; case 6: int_order(around<int64_t>(r), S[s], true); break; default: int_order(around<uint64_t>(r), S[s], true); }
    mc::state("bi" + std::to_string(s) + "," + std::to_string(t)); }
static void wide_ints(long long step) {   // the whole 32-bit range, every step-th value
    int u = mc::choose(2), part = mc::choose(256); long long n = 1LL << 32, a = n / 256 * part, b = a + n / 256; Sym y{'/', ':'}; std::string last; bool first = true;
    for (long long i = a; i <= b && i < n; i += step) { std::string e = u ? int_one<uint32_t>((uint32_t) i, y, false) : int_one<int32_t>((int32_t) (i - (1LL << 31)), y, false); if (!first) MC_CHECK(below(last, e), "int-order", "value %lld of the range is not after the one before", i); last = e; first = false; if (!(i & 0x3fff)) mc::beat(); }
    mc::state("wi" + std::to_string(u) + "," + std::to_string(part));
}
// ---- floating point ---------------------------------------------------------------------------
enum Form { FLOATING, SMALL, LARGE };
template <typename T> static char *c_enc(Form f, T v, int p, Sym y);
template <> char *c_enc<float>(Form f, float v, int p, Sym y) { return f == FLOATING ? elen_encode_float(v, p, y.neg, y.pos) : f == SMALL ? elen_encode_small_float(v, p, y.neg, y.pos) : elen_encode_large_float(v, p, y.neg, y.pos); }
template <> char *c_enc<double>(Form f, double v, int p, Sym y) { return f == FLOATING ? elen_encode_double(v, p, y.neg, y.pos) : f == SMALL ? elen_encode_small_double(v, p, y.neg, y.pos) : elen_encode_large_double(v, p, y.neg, y.pos); }
static void c_dec(Form f, float &v, const char *s, Sym y) { v = f == FLOATING ? elen_decode_float(s, y.neg, y.pos) : f == SMALL ? elen_decode_small_float(s, y.neg, y.pos) : elen_decode_large_float(s, y.neg, y.pos); }
static void c_dec(Form f, double &v, const char *s, Sym y) { v = f == FLOATING ? elen_decode_double(s, y.neg, y.pos) : f == SMALL ? elen_decode_small_double(s, y.neg, y.pos) : elen_decode_large_double(s, y.neg, y.pos); }
template <typename T> static long double tolerance(Form f, T v, int p) {
    long double unit = powl(10, -p), ulp = 8 * (long double) std::numeric_limits<T>::epsilon() * fabsl(v) + 2 * (long double) std::numeric_limits<T>::denorm_min();
    if (f == FLOATING) return 16 * unit * fabsl(v) + ulp;   // the mantissa is at least 10^-1.5 and is rounded to p digits
    return unit * (f == SMALL ? 1 : 0.51L) + ulp;           // p digits after the decimal point
}
static const char *FORM[] = {"floating", "small", "large"};
template <typename T> static std::string fp_one(Form f, T v, int p, Sym y, bool capi) {
    std::string e; T d = 0; mc::transition();
    try { e = f == FLOATING ? elen::encode::floating_point<T>(v, p, y.neg, y.pos) : f == SMALL ? elen::encode::small_decimals<T>(v, p, y.neg, y.pos) : elen::encode::large_decimals<T>(v, p, y.neg, y.pos); } catch (std::exception &x) { mc::fail(std::string(FORM[f]) + "-encode-throws", "%s: %s", str(v).c_str(), x.what()); }
    try { d = f == FLOATING ? elen::decode::floating_point<T>(e, y.neg, y.pos) : f == SMALL ? elen::decode::small_decimals<T>(e, y.neg, y.pos) : elen::decode::large_decimals<T>(e, y.neg, y.pos); } catch (std::exception &x) { mc::fail(std::string(FORM[f]) + "-decode-throws", "%s -> '%s': %s", str(v).c_str(), show(e).c_str(), x.what()); }
    MC_CHECK(std::isfinite(d) && fabsl((long double) d - v) <= tolerance(f, v, p), std::string(FORM[f]) + "-roundtrip", "%zu bytes, precision %d: %s -> '%s' -> %s", sizeof(T), p, str(v).c_str(), show(e).c_str(), str(d).c_str());
    if (capi) { char *c = c_enc<T>(f, v, p, y); std::string ce = c ? c : "(null)"; free(c); T cd; c_dec(f, cd, ce.c_str(), y); MC_CHECK(ce == e && cd == d, std::string(FORM[f]) + "-c-api", "%s: C gives '%s' -> %s, C++ '%s'", str(v).c_str(), show(ce).c_str(), str(cd).c_str(), show(e).c_str()); }
    return e;
}
template <typename T> static void fp_order(Form f, std::vector<T> v, int p, Sym y, bool capi) {
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); std::string last;
    for (size_t i = 0; i < v.size(); i++) {
        std::string e = fp_one<T>(f, v[i], p, y, capi); if (!(i & 0x3fff)) mc::beat();
        if (i) {
            MC_CHECK(!below(e, last), std::string(FORM[f]) + "-order", "%zu bytes, precision %d: %s < %s but '%s' is after '%s'", sizeof(T), p, str(v[i - 1]).c_str(), str(v[i]).c_str(), show(last).c_str(), show(e).c_str());
            if ((long double) v[i] - v[i - 1] > tolerance(f, v[i], p) + tolerance(f, v[i - 1], p)) MC_CHECK(last != e, std::string(FORM[f]) + "-merged", "precision %d: %s and %s are both '%s'", p, str(v[i - 1]).c_str(), str(v[i]).c_str(), show(e).c_str());
        }
        last = e;
    }
}
template <typename T> static void push_near(std::vector<T> &v, T x, int r) { T a = x, b = x; for (int i = 0; i <= r; i++) { for (T y : {a, b}) if (std::isfinite(y)) { v.push_back(y); v.push_back(-y); } a = std::nextafter(a, std::numeric_limits<T>::infinity()); b = std::nextafter(b, -std::numeric_limits<T>::infinity()); } }
template <typename T> static std::vector<T> decades(int r) {
    std::vector<T> v; typedef std::numeric_limits<T> L;
    for (long double m : {1.0L, 2.0L, 3.0L, 3.1622776601683793L, 3.17L, 5.0L, 9.0L, 9.9L, 9.9999999L, 9.99999999999999L}) for (int e = L::min_exponent10 - L::digits10 - 1; e <= L::max_exponent10; e++) { long double x = m * powl(10, e); if (x <= (long double) L::max()) push_near<T>(v, (T) x, r); }
    for (T x : {T(0), L::max(), L::min(), L::denorm_min(), L::epsilon(), T(1), T(0.1), T(0.5), T(0.25)}) push_near<T>(v, x, r + 3);
    return v;
}
static void float_grid(int bits) {  // all exponents and signs x all values of the top mantissa bits x 3 patterns of the others
    int part = mc::choose(64); std::vector<float> v;
    for (uint32_t hi = 0; hi < (1u << (9 + bits)); hi++) { if ((int) (hi >> (3 + bits)) != part) continue; for (uint32_t lo : {0u, 1u, (1u << (23 - bits)) - 1}) { float x = as<float>(raw<uint32_t>((hi << (23 - bits)) | lo)); if (std::isfinite(x)) v.push_back(x); } }
    fp_order<float>(FLOATING, v, 8, {'\x01', ':'}, false); mc::state("fg" + std::to_string(part));
}
static void double_grid(int bits) {
    int part = mc::choose(64); std::vector<double> v;
    for (uint64_t hi = 0; hi < (1ull << (12 + bits)); hi++) { if ((int) (hi >> (6 + bits)) != part) continue; for (uint64_t lo : {0ull, 1ull, (1ull << (52 - bits)) - 1}) { double x = as<double>(raw<uint64_t>((hi << (52 - bits)) | lo)); if (std::isfinite(x)) v.push_back(x); } }
    fp_order<double>(FLOATING, v, 16, {'\x01', ':'}, false); mc::state("dg" + std::to_string(part));
}
static void precisions() {
    int p = 1 + mc::choose(20), d = mc::choose(2), s = mc::choose(3); static const Sym S[] = {{'/', ':'}, {'\x01', ':'}, {'-', 'A'}};
    if (d) fp_order<double>(FLOATING, decades<double>(p == 16 ? 2 : mc::thorough() ? 1 : 0), p, S[s], p % 4 == 0); else fp_order<float>(FLOATING, decades<float>(p == 8 ? 3 : 1), p, S[s], p % 4 == 0);
    mc::state("p" + std::to_string(p) + "," + std::to_string(d));
}
template <typename T> static void decimals(Form f, int p, Sym y) {
    std::vector<T> v; int steps = 3000;
    for (int i = -steps; i <= steps; i++) v.push_back(T(i) / T(steps + 1));
    for (int e = 0; e <= p + 2; e++) for (int k = 1; k <= 19; k++) { T x = T(k * powl(10, -e) / 2); if (x < 1) push_near<T>(v, x, 2); T z = T(1 - k * powl(10, -e) / 2); if (z > 0 && z < 1) push_near<T>(v, z, 1); }
    push_near<T>(v, std::nextafter(T(1), T(0)), 3); push_near<T>(v, T(0), 3);
    v.erase(std::remove_if(v.begin(), v.end(), [](T x) { return std::fabs(x) >= 1; }), v.end());
    if (f == LARGE) { for (int i = -40; i <= 40; i++) for (int j = 0; j <= 16; j++) v.push_back(T(i) + T(j) / 16); for (int e = 0; e < 19; e++) for (int k : {1, 2, 5, 9}) { T x = T(k * powl(10, e)); push_near<T>(v, x, 2); v.push_back(x + T(0.5)); v.push_back(x - T(0.5)); }
        for (long double x : {2147483647.0L, 2147483648.0L, 4294967296.0L, 9007199254740992.0L, 9223372036854775808.0L, 1e18L, 1.8446744073709551616e19L, 1e25L, 3e38L}) push_near<T>(v, T(x), 2); 
        push_near<T>(v, std::numeric_limits<T>::max(), 2); }
    fp_order<T>(f, v, p, y, p % 4 == 0);
}
static void fixed_forms() { int p = 1 + mc::choose(17); if (!mc::thorough() && p > 2 && p % 4) return; int d = mc::choose(2), f = mc::choose(2), s = mc::choose(2); static const Sym S[] = {{'/', ':'}, {'\x01', 'A'}};
    if (d) decimals<double>(f ? LARGE : SMALL, p, S[s]); else decimals<float>(f ? LARGE : SMALL, p, S[s]); mc::state("ff" + std::to_string(p) + "," + std::to_string(d) + "," + std::to_string(f)); }
// every permitted pair of symbols: one below the digits, one above
static void symbols() {
    int n = 1 + mc::choose('0' - 1); std::vector<double> v; for (double x : {1.0, 9.0, 10.0, 3.16, 3.17, 0.001, 123456.789, 1e-20, 1e20, 1e99, 1e-99, 0.5}) { v.push_back(x); v.push_back(-x); } v.push_back(0);
    std::vector<double> sm; for (double x : v) if (std::fabs(x) < 1) sm.push_back(x);
    std::vector<double> lg; for (double x : v) if (std::fabs(x) < 1e9) lg.push_back(x);
    for (int p = '9' + 1; p < 128; p++) { bool capi = p % 8 == 0; Sym y{(char) n, (char) p}; std::vector<int64_t> i{0, INT64_MIN, INT64_MAX}; for (int64_t x = 1; x < 1000000000000000000LL; x *= 10) for (int64_t z : {x - 1, x, x + 1, x * 5}) { i.push_back(z); i.push_back(-z); } int_order<int64_t>(i, y, capi); fp_order<double>(FLOATING, v, 16, y, capi); fp_order<double>(SMALL, sm, 16, y, capi); fp_order<double>(LARGE, lg, 10, y, capi); }
    mc::state("y" + std::to_string(n));
}
// ---- through the store ------------------------------------------------------------------------
template <typename T> static V val(T x, hxhim_data_t t) { V v; v.b = raw(x); v.t = t; return v; }
template <typename T> static std::vector<T> every(const std::vector<T> &v, size_t n) { std::vector<T> s(v); std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); std::vector<T> r; size_t step = s.size() / n + 1; for (size_t i = 0; i < s.size(); i += step) r.push_back(s[i]); if (r.back() != s.back()) r.push_back(s.back()); return r; }
template <typename T> static void store_type(Session &x, std::vector<T> v, hxhim_data_t t, int prec, int where) {
    std::sort(v.begin(), v.end()); bool fp = std::is_floating_point<T>::value;
    if (fp) { std::vector<T> w; for (T y : v) if (w.empty() || (long double) y - w.back() > 2 * tolerance<T>(FLOATING, y, prec) + 2 * tolerance<T>(FLOATING, w.back(), prec)) w.push_back(y); v = w; }
    auto close = [&](const V &got, T want) { if (got.t != t || got.b.size() != sizeof(T)) return false; T g = as<T>(got.b); return fp ? fabsl((long double) g - (long double) want) <= tolerance<T>(FLOATING, want, prec) : g == want; };
    std::vector<T> shuffled; for (size_t i = 0; i < v.size(); i++) shuffled.push_back(v[(i * 7919) % v.size()]);
    if (v.size() % 7919 == 0) shuffled = v;
    for (T y : shuffled) { V n = val(y, t); HX_QUEUED(where == 0 ? x.put(n, B("p"), n) : where == 1 ? x.put(B("s"), n, n) : x.put(n, n, n), "put"); }
    for (auto &r : x.flush_puts()) MC_CHECK(r.ok(), "store-put-failed", "%s", show(r).c_str());
    // reads by exact key
    for (T y : v) { V n = val(y, t); HX_QUEUED(where == 0 ? x.get(n, B("p"), t) : where == 1 ? x.get(B("s"), n, t) : x.get(n, n, t), "get"); }
    Recs r = x.flush_gets(); MC_CHECK(r.size() == v.size(), "store-get-count", "%zu results for %zu GETs", r.size(), v.size());
    for (size_t i = 0; i < r.size(); i++) { mc::transition(); MC_CHECK(r[i].ok(), "store-get-failed", "GET of key %s failed", str(v[i]).c_str()); MC_CHECK(close(r[i].o, v[i]), "store-value", "%s came back as %s", str(v[i]).c_str(), show(r[i].o).c_str()); }
    // walking the datastore visits the numbers in numeric order
    HX_QUEUED(x.getop(where == 1 ? B("s") : val(v[0], t), V(), t, v.size() + 5, HXHIM_GETOP_FIRST), "getop"); r = x.flush_getops();
    MC_CHECK(r.size() == v.size(), "store-walk-count", "walk of %zu keys gave %zu records", v.size(), r.size());
    for (size_t i = 0; i < r.size(); i++) { const V &k = where == 1 ? r[i].p : r[i].s; MC_CHECK(r[i].ok() && close(k, v[i]) && close(r[i].o, v[i]), "store-order", "record %zu of the walk is %s, expected %s", i, show(r[i]).c_str(), str(v[i]).c_str()); }
    mc::state("st" + std::to_string(t) + "," + std::to_string(where));
}
static void store() {
    int t = mc::choose(6), where = mc::choose(3), c = mc::choose(3), backend = mc::choose(mc::thorough() ? 3 : 2);
    Opt o; o.backend = backend; o.dir = mc::fresh_dir("db"); static const Sym S[] = {{'/', ':'}, {'\x01', ':'}, {'-', 'z'}}; o.neg = S[c].neg; o.pos = S[c].pos; o.fprec = c == 2 ? 6 : 8; o.dprec = c == 2 ? 12 : 16;
    fmpi::reset(1, true); Session x; x.start(o);
    switch (t) { case 0: store_type<int32_t>(x, every(around<int32_t>(1), 300), HXHIM_DATA_INT32, 0, where); break; case 1: store_type<int64_t>(x, every(around<int64_t>(1), 500), HXHIM_DATA_INT64, 0, where); break;
        case 2: store_type<uint32_t>(x, every(around<uint32_t>(1), 300), HXHIM_DATA_UINT32, 0, where); break; case 3: store_type<uint64_t>(x, every(around<uint64_t>(1), 500), HXHIM_DATA_UINT64, 0, where); break;
        case 4: store_type<float>(x, every(decades<float>(1), 500), HXHIM_DATA_FLOAT, o.fprec, where); break; default: store_type<double>(x, every(decades<double>(1), 1500), HXHIM_DATA_DOUBLE, o.dprec, where); }
    x.close();
}
int main(int argc, char **argv) {
    clean_env();
    mc::E().property = "C11";
    mc::E().assumptions = {"permitted symbols: the negative one below and the positive one above the digits in ASCII", "precision at least 1", "tolerance: the p-th digit of the mantissa (scaled to 10^-1.5..10^-0.5) or after the point, plus 8 ulp"};
    mc::space("small-ints", "every 8 and 16 bit integer, signed and unsigned, 4 symbol pairs", [] { small_ints(); });
    mc::space("boundary-ints", "150 around 0, the extremes and every power of 2 and 10, all widths, C and C++ interfaces", [] { boundary_ints(); });
    mc::space("wide-ints", "every 1009th of all 32 bit integers", [] { wide_ints(1009); }).only_tier = 1;
    mc::space("wide-ints-deep", "every 7th of all 32 bit integers, signed and unsigned", [] { wide_ints(7); }).only_tier = 2;
    mc::space("float-grid", "all signs, exponents and 7 top mantissa bits x 3 patterns of the others", [] { float_grid(7); }).only_tier = 1;
    mc::space("float-grid-deep", "all signs, exponents and 14 top mantissa bits x 3 patterns of the others", [] { float_grid(14); }).only_tier = 2;
    mc::space("double-grid", "all signs, exponents and 5 top mantissa bits x 3 patterns of the others", [] { double_grid(5); }).only_tier = 1;
    mc::space("double-grid-deep", "all signs, exponents and 11 top mantissa bits x 3 patterns of the others", [] { double_grid(11); }).only_tier = 2;
    mc::space("precisions", "precisions 1..20 on the neighbourhoods of 10 mantissas in every decade including the subnormal ones, C and C++", [] { precisions(); });
    mc::space("fixed-forms", "small and large decimals, precisions 1, 2, 4, 8, 12, 16 (thorough: 1..17): dense grids, neighbourhoods of powers of ten and halves, magnitudes up to the largest number", [] { fixed_forms(); });
    mc::space("symbols", "every pair of permitted symbols (47 x 70)", [] { symbols(); });
    mc::space("store", "6 types as subject, predicate, both and object x 3 settings in the in-memory and LevelDB (thorough: RocksDB) datastores", [] { store(); });
    return mc::run(argc, argv);
}
