// flavour: asan
// C12: a histogram accounts for every value in the right bucket.
#include "mc.hpp"
#include "hx.hpp"
#include "utils/Histogram.hpp"
#include <memory>
typedef ::Histogram::Histogram H;
typedef std::vector<double> Vals;

static std::string list(const Vals &v) { std::string s; for (double d : v) { char b[32]; snprintf(b, sizeof b, "%s%g", s.empty() ? "" : ",", d); s += b; } return "[" + s + "]"; }
// what a generator was given, for the custom ones
static Vals g_given; static int g_calls, g_fail; static void *g_extra;
static int custom(const double *v, const size_t n, double **buckets, size_t *size, void *extra) {
    g_calls++; g_extra = extra; g_given.assign(v, v + n);
    if (g_fail > 0) { g_fail--; return HISTOGRAM_ERROR; }
    static const double B[] = {-0.5, 0, 0.25, 5}; *size = 4; *buckets = alloc_array<double>(5); for (int i = 0; i < 4; i++) (*buckets)[i] = B[i]; (*buckets)[4] = 12345; return HISTOGRAM_SUCCESS;
}
static int single(const double *v, const size_t n, double **buckets, size_t *size, void *extra) { g_calls++; g_extra = extra; g_given.assign(v, v + n); if (g_fail > 0) { g_fail--; return HISTOGRAM_ERROR; } *size = 1; *buckets = alloc_array<double>(2); (*buckets)[0] = 1; return HISTOGRAM_SUCCESS; }
struct Gen { const char *name; HistogramBucketGenerator_t f; void *extra; bool predefined; int buckets; };
static const Gen GENS[] = {
    {"10 buckets", histogram_n_buckets, (void *) 10, true, 10}, {"1 bucket", histogram_n_buckets, (void *) 1, true, 1}, {"3 buckets", histogram_n_buckets, (void *) 3, true, 3},
    {"square root", histogram_square_root_choice, nullptr, true, 0}, {"sturges", histogram_sturges_formula, nullptr, true, 0}, {"rice", histogram_rice_rule, nullptr, true, 0},
    {"scott", histogram_scotts_normal_reference_rule, nullptr, true, 0}, {"log10", histogram_uniform_logn, (void *) 10, true, 0}, {"log2", histogram_uniform_logn, (void *) 2, true, 0},
    {"custom", custom, (void *) 77, false, 4}, {"single", single, nullptr, false, 1},
};
static const int NGEN = sizeof GENS / sizeof *GENS;
struct Model {
    const Gen *g; std::size_t first_n; std::string name; Vals all; bool generated = false; Vals bounds; std::vector<std::size_t> counts; double top = 0; bool any = false; int fails = 0;
    bool cache_known = true;
    void place(double v) { std::size_t i = 0; while (i < bounds.size() && bounds[i] <= v) i++; if (!i) return; counts[i - 1]++; if (!any || v > top) top = v; any = true; }
};
static void read(H &h, Model &m, const char *when) {
    const char *n = nullptr; std::size_t nl = 0; std::string s;
    MC_CHECK(h.get_name(&n, &nl) == HISTOGRAM_SUCCESS && std::string(n, nl) == m.name && h.get_name(s) == HISTOGRAM_SUCCESS && s == m.name, "name", "%s: the name is '%s'", when, std::string(n, nl).c_str());
    std::size_t first = 99, size = 99, bsize = 99; double *cache = nullptr, *b = nullptr; std::size_t *c = nullptr;
    MC_CHECK(h.get_cache(&first, &cache, &size) == HISTOGRAM_SUCCESS, "get-cache", "%s: get_cache failed", when);
    MC_CHECK(first == m.first_n, "first-n", "%s: first_n is %zu, configured %zu", when, first, m.first_n);
    std::size_t want = std::min(m.first_n, m.all.size());
    MC_CHECK(size == want, "cache-size", "%s: %zu values cached after %zu of %zu", when, size, m.all.size(), m.first_n);
    double sum = 0; for (std::size_t i = 0; i < size; i++) sum += cache[i];      // all of it must be readable
    if (m.cache_known) for (std::size_t i = 0; i < size; i++) MC_CHECK(cache[i] == m.all[i], "cache-value", "%s: cached value %zu is %g, added %s (sum %g)", when, i, cache[i], list(m.all).c_str(), sum);
    int rc = h.get(&b, &c, &bsize); bool waiting = m.all.size() < m.first_n;
    MC_CHECK((rc == HISTOGRAM_SUCCESS) == !waiting, "get-status", "%s: get %s after %zu of %zu values", when, rc == HISTOGRAM_SUCCESS ? "succeeds" : "fails", m.all.size(), m.first_n);
    if (waiting) return;
    if (!m.generated) { MC_CHECK(bsize == 0, "buckets-from-nowhere", "%s: %zu buckets without a generator success", when, bsize); return; }
    MC_CHECK(bsize == m.bounds.size() && b && c, "bucket-count", "%s: %zu buckets, expected %zu", when, bsize, m.bounds.size());
    std::size_t total = 0;
    for (std::size_t i = 0; i < bsize; i++) { MC_CHECK(b[i] == m.bounds[i], "bucket-moved", "%s: bound %zu is %g, was %g", when, i, b[i], m.bounds[i]); MC_CHECK(c[i] == m.counts[i], "count", "%s: bucket %zu (from %g) counts %zu, expected %zu; values %s", when, i, b[i], c[i], m.counts[i], list(m.all).c_str()); total += c[i]; }
    if (m.any) MC_CHECK(b[bsize] == m.top, "upper-bound", "%s: the last bound is %g, the largest value %g", when, b[bsize], m.top);
    std::ostringstream os; h.print(os); MC_CHECK(os.str().find("has " + std::to_string(m.all.size()) + " values") != std::string::npos, "print", "%s: printed as %s", when, os.str().c_str());
}
static void generated(H &h, Model &m) {
    double *b = nullptr; std::size_t *c = nullptr, n = 0; h.get(&b, &c, &n); m.generated = true;
    MC_CHECK(n > 0 && b && c, "no-buckets", "%s generated no buckets from %s", m.g->name, list(m.all).c_str());
    if (m.g->buckets) MC_CHECK((int) n == m.g->buckets, "generator-count", "%s generated %zu buckets from %s", m.g->name, n, list(m.all).c_str());
    m.bounds.assign(b, b + n); m.counts.assign(n, 0);
    for (std::size_t i = 1; i < n; i++) MC_CHECK(b[i - 1] < b[i], "bounds-not-increasing", "%s from %s: bounds %s", m.g->name, list(m.all).c_str(), list(m.bounds).c_str());
    Vals first(m.all.begin(), m.all.begin() + std::min(m.first_n, m.all.size()));
    if (m.g->predefined) {
        double lo = *std::min_element(first.begin(), first.end()), hi = *std::max_element(first.begin(), first.end());
        MC_CHECK(b[0] == lo, "first-bound", "%s from %s: the first bound is %g", m.g->name, list(first).c_str(), b[0]);
        for (std::size_t i = 2; i < n; i++) MC_CHECK(std::fabs((b[i] - b[i - 1]) - (b[1] - b[0])) <= 1e-9 * (std::fabs(hi) + std::fabs(lo) + n * (b[1] - b[0])), "bucket-width", "%s from %s: bounds %s", m.g->name, list(first).c_str(), list(m.bounds).c_str());
        // n equal buckets reach the largest value
        if (n > 1 && hi > lo) MC_CHECK(b[0] + n * (b[1] - b[0]) >= hi - 1e-9 * (std::fabs(hi) + std::fabs(lo)), "buckets-too-narrow", "%s from %s: bounds %s", m.g->name, list(first).c_str(), list(m.bounds).c_str());
        if (!strcmp(m.g->name, "square root")) MC_CHECK(hi == lo || n == (std::size_t) std::sqrt((double) first.size()), "generator-count", "square root of %zu values: %zu buckets", first.size(), n);
    } else {
        MC_CHECK(g_given == first && g_extra == m.g->extra, "generator-arguments", "the generator was given %s, the first values are %s", list(g_given).c_str(), list(first).c_str());
    }
    for (double v : first) m.place(v);
    if (m.g->predefined) { std::size_t t = 0; for (auto x : m.counts) t += x; MC_CHECK(t == first.size(), "cached-values-lost", "%zu of %zu", t, first.size()); }
}
static void add(H &h, Model &m, double v) {
    mc::transition(); int calls = g_calls; bool fail_now = g_fail > 0; int rc = h.add(v); m.all.push_back(v);
    if (m.all.size() < m.first_n) { MC_CHECK(rc == HISTOGRAM_SUCCESS, "add-status", "add while waiting failed"); MC_CHECK(g_calls == calls, "generated-early", "the generator ran after %zu of %zu values", m.all.size(), m.first_n); }
    else if (!m.generated) {
        bool can = m.g->predefined ? m.first_n > 0 : !fail_now;
        MC_CHECK((rc == HISTOGRAM_SUCCESS) == can, "add-status", "add of value %zu (first_n %zu, %s) returned %d", m.all.size(), m.first_n, m.g->name, rc);
        if (!m.g->predefined) MC_CHECK(g_calls == calls + 1, "generator-calls", "the generator ran %d times", g_calls - calls);
        if (can) { generated(h, m); if (m.all.size() > m.first_n) m.place(v); }
    } else { MC_CHECK(rc == HISTOGRAM_SUCCESS, "add-status", "add failed"); MC_CHECK(g_calls == calls, "generated-again", "the generator ran again"); m.place(v); }
}
static std::unique_ptr<H> fresh(const Gen &g, std::size_t first_n, const std::string &name) { ::Histogram::Config c{first_n, g.f, g.extra}; return std::unique_ptr<H>(new H(c, name)); }
// serialise, check the size, restore into dst
static void restore(std::unique_ptr<H> &h, Model &m, std::unique_ptr<H> dst, int api) {
    if (!m.generated && m.first_n && m.all.size() >= m.first_n) mc::prune();    // see assumptions
    mc::transition(); std::size_t ps = h->pack_size(), size = 0; std::string bytes;
    if (api) {
        void *buf = nullptr; MC_CHECK(h->pack(&buf, &size) && buf && size == ps, "pack", "pack gave %zu bytes, pack_size %zu", size, ps); bytes.assign((char *) buf, size); dealloc(buf);
    } else {
        std::unique_ptr<char[]> b(new char[ps]); char *c = b.get(); std::size_t avail = ps, used = 0;
        if (ps) { char *c2 = b.get(); std::size_t less = ps - 1; MC_CHECK(!h->pack(c2, less, nullptr) && c2 == b.get() && less == ps - 1, "pack-too-small", "pack into %zu of %zu bytes succeeded", ps - 1, ps); }
        MC_CHECK(h->pack(c, avail, &used) && used == ps && c == b.get() + ps && avail == 0, "pack", "pack used %zu bytes, pack_size %zu, %zu left", used, ps, avail); bytes.assign(b.get(), ps);
    }
    std::unique_ptr<char[]> in(new char[bytes.size()]); memcpy(in.get(), bytes.data(), bytes.size());
    if (api) MC_CHECK(dst->unpack(in.get(), bytes.size()), "unpack", "unpack failed");
    else { char *c = in.get(); std::size_t avail = bytes.size(), used = 0; MC_CHECK(dst->unpack(c, avail, &used) && used == bytes.size() && c == in.get() + bytes.size(), "unpack", "unpack used %zu of %zu bytes", used, bytes.size()); }
    in.reset();                                         // nothing may refer to the buffer
    MC_CHECK(dst->pack_size() == ps, "pack-size-differs", "pack_size %zu, after restoring %zu", ps, dst->pack_size());
    void *again = nullptr; std::size_t as = 0; MC_CHECK(dst->pack(&again, &as) && as == bytes.size() && !memcmp(again, bytes.data(), as), "repack-differs", "the restored histogram serialises differently"); dealloc(again);
    if (m.all.size() >= m.first_n) m.cache_known = false;   // the cache is not kept once the buckets exist
    h = std::move(dst);
}
static const double ALPHA[] = {-3, -0.5, 0, 0.25, 1, 7};
static void sequences(int depth) {
    int gi = mc::choose(NGEN); std::size_t first = mc::choose(5); const Gen &g = GENS[gi];
    g_fail = g.predefined ? 0 : mc::choose(3); g_calls = 0;
    Model m; m.g = &g; m.first_n = first; m.name = gi % 2 ? "" : std::string("na\0me", 5);
    auto h = fresh(g, first, m.name); mc::note("%s, first_n %zu, %d failures", g.name, first, g_fail); read(*h, m, "new");
    for (int i = 0; i < depth; i++) {
        int c = mc::choose(10);
        if (c < 6) { mc::note("add %g", ALPHA[c]); add(*h, m, ALPHA[c]); }
        else if (c < 8) { mc::note("restore into a new one"); restore(h, m, fresh(g, first, "other"), c - 6); }
        else if (c == 8) { mc::note("restore into a used one"); auto d = fresh(g, 3, "used"); int f = g_fail; g_fail = 0; for (int j = 0; j < 4; j++) d->add(j); g_fail = f; restore(h, m, std::move(d), 0); }
        else { mc::note("clear"); h->clear(); m.first_n = 0; m.all.clear(); m.generated = false; m.any = false; m.cache_known = true; }
        read(*h, m, c < 6 ? "after add" : c < 9 ? "after restore" : "after clear");
    }
    std::string s = std::to_string(gi) + "," + std::to_string(first); for (auto x : m.counts) s += "," + std::to_string(x); mc::state(s); mc::outcome(std::to_string(m.generated) + std::to_string(m.counts.size()));
}
// longer series: every generator on enough values to give it several buckets
static void series() {
    int gi = mc::choose(NGEN), pat = mc::choose(12); std::size_t n = 1 + mc::choose(mc::thorough() ? 130 : 40); int extra = mc::choose(2); const Gen &g = GENS[gi];
    g_fail = 0; g_calls = 0; Model m; m.g = &g; m.first_n = n; m.name = "s"; auto h = fresh(g, n, m.name);
    for (std::size_t i = 0; i < 2 * n + 5; i++) {
        double v; switch (pat) { case 0: v = i; break; case 1: v = -(double) i; break; case 2: v = (i * 7) % 11; break; case 3: v = 5; break; case 4: v = i ? 1e3 * ((i * 3) % 5) : -1e3; break; case 5: v = 1e-3 * (i % 4); break; case 6: v = i < n ? -7.25 : -8 - (double) i; break;
            case 7: v = 0.1 * ((i * 13) % 17) - 0.8; break; case 8: v = (i % 2) ? 2 : 3; break; case 9: v = -1e5 - (double) (i % 3); break; case 10: v = (double) ((i * i) % 1000) / 7; break; default: v = i % 3 == 0 ? 0.0 : i % 3 == 1 ? -0.0 : 0.5; }
        add(*h, m, v); if (extra && i == n / 2) restore(h, m, fresh(g, n, ""), 1); if (extra && i == n + 2) restore(h, m, fresh(g, 1, ""), 0);
        if (i + 2 >= n && (i <= n + 4 || i % 16 == 0 || i + 1 == 2 * n + 5)) read(*h, m, "series");
    }
    mc::state(std::to_string(gi) + "," + std::to_string(pat) + "," + std::to_string(n));
}
// several histograms in one buffer, one after the other, in every combination of states
static void adjacent() {
    int n[3]; for (int &x : n) x = mc::choose(5); int gi = mc::choose(NGEN); const Gen &g = GENS[gi]; g_fail = 0; std::vector<std::unique_ptr<H>> h; std::vector<Model> m(3); std::string buf; std::size_t total = 0;
    for (int i = 0; i < 3; i++) { m[i].g = &g; m[i].first_n = 2; m[i].name = std::string(i, 'n'); h.push_back(fresh(g, 2, m[i].name)); for (int j = 0; j < n[i]; j++) add(*h[i], m[i], j * (i + 1)); total += h[i]->pack_size(); }
    std::unique_ptr<char[]> b(new char[total]); char *c = b.get(); std::size_t avail = total;
    for (int i = 0; i < 3; i++) MC_CHECK(h[i]->pack(c, avail, nullptr), "pack", "pack %d failed", i);
    MC_CHECK(c == b.get() + total && !avail, "pack", "%zu bytes left", avail);
    c = b.get(); avail = total; for (int i = 0; i < 3; i++) { auto d = fresh(g, 2, ""); MC_CHECK(d->unpack(c, avail, nullptr), "unpack", "unpack %d failed", i); if (m[i].all.size() >= 2) m[i].cache_known = false; read(*d, m[i], "from a shared buffer"); add(*d, m[i], 3); read(*d, m[i], "from a shared buffer and used"); }
    MC_CHECK(c == b.get() + total, "unpack", "unpack did not consume the buffer"); mc::state(std::to_string(n[0]) + std::to_string(n[1]) + std::to_string(n[2]));
}
int main(int argc, char **argv) {
    hx::clean_env();
    mc::E().property = "C12";
    mc::E().assumptions = {"finite values of moderate size (range not within 1e-6 above 1 for the logarithmic generators)", "a value below every bound is in no bucket", "a histogram whose generator failed is not serialised before it succeeds", "once the buckets exist the cached values themselves are not serialised"};
    mc::space("sequences", "11 generators x first_n 0..4 x generator failures 0..2 x all sequences of 5 of 6 values, 3 ways to serialise and restore, clear", [] { sequences(5); }).only_tier = 1;
    mc::space("series", "11 generators x 12 value patterns x first_n 1..40 (thorough 130) x with and without restoring", [] { series(); });
    mc::space("adjacent", "three histograms in one buffer, 0..4 values each", [] { adjacent(); });
    { mc::Space &s = mc::space("sequences-deep", "all sequences of 6", [] { sequences(6); }); s.only_tier = 2; s.budget_s = 1500; }
    return mc::run(argc, argv);
}
