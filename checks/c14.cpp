// flavour: asan
// C14: messages survive serialisation unchanged.
#include "mc.hpp"
#include "hx.hpp"
#include "datastore/InMemory.hpp"
#include "datastore/constants.hpp"
#include "message/Messages.hpp"
#include "message/Packer.hpp"
#include "message/Unpacker.hpp"
#include <climits>
#include <memory>
namespace M = Message;
namespace Q = Message::Request;
namespace R = Message::Response;

static std::string LONG;
struct Fld { const char *p; std::size_t n; hxhim_data_t t; };
static Fld F[7];
static void fields() {
    for (int i = 0; i < 300; i++) LONG += (char) (i * 7);
    F[0] = {nullptr, 0, HXHIM_DATA_BYTE}; F[1] = {"", 0, HXHIM_DATA_BYTE}; F[2] = {"\0", 1, HXHIM_DATA_POINTER}; F[3] = {"ab\xff", 3, HXHIM_DATA_BYTE};
    F[4] = {"\0\0\0\0\0\0\xf0\xbf", 8, HXHIM_DATA_DOUBLE}; F[5] = {LONG.data(), LONG.size(), (hxhim_data_t) 1000}; F[6] = {nullptr, 0, HXHIM_DATA_INVALID};
}
static Blob ref(const Fld &f) { return ReferenceBlob((void *) f.p, f.n, f.t); }
static std::string sh(const Fld &f) { return (f.p ? std::to_string(f.n) : std::string("null")) + "b:" + std::to_string((int) f.t); }
static void same_blob(const Blob &b, const Fld &f, const char *what, bool owned = true) {
    MC_CHECK(b.size() == f.n, "length", "%s: %zu bytes arrived, %zu sent", what, b.size(), f.n);
    MC_CHECK(b.data_type() == f.t, "type", "%s: type %d arrived, %d sent", what, (int) b.data_type(), (int) f.t);
    MC_CHECK(!f.n || (b.data() && !memcmp(b.data(), f.p, f.n)), "bytes", "%s: different bytes arrived", what);
    if (owned && f.n) { MC_CHECK(b.data() != f.p, "not-copied", "%s refers to the sender's memory", what); MC_CHECK(b.will_clean(), "not-owned", "%s does not own its bytes", what); }
}
static void same_ref(const Blob &b, const Fld &f, const char *what) {
    MC_CHECK(b.data() == f.p && b.size() == f.n && b.data_type() == f.t, "original-reference", "%s: (%p,%zu,%d) arrived, (%p,%zu,%d) sent", what, b.data(), b.size(), (int) b.data_type(), (void *) f.p, f.n, (int) f.t);
    MC_CHECK(!b.will_clean(), "owns-reference", "%s claims to own the original", what);
}
static const int ADDR[][2] = {{0, 0}, {-1, INT_MAX}, {7, 300}};
static const int STAT[] = {DATASTORE_SUCCESS, DATASTORE_ERROR, DATASTORE_UNSET, -1};
template <typename T> struct Base { typedef Q::Request B; };
template <> struct Base<R::BPut> { typedef R::Response B; }; template <> struct Base<R::BGet> { typedef R::Response B; }; template <> struct Base<R::BGetOp> { typedef R::Response B; };
template <> struct Base<R::BDelete> { typedef R::Response B; }; template <> struct Base<R::BHistogram> { typedef R::Response B; };
// serialise src every way, check the announced size, restore every way; returns the restored messages
template <typename T> static void round_trip(T &src, const std::function<void(T &)> &check) {
    typedef typename Base<T>::B BT;
    const std::size_t want = src.size(); mc::transition();
    void *buf = nullptr; std::size_t size = 0;
    MC_CHECK(M::Packer::pack(&src, &buf, &size) == MESSAGE_SUCCESS && buf, "pack", "pack failed");
    MC_CHECK(size == want, "announced-size", "pack produced %zu bytes, size() is %zu", size, want);
    // into memory that is provided, of exactly the announced size, twice: bytes that are not written differ
    std::unique_ptr<char[]> a(new char[want]), b(new char[want]); memset(a.get(), 0x55, want); memset(b.get(), 0xaa, want);
    void *pa = a.get(), *pb = b.get(); std::size_t sa = 0, sb = 0;
    MC_CHECK(M::Packer::pack(static_cast<BT *>(&src), &pa, &sa) == MESSAGE_SUCCESS && M::Packer::pack(&src, &pb, &sb) == MESSAGE_SUCCESS && pa == a.get() && pb == b.get() && sa == want && sb == want, "pack-in-place", "pack into provided memory failed");
    for (std::size_t i = 0; i < want; i++) MC_CHECK(a[i] == b[i], "announced-size", "byte %zu of the %zu announced bytes is never written", i, want);
    MC_CHECK(!memcmp(a.get(), buf, want), "pack-differs", "two serialisations of one message differ");
    T *typed = nullptr; BT *base = nullptr;
    MC_CHECK(M::Unpacker::unpack(&typed, buf, size) == MESSAGE_SUCCESS && typed, "unpack", "typed unpack failed");
    MC_CHECK(M::Unpacker::unpack(&base, a.get(), want) == MESSAGE_SUCCESS && base, "unpack", "unpack by kind failed");
    dealloc(buf); a.reset(); b.reset();
    T *both[2] = {typed, dynamic_cast<T *>(base)};
    for (T *m : both) {
        MC_CHECK(m, "kind", "unpacked as another kind");
        MC_CHECK(m->direction == src.direction && m->op == src.op && m->src == src.src && m->dst == src.dst, "header", "kind %d/%d from %d to %d arrived as %d/%d from %d to %d", src.direction, src.op, src.src, src.dst, m->direction, m->op, m->src, m->dst);
        MC_CHECK(m->count == src.count && m->filled() == src.count, "count", "%zu items arrived, %zu sent", m->count, src.count);
        check(*m);
    }
    destruct(typed); destruct(base);
}
struct Sp { int s, p; };
static int nitems(int max) { return mc::choose(max + 1); }
static void header(M::Message &m, int a) { m.src = ADDR[a][0]; m.dst = ADDR[a][1]; }
#define COMMON(T) int hdr = n > 1 ? n % 3 : mc::choose(3), extra = mc::choose(2); T m(n + extra * 2); header(m, hdr)
static int pick(int k) { return mc::choose(k); }

static void req_put(int max, int k) {
    int n = nitems(max); std::vector<int> s(n), p(n), o(n); for (int i = 0; i < n; i++) { s[i] = pick(k); p[i] = pick(k); o[i] = pick(k); }
    COMMON(Q::BPut); for (int i = 0; i < n; i++) m.add(ref(F[s[i]]), ref(F[p[i]]), ref(F[o[i]]));
    mc::note("request PUT, %d items", n); for (int i = 0; i < n; i++) mc::note("%s %s %s", sh(F[s[i]]).c_str(), sh(F[p[i]]).c_str(), sh(F[o[i]]).c_str());
    round_trip<Q::BPut>(m, [&](Q::BPut &u) { for (int i = 0; i < n; i++) { same_blob(u.subjects[i], F[s[i]], "subject"); same_blob(u.predicates[i], F[p[i]], "predicate"); same_blob(u.objects[i], F[o[i]], "object"); MC_CHECK(u.orig.subjects[i] == F[s[i]].p && u.orig.predicates[i] == F[p[i]].p, "original-reference", "original addresses differ"); } });
}
static void req_get(int max, int k) {
    int n = nitems(max); std::vector<int> s(n), p(n), o(n); for (int i = 0; i < n; i++) { s[i] = pick(k); p[i] = pick(k); o[i] = pick(3); }
    COMMON(Q::BGet); for (int i = 0; i < n; i++) m.add(ref(F[s[i]]), ref(F[p[i]]), F[o[i] + 3].t);
    mc::note("request GET, %d items", n);
    round_trip<Q::BGet>(m, [&](Q::BGet &u) { for (int i = 0; i < n; i++) { same_blob(u.subjects[i], F[s[i]], "subject"); same_blob(u.predicates[i], F[p[i]], "predicate"); MC_CHECK(u.object_types[i] == F[o[i] + 3].t, "object-type", "object type %d", (int) u.object_types[i]); MC_CHECK(u.orig.subjects[i] == F[s[i]].p && u.orig.predicates[i] == F[p[i]].p, "original-reference", "original addresses differ"); } });
}
static void req_getop(int max, int k) {
    static const std::size_t NR[] = {0, 1, 5, SIZE_MAX};
    int n = nitems(max); std::vector<int> s(n), p(n), op(n), o(n), r(n); for (int i = 0; i < n; i++) { op[i] = pick(7); s[i] = pick(k); p[i] = pick(k); o[i] = pick(2); r[i] = pick(n > 1 ? 2 : 4); }
    COMMON(Q::BGetOp); for (int i = 0; i < n; i++) m.add(ref(F[s[i]]), ref(F[p[i]]), F[o[i] + 4].t, NR[r[i]], (hxhim_getop_t) op[i]);
    mc::note("request GETOP, %d items", n); for (int i = 0; i < n; i++) mc::note("op %d %s %s x%zu", op[i], sh(F[s[i]]).c_str(), sh(F[p[i]]).c_str(), NR[r[i]]);
    round_trip<Q::BGetOp>(m, [&](Q::BGetOp &u) { for (int i = 0; i < n; i++) { MC_CHECK(u.ops[i] == op[i], "operator", "operator %d", u.ops[i]); MC_CHECK(u.num_recs[i] == NR[r[i]], "record-count", "%zu records", u.num_recs[i]); MC_CHECK(u.object_types[i] == F[o[i] + 4].t, "object-type", "object type %d", (int) u.object_types[i]);
        if (op[i] != HXHIM_GETOP_FIRST && op[i] != HXHIM_GETOP_LAST) { same_blob(u.subjects[i], F[s[i]], "subject"); same_blob(u.predicates[i], F[p[i]], "predicate"); } } });
}
static void req_del(int max, int k) {
    int n = nitems(max); std::vector<int> s(n), p(n); for (int i = 0; i < n; i++) { s[i] = pick(k); p[i] = pick(k); }
    COMMON(Q::BDelete); for (int i = 0; i < n; i++) m.add(ref(F[s[i]]), ref(F[p[i]]));
    mc::note("request DELETE, %d items", n);
    round_trip<Q::BDelete>(m, [&](Q::BDelete &u) { for (int i = 0; i < n; i++) { same_blob(u.subjects[i], F[s[i]], "subject"); same_blob(u.predicates[i], F[p[i]], "predicate"); MC_CHECK(u.orig.subjects[i] == F[s[i]].p && u.orig.predicates[i] == F[p[i]].p, "original-reference", "original addresses differ"); } });
}
static void req_hist(int max, int k) {
    int n = nitems(max); std::vector<int> s(n); for (int i = 0; i < n; i++) s[i] = pick(k);
    COMMON(Q::BHistogram); for (int i = 0; i < n; i++) m.add(ref(F[s[i]]));
    mc::note("request HISTOGRAM, %d items", n);
    round_trip<Q::BHistogram>(m, [&](Q::BHistogram &u) { for (int i = 0; i < n; i++) { Fld f = F[s[i]]; f.t = u.names[i].data_type(); same_blob(u.names[i], f, "name"); } });   // the type of a name is not transmitted
}
template <typename T> static void res_sp(int max, int k) {
    int n = nitems(max); std::vector<int> s(n), p(n), st(n); for (int i = 0; i < n; i++) { s[i] = pick(k); p[i] = pick(k); st[i] = STAT[pick(4)]; }
    COMMON(T); for (int i = 0; i < n; i++) m.add(ref(F[s[i]]), ref(F[p[i]]), st[i]);
    mc::note("response %d, %d items", (int) m.op, n);
    round_trip<T>(m, [&](T &u) { for (int i = 0; i < n; i++) { MC_CHECK(u.statuses[i] == st[i], "status", "status %d arrived, %d sent", u.statuses[i], st[i]); same_ref(u.orig.subjects[i], F[s[i]], "subject"); same_ref(u.orig.predicates[i], F[p[i]], "predicate"); } });
}
static void res_get(int max, int k) {
    int n = nitems(max); std::vector<int> s(n), p(n), o(n), st(n); for (int i = 0; i < n; i++) { s[i] = pick(k); p[i] = n > 1 ? (s[i] + 1 + pick(2)) % k : pick(k); o[i] = pick(k); st[i] = STAT[pick(3)]; }
    COMMON(R::BGet); for (int i = 0; i < n; i++) m.add(ref(F[s[i]]), ref(F[p[i]]), ref(F[o[i]]), st[i]);
    mc::note("response GET, %d items", n); for (int i = 0; i < n; i++) mc::note("status %d, object %s", st[i], sh(F[o[i]]).c_str());
    round_trip<R::BGet>(m, [&](R::BGet &u) { for (int i = 0; i < n; i++) { MC_CHECK(u.statuses[i] == st[i], "status", "status %d arrived, %d sent", u.statuses[i], st[i]); same_ref(u.orig.subjects[i], F[s[i]], "subject"); same_ref(u.orig.predicates[i], F[p[i]], "predicate");
        if (st[i] == DATASTORE_SUCCESS) same_blob(u.objects[i], F[o[i]], "object"); else MC_CHECK(!u.objects[i].data() && !u.objects[i].size(), "object-from-nowhere", "an object arrived with status %d", st[i]); } });
}
// how: 0 add() with the records, 1 add() empty, then filled and counted by update_size (as the datastores do)
static void res_getop(int max, int recs, int k) {
    int n = nitems(max); std::vector<int> st(n), nr(n); std::vector<std::vector<int>> a(n), b(n), c(n);
    for (int i = 0; i < n; i++) { st[i] = STAT[pick(3)]; nr[i] = pick(recs + 1); int kk = n > 1 ? 4 : k, yy = n > 1 ? 1 : 3; for (int j = 0; j < nr[i]; j++) { int x = pick(kk), y = pick(yy); a[i].push_back(x); b[i].push_back((x + y) % k); c[i].push_back((x + 2 * y + j) % k); } }
    int how = mc::choose(2); COMMON(R::BGetOp);
    for (int i = 0; i < n; i++) {
        Blob *s = alloc_array<Blob>(nr[i]), *p = alloc_array<Blob>(nr[i]), *o = alloc_array<Blob>(nr[i]);
        if (how) m.add(s, p, o, 0, DATASTORE_UNSET);
        for (int j = 0; j < nr[i]; j++) { s[j] = ref(F[a[i][j]]); p[j] = ref(F[b[i][j]]); if (st[i] == DATASTORE_SUCCESS || !how) o[j] = ref(F[c[i][j]]); }
        if (how) { m.num_recs[i] = nr[i]; m.statuses[i] = st[i]; m.update_size(i); } else m.add(s, p, o, nr[i], st[i]);
    }
    mc::note("response GETOP, %d items%s", n, how ? ", filled afterwards" : ""); for (int i = 0; i < n; i++) mc::note("status %d, %d records", st[i], nr[i]);
    round_trip<R::BGetOp>(m, [&](R::BGetOp &u) { for (int i = 0; i < n; i++) { MC_CHECK(u.statuses[i] == st[i], "status", "status %d arrived, %d sent", u.statuses[i], st[i]); MC_CHECK((int) u.num_recs[i] == nr[i], "record-count", "%zu records arrived, %d sent", u.num_recs[i], nr[i]);
        for (int j = 0; j < nr[i]; j++) { same_blob(u.subjects[i][j], F[a[i][j]], "subject"); same_blob(u.predicates[i][j], F[b[i][j]], "predicate"); if (st[i] == DATASTORE_SUCCESS) same_blob(u.objects[i][j], F[c[i][j]], "object"); else MC_CHECK(!u.objects[i][j].data(), "object-from-nowhere", "an object arrived with status %d", st[i]); } } });
}
typedef ::Histogram::Histogram H;
static std::string hist_text(const H &h) {
    std::string s; h.get_name(s); s += "|"; std::size_t f = 0, n = 0, bn = 0; double *c = nullptr, *b = nullptr; std::size_t *k = nullptr; h.get_cache(&f, &c, &n); s += std::to_string(f) + ":";
    int rc = h.get(&b, &k, &bn); if (rc != HISTOGRAM_SUCCESS) { for (std::size_t i = 0; i < n; i++) s += std::to_string(c[i]) + ","; return s + "waiting"; }
    for (std::size_t i = 0; i < bn; i++) s += std::to_string(b[i]) + "=" + std::to_string(k[i]) + ","; if (bn) s += std::to_string(b[bn]); return s;
}
static void res_hist(int max) {
    int n = nitems(max); std::vector<int> st(n), nm(n), vals(n); for (int i = 0; i < n; i++) { st[i] = STAT[pick(3)]; nm[i] = pick(3); vals[i] = pick(6); }
    std::vector<std::shared_ptr<H>> h; static const std::string NAMES[] = {"", std::string("a\0b", 3), std::string(200, 'n')};
    for (int i = 0; i < n; i++) { ::Histogram::Config c{2, histogram_n_buckets, (void *) (uintptr_t) (1 + vals[i] % 3)}; h.emplace_back(new H(c, NAMES[nm[i]])); for (int j = 0; j < vals[i]; j++) h[i]->add(j * 1.5 - 2); }
    COMMON(R::BHistogram); for (int i = 0; i < n; i++) m.add(h[i], st[i]);
    mc::note("response HISTOGRAM, %d items", n); for (int i = 0; i < n; i++) mc::note("status %d, %d values", st[i], vals[i]);
    round_trip<R::BHistogram>(m, [&](R::BHistogram &u) { for (int i = 0; i < n; i++) { MC_CHECK(u.statuses[i] == st[i], "status", "status %d arrived, %d sent", u.statuses[i], st[i]);
        if (st[i] == DATASTORE_SUCCESS) { MC_CHECK(u.histograms[i] && u.histograms[i] != h[i], "histogram", "no histogram arrived"); MC_CHECK(hist_text(*u.histograms[i]) == hist_text(*h[i]), "histogram", "arrived as %s, sent %s", hist_text(*u.histograms[i]).c_str(), hist_text(*h[i]).c_str()); }
        else MC_CHECK(!u.histograms[i], "histogram-from-nowhere", "a histogram arrived with status %d", st[i]); } });
}
static void kinds(int max2, int max1) {
    switch (mc::choose(10)) {
        case 0: req_put(max2 > 2 ? 2 : max2, 7); break; case 1: req_get(max2, 6); break; case 2: req_getop(max2 > 2 ? 2 : max2, max2 > 2 ? 7 : 4); break; case 3: req_del(max2, 7); break; case 4: req_hist(max1, 7); break;
        case 5: res_sp<R::BPut>(max2, 7); break; case 6: res_get(max2, 6); break; case 7: res_getop(max2, 2, 6); break; case 8: res_sp<R::BDelete>(max2, 7); break; case 9: res_hist(max2); break;
    }
}
// the dispatchers: every direction and operation code against both of them, and missing arguments
static void dispatch() {
    int dir = mc::choose(4), op = mc::choose(9), how = mc::choose(5); mc::transition();
    struct Hdr { M::Direction d; hxhim_op_t op; int src, dst; std::size_t count; } __attribute__((packed)) h{(M::Direction) dir, (hxhim_op_t) op, 1, 2, 0};
    std::unique_ptr<char[]> buf(new char[sizeof h]); memcpy(buf.get(), &h, sizeof h); bool real = op == HXHIM_PUT || op == HXHIM_GET || op == HXHIM_GETOP || op == HXHIM_DELETE || op == HXHIM_HISTOGRAM;
    Q::Request *q = nullptr; R::Response *r = nullptr; mc::note("direction %d operation %d way %d", dir, op, how);
    if (how == 0) { int rc = M::Unpacker::unpack(&q, buf.get(), sizeof h); MC_CHECK((rc == MESSAGE_SUCCESS) == (dir == M::REQUEST && real) && !!q == (rc == MESSAGE_SUCCESS), "dispatch", "as a request: %d", rc); }
    else if (how == 1) { int rc = M::Unpacker::unpack(&r, buf.get(), sizeof h); MC_CHECK((rc == MESSAGE_SUCCESS) == (dir == M::RESPONSE && real) && !!r == (rc == MESSAGE_SUCCESS), "dispatch", "as a response: %d", rc); }
    else if (how == 2) { MC_CHECK(M::Unpacker::unpack(&q, nullptr, 0) == MESSAGE_ERROR && M::Unpacker::unpack(&r, nullptr, 0) == MESSAGE_ERROR && !q && !r, "null", "unpacked nothing"); MC_CHECK(M::Unpacker::unpack((Q::Request **) nullptr, buf.get(), sizeof h) == MESSAGE_ERROR && M::Unpacker::unpack((R::Response **) nullptr, buf.get(), sizeof h) == MESSAGE_ERROR, "null", "unpacked into nothing"); }
    else if (how == 3) { void *b = nullptr; std::size_t n = 0; MC_CHECK(M::Packer::pack((Q::Request *) nullptr, &b, &n) == MESSAGE_ERROR && M::Packer::pack((R::Response *) nullptr, &b, &n) == MESSAGE_ERROR && !b, "null", "packed nothing"); Q::BPut p(0); MC_CHECK(M::Packer::pack(&p, nullptr, &n) == MESSAGE_ERROR && M::Packer::pack(&p, &b, nullptr) == MESSAGE_ERROR, "null", "packed into nothing"); }
    else { Q::BPut p(0); p.op = (hxhim_op_t) op; void *b = nullptr; std::size_t n = 0; if (!real) MC_CHECK(M::Packer::pack(static_cast<Q::Request *>(&p), &b, &n) == MESSAGE_ERROR && !b, "dispatch", "packed operation %d", op); R::BPut s(0); s.op = (hxhim_op_t) op; if (!real) MC_CHECK(M::Packer::pack(static_cast<R::Response *>(&s), &b, &n) == MESSAGE_ERROR && !b, "dispatch", "packed operation %d", op); }
    destruct(q); destruct(r);
}
// responses as a datastore makes them from requests that were themselves serialised
template <typename T> static T *over(T &src) { void *b = nullptr; std::size_t n = 0; M::Packer::pack(&src, &b, &n); T *u = nullptr; M::Unpacker::unpack(&u, b, n); dealloc(b); return u; }
static void store() {
    Datastore::InMemory ds(0, 0, Datastore::Transform::default_callbacks()); ds.Open();
    ds.AddHistogram("h", ::Histogram::Config{1, histogram_n_buckets, (void *) 2}); ds.AddHistogram("w", ::Histogram::Config{9, histogram_n_buckets, (void *) 2});
    double v[3] = {1, -2, 5.5}; Fld S = {"s", 1, HXHIM_DATA_BYTE}, N = {"w", 1, HXHIM_DATA_BYTE}, H1 = {"h", 1, HXHIM_DATA_BYTE}, Z = {"zz", 2, HXHIM_DATA_BYTE};
    int have = mc::choose(4), kind = mc::choose(3); Fld K[3] = {H1, N, Z};
    { Q::BPut p(3); for (int i = 0; i < have; i++) p.add(ref(S), ref(K[i]), ReferenceBlob(v + i, 8, HXHIM_DATA_DOUBLE)); if (have) { R::BPut *r = ds.operate(&p); std::vector<Fld> s, pr; round_trip<R::BPut>(*r, [&](R::BPut &u) { for (int i = 0; i < have; i++) { same_ref(u.orig.subjects[i], S, "subject"); same_ref(u.orig.predicates[i], K[i], "predicate"); MC_CHECK(u.statuses[i] == DATASTORE_SUCCESS, "status", "%d", u.statuses[i]); } }); destruct(r); } }
    mc::note("%d records, kind %d", have, kind); int n = 1 + mc::choose(2);
    if (kind == 0) {
        Q::BGet q(n); std::vector<int> k(n); for (int &x : k) { x = mc::choose(3); q.add(ref(S), ref(K[x]), HXHIM_DATA_DOUBLE); } Q::BGet *w = over(q); R::BGet *r = ds.operate(w);
        round_trip<R::BGet>(*r, [&](R::BGet &u) { for (int i = 0; i < n; i++) { bool ok = k[i] < have; MC_CHECK((u.statuses[i] == DATASTORE_SUCCESS) == ok, "status", "GET status %d", u.statuses[i]); same_ref(u.orig.subjects[i], S, "subject"); same_ref(u.orig.predicates[i], K[k[i]], "predicate"); if (ok) same_blob(u.objects[i], Fld{(char *) &v[k[i]], 8, HXHIM_DATA_DOUBLE}, "object"); } });
        destruct(r); destruct(w);
    } else if (kind == 1) {
        Q::BGetOp q(n); for (int i = 0; i < n; i++) { int x = mc::choose(4), op = mc::choose(8); q.add(ref(S), x < 3 ? ref(K[x]) : ref(Fld{nullptr, 0, HXHIM_DATA_BYTE}), HXHIM_DATA_DOUBLE, mc::choose(4), (hxhim_getop_t) op); } Q::BGetOp *w = over(q); R::BGetOp *r = ds.operate(w);
        round_trip<R::BGetOp>(*r, [&](R::BGetOp &u) { for (int i = 0; i < n; i++) { MC_CHECK(u.statuses[i] == r->statuses[i] && u.num_recs[i] == r->num_recs[i], "record-count", "%zu records arrived, %zu sent", u.num_recs[i], r->num_recs[i]); for (std::size_t j = 0; j < r->num_recs[i]; j++) { auto f = [](const Blob &b) { return Fld{(char *) b.data(), b.size(), b.data_type()}; }; same_blob(u.subjects[i][j], f(r->subjects[i][j]), "subject"); same_blob(u.predicates[i][j], f(r->predicates[i][j]), "predicate"); if (r->statuses[i] == DATASTORE_SUCCESS) same_blob(u.objects[i][j], f(r->objects[i][j]), "object"); } } });
        destruct(r); destruct(w);
    } else {
        Q::BHistogram q(n); std::vector<int> k(n); for (int &x : k) { x = mc::choose(3); q.add(ref(K[x])); } Q::BHistogram *w = over(q); R::BHistogram *r = ds.operate(w);
        round_trip<R::BHistogram>(*r, [&](R::BHistogram &u) { for (int i = 0; i < n; i++) { MC_CHECK((u.statuses[i] == DATASTORE_SUCCESS) == (k[i] < 2), "status", "HISTOGRAM status %d", u.statuses[i]); if (k[i] < 2) MC_CHECK(hist_text(*u.histograms[i]) == hist_text(*r->histograms[i]), "histogram", "differs"); } });
        destruct(r); destruct(w);
        Q::BDelete d(n); for (int i = 0; i < n; i++) d.add(ref(S), ref(K[k[i]])); Q::BDelete *dw = over(d); R::BDelete *dr = ds.operate(dw);
        round_trip<R::BDelete>(*dr, [&](R::BDelete &u) { for (int i = 0; i < n; i++) { MC_CHECK(u.statuses[i] == dr->statuses[i], "status", "DELETE status %d", u.statuses[i]); same_ref(u.orig.subjects[i], S, "subject"); same_ref(u.orig.predicates[i], K[k[i]], "predicate"); } });
        destruct(dr); destruct(dw);
    }

}
int main(int argc, char **argv) {
    hx::clean_env(); fields();
    mc::E().property = "C14";
    mc::E().assumptions = {"buffers contain a serialised message (malformed input from the network is outside the property)", "sender and receiver have the same endianness"};
    mc::space("kinds", "every message kind x 0..2 items (names: 0..4) x every combination of field shapes (null, empty, 1, 3, 8, 300 bytes) and types x statuses x record counts x headers", [] { kinds(2, 4); }).only_tier = 1;
    mc::space("dispatch", "every direction x operation code x dispatcher, missing arguments", [] { dispatch(); });
    mc::space("store", "responses made by a datastore from serialised requests, batches of 1..2", [] { store(); });
    { mc::Space &s = mc::space("kinds-deep", "0..3 items", [] { kinds(3, 6); }); s.only_tier = 2; s.budget_s = 1500; }
    return mc::run(argc, argv);
}
