// Session helpers over hxhim's public C++ interface, and the result record used by every oracle.
#pragma once
#include "mc.hpp"
#include "fakempi.hpp"
#include "hxhim/hxhim.hpp"
#include "utils/Blob.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <deque>
#include <exception>
#include <dirent.h>
#include <string>
#include <vector>

extern char **environ;
namespace hx {

// no configuration of the calling environment may leak into a session
inline void clean_env() {
    std::vector<std::string> names;
    for (char **e = environ; *e; e++) if (!strncmp(*e, "HXHIM_", 6)) { std::string s = *e; names.push_back(s.substr(0, s.find('='))); }
    for (auto &n : names) unsetenv(n.c_str());
}

// ---- typed values -----------------------------------------------------------------------------
struct V {
    std::string b; hxhim_data_t t = HXHIM_DATA_BYTE;
    bool operator<(const V &o) const { return b != o.b ? b < o.b : t < o.t; }
    bool operator==(const V &o) const { return b == o.b && t == o.t; }
    bool operator!=(const V &o) const { return !(*this == o); }
    void *ptr() const { return b.empty() ? nullptr : (void *) b.data(); }
    std::size_t len() const { return b.size(); }
};
template <typename T> inline std::string raw(T x) { return std::string((const char *) &x, sizeof x); }
inline V B(const std::string &s) { V v; v.b = s; v.t = HXHIM_DATA_BYTE; return v; }
inline V P(const std::string &s) { V v; v.b = s; v.t = HXHIM_DATA_POINTER; return v; }
inline V I32(int32_t x) { V v; v.b = raw(x); v.t = HXHIM_DATA_INT32; return v; }
inline V I64(int64_t x) { V v; v.b = raw(x); v.t = HXHIM_DATA_INT64; return v; }
inline V U32(uint32_t x) { V v; v.b = raw(x); v.t = HXHIM_DATA_UINT32; return v; }
inline V U64(uint64_t x) { V v; v.b = raw(x); v.t = HXHIM_DATA_UINT64; return v; }
inline V F(float x) { V v; v.b = raw(x); v.t = HXHIM_DATA_FLOAT; return v; }
inline V D(double x) { V v; v.b = raw(x); v.t = HXHIM_DATA_DOUBLE; return v; }
inline V None(hxhim_data_t t = HXHIM_DATA_BYTE) { V v; v.t = t; return v; }
template <typename T> inline T as(const std::string &s) { T x{}; memcpy(&x, s.data(), std::min(sizeof x, s.size())); return x; }
inline std::string show(const std::string &s) { std::string r; for (unsigned char c : s) { if (c > 32 && c < 127 && c != '\\') r += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r; }
inline std::string show(const V &v) {
    char b[64];
    switch (v.t) {
        case HXHIM_DATA_INT32: snprintf(b, sizeof b, "i32:%d", as<int32_t>(v.b)); return b;
        case HXHIM_DATA_INT64: snprintf(b, sizeof b, "i64:%lld", (long long) as<int64_t>(v.b)); return b;
        case HXHIM_DATA_UINT32: snprintf(b, sizeof b, "u32:%u", as<uint32_t>(v.b)); return b;
        case HXHIM_DATA_UINT64: snprintf(b, sizeof b, "u64:%llu", (unsigned long long) as<uint64_t>(v.b)); return b;
        case HXHIM_DATA_FLOAT: snprintf(b, sizeof b, "f:%.9g", as<float>(v.b)); return b;
        case HXHIM_DATA_DOUBLE: snprintf(b, sizeof b, "d:%.17g", as<double>(v.b)); return b;
        case HXHIM_DATA_BYTE: return "\"" + show(v.b) + "\"";
        case HXHIM_DATA_POINTER: return "p\"" + show(v.b) + "\"";
        default: snprintf(b, sizeof b, "type%d:", (int) v.t); return b + show(v.b);
    }
}
typedef std::pair<V, V> Key;   // subject, predicate
inline std::string show(const Key &k) { return "(" + show(k.first) + "," + show(k.second) + ")"; }

// ---- results ----------------------------------------------------------------------------------
struct Rec {
    int op = -1, status = -1, ds = -1;
    V s, p, o; bool has_s = false, has_p = false, has_o = false;
    bool null_s = false, null_p = false;
    std::string name; std::vector<double> buckets; std::vector<std::size_t> counts; std::vector<double> cached; bool has_h = false, generated = false;
    bool ok() const { return status == HXHIM_SUCCESS; }
    bool operator==(const Rec &r) const { return op == r.op && status == r.status && ds == r.ds && s == r.s && p == r.p && o == r.o && has_o == r.has_o && name == r.name && buckets == r.buckets && counts == r.counts; }
};
inline std::string show(const Rec &r) {
    static const char *ops[] = {"PUT", "GET", "GETOP", "DEL", "SYNC", "HIST", "INVALID"};
    std::string x = (r.op >= 0 && r.op < 7) ? ops[r.op] : "op" + std::to_string(r.op);
    x += r.status == HXHIM_SUCCESS ? " ok" : r.status == HXHIM_ERROR ? " ERR" : " st" + std::to_string(r.status);
    x += " ds" + std::to_string(r.ds);
    if (r.has_s || r.has_p) x += " (" + show(r.s) + "," + show(r.p) + ")";
    if (r.has_o) x += "=" + show(r.o);
    if (r.has_h) { x += " " + show(r.name) + "{"; for (size_t i = 0; i < r.counts.size(); i++) { char b[48]; snprintf(b, sizeof b, "%s%g:%zu", i ? "," : "", r.buckets[i], r.counts[i]); x += b; } x += "}"; }
    return x;
}
typedef std::vector<Rec> Recs;
inline std::string show(const Recs &v) { std::string x = "["; for (size_t i = 0; i < v.size(); i++) x += (i ? "; " : "") + show(v[i]); return x + "]"; }

inline Rec read_one(hxhim::Results *res) {
    Rec r; hxhim_op_t op = HXHIM_INVALID; int st = -1, rs = -1;
    if (res->Op(&op) == HXHIM_SUCCESS) r.op = op;
    if (res->Status(&st) == HXHIM_SUCCESS) r.status = st;
    if (res->RangeServer(&rs) == HXHIM_SUCCESS) r.ds = rs;
    void *p; std::size_t l; hxhim_data_t t;
    p = nullptr; l = 0; t = HXHIM_DATA_INVALID;
    if (res->Subject(&p, &l, &t) == HXHIM_SUCCESS) { r.has_s = true; r.s.t = t; r.null_s = !p; if (p) r.s.b.assign((char *) p, l); }
    p = nullptr; l = 0; t = HXHIM_DATA_INVALID;
    if (res->Predicate(&p, &l, &t) == HXHIM_SUCCESS) { r.has_p = true; r.p.t = t; r.null_p = !p; if (p) r.p.b.assign((char *) p, l); }
    p = nullptr; l = 0; t = HXHIM_DATA_INVALID;
    if (res->Object(&p, &l, &t) == HXHIM_SUCCESS) { r.has_o = true; r.o.t = t; if (p) r.o.b.assign((char *) p, l); }
    const char *name = nullptr; std::size_t nl = 0, sz = 0; double *bk = nullptr; std::size_t *ct = nullptr; ::Histogram::Histogram *h = nullptr;
    if (r.op == HXHIM_HISTOGRAM && res->Histogram(&h) == HXHIM_SUCCESS && h) {
        r.has_h = true; h->get_name(&name, &nl); r.name.assign(name ? name : "", nl);
        double *cache = nullptr; std::size_t n = 0, first = 0;
        if (res->Histogram(&name, &nl, &bk, &ct, &sz) == HXHIM_SUCCESS) { r.generated = true; for (size_t i = 0; i < sz; i++) { r.buckets.push_back(bk[i]); r.counts.push_back(ct[i]); } }
        else { h->get_cache(&first, &cache, &n); for (size_t i = 0; i < n; i++) r.cached.push_back(cache[i]); }
    }
    return r;
}
inline Recs read(hxhim::Results *res, bool destroy = true) {
    Recs v;
    if (!res) return v;
    HXHIM_CXX_RESULTS_LOOP(res) v.push_back(read_one(res));
    if (destroy) hxhim::Results::Destroy(res);
    return v;
}

// ---- sessions ---------------------------------------------------------------------------------
enum Backend { MEM, LDB, RDB, NBACKENDS };
inline const char *bname(int b) { static const char *n[] = {"IN_MEMORY", "LEVELDB", "ROCKSDB"}; return n[b]; }
struct Opt {
    int backend = MEM; std::string dir = ".", base = "h", postfix = "";
    std::size_t datastores = 1, max_ops = 128, max_size = 1048576, async = 0, client = 2, server = 1;
    std::string hash = ""; bool hist_read = false, hist_write = false; std::size_t first_n = 2;
    std::vector<std::string> track; bool mpi = false; std::size_t listeners = 1; int create = 1;
    char neg = '/', pos = ':'; std::size_t fprec = 8, dprec = 16;
};
struct Session {
    hxhim_t h; bool is_open = false; Opt o;
    Session() { h.p = nullptr; }
    ~Session() { if (h.p && std::uncaught_exceptions()) hxhim::Close(&h); } // an abandoned execution leaves nothing open
    int init(const Opt &opt, MPI_Comm comm = MPI_COMM_WORLD) {
        o = opt;
        int r = hxhim::Init(&h, comm);
        if (r != HXHIM_SUCCESS) return r;
        hxhim_set_debug_level(&h, MLOG_CRIT);
        hxhim_set_datastores_per_server(&h, o.datastores);
        hxhim_set_client_ratio(&h, o.client); hxhim_set_server_ratio(&h, o.server);
        hxhim_set_datastore_name(&h, o.dir.c_str(), o.base.c_str(), o.postfix.c_str());
        if (o.backend == MEM) hxhim_set_datastore_in_memory(&h);
        else if (o.backend == LDB) hxhim_set_datastore_leveldb(&h, o.create);
        else hxhim_set_datastore_rocksdb(&h, o.create);
        if (o.mpi) hxhim_set_transport_mpi(&h, o.listeners); else hxhim_set_transport_null(&h);
        hxhim_set_transform_numeric_values(&h, o.neg, o.pos, o.fprec, o.dprec);
        if (!o.hash.empty()) hxhim_set_hash_name(&h, o.hash.c_str());
        hxhim_datastore_histograms(&h, o.hist_read, o.hist_write);
        hxhim_set_histogram_first_n(&h, o.first_n);
        for (auto &t : o.track) hxhim_add_histogram_track_predicate(&h, t.data(), t.size());
        hxhim_set_maximum_ops_per_request(&h, o.max_ops);
        hxhim_set_maximum_size_per_request(&h, o.max_size);
        hxhim_set_start_async_puts_at(&h, o.async);
        return HXHIM_SUCCESS;
    }
    int open() { int r = hxhim::Open(&h); is_open = r == HXHIM_SUCCESS; return r; }
    void start(const Opt &opt) {
        if (init(opt) != HXHIM_SUCCESS) mc::fail("init", "Init failed");
        if (open() != HXHIM_SUCCESS || !h.p) mc::fail("open", "Open failed on a fresh session (%s)", bname(opt.backend));
    }
    int close() { is_open = false; int r = hxhim::Close(&h); drop(); return r; }
    // buffers handed to the library live exactly until the next flush that may use them has returned
    std::deque<std::string> arena[5];
    struct Raw { void *p; std::size_t n; hxhim_data_t t; };
    Raw keep(int kind, const V &v) { Raw r; r.t = v.t; r.n = v.len(); r.p = nullptr; if (r.n) { arena[kind].push_back(v.b); std::string &s = arena[kind].back(); if (s.size() < 16) s.reserve(24); r.p = (void *) s.data(); } return r; }
    int put(const V &s, const V &p, const V &v, hxhim_put_permutation_t perm = HXHIM_PUT_SPO) { Raw a = keep(0, s), b = keep(0, p), c = keep(0, v); return hxhim::Put(&h, a.p, a.n, a.t, b.p, b.n, b.t, c.p, c.n, c.t, perm); }
    int get(const V &s, const V &p, hxhim_data_t ot) { Raw a = keep(1, s), b = keep(1, p); return hxhim::Get(&h, a.p, a.n, a.t, b.p, b.n, b.t, ot); }
    int getop(const V &s, const V &p, hxhim_data_t ot, std::size_t n, hxhim_getop_t op) { Raw a = keep(2, s), b = keep(2, p); return hxhim::GetOp(&h, a.p, a.n, a.t, b.p, b.n, b.t, ot, n, op); }
    int del(const V &s, const V &p) { Raw a = keep(3, s), b = keep(3, p); return hxhim::Delete(&h, a.p, a.n, a.t, b.p, b.n, b.t); }
    int hist(int ds, const std::string &n) { Raw a = keep(4, B(n)); return hxhim::Histogram(&h, ds, (const char *) a.p, a.n); }
    void drop(int k = -1) { for (int i = 0; i < 5; i++) if (k < 0 || k == i) arena[i].clear(); }
    Recs take(hxhim::Results *r, int k) { Recs v = read(r); drop(k); return v; }
    Recs flush() { return take(hxhim::Flush(&h), -1); }
    Recs flush_puts() { return take(hxhim::FlushPuts(&h), 0); }
    Recs flush_gets() { return take(hxhim::FlushGets(&h), 1); }
    Recs flush_getops() { return take(hxhim::FlushGetOps(&h), 2); }
    Recs flush_dels() { return take(hxhim::FlushDeletes(&h), 3); }
    Recs flush_hists() { return take(hxhim::FlushHistograms(&h), 4); }
    Recs sync() { return take(hxhim::Sync(&h), -1); }
};
#define HX_QUEUED(expr, what) MC_CHECK((expr) == HXHIM_SUCCESS, std::string("enqueue-") + what, "%s refused: %s", what, #expr)

// every PUT/GET/DELETE done at once, with the one result checked for identity
inline Rec do_put(Session &x, const V &s, const V &p, const V &v) {
    HX_QUEUED(x.put(s, p, v), "put"); Recs r = x.flush_puts();
    MC_CHECK(r.size() == 1 && r[0].op == HXHIM_PUT, "put-result-count", "PUT %s gave %s", show(Key(s, p)).c_str(), show(r).c_str());
    MC_CHECK(r[0].s == s && r[0].p == p, "put-result-identity", "PUT %s result names %s", show(Key(s, p)).c_str(), show(r[0]).c_str());
    return r[0];
}
inline Rec do_get(Session &x, const V &s, const V &p, hxhim_data_t ot) {
    HX_QUEUED(x.get(s, p, ot), "get"); Recs r = x.flush_gets();
    MC_CHECK(r.size() == 1 && r[0].op == HXHIM_GET, "get-result-count", "GET %s gave %s", show(Key(s, p)).c_str(), show(r).c_str());
    MC_CHECK(r[0].s == s && r[0].p == p, "get-result-identity", "GET %s result names %s", show(Key(s, p)).c_str(), show(r[0]).c_str());
    return r[0];
}
inline Rec do_del(Session &x, const V &s, const V &p) {
    HX_QUEUED(x.del(s, p), "del"); Recs r = x.flush_dels();
    MC_CHECK(r.size() == 1 && r[0].op == HXHIM_DELETE, "del-result-count", "DELETE %s gave %s", show(Key(s, p)).c_str(), show(r).c_str());
    MC_CHECK(r[0].s == s && r[0].p == p, "del-result-identity", "DELETE %s result names %s", show(Key(s, p)).c_str(), show(r[0]).c_str());
    return r[0];
}
} // namespace hx
