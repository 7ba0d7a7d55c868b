// flavour: asan
// extra: lib/fakelog.cpp lib/threads.cpp
// C16: the life cycle of a session: which calls are accepted when, what they leave behind, and that failures are clean.
#include "model.hpp"
#include "threads.hpp"
#include "datastore/datastores.hpp"
#include "hxhim/accessors.hpp"
#include "hxhim/options.hpp"
#include "hxhim/private/hxhim.hpp"
#include "hxhim/Results.h"
#include <atomic>
#include <fstream>
#include <mutex>
#include <sys/stat.h>
#include <thread>
using namespace hx;

static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static int threads() { return hx_live_threads; }
static int user_hash(hxhim_t *, void *, const size_t, void *, const size_t, void *) { return 0; }

// ---- calls that the state does not permit: each is refused and changes nothing ------------------------------------
enum St { NONE, CONF, OPENED };
static const char *SNAME[] = {"not initialised", "initialised", "open"};
static V S1 = B("s"), P1 = B("p"), O1 = B("zz");
static void *sp() { return S1.ptr(); } static void *pp() { return P1.ptr(); } static void *op() { return O1.ptr(); }
#define REFUSED(expr, what) do { mc::transition(); int got_ = (expr); MC_CHECK(got_ == HXHIM_ERROR, std::string(what) + "-accepted", "%s on a session that is %s returned %d", #expr, where, got_); } while (0)
#define NOTHING(expr, what) do { mc::transition(); auto *got_ = (expr); MC_CHECK(!got_, std::string(what) + "-accepted", "%s on a session that is %s returned results", #expr, where); } while (0)
static void refused_ops(hxhim_t *h, const char *where) { // no operation can be queued or flushed
    const auto T = HXHIM_DATA_BYTE; void *ss[] = {sp()}, *ps[] = {pp()}, *os[] = {op()}; std::size_t sl[] = {1}, pl[] = {1}, ol[] = {2}, n[] = {1}; hxhim_data_t t[] = {T}; hxhim_put_permutation_t pm[] = {HXHIM_PUT_SPO}; hxhim_getop_t g[] = {HXHIM_GETOP_EQ}; int rs[] = {0}; const char *nm[] = {"p"};
    double dv = 1; float fv = 1; double *dvs[] = {&dv}; float *fvs[] = {&fv};
    REFUSED(hxhim::Put(h, sp(), 1, T, pp(), 1, T, op(), 2, T, HXHIM_PUT_SPO), "put"); REFUSED(hxhimPut(h, sp(), 1, T, pp(), 1, T, op(), 2, T, HXHIM_PUT_SPO), "put");
    REFUSED(hxhim::Get(h, sp(), 1, T, pp(), 1, T, T), "get"); REFUSED(hxhimGet(h, sp(), 1, T, pp(), 1, T, T), "get");
    REFUSED(hxhim::GetOp(h, sp(), 1, T, pp(), 1, T, T, 1, HXHIM_GETOP_EQ), "getop"); REFUSED(hxhimGetOp(h, sp(), 1, T, pp(), 1, T, T, 1, HXHIM_GETOP_EQ), "getop");
    REFUSED(hxhim::Delete(h, sp(), 1, T, pp(), 1, T), "delete"); REFUSED(hxhimDelete(h, sp(), 1, T, pp(), 1, T), "delete");
    REFUSED(hxhim::Histogram(h, 0, "p", 1), "histogram"); REFUSED(hxhimHistogram(h, 0, "p", 1), "histogram");
    REFUSED(hxhim::BPut(h, ss, sl, t, ps, pl, t, os, ol, t, pm, 1), "bput"); REFUSED(hxhimBPut(h, ss, sl, t, ps, pl, t, os, ol, t, pm, 1), "bput");
    REFUSED(hxhim::BGet(h, ss, sl, t, ps, pl, t, t, 1), "bget"); REFUSED(hxhimBGet(h, ss, sl, t, ps, pl, t, t, 1), "bget");
    REFUSED(hxhim::BGetOp(h, ss, sl, t, ps, pl, t, t, n, g, 1), "bgetop"); REFUSED(hxhimBGetOp(h, ss, sl, t, ps, pl, t, t, n, g, 1), "bgetop");
    REFUSED(hxhim::BDelete(h, ss, sl, t, ps, pl, t, 1), "bdelete"); REFUSED(hxhimBDelete(h, ss, sl, t, ps, pl, t, 1), "bdelete");
    REFUSED(hxhim::BHistogram(h, rs, nm, n, 1), "bhistogram"); REFUSED(hxhimBHistogram(h, rs, nm, n, 1), "bhistogram");
    REFUSED(hxhim::PutDouble(h, sp(), 1, T, pp(), 1, T, &dv, HXHIM_PUT_SPO), "put-double"); REFUSED(hxhimPutDouble(h, sp(), 1, T, pp(), 1, T, &dv, HXHIM_PUT_SPO), "put-double");
    REFUSED(hxhim::PutFloat(h, sp(), 1, T, pp(), 1, T, &fv, HXHIM_PUT_SPO), "put-float"); REFUSED(hxhimPutFloat(h, sp(), 1, T, pp(), 1, T, &fv, HXHIM_PUT_SPO), "put-float");
    REFUSED(hxhim::GetDouble(h, sp(), 1, T, pp(), 1, T), "get-double"); REFUSED(hxhim::GetFloat(h, sp(), 1, T, pp(), 1, T), "get-float");
    REFUSED(hxhim::BPutDouble(h, ss, sl, t, ps, pl, t, dvs, pm, 1), "bput-double"); REFUSED(hxhim::BPutFloat(h, ss, sl, t, ps, pl, t, fvs, pm, 1), "bput-float");
    NOTHING(hxhim::FlushPuts(h), "flush-puts"); NOTHING(hxhimFlushPuts(h), "flush-puts"); NOTHING(hxhim::FlushGets(h), "flush-gets"); NOTHING(hxhimFlushGets(h), "flush-gets");
    NOTHING(hxhim::FlushGetOps(h), "flush-getops"); NOTHING(hxhimFlushGetOps(h), "flush-getops"); NOTHING(hxhim::FlushDeletes(h), "flush-deletes"); NOTHING(hxhimFlushDeletes(h), "flush-deletes");
    NOTHING(hxhim::FlushHistograms(h), "flush-histograms"); NOTHING(hxhimFlushHistograms(h), "flush-histograms"); NOTHING(hxhim::Flush(h), "flush"); NOTHING(hxhimFlush(h), "flush");
    NOTHING(hxhim::Sync(h), "sync"); NOTHING(hxhimSync(h), "sync");
    NOTHING(hxhim::ChangeDatastoreName(h, "X", true, true, true), "change-name"); NOTHING(hxhimChangeDatastoreName(h, "X", 1, 1, 1, 1), "change-name");
    NOTHING(hxhim::ChangeHash(h, "X", user_hash, nullptr), "change-hash"); NOTHING(hxhimChangeHash(h, "X", 1, user_hash, nullptr), "change-hash");
}
static HistogramBucketGenerator_t GEN = nullptr;
static void refused_options(hxhim_t *h, const char *where) { // no option can be set
    REFUSED(hxhim_set_mpi_bootstrap(h, MPI_COMM_WORLD), "option"); REFUSED(hxhim_set_debug_level(h, MLOG_CRIT), "option"); REFUSED(hxhim_set_client_ratio(h, 5), "option"); REFUSED(hxhim_set_server_ratio(h, 5), "option");
    REFUSED(hxhim_set_datastores_per_server(h, 3), "option"); REFUSED(hxhim_set_open_init_datastore(h, 0), "option"); REFUSED(hxhim_datastore_histograms(h, 1, 1), "option"); REFUSED(hxhim_set_datastore_name(h, "x", "y", "z"), "option");
    REFUSED(hxhim_set_datastore_in_memory(h), "option"); REFUSED(hxhim_set_datastore_leveldb(h, 1), "option"); REFUSED(hxhim_set_datastore_rocksdb(h, 1), "option"); REFUSED(hxhim_set_hash_name(h, "UTHASH_BER"), "option");
    REFUSED(hxhim_set_hash_function(h, "x", user_hash, nullptr), "option"); REFUSED(hxhim_set_transform_numeric_values(h, '-', '0', 3, 5), "option"); REFUSED(hxhim_set_transform_function(h, HXHIM_DATA_BYTE, nullptr, nullptr, nullptr, nullptr), "option");
    REFUSED(hxhim_set_transport_null(h), "option"); REFUSED(hxhim_set_transport_mpi(h, 1), "option"); REFUSED(hxhim_add_endpoint_to_group(h, 0), "option"); REFUSED(hxhim_clear_endpoint_group(h), "option"); REFUSED(hxhim_set_start_async_puts_at(h, 2), "option");
    REFUSED(hxhim_set_maximum_ops_per_request(h, 7), "option"); REFUSED(hxhim_set_maximum_size_per_request(h, 7), "option"); REFUSED(hxhim_set_histogram_first_n(h, 77), "option"); REFUSED(hxhim_set_histogram_bucket_gen_name(h, "10_BUCKETS"), "option");
    REFUSED(hxhim_set_histogram_bucket_gen_function(h, GEN, nullptr), "option"); REFUSED(hxhim_add_histogram_track_predicate(h, "q", 1), "option");
}
static void refused_accessors(hxhim_t *h, const char *where) {
    struct timespec ts; int i; std::size_t n; const char *c; hxhim_hash_t f; void *a; MPI_Comm comm; Stats::Chronopoint e; std::stringstream s;
    REFUSED(hxhim::GetEpoch(h, &ts), "accessor"); REFUSED(hxhim::GetEpoch(h, e), "accessor"); REFUSED(hxhimGetEpoch(h, &ts), "accessor"); REFUSED(hxhim::GetMPI(h, &comm, &i, &i), "accessor"); REFUSED(hxhimGetMPI(h, &comm, &i, &i), "accessor");
    REFUSED(hxhim::GetRangeServerCount(h, &n), "accessor"); REFUSED(hxhimGetRangeServerCount(h, &n), "accessor"); REFUSED(hxhim::GetRangeServerClientToServerRatio(h, &n, &n), "accessor"); REFUSED(hxhimGetRangeServerClientToServerRatio(h, &n, &n), "accessor");
    REFUSED(hxhim::GetDatastoreCount(h, &n), "accessor"); REFUSED(hxhimGetDatastoreCount(h, &n), "accessor"); REFUSED(hxhim::GetDatastoreLocation(h, 0, &i, &i), "accessor"); REFUSED(hxhimGetDatastoreLocation(h, 0, &i, &i), "accessor");
    REFUSED(hxhim::GetHash(h, &c, &f, &a), "accessor"); REFUSED(hxhimGetHash(h, &c, &f, &a), "accessor"); REFUSED(hxhim::HaveHistogram(h, "p", 1, &i), "accessor"); REFUSED(hxhimHaveHistogram(h, "p", 1, &i), "accessor"); REFUSED(hxhim::GetPrintBufferContents(h, s), "accessor");
}
static std::string visible(hxhim_t *h) { // everything the accessors tell about an open session
    struct timespec ts = {0, 0}; int a = -1, b = -1; std::size_t n = 0, m = 0; const char *c = nullptr; hxhim_hash_t f = nullptr; void *p = nullptr; MPI_Comm comm; std::stringstream s;
    s << hxhim::GetEpoch(h, &ts) << ' ' << ts.tv_sec << ' ' << ts.tv_nsec; s << ';' << hxhim::GetMPI(h, &comm, &a, &b) << ' ' << a << ' ' << b << ' ' << (comm == MPI_COMM_WORLD); s << ';' << hxhim::GetRangeServerCount(h, &n) << ' ' << n;
    s << ';' << hxhim::GetRangeServerClientToServerRatio(h, &n, &m) << ' ' << n << ' ' << m; s << ';' << hxhim::GetDatastoreCount(h, &n) << ' ' << n; for (std::size_t i = 0; i < n; i++) s << ';' << hxhim::GetDatastoreLocation(h, (int) i, &a, &b) << ' ' << a << ' ' << b;
    s << ';' << hxhim::GetHash(h, &c, &f, &p) << ' ' << (c ? c : "") << ' ' << (void *) f << ' ' << p; for (const char *q : {"p", "q"}) s << ';' << hxhim::HaveHistogram(h, q, 1, &a) << ' ' << a; s << ';' << hxhim::GetPrintBufferContents(h, s); return s.str();
}
static void refuse_all(hxhim_t *h, St st) {
    const char *where = SNAME[st];
    if (st == NONE) {
        REFUSED(hxhim::Open(h), "open"); REFUSED(hxhimOpen(h), "open"); REFUSED(hxhim::OpenOne(h, "x"), "open-one"); REFUSED(hxhimOpenOne(h, "x", 1), "open-one"); REFUSED(hxhim::Close(h), "close"); REFUSED(hxhimClose(h), "close");
        refused_ops(h, where); refused_options(h, where); refused_accessors(h, where);
        MC_CHECK(!h->p, "session-appeared", "a refused call made a session");
        where = "null"; hxhim_t *z = nullptr; REFUSED(hxhim::Init(z, MPI_COMM_WORLD), "init"); REFUSED(hxhimInit(z, MPI_COMM_WORLD), "init");
        REFUSED(hxhim::Open(z), "open"); REFUSED(hxhimOpen(z), "open"); REFUSED(hxhim::OpenOne(z, "x"), "open-one"); REFUSED(hxhimOpenOne(z, "x", 1), "open-one"); REFUSED(hxhim::Close(z), "close"); REFUSED(hxhimClose(z), "close");
        refused_ops(z, where); refused_options(z, where); refused_accessors(z, where);
    }
    else if (st == CONF) refused_ops(h, where);
    else { auto *p = h->p; std::string before = visible(h); REFUSED(hxhim::Open(h), "open"); REFUSED(hxhimOpen(h), "open"); REFUSED(hxhim::OpenOne(h, "x"), "open-one"); REFUSED(hxhimOpenOne(h, "x", 1), "open-one"); refused_options(h, where); MC_CHECK(h->p == p, "session-lost", "a refused call replaced the session"); std::string after = visible(h); MC_CHECK(before == after, "refused-call-changes", "refused calls changed what the accessors report: %s -> %s", before.c_str(), after.c_str()); }
}

// ---- the model ------------------------------------------------------------------------------------------------
typedef std::map<Key, V> Map;
struct Life {
    Session x; St st = NONE; int backend, ndss, async; std::string dir; bool capi;
    std::map<std::string, std::map<int, Map>> disk; // basename -> datastore -> contents
    std::map<int, Map> cur; std::string base; bool bad = false, usable = true, zero = false, one = false; // contents of the open datastores; zero: every key goes to datastore 0
    std::vector<QOp> puts, dels; int serial = 0; int nfds, nthreads; std::string hashname = "SUM_MOD_DATASTORES"; hxhim_hash_t hf = nullptr;
    Life(int b, int n, int a, bool c) : backend(b), ndss(n), async(a), capi(c) { fmpi::reset(1, true); dir = mc::fresh_dir("db"); std::ofstream(dir + "/file") << "x"; nfds = fds(); nthreads = threads(); }
    int ds_of(const V &s, const V &p) { if (zero) return 0; unsigned sum = 0; for (unsigned char c : s.b) sum += c; for (unsigned char c : p.b) sum += c; return sum % ndss; }
    void name(const char *b, bool isbad = false) { int r = hxhim_set_datastore_name(&x.h, (isbad ? dir + "/file/below" : dir).c_str(), b, ""); MC_CHECK(r == HXHIM_SUCCESS, "set-name", "hxhim_set_datastore_name refused before Open"); base = b; bad = isbad; }
    void init() {
        Opt o; o.backend = backend; o.dir = dir; o.base = "A"; o.datastores = ndss; o.async = async; o.hash = "SUM_MOD_DATASTORES";
        MC_CHECK(x.init(o) == HXHIM_SUCCESS && x.h.p, "init", "Init failed"); st = CONF; base = "A"; bad = false; usable = true; zero = one = false;
    }
    void load() { cur.clear(); if (backend != MEM && usable) cur = disk[base]; }
    void save() { if (backend != MEM && usable && st == OPENED) disk[base] = cur; }
    void gone(const char *what) { st = NONE; puts.clear(); dels.clear(); x.drop(); x.is_open = false; MC_CHECK(!x.h.p, "session-remains", "%s left a session behind", what); released(what); }
    void released(const char *what) { MC_CHECK(fds() == nfds, "descriptor-leak", "%s left %d file descriptors open", what, fds() - nfds); MC_CHECK(threads() == nthreads, "thread-leak", "%s left %d threads behind", what, threads() - nthreads); }
    void open() {
        int r = capi ? hxhimOpen(&x.h) : hxhim::Open(&x.h);
        if (bad && backend != MEM) { MC_CHECK(r != HXHIM_SUCCESS, "failed-open-succeeds", "Open below a regular file succeeded"); gone("a failed Open"); return; }
        MC_CHECK(r == HXHIM_SUCCESS && x.h.p, "open-fails", "Open returned %d", r); st = OPENED; usable = true; x.is_open = true; load();
    }
    void open_one(const char *b, bool missing) {
        std::string p = missing ? dir + "/nowhere" : dir + "/" + b + "-0"; int r = capi ? hxhimOpenOne(&x.h, p.data(), p.size()) : hxhim::OpenOne(&x.h, p);
        bool can = backend == MEM || (!missing && disk.count(b));
        if (!can) { MC_CHECK(r != HXHIM_SUCCESS, "failed-open-one-succeeds", "OpenOne of a missing datastore succeeded"); gone("a failed OpenOne"); return; }
        MC_CHECK(r == HXHIM_SUCCESS && x.h.p, "open-one-fails", "OpenOne(%s) returned %d", p.c_str(), r); st = OPENED; usable = true; zero = one = true; base = b; x.is_open = true; x.o.datastores = 1; load();
        if (backend != MEM) { Map only = cur[0]; }
    }
    bool one_ds() { return zero && hashname == "local"; }
    void put(int k) { QOp q; q.kind = KPUT; static const char *S[] = {"a", "b"}; q.s = B(S[k]); q.p = B("p"); q.o = B("v" + std::to_string(++serial)); HX_QUEUED(enqueue(x, q), "put"); puts.push_back(q); }
    void del(int k) { QOp q; q.kind = KDEL; static const char *S[] = {"a", "b"}; q.s = B(S[k]); q.p = B("p"); HX_QUEUED(enqueue(x, q), "delete"); dels.push_back(q); }
    // applies the queued operations; results (if any are available) are compared
    void run(const Recs *got, const char *what, bool synced) {
        Recs puts_r, dels_r, rest; bool order = true; if (got) for (auto &r : *got) { if (r.op == HXHIM_PUT) { puts_r.push_back(r); order = order && dels_r.empty() && rest.empty(); } else if (r.op == HXHIM_DELETE) { dels_r.push_back(r); order = order && rest.empty(); } else rest.push_back(r); }
        auto cmp = [&](const std::vector<QOp> &q, const Recs &r) {
            MC_CHECK(q.size() == r.size(), std::string(what) + "-results", "%s of %zu operations gave %s", what, q.size(), show(r).c_str());
            std::vector<bool> used(q.size());
            for (auto &e : r) { size_t i = 0; while (i < q.size() && (used[i] || q[i].s != e.s || q[i].p != e.p)) i++; MC_CHECK(i < q.size(), std::string(what) + "-results", "%s: result %s belongs to nothing", what, show(e).c_str()); used[i] = true; MC_CHECK(e.ds == ds_of(e.s, e.p), std::string(what) + "-results", "%s: result %s names a wrong datastore", what, show(e).c_str());
                MC_CHECK(e.ok() == usable || (usable && e.op == HXHIM_DELETE), std::string(what) + "-status", "%s: %s on datastores that are %s", what, show(e).c_str(), usable ? "usable" : "not usable"); }
        };
        if (got) { MC_CHECK(order, std::string(what) + "-order", "%s gave its results out of order: %s", what, show(*got).c_str()); cmp(puts, puts_r); cmp(dels, dels_r); }
        if (usable) { for (auto &q : puts) cur[ds_of(q.s, q.p)][Key(q.s, q.p)] = q.o; for (auto &q : dels) cur[ds_of(q.s, q.p)].erase(Key(q.s, q.p)); }
        puts.clear(); dels.clear();
        if (got && synced) { for (auto &r : rest) MC_CHECK(r.op == HXHIM_SYNC, std::string(what) + "-results", "%s gave %s", what, show(r).c_str()); int n = x.h.p->range_server.datastores.ds.size(); MC_CHECK((int) rest.size() >= n, std::string(what) + "-results", "%s: SYNC results of %d datastores: %s", what, n, show(rest).c_str()); }
        else if (got) MC_CHECK(rest.empty(), std::string(what) + "-results", "%s gave %s", what, show(rest).c_str());
    }
    Recs take(hxhim_results_t *c, hxhim::Results *r) { MC_CHECK(c || r, "no-results", "a permitted call returned nothing"); Recs v; if (c) { hxhim_results_goto_head(c); v = capi_read(c); hxhim_results_destroy(c); } else v = read(r); x.drop(); return v; }
    static Recs capi_read(hxhim_results_t *c) { Recs v; hxhim_results_goto_head(c); while (hxhim_results_valid_iterator(c) == HXHIM_SUCCESS) { Rec r; hxhim_op_t op; int st, rs; if (hxhim_result_op(c, &op) == HXHIM_SUCCESS) r.op = op; if (hxhim_result_status(c, &st) == HXHIM_SUCCESS) r.status = st; if (hxhim_result_range_server(c, &rs) == HXHIM_SUCCESS) r.ds = rs; void *p; std::size_t l; hxhim_data_t t;
            if (hxhim_result_subject(c, &p, &l, &t) == HXHIM_SUCCESS) { r.has_s = true; r.s.b.assign((char *) p, l); r.s.t = t; } if (hxhim_result_predicate(c, &p, &l, &t) == HXHIM_SUCCESS) { r.has_p = true; r.p.b.assign((char *) p, l); r.p.t = t; } v.push_back(r); hxhim_results_goto_next(c); } return v; }
    void flush() { Recs r = capi ? take(hxhimFlush(&x.h), nullptr) : take(nullptr, hxhim::Flush(&x.h)); run(&r, "Flush", false); }
    void sync() { Recs r = capi ? take(hxhimSync(&x.h), nullptr) : take(nullptr, hxhim::Sync(&x.h)); run(&r, "Sync", true); for (auto &e : r) if (e.op == HXHIM_SYNC) MC_CHECK(e.ok() == usable, "sync-status", "Sync of datastores that are %s: %s", usable ? "usable" : "not usable", show(e).c_str()); }
    void moved(const char *b, bool isbad, Recs r, const char *what) {
        bool was = usable; run(&r, what, true); save(); base = b; bool willbad = (isbad || (one && !disk.count(b))) && backend != MEM; // OpenOne does not create datastores, now or later
        int errors = 0; for (auto &e : r) errors += e.op == HXHIM_SYNC && !e.ok();
        if (was) MC_CHECK((errors > 0) == willbad, std::string(what) + "-status", "%s to %s datastores: %s", what, willbad ? "impossible" : "good", show(r).c_str()); else if (willbad) MC_CHECK(errors > 0, std::string(what) + "-status", "%s to impossible datastores: %s", what, show(r).c_str());
        usable = !willbad; load();
    }
    void change(const char *b, bool isbad = false) { std::string n = isbad ? "no/such/dir" : b; Recs r = capi ? take(hxhimChangeDatastoreName(&x.h, n.data(), n.size(), 1, 1, 1), nullptr) : take(nullptr, hxhim::ChangeDatastoreName(&x.h, n, true, true, true)); moved(n.c_str(), isbad, r, "ChangeDatastoreName"); }
    static int to_zero(hxhim_t *, void *, const size_t, void *, const size_t, void *) { return 0; }
    void change_hash() { int *arg = &serial; Recs r = capi ? take(hxhimChangeHash(&x.h, "HH", 2, to_zero, arg), nullptr) : take(nullptr, hxhim::ChangeHash(&x.h, "HH", to_zero, arg));
        // the results of the flush with the old hash come first
        moved("HH", false, r, "ChangeHash"); zero = true; const char *nm = nullptr; hxhim_hash_t f = nullptr; void *a = nullptr; MC_CHECK(hxhim::GetHash(&x.h, &nm, &f, &a) == HXHIM_SUCCESS && nm && std::string(nm) == "HH" && f == to_zero && a == arg, "change-hash-not-applied", "GetHash reports %s", nm ? nm : "(null)"); }
    void close() { run(nullptr, "Close", true); save(); int r = capi ? hxhimClose(&x.h) : hxhim::Close(&x.h); MC_CHECK(r == HXHIM_SUCCESS, "close-fails", "Close returned %d", r); gone("Close"); }
    // what the open session finds for both keys now (queued operations must not have happened yet)
    void observe(const char *what) {
        static const char *S[] = {"a", "b"}; for (auto s : S) HX_QUEUED(x.get(B(s), B("p"), HXHIM_DATA_BYTE), "get");
        Recs r = x.flush_gets(); MC_CHECK(r.size() == 2, "observe", "two GETs gave %s", show(r).c_str());
        for (auto &e : r) {
            int d = ds_of(e.s, B("p")); MC_CHECK(e.ds == d && e.op == HXHIM_GET, "observe", "after %s a GET gave %s", what, show(e).c_str());
            auto it = cur[d].find(Key(e.s, e.p)); bool want = usable && it != cur[d].end();
            MC_CHECK(e.ok() == want, "contents", "after %s: %s (expected %s)", what, show(e).c_str(), want ? show(it->second).c_str() : "nothing");
            if (want) MC_CHECK(e.has_o && e.o == it->second, "contents", "after %s: %s, expected %s", what, show(e).c_str(), show(it->second).c_str());
        }
    }
    std::string digest() { std::string s = SNAME[st] + base + (bad ? "!" : "") + (usable ? "" : "~") + (zero ? "0" : ""); for (auto &d : cur) for (auto &e : d.second) s += std::to_string(d.first) + show(e.first) + ","; s += "|"; for (auto &b : disk) { s += b.first; for (auto &d : b.second) for (auto &e : d.second) s += std::to_string(d.first) + show(e.first); } for (auto &q : puts) s += show(q.s); s += "/"; for (auto &q : dels) s += show(q.s); return s; }
};

// (1) every sequence of permitted calls, with every call that is not permitted tried in every state on the way
static void machine(int backend, int ndss, int async, int depth) {
    bool capi = mc::choose(2); Life L(backend, ndss, async, capi);
    auto look = [&](const char *what) { refuse_all(&L.x.h, L.st); if (L.st == OPENED && !async) L.observe(what); mc::state(L.digest()); mc::transition(); };
    look("the start");
    for (int i = 0; i < depth; i++) {
        if (L.st == NONE) { L.init(); look("Init"); }
        if (L.st == CONF) {
            int c = mc::choose(8); const char *w = "";
            switch (c) {
                case 0: w = "Open"; L.open(); break;
                case 1: w = "name B"; if (i && L.base == "B") return; L.name("B"); break;
                case 2: w = "bad prefix"; if (L.bad) return; L.name("A", true); break;
                case 3: w = "OpenOne A"; L.open_one("A", false); break;
                case 4: w = "OpenOne B"; L.open_one("B", false); break;
                case 5: w = "OpenOne of nothing"; L.open_one("A", true); break;
                case 6: w = "Close"; { int r = capi ? hxhimClose(&L.x.h) : hxhim::Close(&L.x.h); MC_CHECK(r == HXHIM_SUCCESS, "close-fails", "Close before Open returned %d", r); L.gone("Close before Open"); } break;
                default: w = "name A again"; if (L.base == "A" && !L.bad) return; L.name("A"); break;
            }
            look(w);
        } else {
            int c = mc::choose(10); const char *w = "";
            switch (c) {
                case 0: w = "PUT a"; L.put(0); break;
                case 1: w = "PUT b"; L.put(1); break;
                case 2: w = "DELETE a"; L.del(0); break;
                case 3: w = "Flush"; L.flush(); break;
                case 4: w = "Sync"; L.sync(); break;
                case 5: w = "Close"; L.close(); break;
                case 6: w = "ChangeDatastoreName A"; L.change("A"); break;
                case 7: w = "ChangeDatastoreName B"; L.change("B"); break;
                case 8: w = "ChangeDatastoreName to an impossible name"; L.change("", true); break;
                default: w = "ChangeHash"; L.change_hash(); break;
            }
            look(w);
        }
    }
    if (L.st == OPENED) { L.sync(); L.observe("Sync"); L.close(); }
    else if (L.st == CONF) hxhim::Close(&L.x.h);
    L.released("the whole history");
}
// (2) histories over several sessions
static void sessions(int len) {
    int backend = 1 + mc::choose(2), ndss = 1 + mc::choose(2), async = mc::choose(2), capi = mc::thorough() ? mc::choose(2) : (ndss + async) % 2; Life L(backend, ndss, async, capi);
    static const char *N[] = {"A", "B"};
    auto body = [&](int ops) {
        for (int i = 0; i < ops; i++) { int c = mc::choose(9); if (c == 8) break; switch (c) { case 0: L.put(0); break; case 1: L.put(1); break; case 2: L.del(0); break; case 3: L.flush(); break; case 4: L.sync(); break; case 5: L.change("A"); break; case 6: L.change("B"); break; default: L.change_hash(); } }
    };
    L.init(); L.name(N[mc::choose(2)]); L.open(); body(backend == RDB && !mc::thorough() ? 1 : len); L.close();
    L.init(); L.name(N[mc::choose(2)]); L.open(); if (!async) L.observe("reopening"); switch (mc::choose(4)) { case 1: L.put(1); break; case 2: L.del(0); break; case 3: L.change("A"); break; default: break; } L.close();
    for (auto n : {"A", "B", "HH"}) { L.init(); L.name(n); L.open(); L.observe("the last reopening"); mc::state(L.digest()); L.close(); }
    mc::transition(len + 5);
}
// (3) opens that fail because of one datastore
static void failing() {
    int backend = 1 + mc::choose(2), cause = mc::choose(4), which = mc::choose(2), mpi = mc::choose(2), async = mc::choose(2), hist = mc::choose(2), capi = mc::choose(2);
    Life L(backend, 2, async, capi); std::string victim = L.dir + "/A-" + std::to_string(which);
    L.init(); L.open(); L.put(0); L.put(1); L.close();
    Session lockholder;
    switch (cause) {
        case 0: mc::rm_rf(victim); std::ofstream(victim) << "in the way"; break;
        case 1: { Opt o; o.backend = backend; MC_CHECK(lockholder.init(o) == HXHIM_SUCCESS && hxhim::OpenOne(&lockholder.h, victim) == HXHIM_SUCCESS, "open-one-fails", "OpenOne failed"); } break;
        case 2: mc::rm_rf(victim); break;
        default: { DIR *d = opendir(victim.c_str()); while (dirent *e = readdir(d)) if (!strncmp(e->d_name, "MANIFEST", 8)) { std::ofstream(victim + "/" + e->d_name) << "garbage"; } closedir(d); } break;
    }
    int base_fds = fds(), base_threads = threads();
    auto conf = [&](bool create) { L.init(); L.x.o.create = create; if (backend == LDB) hxhim_set_datastore_leveldb(&L.x.h, create); else hxhim_set_datastore_rocksdb(&L.x.h, create); if (mpi) hxhim_set_transport_mpi(&L.x.h, 1); if (hist) { hxhim_add_histogram_track_predicate(&L.x.h, "p", 1); hxhim_datastore_histograms(&L.x.h, 1, 1); } };
    for (int again = 0; again < 2; again++) { // failing twice is no different from failing once
        conf(cause != 2); int r = capi ? hxhimOpen(&L.x.h) : hxhim::Open(&L.x.h); mc::transition();
        MC_CHECK(r != HXHIM_SUCCESS, "failed-open-succeeds", "Open succeeded although datastore %d of 2 cannot be opened (cause %d)", which, cause);
        MC_CHECK(!L.x.h.p, "session-remains", "a failed Open left a session behind"); L.st = NONE; L.puts.clear();
        refuse_all(&L.x.h, NONE);
        MC_CHECK(fds() == base_fds, "descriptor-leak", "a failed Open left %d file descriptors open (cause %d)", fds() - base_fds, cause); MC_CHECK(threads() == base_threads, "thread-leak", "a failed Open left %d threads behind", threads() - base_threads);
    }
    int other = 1 - which; // the cause goes away; the other datastore is what it was
    switch (cause) { case 0: case 3: mc::rm_rf(victim); break; case 1: MC_CHECK(hxhim::Close(&lockholder.h) == HXHIM_SUCCESS, "close-fails", "close failed"); break; default: break; }
    if (cause != 1) L.disk["A"][which].clear();
    conf(true); L.open(); if (!async) L.observe("a failed Open"); L.put(0); L.put(1); L.sync(); L.observe("Sync"); L.close(); (void) other;
    mc::state(std::to_string(backend) + std::to_string(cause) + std::to_string(which) + std::to_string(mpi) + std::to_string(async));
}
// (4) several ranks: all open or none does; collective calls return on all
static std::string g_err; static std::mutex g_mx;
static void note(const std::string &m) { std::lock_guard<std::mutex> l(g_mx); if (g_err.empty()) g_err = m; }
static void ranks(int maxranks) {
    int n = 2 + mc::choose(maxranks - 1), backend = 1 + mc::choose(2), cause = mc::choose(3), mpi = mc::choose(2), async = mc::choose(2), ratio = 1 + mc::choose(2), bad = mc::choose(1 << n), one = mc::choose(2);
    if (!async && mpi && n > 2 && !mc::thorough()) mc::prune();
    fmpi::reset(n, true); std::string dir = mc::fresh_dir("db"); std::ofstream(dir + "/file") << "x"; g_err.clear();
    Session lock; auto server = [&](int r) { return ratio == 1 || r % 2 == 0; }; auto id = [&](int r) { return ratio == 1 ? r : r / 2; };
    bool any = false; for (int r = 0; r < n; r++) if ((bad >> r & 1) && server(r)) { any = true; if (cause == 1) std::ofstream(dir + "/A-" + std::to_string(id(r))) << "in the way"; }
    int base_fds = fds(), base_threads = threads(); std::vector<std::thread> th; std::atomic<int> opened{0};
    for (int r = 0; r < n; r++) th.emplace_back([&, r] {
        fmpi::set_rank(r); Session x; Opt o; o.backend = backend; o.client = ratio; o.server = 1; o.dir = dir; o.base = "A"; o.async = async; o.mpi = mpi; bool b = bad >> r & 1; o.hash = mpi ? "SUM_MOD_DATASTORES" : "RANK_MOD_DATASTORES";
        if (b && cause == 0) o.dir = dir + "/file/below";
        if (x.init(o) != HXHIM_SUCCESS) { note("init failed"); return; }
        if (b && cause == 2) { if (backend == LDB) hxhim_set_datastore_leveldb(&x.h, 0); else hxhim_set_datastore_rocksdb(&x.h, 0); }
        if (one) { std::string p = dir + "/A-0"; int rc = hxhim::OpenOne(&x.h, p); if (rc == HXHIM_SUCCESS) note("OpenOne succeeded with several ranks"); if (x.h.p) note("a failed OpenOne left a session behind"); return; }
        int rc = hxhim::Open(&x.h); if (rc == HXHIM_SUCCESS) opened++;
        if (rc == HXHIM_SUCCESS && any) { note("rank " + std::to_string(r) + " opened although another rank failed"); }
        if (rc != HXHIM_SUCCESS && !any) note("rank " + std::to_string(r) + " did not open");
        if (rc != HXHIM_SUCCESS) { if (x.h.p) note("a failed Open left a session behind"); if (hxhim::Close(&x.h) != HXHIM_ERROR) note("Close after a failed Open is accepted"); return; }
        if (any) { hxhim::Close(&x.h); return; }
        bool can = mpi || (server(r) && id(r) == r % ((n + ratio - 1) / ratio)); // without a transport only a rank's own datastore can be reached
        auto round = [&](const std::string &v) { if (!can) return; V s = B(std::string(1, 'a' + r)); if (x.put(s, B("p"), B(v)) != HXHIM_SUCCESS) note("put refused"); };
        auto check = [&](const std::string &v) { if (!can) return; V s = B(std::string(1, 'a' + r)); x.get(s, B("p"), HXHIM_DATA_BYTE); Recs g = x.flush_gets(); if (g.size() != 1 || g[0].ok() != !v.empty() || (g[0].ok() && g[0].o.b != v)) note("rank " + std::to_string(r) + " expected " + v + " got " + show(g)); };
        round("1"); x.sync(); check("1"); round("2"); read(hxhim::ChangeDatastoreName(&x.h, "B", true, true, true)); x.drop(); check(""); round("3"); read(hxhim::ChangeDatastoreName(&x.h, "A", true, true, true)); x.drop(); check("2"); round("4");
        if (hxhim::Close(&x.h) != HXHIM_SUCCESS) note("close failed");
    });
    for (auto &t : th) t.join();
    fmpi::set_rank(0); mc::transition(n);
    MC_CHECK(g_err.empty(), "ranks", "%d ranks, failing 0x%x (cause %d): %s", n, bad, cause, g_err.c_str());
    MC_CHECK(fds() == base_fds, "descriptor-leak", "%d file descriptors remain open", fds() - base_fds); MC_CHECK(threads() == base_threads, "thread-leak", "%d threads remain", threads() - base_threads);
    mc::state(std::to_string(n) + "," + std::to_string(bad) + "," + std::to_string(cause) + std::to_string(mpi) + std::to_string(async) + std::to_string(ratio));
}
int main(int argc, char **argv) {
    clean_env();
    mc::E().property = "C16";
    mc::E().assumptions = {"Init on a session that is already initialised is documented to discard it and is not explored", "a rank's failure to open is provoked by files in the way, held locks, missing datastores, damaged manifests and a ratio of zero"};
    auto add = [&](const std::string &n, const std::string &b, std::function<void()> f, int tier = 0, double budget = 0) { auto &s = mc::space(n, b, f); s.only_tier = tier; s.budget_s = budget; s.hang_s = 60; };
    const char *B0 = "all sequences of permitted calls (Init, names, Open, OpenOne, PUT, DELETE, Flush, Sync, Close, ChangeDatastoreName, ChangeHash incl. impossible ones) in C and C++, with all calls that are not permitted tried after every step";
    add("machine-memory", std::string(B0) + ", depth 5, in memory", [] { machine(MEM, 2, 0, 5); }, 1);
    add("machine-leveldb", std::string(B0) + ", depth 4, LevelDB", [] { machine(LDB, 1, 0, 4); }, 1);
    add("machine-rocksdb", std::string(B0) + ", depth 3, RocksDB", [] { machine(RDB, 1, 0, 3); }, 1);
    add("machine-async", std::string(B0) + ", depth 4, in memory with background PUTs", [] { machine(MEM, 1, 1, 4); }, 1);
    add("sessions", "session 1: all sequences of up to 2 (RocksDB: 1) of 8 calls, Close, session 2: nothing, PUT, DELETE or ChangeDatastoreName, Close, then every name reopened and read; 2 backends x 1..2 datastores x background PUTs x C and C++ interface", [] { sessions(2); }, 1);
    add("failing-opens", "2 backends x 4 causes x which datastore x transport x background PUTs x histograms x interface, twice, then without the cause", [] { failing(); });
    add("ranks", "2..3 ranks x 2 backends x 3 causes (prefix below a file, file in the way, missing datastore) x every subset of failing ranks x 2 ratios x transport x background PUTs x Open/OpenOne", [] { ranks(3); });
    add("machine-memory-deep", "depth 7, in memory", [] { machine(MEM, 2, 0, 7); }, 2, 900);
    add("machine-leveldb-deep", "depth 6, LevelDB", [] { machine(LDB, 2, 0, 6); }, 2, 900);
    add("sessions-deep", "sequences of up to 3 calls", [] { sessions(3); }, 2, 900);
    add("machine-rocksdb-deep", "depth 5, RocksDB", [] { machine(RDB, 2, 0, 5); }, 2, 600);
    return mc::run(argc, argv);
}
