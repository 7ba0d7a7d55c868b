// C13: histograms of tracked predicates.  All short histories of PUTs, deletes, syncs, reopens and name changes with
// every combination of the read/write/create settings, against a model that keeps the list of counted values of each
// histogram, live and stored.  Histograms are compared by their serialised form with a histogram given the same values.
#include "hx.hpp"
#include "refkey.hpp"
#include "hxhim/config.hpp"
#include "hxhim/hash.h"
#include "hxhim/private/hxhim.hpp"
#include "utils/Histogram.hpp"
#include <map>
using namespace hx;

typedef std::vector<double> Vals; typedef std::map<std::string, Vals> Hists; typedef std::map<Key, V> Rows;
static int enc(void *s, const size_t n, void **d, size_t *dn, void *) { if (*(double *) s == 13) return HXHIM_ERROR; *d = alloc(n); memcpy(*d, s, n); *dn = n; return HXHIM_SUCCESS; }
static int dec(void *s, const size_t n, void **d, size_t *dn, void *) { *d = alloc(n); memcpy(*d, s, n); *dn = n; return HXHIM_SUCCESS; }

enum { PD, PF, PB, PT, PR, PX, DEL, QRY, SYN, RO00, RO01, RO10, RO11, RO1, NM000, NM001, NM010, NM011, NM100, NM101, NM110, NM111, NOPS };
static const char *ON[] = {"PUT p=double", "PUT p=float", "BPUT p=double q=double p=int", "PUT p(POINTER)=double", "PUT r=double twice", "BPUT p=double p=failing r=failing", "DELETE", "QUERY", "SYNC",
    "REOPEN read0 write0", "REOPEN read0 write1", "REOPEN read1 write0", "REOPEN read1 write1", "REOPEN tracking p only", "RENAME write0 read0 create0", "RENAME write0 read0 create1", "RENAME write0 read1 create0", "RENAME write0 read1 create1",
    "RENAME write1 read0 create0", "RENAME write1 read0 create1", "RENAME write1 read1 create0", "RENAME write1 read1 create1"};
struct Cfg { int backend; std::vector<int> ops; int depth; std::vector<size_t> first; std::vector<size_t> ds; std::vector<int> names; bool both; };
static const char *GEN = "SQUARE_ROOT_CHOICE";
struct H {
    Session x; Opt o; std::string P = "p", R = "r"; int name = 0; bool write = false, read = false; double next = 1; std::vector<std::string> tracked;
    struct D { Hists live; std::map<int, Hists> stored; std::map<int, Rows> rows; } d[2];
    std::vector<std::string> all_names;
    int ds(const V &s, const V &p) { return hxhim_hash(&x.h, s.ptr(), s.len(), p.ptr(), p.len()); }
    bool is_tracked(const std::string &n) { return std::find(tracked.begin(), tracked.end(), n) != tracked.end(); }
    void put(const V &s, const V &p, const V &v, bool queue = true) {
        if (queue) HX_QUEUED(x.put(s, p, v), "put");
        int k = ds(s, p); MC_CHECK(k >= 0 && k < (int) o.datastores, "hash", "datastore %d", k);
        if (v.t == HXHIM_DATA_DOUBLE && as<double>(v.b) == 13) return; // fails
        d[k].rows[name][Key(s, p)] = v;
        if (p.t != HXHIM_DATA_BYTE || (v.t != HXHIM_DATA_DOUBLE && v.t != HXHIM_DATA_FLOAT)) return;
        auto it = d[k].live.find(p.b); if (it != d[k].live.end()) it->second.push_back(v.t == HXHIM_DATA_FLOAT ? (double) as<float>(v.b) : as<double>(v.b));
    }
    void bput(std::vector<std::array<V, 3>> items) {
        void *s[4], *p[4], *v[4]; size_t ls[4], lp[4], lv[4]; hxhim_data_t ts[4], tp[4], tv[4]; hxhim_put_permutation_t pm[4]; size_t n = items.size();
        for (size_t i = 0; i < n; i++) { auto a = x.keep(0, items[i][0]), b = x.keep(0, items[i][1]), c = x.keep(0, items[i][2]); s[i] = a.p; ls[i] = a.n; ts[i] = a.t; p[i] = b.p; lp[i] = b.n; tp[i] = b.t; v[i] = c.p; lv[i] = c.n; tv[i] = c.t; pm[i] = HXHIM_PUT_SPO; put(items[i][0], items[i][1], items[i][2], false); }
        HX_QUEUED(hxhim::BPut(&x.h, s, ls, ts, p, lp, tp, v, lv, tv, pm, n), "bput");
    }
    void open() {
        o.hist_read = read; o.hist_write = write; o.base = name ? "m" : "h"; o.track = tracked;
        if (x.init(o) != HXHIM_SUCCESS) mc::fail("init", "Init failed");
        hxhim_set_histogram_bucket_gen_name(&x.h, GEN);
        hxhim_set_transform_function(&x.h, HXHIM_DATA_DOUBLE, enc, nullptr, dec, nullptr);
        if (x.open() != HXHIM_SUCCESS || !x.h.p) mc::fail("open", "Open failed");
        for (size_t k = 0; k < o.datastores; k++) { if (o.backend == MEM) { d[k].rows.clear(); d[k].stored.clear(); } enter(k, read, true); }
    }
    void enter(int k, bool rd, bool create) { d[k].live.clear(); for (auto &t : tracked) { auto &st = d[k].stored[name]; if (rd && st.count(t)) d[k].live[t] = st[t]; else if (create) d[k].live[t] = {}; } }
    void store(int k) { for (auto &l : d[k].live) d[k].stored[name][l.first] = l.second; }
    void reopen() { if (write) for (size_t k = 0; k < o.datastores; k++) store(k); MC_CHECK(x.close() == HXHIM_SUCCESS, "close", "Close failed"); }
    void rename(bool w, bool r, bool c) {
        std::string base = name ? "h" : "m"; bool own = mc::choose(1); (void) own;
        // the session's own setting is used when the old datastore is synchronised
        if (write || w) for (size_t k = 0; k < o.datastores; k++) store(k);
        Recs res = hx::read(hxhim::ChangeDatastoreName(&x.h, base, w, r, c)); x.drop(); size_t n = 0;
        for (auto &q : res) if (q.op == HXHIM_SYNC) { MC_CHECK(q.ok(), "rename-sync", "%s", show(q).c_str()); n++; } MC_CHECK(n == o.datastores, "rename-results", "%s", show(res).c_str());
        name = !name; for (size_t k = 0; k < o.datastores; k++) { if (o.backend == MEM) { d[k].rows.clear(); d[k].stored.clear(); } enter(k, r, c); }
    }
    void query(int k, const std::string &nm) {
        auto it = d[k].live.find(nm); bool want = it != d[k].live.end();
        HX_QUEUED(x.hist(k, nm), "histogram");
        hxhim::Results *res = hxhim::FlushHistograms(&x.h); size_t n = 0;
        MC_CHECK(res, "query", "no results"); // one result
        HXHIM_CXX_RESULTS_LOOP(res) {
            n++; int st = 0, rs = -1; hxhim_op_t op; res->Op(&op); res->Status(&st); res->RangeServer(&rs); MC_CHECK(op == HXHIM_HISTOGRAM && rs == k, "query-identity", "operation %d datastore %d", op, rs);
            MC_CHECK((st == HXHIM_SUCCESS) == want, want ? "query-missing" : "query-extra", "a query of %s on datastore %d: status %d, it should %sexist", show(nm).c_str(), k, st, want ? "" : "not ");
            ::Histogram::Histogram *h = nullptr;
            if (!want) continue;
            MC_CHECK(res->Histogram(&h) == HXHIM_SUCCESS && h, "query-result", "no histogram in the result");
            ::Histogram::Config cfg{o.first_n, hxhim::config::HISTOGRAM_BUCKET_GENERATORS.at(GEN), nullptr}; ::Histogram::Histogram ref(cfg, nm); for (double v : it->second) ref.add(v);
            void *a = nullptr, *b = nullptr; size_t na = 0, nb = 0; MC_CHECK(h->pack(&a, &na) && ref.pack(&b, &nb), "pack", "cannot pack"); std::string A((char *) a, na), Bs((char *) b, nb); dealloc(a); dealloc(b);
            if (A != Bs) { std::stringstream s, t; h->print(s); ref.print(t); std::string vals; for (double v : it->second) { char w[32]; snprintf(w, sizeof w, "%g ", v); vals += w; } mc::fail("contents", "histogram %s of datastore %d is\n%sinstead of\n%s(values %s)", show(nm).c_str(), k, s.str().c_str(), t.str().c_str(), vals.c_str()); }
            mc::state(A);
        }
        MC_CHECK(n == 1, "query-count", "%zu results", n); hxhim::Results::Destroy(res); x.drop(4);
    }
    void verify() {
        x.take(hxhim::FlushPuts(&x.h), 0);
        for (size_t k = 0; k < o.datastores; k++) {
            for (auto &n : {P, R, std::string("q"), std::string("P"), P + "p", std::string("HISTOGRAM"), std::string()}) query(k, n);
            // ordinary reads
            for (auto &e : d[k].rows[name]) { Rec r = do_get(x, e.first.first, e.first.second, e.second.t); MC_CHECK(r.ok() && r.o == e.second, "get", "GET %s gives %s instead of %s", show(e.first).c_str(), show(r).c_str(), show(e.second).c_str()); }
            for (auto &n : {P, std::string("q")}) { Key key(B("HISTOGRAMS"), B(n)); if (ds(key.first, key.second) == (int) k) { Rec r = do_get(x, key.first, key.second, HXHIM_DATA_BYTE); MC_CHECK(!r.ok(), "get-extra", "GET %s gives %s", show(key).c_str(), show(r).c_str()); } }
        }
        scan();
    }
    void scan() { // a walk over everything shows the records in order; stored histograms may be there, as well formed records
        HX_QUEUED(x.getop(B("s"), B("p"), HXHIM_DATA_BYTE, 100, HXHIM_GETOP_FIRST), "getop"); Recs r = x.flush_getops(); int k = ds(B("s"), B("p"));
        std::vector<Row> rows; for (auto &e : d[k].rows[name]) { Row w; w.k = e.first; w.o = e.second; w.key = dbkey(e.first, o); rows.push_back(w); } std::sort(rows.begin(), rows.end());
        size_t i = 0; bool stored = !d[k].stored[name].empty();
        if (rows.empty() && !stored) { MC_CHECK(r.size() == 1 && !r[0].ok(), "scan-empty", "%s", show(r).c_str()); return; }
        for (auto &q : r) {
            MC_CHECK(q.ok() && q.has_o, "scan-status", "a scan over %zu records gives %s", rows.size(), show(r).c_str());
            if (q.s == B("HISTOGRAM") && d[k].stored[name].count(q.p.b)) { MC_CHECK(q.o.t == HXHIM_DATA_BYTE, "scan-histogram", "%s", show(q).c_str()); continue; }
            MC_CHECK(i < rows.size() && Key(q.s, q.p) == rows[i].k && q.o == rows[i].o, "scan", "record %zu of a scan is %s", i, show(q).c_str()); i++;
        }
        MC_CHECK(i == rows.size(), "scan-missing", "%zu of %zu records", i, rows.size());
    }
    void step(int op) {
        mc::note("%s", ON[op]); V s = B("s"), s2 = B("t"); double v = next;
        switch (op) {
            case PD: put(s, B(P), hx::D(next++)); break;
            case PF: put(s2, B(P), hx::F((float) next++)); break;
            case PB: next++; bput({{s, B(P), hx::D(v)}, {s, B("q"), hx::D(v + 0.5)}, {s2, B(P), I32(5)}}); break;
            case PT: next++; put(s, hx::P(P), hx::D(v)); break;
            case PR: next++; put(s, B(R), hx::D(v)); put(s, B(R), hx::D(v + 0.5)); break;
            case PX: next++; bput({{s, B(P), hx::D(v)}, {s2, B(P), hx::D(13)}, {s, B(R), hx::D(13)}}); break;
            case DEL: { x.take(hxhim::FlushPuts(&x.h), 0); do_del(x, s, B(P)); d[ds(s, B(P))].rows[name].erase(Key(s, B(P))); break; }
            case QRY: verify(); break;
            case SYN: { if (write) for (size_t k = 0; k < o.datastores; k++) store(k); Recs r = x.sync(); for (auto &q : r) if (q.op == HXHIM_SYNC) MC_CHECK(q.ok(), "sync", "%s", show(q).c_str()); break; }
            case RO00: case RO01: case RO10: case RO11: reopen(); read = (op - RO00) & 2; write = (op - RO00) & 1; tracked = {P, R}; open(); break;
            case RO1: reopen(); read = true; tracked = {P}; open(); break;
            default: rename((op - NM000) & 4, (op - NM000) & 2, (op - NM000) & 1);
        }
        mc::transition();
    }
};
static void history(const Cfg &c) {
    H h; h.o.backend = c.backend; h.o.hash = "SUM_MOD_DATASTORES"; h.o.first_n = c.first[mc::choose((int) c.first.size())]; h.o.datastores = c.ds[mc::choose((int) c.ds.size())];
    switch (c.names[mc::choose((int) c.names.size())]) { case 1: h.P = std::string("p\0", 2); h.R = "p"; break; case 2: h.P = "\xff"; h.R = std::string("\xff\x00\xff", 3); break; default: break; }
    h.write = c.both ? mc::choose(2) : true; h.read = true; h.tracked = {h.P, h.R};
    int n = mc::choose(c.depth) + 1; std::vector<int> ops; for (int i = 0; i < n; i++) ops.push_back(c.ops[mc::choose((int) c.ops.size())]);
    std::string t; for (int op : ops) t += std::string(ON[op]) + "; ";
    mc::note("%s, %zu datastores, first_n %zu, write %d: %s", bname(c.backend), h.o.datastores, h.o.first_n, h.write, t.c_str());
    h.o.dir = mc::fresh_dir("c13"); fmpi::reset(1, true); h.open();
    for (int op : ops) h.step(op);
    h.verify(); h.reopen(); mc::outcome(mc::hash(t));
}
// a user's record under the key at which a histogram is stored
static void reserved() {
    int be = 1 + mc::choose(2), what = mc::choose(3);
    H h; h.o.backend = be; h.o.first_n = 2; h.write = true; h.read = true; h.tracked = {"p"}; h.o.dir = mc::fresh_dir("c13"); fmpi::reset(1, true); h.open();
    V s = B("HISTOGRAM"), p = B("p"), v = B("a value of the user that is longer than the head of a histogram");
    if (what == 0) { h.put(B("s"), p, hx::D(1)); h.x.sync(); Rec r = do_get(h.x, s, p, HXHIM_DATA_BYTE); h.reopen(); MC_CHECK(!r.ok(), "stored-histogram-read", "a histogram is returned as the value of a key that was never PUT: %s", show(r).c_str()); return; }
    if (what == 1) { do_put(h.x, s, p, v); h.x.sync(); Rec r = do_get(h.x, s, p, HXHIM_DATA_BYTE); h.reopen(); MC_CHECK(r.ok() && r.o == v, "value-overwritten", "a value that was PUT is replaced by a histogram: %s", show(r).c_str()); return; }
    h.write = false; h.reopen(); h.open(); do_put(h.x, s, p, v); h.reopen(); // not written, but read
    h.open(); h.query(0, "p"); h.reopen();
}
int main(int argc, char **argv) {
    mc::E().property = "C13"; bool t = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) t = true;
    clean_env();
    std::vector<int> full; for (int i = 0; i < NOPS; i++) full.push_back(i);
    std::vector<int> mem; for (int i : {PD, PF, PB, PT, PR, PX, DEL, QRY, SYN, RO11, NM011, NM110}) mem.push_back(i);
    std::vector<int> persist = {PD, PR, SYN, RO11, RO10, RO01, NM111, NM010, NM101};
    mc::space("in memory", "all histories of 1..4 (thorough 5) of 12 operations, first_n 0 and 2 (thorough 0..2), two datastores (thorough also one)", [=] { history({MEM, mem, t ? 5 : 4, t ? std::vector<size_t>{2, 1, 0} : std::vector<size_t>{2, 0}, t ? std::vector<size_t>{1, 2} : std::vector<size_t>{2}, {0}, false}); });
    mc::space("LevelDB", "all histories of 1..3 (thorough 4) of 22 operations, writing histograms or not, first_n 2", [=] { history({LDB, full, t ? 4 : 3, {2}, {1}, {0}, true}); }).budget_s = t ? 2000 : 0;
    mc::space("LevelDB, long", "all histories of 1..4 (thorough 5) of 9 operations, first_n 2 and 3, two datastores", [=] { history({LDB, persist, t ? 5 : 4, {2, 3}, {2}, {0}, false}); });
    mc::space("LevelDB, names", "histories of 1..3 of 7 operations, predicate names with zero and high bytes that are prefixes of each other", [=] { history({LDB, {PD, PF, PR, PB, SYN, RO11, NM111}, 3, {2}, {2}, {1, 2}, false}); });
    mc::space("RocksDB", "all histories of 1..2 (thorough 3) of 22 operations, first_n 2", [=] { history({RDB, full, t ? 3 : 2, {2}, {1}, {0}, t}); });
    mc::space("reserved key", "LevelDB and RocksDB x a user's operation on the key (\"HISTOGRAM\", tracked name)", reserved);
    mc::E().assumptions = {"histogram arithmetic itself is C12: the reference histogram is built from the same class by adding the values", "values come from a small increasing sequence"};
    return mc::run(argc, argv);
}
