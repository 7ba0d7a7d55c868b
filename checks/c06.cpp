// flavour: mc
// extra: lib/fakelog.cpp lib/sched.cpp
// C06: background PUTs.  The real session code runs under a controlled scheduler: every schedule of the calling
// thread and the background thread up to a bound on preemptions, for every short program of the caller, compared
// with a model in which each key has a value and a queue of PUTs that have not been applied for certain; every
// memory access is examined for races and uses after release.
#include "hx.hpp"
#include "sched.hpp"
#include "hxhim/hash.h"
#include "utils/memory.hpp"
using namespace hx;

// the transform of DOUBLE objects counts the PUTs a datastore was given
static int encoded;
static int enc(void *s, const size_t n, void **d, size_t *dn, void *) { encoded++; *d = alloc(n); *dn = n; memcpy(*d, s, n); return HXHIM_SUCCESS; }
static int dec(void *s, const size_t n, void **d, size_t *dn, void *) { *d = alloc(n); *dn = n; memcpy(*d, s, n); return HXHIM_SUCCESS; }

enum Step { P0, P1, B2, FP, GT, FA, SY, DL, NM, B3, NSTEPS };
static const char *SNAME[] = {"PUT k0", "PUTDOUBLE k1", "BPUT k0 k1", "FLUSHPUTS", "GET", "FLUSH", "SYNC", "DELETE k0", "RENAME", "BPUTDOUBLE k0 k1"};
struct KeyState { bool has; double v; size_t applied; bool operator<(const KeyState &o) const { return has != o.has ? has < o.has : has && v != o.v ? v < o.v : applied < o.applied; } };
struct Run {
    Session x; Opt o; double next = 1; Key k[2] = {Key(B("a"), B("p")), Key(B("b"), B("p"))};
    std::set<KeyState> st[2]; std::vector<double> pend[2]; size_t unreported = 0, accepted = 0; std::vector<Key> outstanding;
    std::vector<double> tracked[2]; // per datastore
    Run() { for (auto &s : st) s.insert(KeyState{false, 0, 0}); }
    int ds(int i) { return hxhim_hash(&x.h, k[i].first.ptr(), k[i].first.len(), k[i].second.ptr(), k[i].second.len()); }
    void queued(int i, double v) { pend[i].push_back(v); outstanding.push_back(k[i]); accepted++; }
    std::set<KeyState> closure(int i) { std::set<KeyState> r; for (auto &s : st[i]) for (size_t n = s.applied; n <= pend[i].size(); n++) r.insert(n == s.applied ? s : KeyState{true, pend[i][n - 1], n}); return r; }
    void all_applied() { for (int i = 0; i < 2; i++) { std::set<KeyState> r; for (auto &s : st[i]) r.insert(s.applied < pend[i].size() ? KeyState{true, pend[i].back(), 0} : KeyState{s.has, s.v, 0}); st[i] = r; for (double v : pend[i]) tracked[ds(i)].push_back(v); pend[i].clear(); } }
    void puts_reported(Recs &r) { // takes the PUT results out
        std::vector<Key> got; Recs rest; for (auto &q : r) if (q.op == HXHIM_PUT) { MC_CHECK(q.ok(), "put-failed", "%s", show(q).c_str()); got.push_back(Key(q.s, q.p)); } else rest.push_back(q);
        std::sort(got.begin(), got.end()); std::sort(outstanding.begin(), outstanding.end());
        MC_CHECK(got == outstanding, got.size() < outstanding.size() ? "put-results-missing" : "put-results-extra", "%zu PUTs accepted and not yet reported, %zu reported: %s", outstanding.size(), got.size(), show(r).c_str());
        outstanding.clear(); all_applied(); r = rest;
    }
    void put(int i) { double v = next++; queued(i, v); 
        if (i == 0) { HX_QUEUED(x.put(k[i].first, k[i].second, hx::D(v)), "put"); return; }
        Session::Raw a = x.keep(0, k[i].first), b = x.keep(0, k[i].second), c = x.keep(0, hx::D(v)); HX_QUEUED(hxhim::PutDouble(&x.h, a.p, a.n, a.t, b.p, b.n, b.t, (double *) c.p, HXHIM_PUT_SPO), "put-double"); }
    void check_gets(Recs &r) {
        size_t n = 0; Recs rest;
        for (auto &q : r) {
            if (q.op != HXHIM_GET) { rest.push_back(q); continue; }
            int i = Key(q.s, q.p) == k[0] ? 0 : 1; MC_CHECK(Key(q.s, q.p) == k[i], "get-identity", "%s", show(q).c_str()); n++;
            std::set<KeyState> c = closure(i), keep; for (auto &s : c) if (s.has == q.ok() && (!s.has || hx::D(s.v) == q.o)) keep.insert(s);
            MC_CHECK(!keep.empty(), "get-value", "GET answered %s after %zu unreported PUTs of that key", show(q).c_str(), pend[i].size()); st[i] = keep;
        }
        MC_CHECK(n == 2, "get-count", "2 GETs, %zu results", n); r = rest;
    }
    void step(int step) {
        mc::note("%s", SNAME[step]); Recs r;
        switch (step) {
            case P0: put(0); return;
            case P1: put(1); return;
            case B2: case B3: {
                double v[2] = {next, next + 1}; next += 2; Session::Raw a[2], b[2], c[2]; void *s[2], *p[2], *ob[2]; hxhim_data_t t[2] = {HXHIM_DATA_BYTE, HXHIM_DATA_BYTE}, to[2] = {HXHIM_DATA_DOUBLE, HXHIM_DATA_DOUBLE}; hxhim_put_permutation_t pm[2] = {HXHIM_PUT_SPO, HXHIM_PUT_SPO}; size_t ls[2] = {1, 1}, lp[2] = {1, 1}, lob[2] = {8, 8};
                for (int i = 0; i < 2; i++) { a[i] = x.keep(0, k[i].first); b[i] = x.keep(0, k[i].second); c[i] = x.keep(0, hx::D(v[i])); s[i] = a[i].p; p[i] = b[i].p; ob[i] = c[i].p; queued(i, v[i]); }
                if (step == B3) { double *od[2] = {(double *) ob[0], (double *) ob[1]}; HX_QUEUED(hxhim::BPutDouble(&x.h, s, ls, t, p, lp, t, od, pm, 2), "bput-double"); return; }
                HX_QUEUED(hxhim::BPut(&x.h, s, ls, t, p, lp, t, ob, lob, to, pm, 2), "bput"); return;
            }
            case FP: r = x.flush_puts(); puts_reported(r); break;
            case GT: for (auto &q : k) HX_QUEUED(x.get(q.first, q.second, HXHIM_DATA_DOUBLE), "get"); r = x.flush_gets(); check_gets(r); break;
            case FA: for (auto &q : k) HX_QUEUED(x.get(q.first, q.second, HXHIM_DATA_DOUBLE), "get"); r = x.flush(); puts_reported(r); check_gets(r); break;
            case SY: { r = x.sync(); puts_reported(r); size_t n = 0; for (auto &q : r) { MC_CHECK(q.op == HXHIM_SYNC && q.ok(), "sync", "%s", show(q).c_str()); n++; } MC_CHECK(n == o.datastores, "sync-count", "%zu SYNC results", n); return; }
            case DL: {
                HX_QUEUED(x.del(k[0].first, k[0].second), "delete"); r = x.flush_dels(); MC_CHECK(r.size() == 1 && r[0].op == HXHIM_DELETE, "delete-count", "%s", show(r).c_str());
                std::set<KeyState> keep; for (auto &c : closure(0)) if (c.has == r[0].ok()) keep.insert(KeyState{false, 0, c.applied}); MC_CHECK(!keep.empty(), "delete-status", "%s", show(r).c_str()); st[0] = keep; return;
            }
            case NM: { r = hx::read(hxhim::ChangeDatastoreName(&x.h, "n", false, false, true)); x.drop(); puts_reported(r); size_t n = 0; for (auto &q : r) { MC_CHECK(q.op == HXHIM_SYNC && q.ok(), "sync", "%s", show(q).c_str()); n++; } MC_CHECK(n == o.datastores, "sync-count", "%zu SYNC results", n);
                for (auto &s : st) { s.clear(); s.insert(KeyState{false, 0, 0}); } for (auto &t : tracked) t.clear(); return; }
        }
        MC_CHECK(r.empty(), "extra-results", "%s", show(r).c_str());
    }
    void verify() { // everything flushed: contents and histograms are exactly those of the PUTs accepted
        step(FP); step(GT); Recs r;
        for (size_t d = 0; d < o.datastores; d++) {
            HX_QUEUED(x.hist(d, "p"), "histogram"); r = x.flush_hists(); MC_CHECK(r.size() == 1 && r[0].ok() && r[0].has_h, "histogram", "%s", show(r).c_str());
            std::vector<double> a = r[0].cached, b = tracked[d]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            MC_CHECK(a == b, "put-applied-once", "the tracked predicate of datastore %zu has %zu values, %zu PUTs were accepted", d, a.size(), b.size());
        }
    }
};
struct Bound { int depth, preempt, spurious; std::vector<int> steps; bool configs; };
static void program(const Bound &b) {
    Run R; Opt &o = R.o;
    o.track = {"p"}; o.first_n = 64; o.async = 1; o.max_ops = 1; o.datastores = 1; o.hash = "SUM_MOD_DATASTORES";
    if (b.configs) { o.async = 1 + mc::choose(3); o.max_ops = 1 + mc::choose(2); o.datastores = 1 + mc::choose(2); }
    std::vector<int> prog; int n = mc::choose(b.depth) + 1; for (int i = 0; i < n; i++) prog.push_back(b.steps[mc::choose((int) b.steps.size())]);
    bool end_flushed = mc::choose(2); std::string p; for (int s : prog) p += std::string(SNAME[s]) + "; "; 
    mc::note("background PUTs from %zu, %zu per request, %zu datastores: %s%s", o.async, o.max_ops, o.datastores, p.c_str(), end_flushed ? "flush, verify, close" : "close");
    fmpi::reset(1, true); encoded = 0;
    sched::begin(b.preempt, b.spurious);
    MC_CHECK(R.x.init(o) == HXHIM_SUCCESS, "init", "Init failed");
    hxhim_set_transform_function(&R.x.h, HXHIM_DATA_DOUBLE, enc, nullptr, dec, nullptr);
    MC_CHECK(R.x.open() == HXHIM_SUCCESS, "open", "Open failed");
    for (int s : prog) R.step(s);
    if (end_flushed) R.verify();
    MC_CHECK(R.x.close() == HXHIM_SUCCESS && !R.x.h.p, "close", "Close failed");
    sched::end();
    MC_CHECK((size_t) encoded == R.accepted, "put-executed-once", "%zu PUTs accepted, the datastores were given %d by the time Close had returned", R.accepted, encoded);
    mc::transition(sched::steps()); mc::outcome(mc::hash(p) ^ mc::mix(sched::switches));
    std::string fin; for (int i = 0; i < 2; i++) for (auto &s : R.st[i]) fin += std::to_string(s.has) + std::to_string(s.v); mc::state(p + fin);
    sched::switches = 0;
}
int main(int argc, char **argv) {
    mc::E().property = "C06";
    int t = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) t = 1;
    mc::space("programs", "all programs of 1..2 (thorough 3) steps over 10 caller steps x 2 ends, all schedules with up to 2 (thorough 3) preemptions", [t] { program({t ? 3 : 2, t ? 3 : 2, 0, {P0, P1, B2, B3, FP, GT, FA, SY, DL, NM}, false}); }).budget_s = t ? 2000 : 0;
    mc::space("longer programs", "all programs of 1..3 (thorough 4) steps over PUT, BPUT, FLUSHPUTS, GET, DELETE, FLUSH x 2 ends, all schedules with up to 2 preemptions", [t] { program({t ? 4 : 3, 2, 0, {P0, B2, FP, GT, DL, FA}, false}); });
    mc::space("configurations", "programs of 1..4 steps over PUT, BPUT, GET, FLUSHPUTS x start at 1..3 full batches x 1..2 PUTs per request x 1..2 datastores, up to 1 preemption (thorough 2)", [t] { program({t ? 4 : 3, t ? 2 : 1, 0, {P0, B2, GT, FP}, true}); });
    mc::space("spurious", "programs of 1..2 steps, up to 2 preemptions and one condition wait that returns without a notification", [t] { program({2, t ? 3 : 2, 1, {P0, FP, FA, NM}, false}); });
    mc::space("deep", "programs of one step PUT, BPUT, FLUSHPUTS, FLUSH, all schedules with up to 3 (thorough 4) preemptions", [t] { program({1, t ? 4 : 3, 0, {P0, B2, FP, FA}, false}); });
    mc::E().assumptions = {"sequentially consistent memory: executions with a data race are reported, race-free ones behave the same on weaker models", "condition waits without a deadline", "in-memory datastores (LevelDB and RocksDB threads are not scheduled)", "code inside libstdc++'s shared object is not instrumented"};
    return mc::run(argc, argv);
}
