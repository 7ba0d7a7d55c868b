// flavour: mc
// extra: lib/fakelog.cpp lib/sched.cpp
// C08: several threads submit bulk requests to one datastore object under the controlled scheduler; the answers,
// the final contents, the histogram and the statistics must be those of some order of whole requests that respects
// real time, and no access may race.
#include "hx.hpp"
#include "refkey.hpp"
#include "sched.hpp"
#include "datastore/datastores.hpp"
#include "utils/memory.hpp"
#include <map>
#include <thread>
using namespace hx;

// transforms of the objects, with a scheduling point inside: another thread may run while a request is half done
static int xcode(void *s, const size_t n, void **d, size_t *dn, void *) { sched::point("transform"); *d = alloc(n + 1); memcpy(*d, s, n); *dn = n; return HXHIM_SUCCESS; }

enum R { PUT_AB, PUT_BA, PUT_A, PUT_AA, PUT_BYTE, GET_AB, GET_BA, NEXT2, DEL_AB, DEL_B, HIST, HIST2, SYNC, STATS, NR };
static const char *RN[] = {"BPUT a b", "BPUT b a", "BPUT a", "BPUT a a", "BPUT a=bytes", "BGET a b", "BGET b a", "BGETOP NEXT a x2", "BDELETE a b", "BDELETE b", "BHISTOGRAM p", "BHISTOGRAM x p", "SYNC", "STATS"};
static int backend;
struct State { // the reference datastore
    std::map<std::string, V> m; std::vector<double> hist; size_t puts = 0, gets = 0;
    std::string key() const { std::string s; for (auto &e : m) s += e.first + show(e.second); for (double d : hist) s += "," + std::to_string(d); return s; }
};
struct Call { int r; double v; long inv = 0, ret = 0; std::string answer; bool done = false; };
static long stamp;
static std::string dd(double d) { return show(hx::D(d)); }
// the answer of one request executed on s; deleting a key that is not there may or may not be an error
static std::string reference(State &s, const Call &c) {
    std::string a; auto put = [&](const char *k, V v) { s.m[k] = v; if (v.t == HXHIM_DATA_DOUBLE) s.hist.push_back(as<double>(v.b)); a += std::string("ok(") + k + ",p);"; };
    auto get = [&](const char *k) { auto it = s.m.find(k); a += it == s.m.end() ? std::string("ERR(") + k + ",p);" : std::string("ok(") + k + ",p)" + show(it->second) + ";"; };
    auto del = [&](const char *k) { bool h = s.m.erase(k); a += h || backend != MEM ? std::string("ok(") + k + ",p);" : std::string("ERR(") + k + ",p);"; };
    auto hist = [&]() { a += "{"; for (double d : s.hist) a += std::to_string(d) + ","; a += "};"; };
    switch (c.r) {
        case PUT_AB: put("a", hx::D(c.v)); put("b", hx::D(c.v + 0.5)); s.puts++; break;
        case PUT_BA: put("b", hx::D(c.v)); put("a", hx::D(c.v + 0.5)); s.puts++; break;
        case PUT_A: put("a", hx::D(c.v)); s.puts++; break;
        case PUT_AA: put("a", hx::D(c.v)); put("a", hx::D(c.v + 0.5)); s.puts++; break;
        case PUT_BYTE: put("a", B("v" + std::to_string((int) c.v))); s.puts++; break;
        case GET_AB: get("a"); get("b"); s.gets++; break;
        case GET_BA: get("b"); get("a"); s.gets++; break;
        case NEXT2: if (s.m.empty()) a += "ERR;"; else for (auto &e : s.m) a += "ok(" + e.first + ",p)" + show(e.second) + ";"; s.gets++; break;
        case DEL_AB: del("a"); del("b"); break;
        case DEL_B: del("b"); break;
        case HIST: hist(); s.gets++; break;
        case HIST2: a += "ERR;"; hist(); s.gets++; break;
        case SYNC: a += "ok;"; break;
        case STATS: a += std::to_string(s.puts) + " puts " + std::to_string(s.gets) + " gets"; break;
    }
    return a;
}
static std::string st(int s) { return s == DATASTORE_SUCCESS ? "ok" : s == DATASTORE_ERROR ? "ERR" : "st" + std::to_string(s); }
static std::string kp(const Blob &s, const Blob &p) { return "(" + std::string((char *) s.data(), s.size()) + "," + std::string((char *) p.data(), p.size()) + ")"; }
static std::string val(const Blob &o) { V v; v.t = o.data_type(); v.b.assign((char *) o.data(), o.size()); return show(v); }
static std::string hval(const std::shared_ptr<::Histogram::Histogram> &h) {
    if (!h) return "none;"; std::string name; h->get_name(name); if (name != "p") return "histogram " + name + ";";
    size_t n = 0, first = 0; double *c = nullptr; h->get_cache(&first, &c, &n); sched::access(c, n * sizeof(double), false);
    std::string a = "{"; for (size_t i = 0; i < n; i++) a += std::to_string(c[i]) + ","; return a + "};";
}
typedef std::pair<std::shared_ptr<::Histogram::Histogram>, std::string> Kept;
static void perform(Datastore::Datastore *ds, Call &c, std::deque<Kept> *kept) {
    char ka[] = "a", kb[] = "b", kpp[] = "p", kx[] = "x"; double v[2] = {c.v, c.v + 0.5}; std::string bytes = "v" + std::to_string((int) c.v);
    auto K = [](char *k) { return ReferenceBlob(k, 1, HXHIM_DATA_BYTE); }; auto D = [](double *d) { return ReferenceBlob(d, 8, HXHIM_DATA_DOUBLE); };
    c.inv = ++stamp;
    switch (c.r) {
        case PUT_AB: case PUT_BA: case PUT_A: case PUT_AA: case PUT_BYTE: {
            Message::Request::BPut q(2);
            if (c.r == PUT_BYTE) q.add(K(ka), K(kpp), ReferenceBlob((void *) bytes.data(), bytes.size(), HXHIM_DATA_BYTE));
            else { q.add(K(c.r == PUT_BA ? kb : ka), K(kpp), D(v)); if (c.r != PUT_A) q.add(K(c.r == PUT_AB ? kb : ka), K(kpp), D(v + 1)); }
            auto *r = ds->operate(&q); c.ret = ++stamp; for (size_t i = 0; i < r->count; i++) c.answer += st(r->statuses[i]) + kp(r->orig.subjects[i], r->orig.predicates[i]) + ";"; destruct(r); break;
        }
        case GET_AB: case GET_BA: {
            Message::Request::BGet q(2); q.add(K(c.r == GET_AB ? ka : kb), K(kpp), HXHIM_DATA_DOUBLE); q.add(K(c.r == GET_AB ? kb : ka), K(kpp), HXHIM_DATA_DOUBLE);
            auto *r = ds->operate(&q); c.ret = ++stamp; for (size_t i = 0; i < r->count; i++) c.answer += st(r->statuses[i]) + kp(r->orig.subjects[i], r->orig.predicates[i]) + (r->statuses[i] == DATASTORE_SUCCESS ? val(r->objects[i]) : "") + ";"; destruct(r); break;
        }
        case NEXT2: {
            // every key of the two is at or after ("a", "p"); the stored histogram is before it
            Message::Request::BGetOp q(1); q.add(K(ka), K(kpp), HXHIM_DATA_DOUBLE, 2, HXHIM_GETOP_NEXT);
            auto *r = ds->operate(&q); c.ret = ++stamp;
            if (r->statuses[0] != DATASTORE_SUCCESS) c.answer += st(r->statuses[0]) + ";"; else for (size_t j = 0; j < r->num_recs[0]; j++) c.answer += st(r->statuses[0]) + kp(r->subjects[0][j], r->predicates[0][j]) + val(r->objects[0][j]) + ";";
            destruct(r); break;
        }
        case DEL_AB: case DEL_B: {
            Message::Request::BDelete q(2); if (c.r == DEL_AB) q.add(K(ka), K(kpp)); q.add(K(kb), K(kpp));
            auto *r = ds->operate(&q); c.ret = ++stamp; for (size_t i = 0; i < r->count; i++) c.answer += st(r->statuses[i]) + kp(r->orig.subjects[i], r->orig.predicates[i]) + ";"; destruct(r); break;
        }
        case HIST: case HIST2: {
            Message::Request::BHistogram q(2); if (c.r == HIST2) q.add(K(kx)); q.add(K(kpp));
            auto *r = ds->operate(&q); c.ret = ++stamp; for (size_t i = 0; i < r->count; i++) { c.answer += r->statuses[i] == DATASTORE_SUCCESS ? hval(r->histograms[i]) : st(r->statuses[i]) + ";"; if (r->histograms[i] && kept) kept->emplace_back(r->histograms[i], hval(r->histograms[i])); } destruct(r); break;
        }
        case SYNC: { int r = ds->Sync(true); c.ret = ++stamp; c.answer = st(r) + ";"; break; }
        case STATS: { size_t p = 0, g = 0; ds->GetStats(nullptr, &p, nullptr, &g); c.ret = ++stamp; c.answer = std::to_string(p) + " puts " + std::to_string(g) + " gets"; break; }
    }
    c.done = true;
}
static std::deque<Call *> all;
static bool linear(State s, std::vector<bool> &used, size_t left, const std::function<bool(const State &)> &final_ok) {
    mc::transition();
    if (!left) return final_ok(s);
    for (size_t i = 0; i < all.size(); i++) {
        if (used[i]) continue;
        bool first = true; for (size_t j = 0; j < all.size(); j++) if (!used[j] && j != i && all[j]->ret < all[i]->inv) first = false;
        if (!first) continue;
        State t = s; if (reference(t, *all[i]) != all[i]->answer) continue;
        used[i] = true; if (linear(t, used, left - 1, final_ok)) return true; used[i] = false;
    }
    return false;
}
static Datastore::Datastore *make() {
    Datastore::Transform::Callbacks *cb = Datastore::Transform::default_callbacks();
    cb->encode[HXHIM_DATA_DOUBLE] = std::make_pair(xcode, nullptr); cb->decode[HXHIM_DATA_DOUBLE] = std::make_pair(xcode, nullptr);
    Datastore::Datastore *ds = nullptr;
    switch (backend) {
        case MEM: ds = construct<Datastore::InMemory>(0, 0, cb); break;
        case LDB: ds = construct<Datastore::LevelDB>(0, 0, cb, true); break;
        default: ds = construct<Datastore::RocksDB>(0, 0, cb, true); break;
    }
    if (!ds->Open(mc::fresh_dir("c08") + "/d")) mc::fail("open", "the datastore does not open");
    return ds;
}
struct Bound { int threads, depth, preempt; bool preload; std::vector<int> reqs; };
static void threads(int be, const Bound &b) {
    backend = be; stamp = 0;
    // programs in non-decreasing order: the threads are alike
    std::vector<std::vector<Call>> prog(b.threads); double v = 1; std::string text; int last = 0; bool preload = b.preload ? mc::choose(2) : false;
    int n = (int) b.reqs.size();
    for (int t = 0; t < b.threads; t++) {
        int len = b.depth > 1 ? mc::choose(b.depth) + 1 : 1, code = 0;
        for (int i = 0; i < len; i++) { int k = mc::choose(n); code = code * (n + 1) + k + 1; Call c; c.r = b.reqs[k]; c.v = v++; prog[t].push_back(c); text += std::string(RN[c.r]) + "; "; }
        if (code < last) mc::prune(); last = code; text += "| ";
    }
    mc::note("%s, %sthreads: %s", bname(be), preload ? "a and b stored, " : "empty, ", text.c_str());
    Datastore::Datastore *ds = make(); State s0;
    ds->AddHistogram("p", ::Histogram::Config{64, histogram_n_buckets, (void *) (uintptr_t) 4});
    if (preload) { Call c; c.r = PUT_AB; c.v = 100; perform(ds, c, nullptr); std::string want = reference(s0, c); MC_CHECK(c.answer == want, "preload", "%s instead of %s", c.answer.c_str(), want.c_str()); }
    all.clear(); for (auto &p : prog) for (auto &c : p) all.push_back(&c);
    std::deque<Kept> kept; stamp = 0;
    sched::begin(b.preempt);
    {
        std::vector<std::thread> th;
        for (auto &p : prog) th.emplace_back([&p, ds, &kept] { for (auto &c : p) { perform(ds, c, &kept); } });
        for (auto &t : th) t.join();
    }
    sched::end();
    std::string got; for (auto *c : all) { MC_CHECK(c->done, "unanswered", "a request was not answered"); got += std::string(RN[c->r]) + " [" + std::to_string(c->inv) + "," + std::to_string(c->ret) + "] -> " + c->answer + "\n"; }
    // what is there in the end
    Call end[4]; end[0].r = GET_AB; end[1].r = NEXT2; end[2].r = HIST; end[3].r = STATS; std::string fin; 
    for (auto &c : end) { c.v = 0; perform(ds, c, &kept); fin += c.answer + " "; }
    std::vector<bool> used(all.size());
    bool ok = linear(s0, used, all.size(), [&](const State &s) { State t = s; for (auto &c : end) if (reference(t, c) != c.answer) return false; mc::state(t.key()); return true; });
    MC_CHECK(ok, "linearizable", "no order of the requests explains the answers\n%sfinally: %s", got.c_str(), fin.c_str());
    // answers given earlier have not changed
    for (auto &k : kept) MC_CHECK(hval(k.first) == k.second, "answer-changed", "a histogram returned as %s has become %s", k.second.c_str(), hval(k.first).c_str());
    kept.clear(); mc::outcome(mc::hash(got)); mc::transition(sched::steps());
    ds->Close(); destruct(ds);
}
int main(int argc, char **argv) {
    mc::E().property = "C08"; bool t = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) t = true;
    std::vector<int> full; for (int i = 0; i < NR; i++) full.push_back(i);
    std::vector<int> some = {PUT_AB, PUT_BA, GET_AB, NEXT2, DEL_AB, HIST, STATS};
    mc::space("in memory, 2 threads", "2 threads x 1 of 14 requests on an empty and a filled datastore, all schedules with up to 4 (thorough 6) preemptions", [=] { threads(MEM, {2, 1, t ? 6 : 4, true, full}); });
    mc::space("in memory, 2 long threads", "2 threads x 1..2 of 14 requests on an empty datastore, all schedules with up to 1 (thorough 2) preemptions", [=] { threads(MEM, {2, 2, t ? 2 : 1, t, full}); });
    mc::space("in memory, 3 threads", "3 threads x 1 of 14 requests on an empty and a filled datastore, all schedules with up to 1 (thorough 3) preemptions", [=] { threads(MEM, {3, 1, t ? 3 : 1, true, full}); });
    mc::space("in memory, 3 long threads", "3 threads x 1..2 of 7 requests, 2 preemptions", [=] { threads(MEM, {3, 2, 2, false, some}); }).only_tier = 2;
    mc::space("LevelDB, 2 threads", "2 threads x 1 (thorough 1..2) of 14 requests on an empty and a filled LevelDB datastore, up to 2 preemptions", [=] { threads(LDB, {2, t ? 2 : 1, 2, true, full}); });
    mc::space("LevelDB, 3 threads", "3 threads x 1 of 7 (thorough 14) requests on an empty and a filled LevelDB datastore, up to 1 (thorough 2) preemptions", [=] { threads(LDB, {3, 1, t ? 2 : 1, true, t ? full : some}); });
    mc::space("RocksDB, 2 threads", "2 threads x 1 of 7 (thorough 14) requests on an empty and a filled RocksDB datastore, up to 1 preemption", [=] { threads(RDB, {2, 1, 1, true, t ? full : some}); });
    mc::E().assumptions = {"sequentially consistent memory: executions with a data race are reported, race-free ones behave the same on weaker models", "LevelDB and RocksDB run without being switched away from (they are thread safe by their own contracts)", "histograms of at most 64 values (before buckets exist)"};
    return mc::run(argc, argv);
}
