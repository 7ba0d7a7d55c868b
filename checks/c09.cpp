// flavour: asan
// extra: lib/fakelog.cpp
// C09: placement is a fixed bijection and every key is routed to one datastore.
#include "model.hpp"
#include "hxhim/RangeServer.hpp"
#include "hxhim/Datastore.hpp"
#include "hxhim/accessors.hpp"
#include <thread>
#include <mutex>
using namespace hx;

// reference: walk the ranks, the first `server` of every `client` ranks are servers, ids are given in rank order
struct Ref {
    std::vector<int> rs_of;                       // rank -> server id or -1
    std::vector<int> rank_of;                     // server id -> rank
    Ref(int size, int client, int server) { for (int r = 0; r < size; r++) { bool srv = server >= client || r % client < server; rs_of.push_back(srv ? (int) rank_of.size() : -1); if (srv) rank_of.push_back(r); } }
};
#define EQ(expr, want, what) do { int got_ = (expr), want_ = (want); mc::transition(); MC_CHECK(got_ == want_, what, "%s = %d, expected %d (size %d, client:server %d:%d, %d datastores per server)", #expr, got_, want_, size, c, s, dps); } while (0)

static void functions(int maxsize, int maxratio, int maxdps) {
    namespace R = hxhim::RangeServer; namespace S = hxhim::Datastore;
    int size = 1 + mc::choose(maxsize), c = mc::choose(maxratio + 1), s = mc::choose(maxratio + 1), dps = mc::choose(maxdps + 1);
    if (!c || !s) {
        for (int i = 0; i < 4; i++) {
            EQ(R::is_range_server(i, c, s), -1, "zero-ratio"); EQ(R::is_range_server(i, size, c, s), -1, "zero-ratio");
            EQ(R::get_rank(i, c, s), -1, "zero-ratio"); EQ(R::get_rank(i, size, c, s), -1, "zero-ratio");
            EQ(R::get_id(i, c, s), -1, "zero-ratio"); EQ(R::get_id(i, size, c, s), -1, "zero-ratio");
            EQ(S::get_rank(i, c, s, dps), -1, "zero-ratio"); EQ(S::get_rank(i, size, c, s, dps), -1, "zero-ratio");
            EQ(S::get_id(i, 0, c, s, dps), -1, "zero-ratio"); EQ(S::get_id(i, 0, size, c, s, dps), -1, "zero-ratio");
        }
        return;
    }
    Ref in(size, c, s), inf(size + 4 * maxratio + 8, c, s);
    int nrs = in.rank_of.size();
    for (int rank = -3; rank < size + maxratio; rank++) {
        int id_inf = rank < 0 ? -1 : inf.rs_of[rank], id_in = rank < 0 || rank >= size ? -1 : in.rs_of[rank];
        EQ(R::is_range_server(rank, c, s), rank < 0 ? -1 : id_inf >= 0, "is-range-server");
        EQ(R::is_range_server(rank, size, c, s), rank < 0 || rank >= size ? -1 : id_in >= 0, "is-range-server-sized");
        EQ(R::get_id(rank, c, s), id_inf, "server-id-of-rank"); EQ(R::get_id(rank, size, c, s), id_in, "server-id-of-rank-sized");
        for (int off = 0; off < maxdps + 2; off++) {
            bool okoff = off < dps;
            EQ(S::get_id(rank, off, c, s, dps), okoff && id_inf >= 0 ? id_inf * dps + off : -1, "datastore-id-of-rank");
            EQ(S::get_id(rank, off, size, c, s, dps), okoff && id_in >= 0 ? id_in * dps + off : -1, "datastore-id-of-rank-sized");
        }
        EQ(S::get_id(rank, (std::size_t) -1, c, s, dps), -1, "datastore-id-of-huge-offset");
    }
    for (int id = -3; id < nrs + 3; id++) {
        EQ(R::get_rank(id, c, s), id < 0 ? -1 : inf.rank_of[id], "rank-of-server"); EQ(R::get_rank(id, size, c, s), id < 0 || id >= nrs ? -1 : in.rank_of[id], "rank-of-server-sized");
    }
    for (int id = -3; id < nrs * dps + 2 * dps + 1; id++) {
        bool ok = id >= 0 && dps, inside = ok && id < nrs * dps;
        EQ(S::get_rank(id, c, s, dps), ok ? inf.rank_of[id / dps] : -1, "rank-of-datastore"); EQ(S::get_rank(id, size, c, s, dps), inside ? in.rank_of[id / dps] : -1, "rank-of-datastore-sized");
    }
    mc::state("f" + std::to_string(size) + "," + std::to_string(c) + "," + std::to_string(s) + "," + std::to_string(dps));
}
// the same numbers as every rank's open session reports and uses them
static std::string g_err; static std::mutex g_mx;
static void bad(const std::string &m) { std::lock_guard<std::mutex> l(g_mx); if (g_err.empty()) g_err = m; }
static void sessions(int maxsize, int maxratio, int maxdps) {
    int size = 1 + mc::choose(maxsize), c = 1 + mc::choose(maxratio), s = 1 + mc::choose(maxratio), dps = 1 + mc::choose(maxdps);
    Ref in(size, c, s); int nrs = in.rank_of.size(), total = nrs * dps;
    fmpi::reset(size, true); g_err.clear();
    std::vector<std::thread> th;
    for (int r = 0; r < size; r++) th.emplace_back([=] {
        fmpi::set_rank(r);
        auto fail = [&](const char *w, long got, long want) { if (got != want) bad("rank " + std::to_string(r) + ": " + w + " = " + std::to_string(got) + ", expected " + std::to_string(want)); };
        Opt o; o.client = c; o.server = s; o.datastores = dps; o.hash = "RANK_MOD_DATASTORES"; Session x;
        if (x.init(o) != HXHIM_SUCCESS || x.open() != HXHIM_SUCCESS) { bad("open failed"); }
        else {
            for (int api = 0; api < 2; api++) {
                std::size_t n = 9999, m = 9999; int rk = -9, sz = -9; MPI_Comm comm = MPI_COMM_NULL;
                fail("GetRangeServerCount status", api ? hxhimGetRangeServerCount(&x.h, &n) : hxhim::GetRangeServerCount(&x.h, &n), HXHIM_SUCCESS); fail("range servers", n, nrs);
                fail("GetDatastoreCount status", api ? hxhimGetDatastoreCount(&x.h, &n) : hxhim::GetDatastoreCount(&x.h, &n), HXHIM_SUCCESS); fail("datastores", n, total);
                fail("ratio status", api ? hxhimGetRangeServerClientToServerRatio(&x.h, &n, &m) : hxhim::GetRangeServerClientToServerRatio(&x.h, &n, &m), HXHIM_SUCCESS); fail("client ratio", n, c); fail("server ratio", m, s);
                fail("GetMPI status", api ? hxhimGetMPI(&x.h, &comm, &rk, &sz) : hxhim::GetMPI(&x.h, &comm, &rk, &sz), HXHIM_SUCCESS); fail("rank", rk, r); fail("size", sz, size);
                for (int id = -2; id < total + 3; id++) {
                    int rank = -77, off = -77; int st = api ? hxhimGetDatastoreLocation(&x.h, id, &rank, &off) : hxhim::GetDatastoreLocation(&x.h, id, &rank, &off);
                    if (id < 0 || id >= total) { fail(("location of invalid datastore " + std::to_string(id)).c_str(), st, HXHIM_ERROR); continue; }
                    fail(("location of datastore " + std::to_string(id)).c_str(), st, HXHIM_SUCCESS); if (st != HXHIM_SUCCESS) continue;
                    fail(("rank of datastore " + std::to_string(id)).c_str(), rank, in.rank_of[id / dps]); fail(("offset of datastore " + std::to_string(id)).c_str(), off, id % dps);
                    fail("location without outputs", api ? hxhimGetDatastoreLocation(&x.h, id, nullptr, nullptr) : hxhim::GetDatastoreLocation(&x.h, id, nullptr, nullptr), HXHIM_SUCCESS);
                }
            }
            V k = B("a"), q = B("bb"); fail("RANK_MOD_DATASTORES", hxhim_hash(&x.h, k.ptr(), 1, q.ptr(), 2), r % total);
            // the datastores this rank holds answer to the ids the placement gives them
            for (int off = 0; off < dps && in.rs_of[r] >= 0; off++) {
                int id = in.rs_of[r] * dps + off; int code = x.hist(id, "nothing");
                fail("histogram query of a local datastore", code, HXHIM_SUCCESS); Recs v = x.flush_hists();
                if (v.size() != 1) bad("rank " + std::to_string(r) + ": query of local datastore " + std::to_string(id) + " gave " + show(v)); else fail("datastore named by its result", v[0].ds, id);
            }
        }
        x.close();
    });
    for (auto &t : th) t.join();
    mc::transition(size); mc::state("s" + std::to_string(size) + "," + std::to_string(c) + "," + std::to_string(s) + "," + std::to_string(dps));
    MC_CHECK(g_err.empty(), "session-placement", "size %d, client:server %d:%d, %d datastores per server: %s", size, c, s, dps, g_err.c_str());
}
static const char *NAMES[] = {"DATASTORE_0", "RANK_MOD_DATASTORES", "SUM_MOD_DATASTORES", "UTHASH_BER", "UTHASH_SAX", "UTHASH_FNV", "UTHASH_OAT", "UTHASH_JEN", "UTHASH_SFH"};
// exact-size heap copies, so that reading past a key is an error
struct Buf { char *p; std::size_t n; Buf(const std::string &s) : p((char *) malloc(s.size() + !s.size())), n(s.size()) { memcpy(p, s.data(), n); } ~Buf() { free(p); } };
static void hashes(int len) {
    int h = mc::choose(9), dss = 1 + mc::choose(5); static const char alpha[] = {0, 1, 'a', 0x7f, (char) 0x80, (char) 0xff};
    int which = mc::choose(len + 1); // subject length
    Opt o; o.datastores = dss; o.hash = NAMES[h]; fmpi::reset(1, true); Session x; x.start(o); Session y; Opt o2 = o; y.start(o2);
    std::vector<std::string> subj{""}, pred{""};
    for (int i = 0; i < which; i++) { std::vector<std::string> n; for (auto &b : subj) for (char ch : alpha) n.push_back(b + ch); subj = n; }
    for (int l = 0, from = 0; l < len; l++) { int to = pred.size(); for (int i = from; i < to; i++) for (char ch : alpha) pred.push_back(pred[i] + ch); from = to; }
    std::set<int> used; std::vector<int> first;
    auto one = [&](const std::string &a, const std::string &b) { Buf s(a), p(b); int d = hxhim_hash(&x.h, s.p, s.n, p.p, p.n), e = hxhim_hash(&y.h, s.p, s.n, p.p, p.n); mc::transition();
        MC_CHECK(d >= 0 && d < dss, "hash-out-of-range", "%s of (%s,%s) with %d datastores is %d", NAMES[h], show(a).c_str(), show(b).c_str(), dss, d);
        MC_CHECK(d == e, "hash-not-a-function", "%s of (%s,%s) is %d in one session and %d in another", NAMES[h], show(a).c_str(), show(b).c_str(), d, e);
        MC_CHECK(!memcmp(s.p, a.data(), a.size()) && !memcmp(p.p, b.data(), b.size()), "hash-changed-key", "%s changed its key", NAMES[h]);
        if (h < 2) MC_CHECK(d == 0, "hash-fixed", "%s on rank 0 gave %d", NAMES[h], d);
        if (h == 2) { unsigned sum = 0; for (unsigned char u : a) sum += u; for (unsigned char u : b) sum += u; MC_CHECK(d == (int) (sum % dss), "sum-hash", "SUM_MOD_DATASTORES of (%s,%s) with %d datastores is %d, the bytes sum to %u", show(a).c_str(), show(b).c_str(), dss, d, sum); }
        used.insert(d); return d; };
    for (auto &a : subj) for (auto &b : pred) first.push_back(one(a, b));
    size_t i = first.size(); for (size_t j = subj.size(); j-- > 0;) for (size_t k = pred.size(); k-- > 0;) MC_CHECK(one(subj[j], pred[k]) == first[--i], "hash-not-a-function", "%s of (%s,%s) depends on earlier calls", NAMES[h], show(subj[j]).c_str(), show(pred[k]).c_str());
    // long keys: every length of a block-structured hash
    for (int l = 0; l < 40; l++) for (int f = 0; f < 6; f++) { std::string k(l, alpha[f]); one(k, "p"); one("s", k); }
    for (int l : {100000, 9000000}) if (l < 1000000 || which == 0) { std::string k(l, (char) 0xff); one(k, "p"); }
    x.close(); y.close();
    mc::state(std::string(NAMES[h]) + std::to_string(dss) + "," + std::to_string(which)); mc::outcome(std::string(NAMES[h]) + std::to_string(used.size()));
}
// the operations of a session go where the hash says and find what was put
static int mine(hxhim_t *, void *s, const size_t sl, void *p, const size_t pl, void *args) { const unsigned char *a = (unsigned char *) s, *b = (unsigned char *) p; return (a[0] + 2 * b[pl - 1] + (int) sl) % *(int *) args; }
static void routing() {
    int h = mc::choose(10), dss = 1 + mc::choose(4), backend = mc::choose(2), mask = mc::choose(8);
    static const char *S[] = {"a", "b", "cc", "\xff"}; static const char *Pn[] = {"p", "qq"};
    Opt o; o.datastores = dss; o.backend = backend ? LDB : MEM; o.dir = mc::fresh_dir("db"); if (h < 9) o.hash = NAMES[h];
    fmpi::reset(1, true); Session x; MC_CHECK(x.init(o) == HXHIM_SUCCESS, "init", "init failed"); int n = dss;
    if (h == 9) MC_CHECK(hxhim_set_hash_function(&x.h, "mine", mine, &n) == HXHIM_SUCCESS, "set-hash", "set_hash_function refused");
    MC_CHECK(x.open() == HXHIM_SUCCESS, "open", "open failed");
    { const char *nm = nullptr; hxhim_hash_t f = nullptr; void *args = nullptr; MC_CHECK(hxhim::GetHash(&x.h, &nm, &f, &args) == HXHIM_SUCCESS && nm && std::string(nm) == (h < 9 ? NAMES[h] : "mine") && f && args == (h < 9 ? nullptr : &n), "get-hash", "GetHash reports %s", nm ? nm : "(null)"); }
    Model m; m.use(x); std::vector<QOp> q; std::vector<Key> keys;
    for (auto s : S) for (auto p : Pn) keys.push_back(Key(B(s), B(p)));
    for (size_t i = 0; i < keys.size(); i++) {
        QOp w; w.kind = KPUT; w.s = keys[i].first; w.p = keys[i].second; w.o = B("v" + std::to_string(i)); w.perm = (hxhim_put_permutation_t) (HXHIM_PUT_SPO | (mask & 1 ? HXHIM_PUT_PSO : 0) | (mask & 2 ? HXHIM_PUT_OPS : 0) | (mask & 4 ? HXHIM_PUT_SOP : 0));
        HX_QUEUED(enqueue(x, w), "put"); q.push_back(w);
        if (h == 9) { int d = m.route(w.s, w.p); MC_CHECK(d == mine(nullptr, w.s.ptr(), w.s.len(), w.p.ptr(), w.p.len(), &n), "user-hash", "user hash not given the key"); }
    }
    auto go = [&](Recs r, const char *what) { size_t at = 0; check_flush(m, q, r, at, what); MC_CHECK(at == r.size(), "extra", "%s extra results", what); q.clear(); mc::transition(); };
    go(x.flush_puts(), "PUTs");
    check_contents(x, m, keys, "reads");
    if (backend) { x.close(); MC_CHECK(x.init(o) == HXHIM_SUCCESS, "init", "init failed"); if (h == 9) hxhim_set_hash_function(&x.h, "mine", mine, &n); MC_CHECK(x.open() == HXHIM_SUCCESS, "open", "reopen failed"); m.use(x); check_contents(x, m, keys, "reads after reopening"); }
    for (auto &k : keys) for (int op = 0; op < 7; op++) { QOp g; g.kind = KGETOP; g.s = k.first; g.p = k.second; g.op = (hxhim_getop_t) op; g.n = 2; HX_QUEUED(enqueue(x, g), "getop"); q.push_back(g); }
    go(x.flush_getops(), "GETOPs");
    for (size_t i = 0; i < keys.size(); i += 2) { QOp d; d.kind = KDEL; d.s = keys[i].first; d.p = keys[i].second; HX_QUEUED(enqueue(x, d), "del"); q.push_back(d); }
    go(x.flush_dels(), "DELETEs"); check_contents(x, m, keys, "reads after DELETE");
    mc::state(std::to_string(h) + "," + std::to_string(dss) + "," + std::to_string(mask)); x.close();
}
int main(int argc, char **argv) {
    clean_env();
    mc::E().property = "C09";
    mc::E().assumptions = {"predefined hashes are not compared with published test vectors: only range, purity and agreement of all operations are required"};
    mc::space("functions", "world sizes 1..16 x client and server ratios 0..8 x 0..4 datastores per server, all ranks, ids and offsets from -3 to past the end", [] { functions(16, 8, 4); }).only_tier = 1;
    mc::space("functions-deep", "world sizes 1..40 x ratios 0..20 x 0..8 datastores per server", [] { functions(40, 20, 8); }).only_tier = 2;
    mc::space("sessions", "what every rank of an open session reports: 1..5 ranks x ratios 1..4 x 1..4 x 1..3 datastores per server", [] { sessions(5, 4, 3); });
    mc::space("hashes", "9 hashes x 1..5 datastores x all subjects and predicates of up to 3 bytes over 6 byte values, lengths 0..39, 100000 and 9000000", [] { hashes(3); }).only_tier = 1;
    mc::space("hashes-deep", "all subjects and predicates of up to 4 bytes over 6 byte values", [] { hashes(4); }).only_tier = 2;
    mc::space("routing", "9 hashes and a user hash x 1..4 datastores x 2 backends x 8 permutation masks: PUT, GET, all GETOPs, DELETE and reopen on 8 keys", [] { routing(); });
    return mc::run(argc, argv);
}
