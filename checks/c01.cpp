// flavour: asan
// C01: the store is a map from typed (subject, predicate) pairs to objects.
#include "hx.hpp"
#include <map>
using namespace hx;

static std::vector<Key> universe() {
    std::vector<Key> u;
    auto k = [&](V s, V p) { u.push_back(Key(s, p)); };
    k(B("a"), B("bc"));                    // the same bytes split elsewhere
    k(B("ab"), B("c"));
    k(P("a"), B("bc"));                    // the same bytes with another type
    k(B("a"), P("bc"));
    k(I32(1), B("bc"));                    // the same number in several types, and its text
    k(I64(1), B("bc"));
    k(B(":1"), B("bc"));
    k(U32(1), B("bc"));
    k(B("a"), B("bcd"));                   // prefix of another
    k(B(std::string("a\0", 2)), B("bc"));  // trailing zero, trailing 0xff
    k(B("a"), B("bc\xff"));
    k(B("a"), B(std::string("bc\xff\1\0\0\0\0\0\0\0\2\0\0\0\0\0\0\0\7\7", 21))); // imitates the key of (a,bc)
    k(B(std::string(300, 'x')), B("y"));   // lengths that need a second byte
    k(B(std::string(44, 'x')), B(std::string(256, 'x') + "y"));
    k(F(1.5f), D(-2.5)); k(D(1.5), F(-2.5f));
    k(B("a"), I32(-1)); k(B("a"), I64(-1)); k(U64(1), U64(UINT64_MAX)); k(B("bc"), B("a"));
    return u;
}
static std::vector<V> values() { return {B("v"), B(std::string("w\0\xff w", 5)), P("v"), I32(-7), D(2.25), U64(UINT64_MAX), F(-0.5f), I64(INT64_MIN + 1), U32(0)}; }

typedef std::map<Key, V> Model;
static std::string show_model(const Model &m) { std::string s = "{"; for (auto &e : m) s += show(e.first) + "=" + show(e.second) + " "; return s + "}"; }

static void check_all(Session &x, const Model &m, const std::vector<Key> &keys, const char *after) {
    for (auto &k : keys) HX_QUEUED(x.get(k.first, k.second, m.count(k) ? m.at(k).t : HXHIM_DATA_BYTE), "get");
    Recs r = x.flush_gets();
    MC_CHECK(r.size() == keys.size(), "get-result-count", "%zu GETs gave %s", keys.size(), show(r).c_str());
    for (size_t i = 0; i < keys.size(); i++) {
        auto it = m.find(keys[i]);
        MC_CHECK(r[i].s == keys[i].first && r[i].p == keys[i].second, "get-result-identity", "GET %zu of %s gave %s", i, show(keys[i]).c_str(), show(r[i]).c_str());
        if (it == m.end()) MC_CHECK(r[i].status == HXHIM_ERROR, "get-of-absent-key", "after %s, GET of absent %s gave %s; model %s", after, show(keys[i]).c_str(), show(r[i]).c_str(), show_model(m).c_str());
        else {
            MC_CHECK(r[i].ok(), "get-of-present-key", "after %s, GET of %s gave %s; model %s", after, show(keys[i]).c_str(), show(r[i]).c_str(), show_model(m).c_str());
            MC_CHECK(r[i].o == it->second, "get-wrong-value", "after %s, GET of %s gave %s; model %s", after, show(keys[i]).c_str(), show(r[i]).c_str(), show_model(m).c_str());
        }
    }
}
static void step_put(Session &x, Model &m, const Key &k, const V &v) {
    Rec r = do_put(x, k.first, k.second, v);
    MC_CHECK(r.ok(), "put-refused", "PUT %s=%s gave %s", show(k).c_str(), show(v).c_str(), show(r).c_str());
    m[k] = v; mc::transition();
}
static void step_del(Session &x, Model &m, const Key &k) {
    Rec r = do_del(x, k.first, k.second);
    if (m.count(k)) MC_CHECK(r.ok(), "delete-refused", "DELETE of present %s gave %s", show(k).c_str(), show(r).c_str());
    m.erase(k); mc::transition();
}

// every state of a map over n keys, every operation in it
static void states(int backend, int nkeys, bool wide) {
    std::vector<Key> u = universe(); std::vector<Key> keys; std::vector<V> vals = values();
    int from = 0;
    int limit = wide ? (int) u.size() : 14;
    for (int i = 0; i < nkeys; i++) { int left = limit - from - (nkeys - 1 - i); int c = from + mc::choose(left); keys.push_back(u[c]); from = c + 1; }
    int vi = mc::choose(wide ? (int) vals.size() : 3);
    V v1 = vals[vi], v2 = vals[(vi + 3) % vals.size()];
    Opt o; o.backend = backend; o.dir = mc::fresh_dir("db");
    fmpi::reset(1, true);
    Session x; x.start(o);
    int total = 1; for (int i = 0; i < nkeys; i++) total *= 3;
    Model m;
    for (int st = 0; st < total; st++) for (int op = 0; op < nkeys * 3; op++) {
        // reach the state
        int d = st; std::string id;
        for (int i = 0; i < nkeys; i++, d /= 3) {
            if (d % 3 == 0) { if (m.count(keys[i])) step_del(x, m, keys[i]); }
            else { const V &v = d % 3 == 1 ? v1 : v2; auto it = m.find(keys[i]); if (it == m.end() || it->second != v) step_put(x, m, keys[i], v); }
        }
        if (op == 0) { mc::state(show_model(m) + bname(backend)); check_all(x, m, keys, "reaching the state"); }
        int k = op / 3;
        if (op % 3 == 2) step_del(x, m, keys[k]); else step_put(x, m, keys[k], op % 3 ? v2 : v1);
        check_all(x, m, keys, op % 3 == 2 ? "DELETE" : "PUT");
    }
    mc::note("%s keys %s.. v1=%s v2=%s: %d states", bname(backend), show(keys[0]).c_str(), show(v1).c_str(), show(v2).c_str(), total);
    mc::outcome(show(keys[0]) + show(keys.back()) + show(v1));
    // persistent contents survive close and reopen
    if (backend != MEM) {
        for (int i = 0; i < nkeys; i++) step_put(x, m, keys[i], i % 2 ? v1 : v2);
        step_del(x, m, keys[0]);
        x.close(); x.start(o); check_all(x, m, keys, "close and reopen");
    }
    x.close();
}

// every operation history to a depth, with several operations per request and reopening
static void histories(int backend, int depth, bool reopen) {
    static const std::vector<std::vector<Key>> pairs = {
        {Key(B("a"), B("bc")), Key(B("ab"), B("c"))}, {Key(I32(1), B("p")), Key(B(":1"), B("p"))}};
    const std::vector<Key> &keys = pairs[mc::choose(backend == MEM ? 2 : 1)];
    V v1 = B("v"), v2 = D(-2.25);
    // 0..5: put/del on each key; 6: flush boundary handled by "batched" variants
    int nops = 6 + (reopen ? 1 : 0);
    std::vector<int> h; for (int i = 0; i < depth; i++) h.push_back(mc::choose(nops));
    Opt o; o.backend = backend; o.dir = mc::fresh_dir("db"); fmpi::reset(1, true);
    Session x; x.start(o);
    Model m; std::string id;
    for (int op : h) {
        id += (char) ('0' + op);
        if (op == 6) { x.close(); x.start(o); mc::transition(); mc::note("reopen"); }
        else {
            const Key &k = keys[op / 3];
            if (op % 3 == 2) step_del(x, m, k); else step_put(x, m, k, op % 3 ? v2 : v1);
            mc::note("%s %s", op % 3 == 2 ? "DELETE" : "PUT", show(k).c_str());
        }
        check_all(x, m, keys, "history");
        mc::state(std::string(bname(backend)) + id);
    }
    mc::outcome(show_model(m));
    x.close();
}

// several puts (to the same and to colliding keys) in one request, then several deletes in one request
static void batches(int backend, int n) {
    static const std::vector<Key> keys = {Key(B("a"), B("bc")), Key(B("ab"), B("c")), Key(P("a"), B("bc"))};
    V vals[2] = {B("v"), B("longer value")};
    std::vector<int> puts, dels; 
    int np = 1 + mc::choose(n); for (int i = 0; i < np; i++) puts.push_back(mc::choose(6));
    int nd = mc::choose(n); for (int i = 0; i < nd; i++) dels.push_back(mc::choose(3));
    size_t max_ops = mc::choose(2) ? 128 : 2;
    Opt o; o.backend = backend; o.dir = mc::fresh_dir("db"); o.max_ops = max_ops; fmpi::reset(1, true);
    Session x; x.start(o);
    Model m;
    for (int p : puts) { const Key &k = keys[p / 2]; V v = vals[p % 2]; if (v.b.size() == 1) v.b += std::to_string(p); HX_QUEUED(x.put(k.first, k.second, v), "put"); m[k] = v; mc::transition(); mc::note("queue PUT %s=%s", show(k).c_str(), show(v).c_str()); }
    Recs r = x.flush_puts();
    MC_CHECK(r.size() == puts.size(), "put-result-count", "%zu PUTs gave %s", puts.size(), show(r).c_str());
    for (auto &e : r) MC_CHECK(e.ok(), "put-refused", "PUTs gave %s", show(r).c_str());
    check_all(x, m, keys, "a batch of PUTs");
    for (int d : dels) { HX_QUEUED(x.del(keys[d].first, keys[d].second), "del"); mc::note("queue DELETE %s", show(keys[d]).c_str()); mc::transition(); }
    r = x.flush_dels();
    MC_CHECK(r.size() == dels.size(), "del-result-count", "%zu DELETEs gave %s", dels.size(), show(r).c_str());
    for (size_t i = 0; i < dels.size(); i++) { bool had = m.count(keys[dels[i]]); if (had) MC_CHECK(r[i].ok(), "delete-refused", "DELETEs gave %s", show(r).c_str()); m.erase(keys[dels[i]]); }
    check_all(x, m, keys, "a batch of DELETEs");
    mc::state(show_model(m)); mc::outcome(show_model(m));
    x.close();
}

int main(int argc, char **argv) {
    clean_env();
    mc::E().property = "C01";
    mc::E().assumptions = {"one rank, one datastore, no transport (routing is C09, other ranks C07)", "floating point parts are chosen to be exact in the configured precision (C11 decides precision)", "MPI is replaced by an in-process stand-in"};
    for (int b = 0; b < NBACKENDS; b++) {
        std::string n = bname(b);
        if (b == MEM) mc::space("states-" + n, "all 3-key subsets of 14 colliding typed keys x all 27 map states x all PUT/DELETE, each key read after each step", [b] { states(b, 3, false); }).only_tier = 1;
        else mc::space("states-" + n, "all 2-key subsets of 14 colliding typed keys x all 9 map states x all PUT/DELETE, then close and reopen", [b] { states(b, 2, false); }).only_tier = 1;
        mc::space("states-wide-" + n, "all 3-key subsets (persistent: 2-key) of 20 typed keys x 9 value pairs x all map states x all PUT/DELETE", [b] { states(b, b == MEM ? 3 : 2, true); }).only_tier = 2;
        int d = b == MEM ? 6 : b == LDB ? 4 : 3;
        mc::space("histories-" + n, "all PUT/DELETE/reopen histories of the stated depth on 2 colliding keys", [b, d] { histories(b, d, b != MEM); }).only_tier = 1;
        mc::space("histories-deep-" + n, "as histories, two deeper", [b, d] { histories(b, d + (b == MEM ? 1 : 2), b != MEM); }).only_tier = 2;
        int n2 = b == MEM ? 4 : 3;
        mc::space("batches-" + n, "all batches of up to 4 (persistent: 3) PUTs in one flush followed by all batches of DELETEs, 3 colliding keys, 1 or several requests", [b, n2] { batches(b, mc::thorough() && b == LDB ? 4 : b == RDB && !mc::thorough() ? 2 : n2); });
    }
    return mc::run(argc, argv);
}
