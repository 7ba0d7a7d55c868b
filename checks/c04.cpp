// flavour: asan
// C04: a PUT stores exactly the requested permutations of the triple.
#include "model.hpp"
using namespace hx;

struct T3 { V s, p, o; };
static std::vector<T3> triples() {
    V v[] = {B("sub"), B("pr"), B("obj"), I32(-3), U64(7), D(2.5), F(-1.25f), P("pt"), I64(INT64_MAX), U32(9)};
    std::vector<T3> t;
    int n = 10;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) if (i != j && j != k && i != k && (mc::thorough() || (i + 2 * j + 3 * k) % 5 == 0)) t.push_back({v[i], v[j], v[k]});
    // equal parts and lookalikes: permutations that name the same key
    t.push_back({B("x"), B("x"), B("y")}); t.push_back({B("x"), B("y"), B("x")}); t.push_back({B("y"), B("x"), B("x")}); t.push_back({B("z"), B("z"), B("z")}); t.push_back({I32(1), I64(1), U32(1)}); t.push_back({B(std::string("a\0", 2)), B("a"), B(std::string("\0a", 2))});
    return t;
}
// after the puts: each of the six orderings of each triple is present iff requested, with an acceptable value
static void verify(Session &x, const std::vector<std::pair<T3, unsigned>> &puts, const Recs &res) {
    hxhim_t *h = &x.h; auto route = [&](const Key &k) { return hxhim_hash(h, k.first.ptr(), k.first.len(), k.second.ptr(), k.second.len()); };
    struct Want { Key k; V o; bool used = false; };
    std::vector<Want> want; std::map<Key, std::vector<V>> may; std::set<Key> all;
    std::map<Key, size_t> lastput; size_t n = 0;
    for (auto &q : puts) {
        const V *part[3] = {&q.first.s, &q.first.p, &q.first.o};
        for (auto &m : PERMS) {
            Key k(*part[m[1]], *part[m[2]]); all.insert(k);
            if (!(q.second & m[0])) continue;
            Want w; w.k = k; w.o = *part[m[3]]; want.push_back(w);
            if (lastput.count(k) && lastput[k] == n) may[k].push_back(w.o); else { may[k] = {w.o}; lastput[k] = n; }
        }
        n++;
    }
    MC_CHECK(res.size() == want.size(), "put-result-count", "%zu orderings requested, results %s", want.size(), show(res).c_str());
    for (auto &r : res) {
        bool found = false;
        for (auto &w : want) if (!w.used && r.op == HXHIM_PUT && r.ok() && r.s == w.k.first && r.p == w.k.second) { w.used = found = true; MC_CHECK(r.ds == route(w.k), "put-result-datastore", "PUT result %s names the wrong datastore", show(r).c_str()); break; }
        MC_CHECK(found, "put-result-identity", "result %s matches no requested ordering; results %s", show(r).c_str(), show(res).c_str());
    }
    for (auto &k : all) HX_QUEUED(x.get(k.first, k.second, HXHIM_DATA_BYTE), "get");
    Recs g = x.flush_gets();
    MC_CHECK(g.size() == all.size(), "get-result-count", "%zu GETs gave %s", all.size(), show(g).c_str());
    for (auto &r : g) {
        Key k(r.s, r.p); auto it = may.find(k); mc::transition();
        MC_CHECK(all.count(k), "get-result-identity", "GET answered for %s", show(r).c_str());
        if (it == may.end()) MC_CHECK(!r.ok(), "ordering-not-requested", "an ordering that was not requested is stored: %s", show(r).c_str());
        else MC_CHECK(r.ok() && std::find(it->second.begin(), it->second.end(), r.o) != it->second.end(), "ordering-missing", "requested ordering %s: %s", show(k).c_str(), show(r).c_str());
    }
}
static void empty_store(Session &x, const char *what) { // nothing beyond what was verified
    HX_QUEUED(x.getop(B("a"), B("b"), HXHIM_DATA_BYTE, 10, HXHIM_GETOP_FIRST), "getop"); Recs r = x.flush_getops();
    MC_CHECK(r.size() == 1 && !r[0].ok(), "stored-without-request", "%s left %s", what, show(r).c_str());
}
static const char *HASHES[] = {"SUM_MOD_DATASTORES", "UTHASH_FNV"};
static void single(int backend) {
    auto ts = triples(); int mask = mc::choose(64), cfg = mc::choose(backend == MEM ? 3 : 1); size_t group = mc::choose(backend == MEM ? 8 : 2);
    Opt o; o.backend = backend; o.dir = mc::fresh_dir("db"); o.datastores = cfg == 2 ? 3 : 1; o.hash = HASHES[cfg == 2]; o.max_ops = cfg == 1 ? 2 : 128;
    fmpi::reset(1, true); Session x; x.start(o);
    for (size_t i = group; i < ts.size(); i += backend == MEM ? 8 : 40) {
        T3 &t = ts[i];
        if (backend == MEM) { x.close(); x.start(o); }
        mc::note("PUT (%s, %s, %s) with flags %#x", show(t.s).c_str(), show(t.p).c_str(), show(t.o).c_str(), mask);
        HX_QUEUED(x.put(t.s, t.p, t.o, (hxhim_put_permutation_t) mask), "put");
        Recs r = x.flush_puts();
        verify(x, {{t, (unsigned) mask}}, r);
        if (!mask && backend == MEM && cfg != 2) empty_store(x, "a PUT with no flag");
        if (backend != MEM) { const V *p[3] = {&t.s, &t.p, &t.o}; for (auto &m : PERMS) { HX_QUEUED(x.del(*p[m[1]], *p[m[2]]), "del"); } x.flush_dels(); }
        mc::state(show(t.s) + show(t.p) + show(t.o) + std::to_string(mask)); mc::outcome(show(r));
    }
    x.close();
}
// bulk: a mask per item
static void bulk() {
    auto ts = triples(); int m[2] = {(int) mc::choose(64), (int) mc::choose(64)}; int cfg = mc::choose(3); int pick = mc::choose(4), m3 = mc::choose(3);
    static const unsigned M3[] = {HXHIM_PUT_ALL, HXHIM_PUT_NONE, HXHIM_PUT_POS};
    std::vector<std::pair<T3, unsigned>> q = {{ts[pick * 7], m[0]}, {ts[ts.size() - 1 - pick], m[1]}, {ts[pick * 11 + 3], M3[m3]}};
    Opt o; o.datastores = cfg == 2 ? 2 : 1; o.hash = HASHES[cfg == 2]; o.max_ops = cfg == 1 ? 2 : 128;
    fmpi::reset(1, true); Session x; x.start(o);
    std::vector<void *> s, p, ob; std::vector<size_t> sl, pl, ol; std::vector<hxhim_data_t> st, pt, ot; std::vector<hxhim_put_permutation_t> pm;
    for (auto &e : q) { s.push_back(e.first.s.ptr()); sl.push_back(e.first.s.len()); st.push_back(e.first.s.t); p.push_back(e.first.p.ptr()); pl.push_back(e.first.p.len()); pt.push_back(e.first.p.t);
        ob.push_back(e.first.o.ptr()); ol.push_back(e.first.o.len()); ot.push_back(e.first.o.t); pm.push_back((hxhim_put_permutation_t) e.second); mc::note("BPUT item (%s, %s, %s) flags %#x", show(e.first.s).c_str(), show(e.first.p).c_str(), show(e.first.o).c_str(), e.second); }
    HX_QUEUED(hxhim::BPut(&x.h, s.data(), sl.data(), st.data(), p.data(), pl.data(), pt.data(), ob.data(), ol.data(), ot.data(), pm.data(), q.size()), "bput");
    Recs r = x.flush_puts(); verify(x, q, r);
    mc::outcome(show(r)); mc::state(show(r));
    x.close();
}
int main(int argc, char **argv) {
    clean_env(); mc::E().property = "C04";
    mc::E().assumptions = {"orderings of one PUT that name the same key may be applied in any order", "routing is taken from hxhim_hash (C09)"};
    mc::space("single", "64 masks x ~150 (thorough: ~720) typed triples incl. equal and lookalike parts x 3 configurations; all six orderings read back", [] { single(MEM); });
    mc::space("single-LEVELDB", "64 masks x 1/20 of the triples on LevelDB", [] { single(LDB); });
    mc::space("bulk", "all 64x64 mask pairs plus a third item x 4 triple choices x 3 configurations", [] { bulk(); });
    return mc::run(argc, argv);
}
