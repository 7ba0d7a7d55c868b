// flavour: asan
// C02: GETOP returns exactly the records its operator names, in key order.
#include "hx.hpp"
#include "refkey.hpp"
using namespace hx;

static std::string z(const char *s, size_t n) { return std::string(s, n); }
static std::vector<Key> universe() {
    return {Key(B("a"), B("b")), Key(B("a"), B("bc")), Key(B("ab"), B("c")), Key(B("a"), I32(12)), Key(B("\xff"), B("\xff")), Key(B("b"), B("b")), Key(B("a"), B(z("\0z", 2))),
            Key(B("a"), I32(-5)), Key(B("a"), B("\xff")), Key(B("\xff"), I32(-5))};
}
static std::vector<V> preds() { return {B("b"), None(), None(HXHIM_DATA_INT32), B("bc"), B(z("\0", 1)), B("\xff"), I32(-5), I32(12), I32(3), B("c"), None(HXHIM_DATA_DOUBLE)}; }
static const char *SUBJ[] = {"a", "ab", "b", "c", "\xff", "\xff\xff"};
static const std::size_t COUNTS[] = {1, 2, 20, 0};

static void run_one(Session &x, const std::vector<Row> &db, const Query &q) {
    HX_QUEUED(x.getop(q.s, q.p, HXHIM_DATA_BYTE, q.n, q.op), "getop");
    Recs r = x.flush_getops();
    auto ok = getop_ref(db, q);
    bool good = false; for (auto &w : ok) good = good || matches(r, w, q);
    if (q.n == 0 && r.empty()) good = true;   // nothing was asked for
    std::string contents; if (!good) for (auto &row : db) contents += show(row.k) + " ";
    MC_CHECK(good, std::string(opname(q.op)) + (q.n ? "" : "-zero") + "-wrong", "GETOP %s over { %s} gave %s; expected %s", show(q).c_str(), contents.c_str(), show(r).c_str(), show(ok).c_str());
    mc::transition();
}
static std::vector<Row> fill(Session &x, const std::vector<Key> &u, unsigned set) {
    std::vector<Row> db;
    for (size_t i = 0; i < u.size(); i++) if (set >> i & 1) {
        Row r; r.k = u[i]; r.o = i % 3 == 0 ? B("v" + std::to_string(i)) : i % 3 == 1 ? I64(-(int64_t) i) : D(i + 0.5); r.key = dbkey(u[i]); db.push_back(r);
        HX_QUEUED(x.put(r.k.first, r.k.second, r.o), "put");
    }
    for (auto &e : x.flush_puts()) MC_CHECK(e.ok(), "put-refused", "%s", show(e).c_str());
    std::sort(db.begin(), db.end());
    return db;
}
static void contents(int backend, int nkeys) {
    std::vector<Key> u = universe(); u.resize(nkeys);
    unsigned set = mc::choose(1 << nkeys);
    hxhim_getop_t op = (hxhim_getop_t) mc::choose(7);
    Opt o; o.backend = backend; o.dir = mc::fresh_dir("db"); fmpi::reset(1, true);
    Session x; x.start(o);
    std::vector<Row> db = fill(x, u, set);
    mc::state(std::to_string(set) + bname(backend)); mc::note("%s contents %x op %s: every subject x predicate x count", bname(backend), set, opname(op));
    bool whole = op == HXHIM_GETOP_FIRST || op == HXHIM_GETOP_LAST;
    auto ps = preds();
    for (int s = 0; s < (whole ? 1 : 6); s++) for (size_t p = 0; p < (whole ? 2 : ps.size()); p++) for (std::size_t n : COUNTS) {
        Query q; q.s = B(SUBJ[s]); q.p = ps[p]; q.op = op; q.n = n;
        run_one(x, db, q);
    }
    mc::outcome(std::to_string(set) + opname(op));
    x.close();
}
// several GETOPs in one flush: one request or several
static void batched(int backend) {
    static const unsigned SETS[] = {0x3ff, 0x067, 0x001, 0};
    std::vector<Query> qs;
    auto add = [&](const char *s, V p, hxhim_getop_t op, std::size_t n) { Query q; q.s = B(s); q.p = p; q.op = op; q.n = n; qs.push_back(q); };
    add("a", B("b"), HXHIM_GETOP_EQ, 1); add("c", B("b"), HXHIM_GETOP_EQ, 1); add("a", B("b"), HXHIM_GETOP_NEXT, 3); add("a", B("bc"), HXHIM_GETOP_PREV, 2);
    add("a", None(), HXHIM_GETOP_LOWEST, 20); add("a", None(), HXHIM_GETOP_HIGHEST, 2); add("q", B("q"), HXHIM_GETOP_FIRST, 2); add("q", B("q"), HXHIM_GETOP_LAST, 20); add("c", B("b"), HXHIM_GETOP_LOWEST, 4);
    add("a", B("b"), HXHIM_GETOP_EQ, 0); add("c", B("b"), HXHIM_GETOP_EQ, 0);
    unsigned set = SETS[mc::choose(4)]; int len = 2 + mc::choose(2); std::size_t max_ops = mc::choose(2) ? 128 : 2;
    std::vector<Query> b; for (int i = 0; i < len; i++) b.push_back(qs[mc::choose((int) qs.size())]);
    Opt o; o.backend = backend; o.dir = mc::fresh_dir("db"); o.max_ops = max_ops; fmpi::reset(1, true);
    Session x; x.start(o);
    std::vector<Row> db = fill(x, universe(), set);
    std::string id;
    for (auto &q : b) { HX_QUEUED(x.getop(q.s, q.p, HXHIM_DATA_BYTE, q.n, q.op), "getop"); mc::note("queue GETOP %s", show(q).c_str()); }
    Recs r = x.flush_getops(); size_t at = 0;
    for (auto &q : b) {
        bool good = false;
        for (auto &w : getop_ref(db, q)) { size_t n = w.empty() ? 1 : w.size(); if (at + n > r.size()) continue; Recs part(r.begin() + at, r.begin() + at + n); if (matches(part, w, q)) { good = true; at += n; break; } }
        MC_CHECK(good, "batched-getop-wrong", "GETOP %s of the batch gave (from index %zu of) %s; expected %s", show(q).c_str(), at, show(r).c_str(), show(getop_ref(db, q)).c_str());
        mc::transition();
    }
    MC_CHECK(at == r.size(), "batched-getop-extra", "%zu results too many: %s", r.size() - at, show(r).c_str());
    mc::outcome(show(r)); mc::state(show(r));
    x.close();
}
int main(int argc, char **argv) {
    clean_env();
    mc::E().property = "C02";
    mc::E().assumptions = {"one datastore: a GETOP is answered by the datastore its key hashes to", "the reference orders keys by the composite key's bytes; numeric text comes from elen (decided in C11)",
        "where no stored key has the prefix NEXT/PREV may start at the following key or report an error; LOWEST with an omitted numeric predicate may skip non-numeric keys below every number"};
    for (int b = 0; b < NBACKENDS; b++) {
        std::string n = bname(b);
        int k = b == RDB ? 7 : 10;
        mc::space("contents-" + n, "all subsets of " + std::to_string(k) + " keys x 7 operators x 6 subjects x 11 predicates (3 omitted) x counts 0,1,2,20", [b, k] { contents(b, k); }).only_tier = b == RDB ? 1 : 0;
        if (b == RDB) mc::space("contents-deep-" + n, "all subsets of 10 keys", [b] { contents(b, 10); }).only_tier = 2;
        mc::space("batched-" + n, "all batches of 2-3 of 11 GETOPs x 4 contents x 1 or several requests", [b] { batched(b); }).only_tier = b == RDB ? 2 : 0;
    }
    return mc::run(argc, argv);
}
