// flavour: asan
// C03: every queued operation is executed once and yields exactly one result.
#include "model.hpp"
using namespace hx;

static QOp mk(int kind, const char *s, const char *p, V o = V()) { QOp q; q.kind = kind; q.s = B(s); q.p = B(p); q.o = o; return q; }
static std::vector<QOp> alphabet() {
    std::vector<QOp> a;
    a.push_back(mk(KPUT, "a", "b", D(1))); a.push_back(mk(KPUT, "a", "c", B("w")));
    a.push_back(mk(KPUT, "b", "b", B("x"))); a.back().perm = (hxhim_put_permutation_t) (HXHIM_PUT_SPO | HXHIM_PUT_OPS);
    a.push_back(mk(KGET, "a", "b")); a.push_back(mk(KGET, "a", "c"));
    a.push_back(mk(KGETOP, "a", "b")); a.back().op = HXHIM_GETOP_NEXT; a.back().n = 2;
    a.push_back(mk(KGETOP, "a", "c")); a.back().op = HXHIM_GETOP_EQ; a.back().n = 1;
    a.push_back(mk(KDEL, "a", "b")); a.push_back(mk(KDEL, "a", "c"));
    a.push_back(mk(KHIST, "", "")); a.back().name = "b";
    return a;
}
struct Queue {
    std::vector<QOp> q[5];
    static int slot(int kind) { return kind == KPUT ? 0 : kind == KGET ? 1 : kind == KGETOP ? 2 : kind == KDEL ? 3 : 4; }
    void add(const QOp &o) { q[slot(o.kind)].push_back(o); }
};
static void flush(Session &x, Model &m, Queue &Q, int which) {   // 0..4 one kind, 5 all
    static const char *names[] = {"FlushPuts", "FlushGets", "FlushGetOps", "FlushDeletes", "FlushHistograms", "Flush"};
    mc::note("%s", names[which]);
    Recs r;
    switch (which) { case 0: r = x.flush_puts(); break; case 1: r = x.flush_gets(); break; case 2: r = x.flush_getops(); break; case 3: r = x.flush_dels(); break; case 4: r = x.flush_hists(); break; default: r = x.flush(); }
    size_t at = 0;
    for (int k = 0; k < 5; k++) if (which == 5 || which == k) { check_flush(m, Q.q[k], r, at, names[which]); Q.q[k].clear(); }
    MC_CHECK(at == r.size(), "results-not-asked-for", "%s: results beyond those queued, or out of order: %s", names[which], show(r).c_str());
    mc::transition();
}
static void add(Session &x, Queue &Q, const QOp &q) { MC_CHECK(enqueue(x, q) == HXHIM_SUCCESS, "enqueue-refused", "%s refused", show(q).c_str()); Q.add(q); mc::note("%s", show(q).c_str()); mc::transition(); }
static void finish(Session &x, Model &m, Queue &Q) {
    flush(x, m, Q, 5); flush(x, m, Q, 5);
    check_contents(x, m, {Key(B("a"), B("b")), Key(B("a"), B("c")), Key(B("b"), B("b")), Key(B("x"), B("b"))}, "final contents");
    std::string s; for (auto &d : m.ds) { s += std::to_string(d.first) + ":"; for (auto &e : d.second) s += show(e.first) + "=" + show(e.second); } mc::outcome(s); mc::state(s);
    x.close();
}
static const char *HASHES[] = {"SUM_MOD_DATASTORES", "RANK_MOD_DATASTORES", "UTHASH_FNV", "UTHASH_JEN"};
static void config(Opt &o, int c) {
    static const int C[][4] = {{1, 128, 0, 0}, {1, 1, 0, 0}, {2, 1, 0, 0}, {3, 2, 0, 0}, {2, 128, 90, 0}, {2, 3, 0, 2}};
    o.datastores = C[c][0]; o.max_ops = C[c][1]; o.max_size = C[c][2]; o.hash = HASHES[C[c][3]];
}
// every sequence of enqueue and flush calls
static void sequences(int depth, int backend) {
    auto a = alphabet(); int n = a.size() + 6;
    int c = mc::choose(backend == MEM ? 6 : 2); std::vector<int> seq; for (int i = 0; i < depth; i++) seq.push_back(mc::choose(n));
    Opt o; o.backend = backend; o.dir = mc::fresh_dir("db"); config(o, backend == MEM ? c : c + 2); o.track = {"b"};
    fmpi::reset(1, true);
    Session x; x.start(o); Model m; m.use(x); Queue Q;
    mc::note("%zu datastores, %zu operations and %zu bytes per request, %s", o.datastores, o.max_ops, o.max_size, o.hash.c_str());
    for (int s : seq) { if (s < (int) a.size()) add(x, Q, a[s]); else flush(x, m, Q, s - a.size()); }
    finish(x, m, Q);
}
// prefilled store, every multiset order of operations of each kind across packet boundaries
static void boundaries() {
    auto a = alphabet();
    int kind = mc::choose(5), count = mc::choose(7), dss = 1 + mc::choose(3), ops = mc::choose(5), hash = mc::choose(4), var = mc::choose(3);
    Opt o; o.datastores = dss; o.max_ops = ops == 4 ? 128 : ops + 1; o.max_size = 0; o.hash = HASHES[hash]; o.track = {"b"};
    static const char *S[] = {"a", "b", "c", "dd"}; static const char *Pn[] = {"b", "c"};
    fmpi::reset(1, true);
    // every byte limit below and around the size of the largest packet
    for (std::size_t limit = 0; limit < 400; limit += limit < 60 ? 20 : mc::thorough() ? 3 : 11) {
        o.max_size = limit; Session x; x.start(o); Model m; m.use(x); Queue Q;
        if (kind) { for (int i = 0; i < 6; i++) if (i != 2) add(x, Q, mk(KPUT, S[i % 4], Pn[i % 2], i % 2 ? B("v" + std::string(i, 'v')) : D(i))); flush(x, m, Q, 0); }
        for (int i = 0; i < count; i++) {
            QOp q; int j = var == 0 ? i : var == 1 ? 0 : count - i;
            switch (kind) {
                case 0: q = mk(KPUT, S[j % 4], Pn[j % 2], B("n" + std::string(i * 7, 'n'))); if (var == 2) q.perm = HXHIM_PUT_ALL; break;
                case 1: q = mk(KGET, S[j % 4], Pn[(j / 2) % 2]); break;
                case 2: q = mk(KGETOP, S[j % 4], Pn[j % 2]); q.op = (hxhim_getop_t) (j % 7); q.n = 1 + i % 3; break;
                case 3: q = mk(KDEL, S[j % 4], Pn[j % 2]); break;
                default: q = mk(KHIST, "", ""); q.hds = j % dss; q.name = i % 3 == 2 ? "not tracked" : "b";
            }
            add(x, Q, q);
        }
        flush(x, m, Q, kind); flush(x, m, Q, kind); finish(x, m, Q);
    }
}
// interleavings of several kinds in one flush: what a read sees of the operations queued with it
static void mixed() {
    auto a = alphabet(); int c = mc::choose(6); int len = 5; std::vector<int> seq; for (int i = 0; i < len; i++) seq.push_back(mc::choose(a.size()));
    Opt o; config(o, c); o.track = {"b"}; fmpi::reset(1, true);
    Session x; x.start(o); Model m; m.use(x); Queue Q;
    for (int s : seq) add(x, Q, a[s]);
    finish(x, m, Q);
}
int main(int argc, char **argv) {
    clean_env();
    mc::E().property = "C03";
    mc::E().assumptions = {"one rank (other ranks: C07), no background puts (C06)", "the datastore a key belongs to is taken from hxhim_hash (decided in C09)", "DELETE of an absent key may report success or error"};
    mc::space("sequences", "all sequences of 4 calls out of 10 operations and 6 flushes x 6 configurations of datastores, limits and hash", [] { sequences(4, MEM); }).only_tier = 1;
    mc::space("sequences-deep", "all sequences of 5 calls", [] { sequences(5, MEM); }).only_tier = 2;
    mc::space("sequences-LEVELDB", "all sequences of 3 calls on LevelDB x 2 configurations", [] { sequences(3, LDB); });
    mc::space("boundaries", "5 kinds x 0..6 operations x 3 key patterns x 1..3 datastores x 1,2,3,4,128 operations per request x 4 hashes x 34 (thorough 117) byte limits from 0 to 400", [] { boundaries(); });
    mc::space("mixed", "all orders of 5 of 10 operations in one Flush x 6 configurations", [] { mixed(); }).only_tier = 2;
    return mc::run(argc, argv);
}
