// flavour: asan
// extra: lib/fakelog.cpp
// C21: user transform functions are applied consistently to every value of their type and to nothing else.
#include "model.hpp"
#include "hxhim/private/hxhim.hpp"
#include "utils/memory.hpp"
using namespace hx;

// ---- the user's functions -----------------------------------------------------------------------
// what a function does: GROW appends two bytes that depend on its extra argument, REVERSE keeps the length, SAME copies, NONE is a null function
enum Fn { GROW, REVERSE, SAME, NONE, NFN };
static const char *FN[] = {"GROW", "REVERSE", "SAME", "NONE"};
struct Extra { int tag; bool enc; int kind; };
struct Call { const Extra *e; std::string in; };
static std::vector<Call> calls; static std::set<std::string> *stored_forms;
static std::string forward(int kind, int tag, const std::string &in) {
    std::string r = in;
    if (kind == REVERSE) std::reverse(r.begin(), r.end());
    if (kind == GROW) { for (auto &c : r) c ^= (char) 0x5a; r += (char) tag; r += '\x7f'; }
    return r;
}
static bool backward(int kind, int tag, const std::string &in, std::string &r) {
    r = in;
    if (kind == REVERSE) std::reverse(r.begin(), r.end());
    if (kind == GROW) { if (r.size() < 2 || r.back() != '\x7f' || r[r.size() - 2] != (char) tag) return false; r.resize(r.size() - 2); for (auto &c : r) c ^= (char) 0x5a; }
    return true;
}
static int give(const std::string &r, void **dst, size_t *n) { *dst = alloc(r.size()); memcpy(*dst, r.data(), r.size()); *n = r.size(); return HXHIM_SUCCESS; }
static int encoder(void *src, const size_t n, void **dst, size_t *dn, void *extra) {
    if (!src || !n) return HXHIM_ERROR;                                     // an omitted predicate is not a value
    const Extra *e = (const Extra *) extra; std::string in((char *) src, n); calls.push_back({e, in});
    if (!e || !e->enc) return HXHIM_ERROR;
    return give(forward(e->kind, e->tag, in), dst, dn);
}
static int decoder(void *src, const size_t n, void **dst, size_t *dn, void *extra) {
    const Extra *e = (const Extra *) extra; std::string in(src ? (char *) src : "", src ? n : 0), out; calls.push_back({e, in});
    if (!e || e->enc || !backward(e->kind, e->tag, in, out)) return HXHIM_ERROR;
    return give(out, dst, dn);
}
static const hxhim_data_t TYPES[] = {HXHIM_DATA_INT32, HXHIM_DATA_INT64, HXHIM_DATA_UINT32, HXHIM_DATA_UINT64, HXHIM_DATA_FLOAT, HXHIM_DATA_DOUBLE, HXHIM_DATA_BYTE, HXHIM_DATA_POINTER};
static const char *TNAME[] = {"INT32", "INT64", "UINT32", "UINT64", "FLOAT", "DOUBLE", "BYTE", "POINTER"};
static V value(int t, int i) {
    switch (t) {
        case 0: return I32(i == 0 ? -7 : i == 1 ? 300 : 0x01020304); case 1: return I64(i == 0 ? -5000000000LL : i == 1 ? 17 : 0);
        case 2: return U32(i == 0 ? 0 : i == 1 ? 4000000000u : 9); case 3: return U64(i == 0 ? 1 : i == 1 ? 1ull << 40 : 77);
        case 4: return F(i == 0 ? -0.5f : i == 1 ? 1024.25f : 0); case 5: return D(i == 0 ? -0.125 : i == 1 ? 65536.5 : 3);
        case 6: return B(i == 0 ? std::string("a\0b", 3) : i == 1 ? "abc" : "\xff\x01"); default: return P(i == 0 ? "abc" : i == 1 ? "q" : "zz\x02");
    }
}
// ---- registrations ------------------------------------------------------------------------------
struct Reg { int type, fn; };
struct Setup {
    std::vector<Reg> regs; std::deque<Extra> ex; std::map<hxhim_data_t, std::pair<Extra *, Extra *>> now;   // what is in force
    std::string show() const { std::string s; for (auto &r : regs) s += std::string(s.empty() ? "" : ", ") + TNAME[r.type] + "=" + FN[r.fn]; return s.empty() ? "nothing registered" : s; }
    void apply(hxhim_t *h) {
        ex.clear(); now.clear(); int tag = 1;
        for (auto &r : regs) {
            ex.push_back({tag, true, r.fn}); Extra *e = &ex.back(); ex.push_back({tag, false, r.fn}); Extra *d = &ex.back(); tag += 3;
            int rc = r.fn == NONE ? hxhim_set_transform_function(h, TYPES[r.type], nullptr, nullptr, nullptr, nullptr) : hxhim_set_transform_function(h, TYPES[r.type], encoder, e, decoder, d);
            MC_CHECK(rc == HXHIM_SUCCESS, "registration-refused", "hxhim_set_transform_function refused %s", TNAME[r.type]);
            now[TYPES[r.type]] = r.fn == NONE ? std::make_pair((Extra *) nullptr, (Extra *) nullptr) : std::make_pair(e, d);
        }
        own_encoding() = [this](const V &v, std::string &out) {
            auto i = now.find(v.t); if (i == now.end()) return false;
            out = i->second.first ? forward(i->second.first->kind, i->second.first->tag, v.b) : v.b; return true;
        };
    }
    // exactly the values that had to be encoded (and nothing else) were given to the encoder in force, and the decoder in force saw only its encodings
    void check_calls(const std::vector<V> &must, const std::vector<V> &may, const char *what) {
        std::set<std::pair<const Extra *, std::string>> want, allowed, got;
        for (auto &v : must) { auto i = now.find(v.t); if (i != now.end() && i->second.first && v.len()) want.insert({i->second.first, v.b}); }
        allowed = want;
        for (auto &v : may) { auto i = now.find(v.t); if (i != now.end() && i->second.first && v.len()) { allowed.insert({i->second.first, v.b}); allowed.insert({i->second.second, forward(i->second.first->kind, i->second.first->tag, v.b)}); } }
        for (auto &c : calls) {
            got.insert({c.e, c.in});
            MC_CHECK(allowed.count({c.e, c.in}), std::string(what) + "-unexpected-call", "%s with %s: a registered %s function (tag %d) was given \"%s\", which is not such a value", what, show().c_str(), c.e ? c.e->enc ? "encode" : "decode" : "?", c.e ? c.e->tag : -1, hx::show(c.in).c_str());
        }
        for (auto &w : want) MC_CHECK(got.count(w), std::string(what) + "-not-encoded", "%s with %s: the value \"%s\" was not given to the registered encoder", what, show().c_str(), hx::show(w.second).c_str());
        calls.clear();
    }
};
struct Triple { V s, p, o; };
static std::vector<Triple> triples(int T, int U) {
    V t0 = value(T, 0), t1 = value(T, 1), t2 = value(T, 2), u0 = value(U, 0), u1 = value(U, 1), b = B("k"), b2 = B("ab");
    return {{t0, t1, t2}, {t0, b, t1}, {b, t0, u0}, {b2, t1, b}, {u0, u1, t0}, {b, b2, b}, {t1, u0, u1}, {b, u1, t2}, {t2, t0, I64(5)}, {b, t2, D(2.5)}};
}
// ways to hand operations to the library
enum { SINGLE, BULK, ONETYPE, TYPED, NWAYS };
static const char *WAY[] = {"single", "bulk", "bulk of one type", "float/double"};
struct Arr {
    std::deque<std::string> keep; std::vector<void *> s, p, o; std::vector<size_t> sl, pl, ol, n; std::vector<hxhim_data_t> st, pt, ot; std::vector<hxhim_put_permutation_t> perm; std::vector<hxhim_getop_t> op;
    void *own(const V &v) { if (v.b.empty()) return nullptr; keep.push_back(v.b + std::string(24, 0)); return &keep.back()[0]; }
    void add(const Triple &x, hxhim_getop_t g = HXHIM_GETOP_EQ, size_t num = 1) {
        s.push_back(own(x.s)); sl.push_back(x.s.len()); st.push_back(x.s.t); p.push_back(own(x.p)); pl.push_back(x.p.len()); pt.push_back(x.p.t); o.push_back(own(x.o)); ol.push_back(x.o.len()); ot.push_back(x.o.t);
        perm.push_back(HXHIM_PUT_SPO); op.push_back(g); n.push_back(num);
    }
    size_t count() const { return s.size(); }
};
#define ALL A.s.data(), A.sl.data(), A.st.data(), A.p.data(), A.pl.data(), A.pt.data()
#define ITEM A.s[i], A.sl[i], A.st[i], A.p[i], A.pl[i], A.pt[i]
static void queue(hxhim_t *h, int kind, int way, Arr &A) {
    size_t n = A.count(); if (!n) return; int rc = HXHIM_SUCCESS;
    if (way == BULK) rc = kind == KPUT ? hxhim::BPut(h, ALL, A.o.data(), A.ol.data(), A.ot.data(), A.perm.data(), n) : kind == KGET ? hxhim::BGet(h, ALL, A.ot.data(), n) : kind == KGETOP ? hxhim::BGetOp(h, ALL, A.ot.data(), A.n.data(), A.op.data(), n) : hxhim::BDelete(h, ALL, n);
    else for (size_t i = 0; i < n; i++) {
        int r;
        if (way == ONETYPE && kind == KPUT) r = hxhim::BPutSingleType(h, &A.s[i], &A.sl[i], &A.st[i], &A.p[i], &A.pl[i], &A.pt[i], &A.o[i], &A.ol[i], A.ot[i], &A.perm[i], 1);
        else if (way == ONETYPE && kind == KGET) r = hxhim::BGetSingleType(h, &A.s[i], &A.sl[i], &A.st[i], &A.p[i], &A.pl[i], &A.pt[i], A.ot[i], 1);
        else if (way == TYPED && A.ot[i] == HXHIM_DATA_FLOAT && kind == KPUT) r = hxhim::PutFloat(h, ITEM, (float *) A.o[i], A.perm[i]);
        else if (way == TYPED && A.ot[i] == HXHIM_DATA_DOUBLE && kind == KPUT) r = hxhim::PutDouble(h, ITEM, (double *) A.o[i], A.perm[i]);
        else if (way == TYPED && A.ot[i] == HXHIM_DATA_FLOAT && kind == KGET) r = hxhim::GetFloat(h, ITEM);
        else if (way == TYPED && A.ot[i] == HXHIM_DATA_DOUBLE && kind == KGET) r = hxhim::GetDouble(h, ITEM);
        else r = kind == KPUT ? hxhim::Put(h, ITEM, A.o[i], A.ol[i], A.ot[i], A.perm[i]) : kind == KGET ? hxhim::Get(h, ITEM, A.ot[i]) : kind == KGETOP ? hxhim::GetOp(h, ITEM, A.ot[i], A.n[i], A.op[i]) : hxhim::Delete(h, ITEM);
        if (r != HXHIM_SUCCESS) rc = r;
    }
    MC_CHECK(rc == HXHIM_SUCCESS, "queue-refused", "queueing refused (%d)", rc);
}
typedef std::map<Key, V> Store;
static void parts(std::vector<V> &v, const Triple &t, bool obj) { v.push_back(t.s); v.push_back(t.p); if (obj) v.push_back(t.o); }
static void put_all(Session &x, Setup &S, Store &m, const std::vector<Triple> &ts, int way, bool async) {
    Arr A; std::vector<V> must; for (auto &t : ts) { A.add(t); parts(must, t, true); m[Key(t.s, t.p)] = t.o; }
    calls.clear(); queue(&x.h, KPUT, way, A); Recs r = read(async ? hxhim::Flush(&x.h) : hxhim::FlushPuts(&x.h));
    MC_CHECK(r.size() == ts.size(), "put-results", "%zu PUTs (%s) with %s gave %s", ts.size(), WAY[way], S.show().c_str(), show(r).c_str());
    for (auto &e : r) { bool known = false; for (auto &t : ts) known = known || (e.s == t.s && e.p == t.p); MC_CHECK(e.ok() && known && e.op == HXHIM_PUT, "put-failed", "PUT (%s) with %s gave %s", WAY[way], S.show().c_str(), show(e).c_str()); }
    S.check_calls(must, must, "PUT"); mc::transition();
}
static void get_all(Session &x, Setup &S, Store &m, const std::vector<Triple> &ts, int way, const char *when) {
    Arr A; std::vector<V> must, may; for (auto &t : ts) { A.add(t); parts(must, t, false); parts(may, t, true); }
    for (auto &e : m) may.push_back(e.second);
    calls.clear(); queue(&x.h, KGET, way, A); Recs r = read(hxhim::FlushGets(&x.h)); size_t n = 0;
    MC_CHECK(r.size() == ts.size(), "get-results", "%zu GETs (%s, %s) with %s gave %s", ts.size(), WAY[way], when, S.show().c_str(), show(r).c_str());
    for (auto &t : ts) {
        auto i = m.find(Key(t.s, t.p)); bool good = false; Rec found;
        for (auto &e : r) if (e.s == t.s && e.p == t.p) { found = e; n++; good = i == m.end() ? e.status == HXHIM_ERROR : e.ok() && e.o == i->second; if (!good) break; }
        MC_CHECK(good, std::string("get-wrong-") + (i == m.end() ? "absent" : "present"), "GET %s (%s, %s) with %s gave %s; stored %s", show(Key(t.s, t.p)).c_str(), WAY[way], when, S.show().c_str(), show(found).c_str(), i == m.end() ? "nothing" : show(i->second).c_str());
    }
    S.check_calls(must, may, "GET"); mc::transition();
}
static void getop_all(Session &x, Setup &S, Store &m, const std::vector<Triple> &ts, const Opt &o, int way, int T) {
    std::vector<Row> db; for (auto &e : m) { Row r; r.k = e.first; r.o = e.second; r.key = dbkey(e.first, o); db.push_back(r); }
    std::sort(db.begin(), db.end()); std::vector<V> may; for (auto &t : ts) parts(may, t, true);
    for (auto &e : m) parts(may, {e.first.first, e.first.second, e.second}, true);
    std::vector<std::pair<V, V>> qs; for (auto &t : ts) qs.push_back({t.s, t.p});
    qs.push_back({B("k"), None(TYPES[T])}); qs.push_back({value(T, 0), None()}); qs.push_back({value(T, 1), value(T, 1)}); parts(may, {value(T, 1), value(T, 1), value(T, 1)}, true);
    for (auto &k : qs) for (int op = 0; op < 7; op++) {
        if ((op == HXHIM_GETOP_FIRST || op == HXHIM_GETOP_LAST) && &k != &qs[0]) continue;
        Query q; q.s = k.first; q.p = k.second; q.op = (hxhim_getop_t) op; q.n = op % 2 ? 20 : 2;
        Arr A; A.add({q.s, q.p, None(HXHIM_DATA_BYTE)}, q.op, q.n); calls.clear(); queue(&x.h, KGETOP, way, A); Recs r = read(hxhim::FlushGetOps(&x.h));
        auto ok = getop_ref(db, q, o); bool good = false; for (auto &w : ok) good = good || matches(r, w, q);
        MC_CHECK(good, std::string("getop-wrong-") + opname(op) + (q.p.b.empty() ? "-omitted" : ""), "GETOP %s with %s gave %s; expected %s", show(q).c_str(), S.show().c_str(), show(r).c_str(), show(ok).c_str());
        std::vector<V> must; if (op != HXHIM_GETOP_FIRST && op != HXHIM_GETOP_LAST) parts(must, {q.s, q.p, V()}, false);
        S.check_calls(must, may, "GETOP"); mc::transition();
    }
}
static void del(Session &x, Setup &S, Store &m, const std::vector<Triple> &ts, int way) {
    Arr A; std::vector<V> must; for (auto &t : ts) { A.add(t); parts(must, t, false); m.erase(Key(t.s, t.p)); }
    calls.clear(); queue(&x.h, KDEL, way, A); Recs r = read(hxhim::FlushDeletes(&x.h));
    MC_CHECK(r.size() == ts.size(), "delete-results", "DELETE with %s gave %s", S.show().c_str(), show(r).c_str());
    for (auto &e : r) MC_CHECK(e.ok() && e.op == HXHIM_DELETE, "delete-failed", "DELETE (%s) of a stored key with %s gave %s", WAY[way], S.show().c_str(), show(e).c_str());
    S.check_calls(must, must, "DELETE"); mc::transition();
}
static std::vector<Triple> some(const std::vector<Triple> &ts, int odd) { std::vector<Triple> r; for (size_t i = 0; i < ts.size(); i++) if ((int) (i & 1) == odd) r.push_back(ts[i]); return r; }
static bool one_registration_only(const Setup &S) { return S.regs.size() <= 1; }
static void choose_regs(Setup &S, int T, int U, int maxlen) {
    int n = mc::choose(maxlen + 1); for (int i = 0; i < n; i++) { int who = mc::choose(2), fn = mc::choose(NFN); S.regs.push_back({who ? U : T, fn}); }
}
// every operation with every entry point, for every registration sequence
static void script(int backend, int maxlen, int neighbours) {
    int T = mc::choose(8), U = (T + 1 + 2 * mc::choose(neighbours)) % 8; Setup S; choose_regs(S, T, U, maxlen); bool async = mc::choose(2); int nds = one_registration_only(S) ? 1 + mc::choose(2) : 1;
    fmpi::reset(1, true); Opt o; o.backend = backend; o.dir = mc::fresh_dir("d"); o.datastores = nds; if (nds > 1) o.hash = "SUM_MOD_DATASTORES"; if (async) o.async = 3;
    mc::note("%s, %d datastores, %s%s; other type %s", bname(backend), nds, S.show().c_str(), async ? ", background PUTs" : "", TNAME[U]);
    Session x; MC_CHECK(x.init(o) == HXHIM_SUCCESS, "init", "Init failed"); S.apply(&x.h); MC_CHECK(x.open() == HXHIM_SUCCESS, "open", "Open failed with %s", S.show().c_str());
    auto ts = triples(T, U); Store m;
    put_all(x, S, m, ts, async ? SINGLE : BULK, async); if (!async) { for (int w : {SINGLE, ONETYPE, TYPED}) put_all(x, S, m, some(ts, w & 1), w, false); }
    for (int w = 0; w < NWAYS; w++) get_all(x, S, m, ts, w, "after PUT");
    if (nds == 1) getop_all(x, S, m, ts, o, async ? BULK : SINGLE, T);
    del(x, S, m, some(ts, 0), SINGLE); get_all(x, S, m, ts, BULK, "after DELETE"); if (nds == 1) getop_all(x, S, m, ts, o, BULK, T);
    put_all(x, S, m, some(ts, 0), SINGLE, async); del(x, S, m, some(ts, 1), BULK); get_all(x, S, m, ts, SINGLE, "after PUT again");
    mc::state(S.show() + bname(backend)); mc::outcome(S.show() + std::to_string(async)); x.close(); own_encoding() = nullptr;
}
// the functions stay in force over sync, a change of name, close and reopen, and in sessions on one database
static void lives(int backend) {
    int T = mc::choose(8), U = (T + 3) % 8; Setup S; choose_regs(S, T, U, 2); int how = mc::choose(4);
    fmpi::reset(1, true); Opt o; o.backend = backend; o.dir = mc::fresh_dir("d"); static const char *HOW[] = {"Sync", "ChangeDatastoreName there and back", "Close and Open", "Close and OpenOne"};
    mc::note("%s, %s; %s", bname(backend), S.show().c_str(), HOW[how]);
    std::vector<Triple> ts = triples(T, U); Store m; std::string path;
    { Session x; x.init(o); S.apply(&x.h); MC_CHECK(x.open() == HXHIM_SUCCESS, "open", "Open failed"); put_all(x, S, m, ts, SINGLE, false);
      if (how == 0) { x.sync(); get_all(x, S, m, ts, SINGLE, HOW[how]); getop_all(x, S, m, ts, o, SINGLE, T); }
      if (how == 1) {
          std::string a = o.dir + "/h", b = "other"; read(hxhim::ChangeDatastoreName(&x.h, b, false, false, true)); Store m2; put_all(x, S, m2, some(ts, 1), BULK, false); get_all(x, S, m2, ts, SINGLE, HOW[how]); getop_all(x, S, m2, ts, o, SINGLE, T);
          read(hxhim::ChangeDatastoreName(&x.h, "h", false, false, true)); if (backend == MEM) m.clear(); get_all(x, S, m, ts, SINGLE, HOW[how]); getop_all(x, S, m, ts, o, SINGLE, T);
      }
      x.close(); }
    if (how >= 2 && backend != MEM) {
        Session x; o.create = how == 2; x.init(o); S.apply(&x.h);
        int rc = how == 2 ? hxhim::Open(&x.h) : hxhim::OpenOne(&x.h, o.dir + "/h-0"); MC_CHECK(rc == HXHIM_SUCCESS, "reopen", "%s failed (%d)", HOW[how], rc); x.is_open = true;
        get_all(x, S, m, ts, SINGLE, HOW[how]); getop_all(x, S, m, ts, o, SINGLE, T); del(x, S, m, some(ts, 0), BULK); get_all(x, S, m, ts, BULK, HOW[how]); put_all(x, S, m, some(ts, 0), SINGLE, false); get_all(x, S, m, ts, TYPED, HOW[how]);
        x.close();
    }
    mc::state(S.show() + HOW[how]); mc::outcome(S.show() + HOW[how]); own_encoding() = nullptr;
}
// all short histories of operations over keys that differ only in type and value
static void history(int backend, int depth) {
    int T = mc::choose(8), U = (T + 2) % 8; Setup S; int fn = mc::choose(3); S.regs = {{T, fn}}; if (mc::choose(2)) S.regs.push_back({U, GROW});
    fmpi::reset(1, true); Opt o; o.backend = backend; o.dir = mc::fresh_dir("d"); Session x; x.init(o); S.apply(&x.h); MC_CHECK(x.open() == HXHIM_SUCCESS, "open", "Open failed");
    V t0 = value(T, 0), u0 = value(U, 0), same = t0; same.t = T < 6 ? TYPES[T ^ 1] : TYPES[T == 6 ? 7 : 6]; if (T >= 6 || same.len() != t0.len()) same = T >= 6 ? same : u0;
    if (TYPES[T] == HXHIM_DATA_UINT64) same = D(0.75); if (TYPES[T] == HXHIM_DATA_UINT32) same = F(0.75f);
    if (same.t == HXHIM_DATA_INT64 && T == 0) same = I64(-7); if (same.t == HXHIM_DATA_INT32 && T == 1) same = I32(-7); if (T == 4) same = D(-0.5); if (T == 5) same = F(-0.125f);
    std::vector<Triple> ks = {{t0, B("p"), t0}, {same, B("p"), u0}, {t0, same, value(T, 1)}, {B("p"), t0, same}};
    Store m; int n = 1 + mc::choose(depth);
    for (int i = 0; i < n; i++) {
        int k = mc::choose(4), what = mc::choose(3); Triple t = ks[k]; if (what == 1) t.o = value(U, 1);
        mc::note("%s %s", what == 2 ? "DELETE" : "PUT", show(Key(t.s, t.p)).c_str());
        if (what < 2) put_all(x, S, m, {t}, SINGLE, false); else { bool there = m.count(Key(t.s, t.p)); if (!there) mc::prune(); del(x, S, m, {t}, SINGLE); }
        if (i == n - 1) { get_all(x, S, m, ks, SINGLE, "in a history"); getop_all(x, S, m, ks, o, SINGLE, T); }
    }
    mc::state(std::to_string(m.size()) + S.show()); mc::outcome(S.show() + std::to_string(m.size())); x.close(); own_encoding() = nullptr;
}
int main(int argc, char **argv) {
    mc::E().property = "C21"; clean_env(); bool t = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) t = true;
    mc::space("script-IN_MEMORY", "8 types x every registration sequence of length 0..2 of 4 functions on the type or another x background PUTs or not; every entry point, operation and operator", [=] { script(MEM, 2, t ? 4 : 1); });
    mc::space("script-LEVELDB", "as in memory", [=] { script(LDB, 2, t ? 4 : 1); });
    mc::space("script-ROCKSDB", "as in memory; registration sequences of length 0..1 (thorough 2)", [=] { script(RDB, t ? 2 : 1, 1); });
    mc::space("lives-IN_MEMORY", "8 types x registration sequences of length 0..2 x Sync, change of name", [] { lives(MEM); });
    mc::space("lives-LEVELDB", "8 types x registration sequences of length 0..2 x Sync, change of name, reopen, OpenOne", [] { lives(LDB); });
    mc::space("lives-ROCKSDB", "as LevelDB", [] { lives(RDB); }).only_tier = 2;
    mc::space("history-IN_MEMORY", "8 types x 3 functions x another type with a function or not x all histories of 1..2 (thorough 4) PUT/DELETE over 4 keys", [=] { history(MEM, t ? 4 : 2); });
    mc::space("history-LEVELDB", "as in memory, 1..2 (thorough 3) operations", [=] { history(LDB, t ? 3 : 2); });
    mc::E().assumptions = {"the user's functions are deterministic, their decoder inverts their encoder, and they report HXHIM_SUCCESS", "an omitted predicate is not a value: the function may or may not be asked about it", "the order of GETOP is that of the encoded text"};
    return mc::run(argc, argv);
}
