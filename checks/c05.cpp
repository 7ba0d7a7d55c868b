// flavour: asan
// C05: all entry points for an operation are equivalent.
#include "model.hpp"
using namespace hx;

enum { SINGLE, BULK, BULK_ONE_TYPE, FSINGLE, FBULK, DSINGLE, DBULK, NSTYLES };
static const char *STYLE[] = {"single", "bulk", "bulk of one type", "float", "bulk float", "double", "bulk double"};
static const char *KINDS[] = {"PUT", "GET", "GETOP", "DELETE", "HISTOGRAM"};
static const int KIND[] = {KPUT, KGET, KGETOP, KDEL, KHIST};

// the argument arrays of one call (a bulk variant passes them as they are, a single one item by item)
struct Args {
    std::vector<std::string> keep;
    std::vector<void *> s, p, o; std::vector<size_t> sl, pl, ol, n; std::vector<hxhim_data_t> st, pt, ot;
    std::vector<hxhim_put_permutation_t> perm; std::vector<hxhim_getop_t> op; std::vector<int> ds; std::vector<const char *> name; std::vector<size_t> nl;
    unsigned null = 0;        // which of the arrays is passed as a null pointer
    size_t count = 0;
    void *own(const V &v) { if (v.b.empty()) return nullptr; keep.push_back(v.b); return (void *) keep.back().data(); }
    explicit Args(const std::vector<QOp> &q) {
        keep.reserve(4 * q.size() + 4); count = q.size();
        for (auto &x : q) {
            s.push_back(own(x.s)); sl.push_back(x.s.len()); st.push_back(x.s.t); p.push_back(own(x.p)); pl.push_back(x.p.len()); pt.push_back(x.p.t);
            o.push_back(own(x.o)); ol.push_back(x.o.len()); ot.push_back(x.o.t); n.push_back(x.n); perm.push_back(x.perm); op.push_back(x.op); ds.push_back(x.hds);
            V nm = B(x.name); name.push_back((const char *) own(nm)); nl.push_back(x.name.size());
        }
        // keep arrays addressable for an empty call
        s.reserve(1); p.reserve(1); o.reserve(1); sl.reserve(1); pl.reserve(1); ol.reserve(1); n.reserve(1); st.reserve(1); pt.reserve(1); ot.reserve(1); perm.reserve(1); op.reserve(1); ds.reserve(1); name.reserve(1); nl.reserve(1);
    }
    template <typename T> T *a(std::vector<T> &v, int bit) { return null >> bit & 1 ? nullptr : v.data(); }
};
enum { A_S, A_SL, A_ST, A_P, A_PL, A_PT, A_O, A_OL, A_OT, A_PERM, A_N, A_OP, A_DS, A_NAME, A_NL };
static bool exists(int kind, int style) { return kind <= 2 ? true : style <= BULK; }
static bool bulk(int style) { return style == BULK || style == BULK_ONE_TYPE || style == FBULK || style == DBULK; }
static std::vector<int> arrays(int kind, int style) {
    switch (kind) {
        case 0: if (style == FBULK || style == DBULK) return {A_S, A_SL, A_ST, A_P, A_PL, A_PT, A_O, A_PERM}; if (style == BULK_ONE_TYPE) return {A_S, A_SL, A_ST, A_P, A_PL, A_PT, A_O, A_OL, A_PERM}; return {A_S, A_SL, A_ST, A_P, A_PL, A_PT, A_O, A_OL, A_OT, A_PERM};
        case 1: if (style != BULK) return {A_S, A_SL, A_ST, A_P, A_PL, A_PT}; return {A_S, A_SL, A_ST, A_P, A_PL, A_PT, A_OT};
        case 2: if (style != BULK) return {A_S, A_SL, A_ST, A_P, A_PL, A_PT, A_N, A_OP}; return {A_S, A_SL, A_ST, A_P, A_PL, A_PT, A_OT, A_N, A_OP};
        case 3: return {A_S, A_SL, A_ST, A_P, A_PL, A_PT};
        default: return {A_DS, A_NAME, A_NL};
    }
}
#define ALL3 A.a(A.s, A_S), A.a(A.sl, A_SL), A.a(A.st, A_ST), A.a(A.p, A_P), A.a(A.pl, A_PL), A.a(A.pt, A_PT)
#define ONE A.s[i], A.sl[i], A.st[i], A.p[i], A.pl[i], A.pt[i]
#define BOTH(cpp, c, ...) (lang ? c(h, __VA_ARGS__) : hxhim::cpp(h, __VA_ARGS__))
static int call(hxhim_t *h, int kind, int style, int lang, Args &A) {
    hxhim_data_t one = A.count ? A.ot[0] : HXHIM_DATA_BYTE; size_t n = A.count;
    if (!bulk(style)) {
        int rc = HXHIM_SUCCESS;
        for (size_t i = 0; i < n; i++) {
            int r = HXHIM_ERROR;
            switch (kind) {
                case 0: r = style == SINGLE ? BOTH(Put, hxhimPut, ONE, A.o[i], A.ol[i], A.ot[i], A.perm[i]) : style == FSINGLE ? BOTH(PutFloat, hxhimPutFloat, ONE, (float *) A.o[i], A.perm[i]) : BOTH(PutDouble, hxhimPutDouble, ONE, (double *) A.o[i], A.perm[i]); break;
                case 1: r = style == SINGLE ? BOTH(Get, hxhimGet, ONE, A.ot[i]) : style == FSINGLE ? BOTH(GetFloat, hxhimGetFloat, ONE) : BOTH(GetDouble, hxhimGetDouble, ONE); break;
                case 2: r = style == SINGLE ? BOTH(GetOp, hxhimGetOp, ONE, A.ot[i], A.n[i], A.op[i]) : style == FSINGLE ? BOTH(GetOpFloat, hxhimGetOpFloat, ONE, A.n[i], A.op[i]) : BOTH(GetOpDouble, hxhimGetOpDouble, ONE, A.n[i], A.op[i]); break;
                case 3: r = BOTH(Delete, hxhimDelete, ONE); break;
                default: r = BOTH(Histogram, hxhimHistogram, A.ds[i], A.name[i], A.nl[i]); break;
            }
            if (r != HXHIM_SUCCESS) rc = r;
        }
        return rc;
    }
    switch (kind) {
        case 0:
            if (style == BULK) return BOTH(BPut, hxhimBPut, ALL3, A.a(A.o, A_O), A.a(A.ol, A_OL), A.a(A.ot, A_OT), A.a(A.perm, A_PERM), n);
            if (style == BULK_ONE_TYPE) return BOTH(BPutSingleType, hxhimBPutSingleType, ALL3, A.a(A.o, A_O), A.a(A.ol, A_OL), one, A.a(A.perm, A_PERM), n);
            if (style == FBULK) return BOTH(BPutFloat, hxhimBPutFloat, ALL3, (float **) A.a(A.o, A_O), A.a(A.perm, A_PERM), n);
            return BOTH(BPutDouble, hxhimBPutDouble, ALL3, (double **) A.a(A.o, A_O), A.a(A.perm, A_PERM), n);
        case 1:
            if (style == BULK) return BOTH(BGet, hxhimBGet, ALL3, A.a(A.ot, A_OT), n);
            if (style == BULK_ONE_TYPE) return BOTH(BGetSingleType, hxhimBGetSingleType, ALL3, one, n);
            if (style == FBULK) return BOTH(BGetFloat, hxhimBGetFloat, ALL3, n);
            return BOTH(BGetDouble, hxhimBGetDouble, ALL3, n);
        case 2:
            if (style == BULK) return BOTH(BGetOp, hxhimBGetOp, ALL3, A.a(A.ot, A_OT), A.a(A.n, A_N), A.a(A.op, A_OP), n);
            if (style == BULK_ONE_TYPE) return BOTH(BGetOpSingleType, hxhimBGetOpSingleType, ALL3, one, A.a(A.n, A_N), A.a(A.op, A_OP), n);
            if (style == FBULK) return BOTH(BGetOpFloat, hxhimBGetOpFloat, ALL3, A.a(A.n, A_N), A.a(A.op, A_OP), n);
            return BOTH(BGetOpDouble, hxhimBGetOpDouble, ALL3, A.a(A.n, A_N), A.a(A.op, A_OP), n);
        case 3: return BOTH(BDelete, hxhimBDelete, ALL3, n);
        default: return BOTH(BHistogram, hxhimBHistogram, A.a(A.ds, A_DS), A.a(A.name, A_NAME), A.a(A.nl, A_NL), n);
    }
}
// reading results through the C interface
static Recs read_c(hxhim_results_t *res) {
    Recs v;
    HXHIM_C_RESULTS_LOOP(res) {
        Rec r; hxhim_op_t op; int st, rs; void *p; size_t l; hxhim_data_t t;
        if (hxhim_result_op(res, &op) == HXHIM_SUCCESS) r.op = op;
        if (hxhim_result_status(res, &st) == HXHIM_SUCCESS) r.status = st;
        if (hxhim_result_range_server(res, &rs) == HXHIM_SUCCESS) r.ds = rs;
        if (hxhim_result_subject(res, &p, &l, &t) == HXHIM_SUCCESS) { r.has_s = true; r.s.t = t; r.null_s = !p; if (p) r.s.b.assign((char *) p, l); }
        if (hxhim_result_predicate(res, &p, &l, &t) == HXHIM_SUCCESS) { r.has_p = true; r.p.t = t; r.null_p = !p; if (p) r.p.b.assign((char *) p, l); }
        if (hxhim_result_object(res, &p, &l, &t) == HXHIM_SUCCESS) { r.has_o = true; r.o.t = t; if (p) r.o.b.assign((char *) p, l); }
        const char *nm; size_t nl, sz; double *bk; size_t *ct;
        if (hxhim_result_histogram(res, &nm, &nl, &bk, &ct, &sz) == HXHIM_SUCCESS) { r.has_h = r.generated = true; r.name.assign(nm, nl); for (size_t i = 0; i < sz; i++) { r.buckets.push_back(bk[i]); r.counts.push_back(ct[i]); } }
        v.push_back(r);
    }
    hxhim_results_destroy(res);
    return v;
}
static Recs flush(Session &x, int kind, int lang, bool all) {
    hxhim_t *h = &x.h;
    if (all) return lang ? read_c(hxhimFlush(h)) : read(hxhim::Flush(h));
    switch (kind) {
        case 0: return lang ? read_c(hxhimFlushPuts(h)) : read(hxhim::FlushPuts(h));
        case 1: return lang ? read_c(hxhimFlushGets(h)) : read(hxhim::FlushGets(h));
        case 2: return lang ? read_c(hxhimFlushGetOps(h)) : read(hxhim::FlushGetOps(h));
        case 3: return lang ? read_c(hxhimFlushDeletes(h)) : read(hxhim::FlushDeletes(h));
        default: return lang ? read_c(hxhimFlushHistograms(h)) : read(hxhim::FlushHistograms(h));
    }
}
static const Key KEYS[] = {Key(B("a"), B("b")), Key(B("a"), B("c")), Key(I32(5), D(2.5)), Key(P("q"), B("b")), Key(B("zz"), U64(3))};
static void prefill(Session &x) {
    const V vals[] = {D(1.5), F(2.5f), B("text"), D(-4), I64(7)};
    for (int i = 0; i < 4; i++) HX_QUEUED(x.put(KEYS[i].first, KEYS[i].second, vals[i]), "put");
    x.flush_puts();
}
static Recs contents(Session &x) { HX_QUEUED(x.getop(B("a"), B("b"), HXHIM_DATA_BYTE, 100, HXHIM_GETOP_FIRST), "getop"); return x.flush_getops(); }
static std::vector<QOp> items(int kind, int style, int n) {
    std::vector<QOp> q;
    static const unsigned PM[] = {HXHIM_PUT_SPO, HXHIM_PUT_ALL, HXHIM_PUT_POS | HXHIM_PUT_OSP, HXHIM_PUT_NONE};
    for (int i = 0; i < n; i++) {
        QOp o; o.kind = KIND[kind]; const Key &k = KEYS[mc::choose(5)]; o.s = k.first; o.p = k.second;
        int alt = mc::choose(kind == 2 ? 8 : kind == 0 ? 4 : kind == 4 ? 3 : 1);
        if (kind == 0) { o.perm = PM[alt]; o.o = style == FSINGLE || style == FBULK ? F(0.5f + i) : style == DSINGLE || style == DBULK ? D(-1.25 * i - 3) : style == BULK_ONE_TYPE ? U32(40 + i) : i == 1 ? B("object") : I64(-i); }
        if (kind == 1 || kind == 2) o.o.t = style == FSINGLE || style == FBULK ? HXHIM_DATA_FLOAT : style == DSINGLE || style == DBULK ? HXHIM_DATA_DOUBLE : style == BULK_ONE_TYPE ? HXHIM_DATA_INT64 : i == 1 ? HXHIM_DATA_DOUBLE : HXHIM_DATA_BYTE;
        if (kind == 2) { if (alt == 7) { o.p = None(); alt = HXHIM_GETOP_LOWEST; } o.op = (hxhim_getop_t) alt; o.n = 1 + i; }
        if (kind == 4) { o.name = alt == 0 ? "b" : alt == 1 ? "nope" : ""; }
        q.push_back(o);
    }
    return q;
}
static Opt opts(int backend) { Opt o; o.backend = backend; o.dir = mc::fresh_dir(backend == MEM ? "m" : "d"); o.track = {"b"}; return o; }
static void valid(int backend, int maxn) {
    int kind = mc::choose(5), style = mc::choose(NSTYLES), lang = mc::choose(2), n = mc::choose(maxn + 1); bool all = mc::choose(2);
    if (!exists(kind, style)) mc::prune();
    auto q = items(kind, style, n);
    for (auto &o : q) mc::note("%s", show(o).c_str());
    mc::note("%s %s variant, %s interface, %s", KINDS[kind], STYLE[style], lang ? "C" : "C++", all ? "Flush" : "Flush of the kind");
    fmpi::reset(1, true);
    Opt o = opts(backend);
    Session a; a.start(o); prefill(a); Args R(q);
    MC_CHECK(call(&a.h, kind, SINGLE, 0, R) == HXHIM_SUCCESS, "reference-refused", "a single C++ call was refused");
    Recs want = flush(a, kind, 0, false);
    Recs cw = contents(a); a.close();
    if (backend != MEM) o.dir = mc::fresh_dir("d");
    Session b; b.start(o); prefill(b);
    Args A(q); std::vector<std::string> before(A.keep);
    int rc = call(&b.h, kind, style, lang, A);
    MC_CHECK(n == 0 || rc == HXHIM_SUCCESS, std::string("refused-") + KINDS[kind], "%s %s refused (%d)", KINDS[kind], STYLE[style], rc);
    Recs got = flush(b, kind, lang, all);
    for (auto &r : want) if (!r.generated && kind == 4) { r.has_h = false; r.name.clear(); r.cached.clear(); }   // the C interface shows a histogram only once it has buckets
    for (auto &r : got) if (!r.generated && kind == 4) { r.has_h = false; r.name.clear(); r.cached.clear(); }
    MC_CHECK(got == want, std::string("different-results-") + KINDS[kind], "%s %s (%s) gave %s; single C++ calls gave %s", KINDS[kind], STYLE[style], lang ? "C" : "C++", show(got).c_str(), show(want).c_str());
    MC_CHECK(A.keep == before, "argument-changed", "an argument buffer was modified");
    Recs cb = contents(b);
    MC_CHECK(cb == cw, std::string("different-contents-") + KINDS[kind], "%s %s left %s; single C++ calls left %s", KINDS[kind], STYLE[style], show(cb).c_str(), show(cw).c_str());
    MC_CHECK(read(hxhim::Flush(&b.h)).empty(), "left-queued", "something was still queued after the flush");
    mc::state(show(cb)); mc::outcome(show(got) + STYLE[style] + (lang ? "C" : "")); mc::transition();
    b.close();
}
// invalid arguments: where = which session, array or item part is invalid
static void invalid() {
    int kind = mc::choose(5), style = mc::choose(NSTYLES), lang = mc::choose(2), n = 1 + mc::choose(3), what = mc::choose(3);
    if (!exists(kind, style)) mc::prune();
    std::vector<QOp> q; for (int i = 0; i < n; i++) { QOp o; o.kind = KIND[kind]; o.s = KEYS[i].first; o.p = KEYS[i].second; o.o = style == FSINGLE || style == FBULK ? F(1) : D(2); o.name = "b"; q.push_back(o); }
    Args A(q); fmpi::reset(1, true); std::string desc;
    Opt o = opts(MEM); Session x; int sess = 0; bool must_refuse = true;
    if (what == 0) { sess = mc::choose(4); desc = sess == 0 ? "null session" : sess == 1 ? "session not initialised" : sess == 2 ? "session not open" : "session closed"; }
    else if (what == 1) {
        if (!bulk(style)) mc::prune();
        auto arr = arrays(kind, style); int w = mc::choose(arr.size()); A.null = 1u << arr[w]; desc = "null array " + std::to_string(arr[w]);
    } else {
        int item = mc::choose(n); int part = mc::choose(kind == 4 ? 5 : kind == 0 ? 6 : kind == 2 ? 4 : 4);
        if (kind == 4) {
            if (part == 0) A.ds[item] = -1; else if (part == 1) A.ds[item] = 1; else if (part == 2) A.ds[item] = INT32_MAX; else if (part == 3) A.name[item] = nullptr; else A.ds[item] = INT32_MIN;
        } else {
            if (part == 0) A.s[item] = nullptr; else if (part == 1) A.sl[item] = 0;
            else if (kind == 2) { if (part == 2) A.op[item] = HXHIM_GETOP_INVALID; else A.op[item] = (hxhim_getop_t) 99; must_refuse = false; }   // refusing or one error result
            else if (part == 2) A.p[item] = nullptr; else if (part == 3) A.pl[item] = 0;
            else if (part == 4) A.o[item] = nullptr; else { if (style != SINGLE && style != BULK && style != BULK_ONE_TYPE) mc::prune(); A.ol[item] = 0; }
        }
        desc = "item " + std::to_string(item) + " part " + std::to_string(part);
        if (!bulk(style) && n > 1) mc::prune();
    }
    mc::note("%s %s (%s) x%d with %s", KINDS[kind], STYLE[style], lang ? "C" : "C++", n, desc.c_str());
    hxhim_t *h = &x.h; hxhim_t none; none.p = nullptr;
    if (what == 0) {
        if (sess == 0) h = nullptr; else if (sess == 1) h = &none; else if (sess == 2) x.init(o); else { x.start(o); x.close(); }
        MC_CHECK(call(h, kind, style, lang, A) == HXHIM_ERROR, std::string("accepted-") + KINDS[kind], "%s %s accepted with %s", KINDS[kind], STYLE[style], desc.c_str());
        if (sess == 2) x.close();
        mc::outcome(desc + KINDS[kind] + STYLE[style]); return;
    }
    x.start(o); prefill(x); Recs cw = contents(x);
    int rc = call(h, kind, style, lang, A);
    if (must_refuse) MC_CHECK(rc == HXHIM_ERROR, std::string("accepted-") + KINDS[kind], "%s %s accepted with %s (returned %d)", KINDS[kind], STYLE[style], desc.c_str(), rc);
    Recs r = flush(x, kind, lang, true);
    if (must_refuse) MC_CHECK(r.empty(), std::string("queued-invalid-") + KINDS[kind], "%s %s with %s left operations queued: %s", KINDS[kind], STYLE[style], desc.c_str(), show(r).c_str());
    else if (rc == HXHIM_SUCCESS) { int bad = 0; for (auto &e : r) bad += !e.ok(); MC_CHECK(r.size() == (size_t) n && bad == 1, "invalid-operator", "invalid operator gave %s", show(r).c_str()); }
    Recs cb = contents(x); MC_CHECK(cb == cw, std::string("changed-by-invalid-") + KINDS[kind], "contents changed by a refused call: %s", show(cb).c_str());
    mc::state(desc + KINDS[kind] + STYLE[style]); mc::outcome(desc + KINDS[kind] + STYLE[style] + std::to_string(lang)); mc::transition();
    x.close();
}
int main(int argc, char **argv) {
    clean_env(); mc::E().property = "C05";
    mc::E().assumptions = {"a call with no item may report an error", "results of the single typed C++ calls are the reference (decided in C01-C04)"};
    mc::space("valid", "5 kinds x 7 styles x C/C++ x Flush/FlushX x all lists of 0..2 items", [] { valid(MEM, 2); });
    mc::space("valid-3", "as valid, up to 3 items", [] { valid(MEM, 3); }).only_tier = 2;
    mc::space("valid-LEVELDB", "as valid, lists of 0..1 items on LevelDB", [] { valid(LDB, 1); });
    mc::space("invalid", "5 kinds x 7 styles x C/C++ x 1..3 items x every null array, null or empty item part, bad id/operator, and 4 unusable sessions", [] { invalid(); });
    return mc::run(argc, argv);
}
