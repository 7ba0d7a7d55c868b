// flavour: asan
// C18: the results container is a faithful ordered list.
#include "mc.hpp"
#include "hx.hpp"
#include "datastore/constants.hpp"
#include "hxhim/private/Results.hpp"
#include "message/Messages.hpp"
#include <memory>
typedef hxhim::Results RS;
namespace HR = hxhim::Result;
namespace R = Message::Response;

static hxhim_t g_hx;
// one expected entry of a list
struct Ent { hxhim_op_t op; int ds, status; std::string s, p, o; hxhim_data_t st, pt, ot; std::shared_ptr<::Histogram::Histogram> h; bool sp() const { return op == HXHIM_PUT || op == HXHIM_GET || op == HXHIM_GETOP || op == HXHIM_DELETE; } bool obj() const { return (op == HXHIM_GET || op == HXHIM_GETOP) && status == HXHIM_SUCCESS; } bool hist() const { return op == HXHIM_HISTOGRAM && status == HXHIM_SUCCESS; } };
static int g_serial;
static Blob owned(const std::string &s, hxhim_data_t t) { return s.empty() ? ReferenceBlob(nullptr, 0, t) : RealBlob(s.size(), (const void *) s.data(), t); }
static const int NKINDS = 12;
// a new result of a kind, with contents that occur nowhere else; expected entries are appended to out
static HR::Result *make(int kind, std::vector<Ent> &out) {
    int n = g_serial++; std::string id = std::to_string(n); Ent e; e.ds = n % 5; e.status = HXHIM_SUCCESS; e.s = "s" + id; e.p = std::string("p\0", 2) + id; e.o = "o" + id; e.st = HXHIM_DATA_BYTE; e.pt = HXHIM_DATA_DOUBLE; e.ot = HXHIM_DATA_INT32;
    auto sp = [&](HR::SubjectPredicate *r) { r->subject = owned(e.s, e.st); r->predicate = owned(e.p, e.pt); };
    switch (kind) {
        case 0: { e.op = HXHIM_PUT; auto *r = construct<HR::Put>(&g_hx, e.ds, DATASTORE_SUCCESS); sp(r); out.push_back(e); return r; }
        case 1: { e.op = HXHIM_GET; auto *r = construct<HR::Get>(&g_hx, e.ds, DATASTORE_SUCCESS); sp(r); r->object = owned(e.o, e.ot); out.push_back(e); return r; }
        case 2: { e.op = HXHIM_GET; e.status = HXHIM_ERROR; auto *r = construct<HR::Get>(&g_hx, e.ds, DATASTORE_ERROR); sp(r); out.push_back(e); return r; }
        case 3: { HR::GetOp *top = nullptr, *last = nullptr; e.op = HXHIM_GETOP; for (int i = 0; i < 3; i++) { e.s = "s" + id + "." + std::to_string(i); e.o = i == 1 ? "" : "o" + std::to_string(i) + id; auto *r = construct<HR::GetOp>(&g_hx, e.ds, DATASTORE_SUCCESS); sp(r); r->object = owned(e.o, e.ot); r->next = nullptr; if (last) last->next = r; else top = r; last = r; out.push_back(e); } return top; }
        case 4: { e.op = HXHIM_GETOP; e.status = HXHIM_ERROR; auto *r = construct<HR::GetOp>(&g_hx, e.ds, DATASTORE_UNSET); sp(r); out.push_back(e); return r; }
        case 5: { e.op = HXHIM_DELETE; auto *r = construct<HR::Delete>(&g_hx, e.ds, DATASTORE_SUCCESS); sp(r); out.push_back(e); return r; }
        case 6: { e.op = HXHIM_SYNC; out.push_back(e); return construct<HR::Sync>(&g_hx, e.ds, DATASTORE_SUCCESS); }
        case 7: { e.op = HXHIM_SYNC; e.status = HXHIM_ERROR; out.push_back(e); return construct<HR::Sync>(&g_hx, e.ds, DATASTORE_ERROR); }
        case 8: case 9: { e.op = HXHIM_HISTOGRAM; auto *r = construct<HR::Hist>(&g_hx, e.ds, DATASTORE_SUCCESS); ::Histogram::Config c{2, histogram_n_buckets, (void *) 2}; r->histogram.reset(new ::Histogram::Histogram(c, "h" + id)); for (int i = 0; i < (kind == 8 ? 3 : 1); i++) r->histogram->add(i + n); e.h = r->histogram; out.push_back(e); return r; }
        case 10: { e.op = HXHIM_HISTOGRAM; e.status = HXHIM_ERROR; out.push_back(e); return construct<HR::Hist>(&g_hx, e.ds, DATASTORE_ERROR); }
        case 11: { e.op = HXHIM_PUT; e.status = HXHIM_ERROR; e.s = ""; auto *r = construct<HR::Put>(&g_hx, e.ds, DATASTORE_ERROR); sp(r); out.push_back(e); return r; }
        default: return nullptr;
    }
}
// every accessor of the current position, C++ and C, with and without somewhere to put the answers
static const char *const NONE_P = "sentinel";
static void read_at(RS *r, hxhim_results_t *c, const Ent *e, const char *where) {
    for (int api = 0; api < 2; api++) {
        const char *A = api ? "C" : "C++"; const int bad = HXHIM_ERROR, good = HXHIM_SUCCESS;
        hxhim_op_t op = (hxhim_op_t) 77; int st = 77, ds = 77; void *p = (void *) NONE_P; std::size_t n = 77; hxhim_data_t t = (hxhim_data_t) 77;
        auto untouched = [&](const char *what) { MC_CHECK(p == NONE_P && n == 77 && t == (hxhim_data_t) 77, "outputs-changed", "%s: failing %s %s changed its outputs", where, A, what); };
        auto reset = [&] { p = (void *) NONE_P; n = 77; t = (hxhim_data_t) 77; };
        int rc = api ? hxhim_result_op(c, &op) : r->Op(&op); MC_CHECK(rc == (e ? good : bad), "accessor-status", "%s: %s Op returns %d", where, A, rc); MC_CHECK(op == (e ? e->op : (hxhim_op_t) 77), "op", "%s: %s Op gives %d", where, A, op);
        rc = api ? hxhim_result_status(c, &st) : r->Status(&st); MC_CHECK(rc == (e ? good : bad) && st == (e ? e->status : 77), "status", "%s: %s Status returns %d and %d", where, A, rc, st);
        rc = api ? hxhim_result_range_server(c, &ds) : r->RangeServer(&ds); MC_CHECK(rc == (e ? good : bad) && ds == (e ? e->ds : 77), "range-server", "%s: %s RangeServer returns %d and %d", where, A, rc, ds);
        rc = api ? hxhim_result_subject(c, &p, &n, &t) : r->Subject(&p, &n, &t);
        if (e && e->sp()) MC_CHECK(rc == good && n == e->s.size() && t == e->st && (!n || !memcmp(p, e->s.data(), n)), "subject", "%s: %s Subject is wrong", where, A); else { MC_CHECK(rc == bad, "accessor-status", "%s: %s Subject returns %d", where, A, rc); untouched("Subject"); } reset();
        rc = api ? hxhim_result_predicate(c, &p, &n, &t) : r->Predicate(&p, &n, &t);
        if (e && e->sp()) MC_CHECK(rc == good && n == e->p.size() && t == e->pt && (!n || !memcmp(p, e->p.data(), n)), "predicate", "%s: %s Predicate is wrong", where, A); else { MC_CHECK(rc == bad, "accessor-status", "%s: %s Predicate returns %d", where, A, rc); untouched("Predicate"); } reset();
        rc = api ? hxhim_result_object(c, &p, &n, &t) : r->Object(&p, &n, &t);
        if (e && e->obj()) MC_CHECK(rc == good && n == e->o.size() && t == e->ot && (!n || !memcmp(p, e->o.data(), n)), "object", "%s: %s Object is wrong", where, A); else { MC_CHECK(rc == bad, "accessor-status", "%s: %s Object returns %d", where, A, rc); untouched("Object"); } reset();
        const char *name = NONE_P; std::size_t nl = 77, sz = 77; double *b = (double *) NONE_P; std::size_t *k = (std::size_t *) NONE_P;
        rc = api ? hxhim_result_histogram(c, &name, &nl, &b, &k, &sz) : r->Histogram(&name, &nl, &b, &k, &sz);
        double *eb = nullptr; std::size_t *ek = nullptr, es = 0; bool ready = e && e->hist() && e->h->get(&eb, &ek, &es) == HISTOGRAM_SUCCESS;
        MC_CHECK(rc == (ready ? good : bad), "accessor-status", "%s: %s Histogram returns %d", where, A, rc);
        if (ready) { std::string en; e->h->get_name(en); MC_CHECK(std::string(name, nl) == en && b == eb && k == ek && sz == es, "histogram", "%s: %s Histogram is wrong", where, A); }
        else MC_CHECK(b == (double *) NONE_P && k == (std::size_t *) NONE_P && sz == 77 && ((e && e->hist()) || (name == NONE_P && nl == 77)), "outputs-changed", "%s: failing %s Histogram changed its outputs", where, A);
        if (!api) { ::Histogram::Histogram *h = (::Histogram::Histogram *) NONE_P; rc = r->Histogram(&h); MC_CHECK(rc == (e && e->hist() ? good : bad) && h == (e && e->hist() ? e->h.get() : (::Histogram::Histogram *) NONE_P), "histogram", "%s: Histogram object is wrong", where);
            struct HR::Timestamps *ts = (struct HR::Timestamps *) NONE_P; rc = r->Timestamps(&ts); MC_CHECK(rc == (e ? good : bad) && (ts != (struct HR::Timestamps *) NONE_P) == !!e, "timestamps", "%s: Timestamps returns %d", where, rc); MC_CHECK(r->Timestamps(nullptr) == (e ? good : bad), "null-output", "%s", where); MC_CHECK(r->Histogram((::Histogram::Histogram **) nullptr) == (e && e->hist() ? good : bad), "null-output", "%s", where); }
        // nothing wanted
        int w[6] = {api ? hxhim_result_op(c, nullptr) : r->Op(nullptr), api ? hxhim_result_status(c, nullptr) : r->Status(nullptr), api ? hxhim_result_range_server(c, nullptr) : r->RangeServer(nullptr), api ? hxhim_result_subject(c, nullptr, nullptr, nullptr) : r->Subject(nullptr, nullptr, nullptr), api ? hxhim_result_predicate(c, nullptr, nullptr, nullptr) : r->Predicate(nullptr, nullptr, nullptr), api ? hxhim_result_object(c, nullptr, nullptr, nullptr) : r->Object(nullptr, nullptr, nullptr)};
        bool want[6] = {!!e, !!e, !!e, e && e->sp(), e && e->sp(), e && e->obj()}; for (int i = 0; i < 6; i++) MC_CHECK(w[i] == (want[i] ? good : bad), "null-output", "%s: %s accessor %d without outputs returns %d", where, A, i, w[i]);
        MC_CHECK((api ? hxhim_result_histogram(c, nullptr, nullptr, nullptr, nullptr, nullptr) : r->Histogram(nullptr, nullptr, nullptr, nullptr, nullptr)) == (ready ? good : bad), "null-output", "%s", where);
        MC_CHECK((api ? hxhim_results_valid_iterator(c) == HXHIM_SUCCESS : r->ValidIterator()) == !!e, "valid-iterator", "%s: %s validity", where, A);
    }
}
struct List {
    RS *r; hxhim_results_t *c; std::vector<Ent> m; long pos = -1; bool placed = true;   // pos == -1: before the first GoToHead, no current result
    List() { r = construct<RS>(); c = hxhim_results_init(&g_hx, r); }
    ~List() { hxhim_results_destroy(c); }
    const Ent *cur() { return pos >= 0 && (std::size_t) pos < m.size() ? &m[pos] : nullptr; }
    void head(int api) { if (api) { int rc = hxhim_results_goto_head(c); MC_CHECK((rc == HXHIM_SUCCESS) == !m.empty(), "goto-head", "goto_head on %zu results returns %d", m.size(), rc); } else r->GoToHead(); pos = 0; placed = true; }
    void next(int api) { if ((std::size_t) pos < m.size()) pos++; if (api) { int rc = hxhim_results_goto_next(c); MC_CHECK((rc == HXHIM_SUCCESS) == !!cur(), "goto-next", "goto_next to %ld of %zu returns %d", pos, m.size(), rc); } else r->GoToNext(); }
    void check(const char *when) {
        std::size_t n = 77; MC_CHECK(r->Size() == m.size() && hxhim_results_size(c, &n) == HXHIM_SUCCESS && n == m.size() && hxhim_results_size(c, nullptr) == HXHIM_SUCCESS, "size", "%s: %zu results, expected %zu", when, r->Size(), m.size());
        MC_CHECK(hxhim_results_valid(c) == HXHIM_SUCCESS, "valid", "%s: not valid", when); if (placed) read_at(r, c, cur(), when);
    }
    // a complete walk
    void walk(int api, const char *when) { head(api); for (std::size_t i = 0; i <= m.size(); i++) { read_at(r, c, cur(), when); if (i < m.size()) next(api); } next(api); read_at(r, c, nullptr, when); }
};
static void fresh() { g_serial = 0; }
static void sequences(int lists, const std::vector<int> &kinds, int depth) {
    fresh(); std::vector<std::unique_ptr<List>> L; for (int i = 0; i < lists; i++) L.emplace_back(new List);
    int nk = kinds.size(), arity = lists * nk + lists * lists + lists + lists; for (auto &l : L) l->check("new");
    for (int i = 0; i < depth; i++) {
        int c = mc::choose(arity); mc::transition();
        if (c < lists * nk) { List &l = *L[c / nk]; int k = kinds[c % nk]; mc::note("add kind %d to list %d", k, c / nk); std::vector<Ent> e; HR::Result *res = make(k, e); l.r->Add(res); for (auto &x : e) l.m.push_back(x); if (res) l.placed = false; }
        else if ((c -= lists * nk) < lists * lists) { int a = c / lists, b = c % lists; if (a == b) { mc::note("append nothing to list %d", a); L[a]->r->Append(nullptr); } else { mc::note("append list %d to list %d", b, a); L[a]->r->Append(L[b]->r); for (auto &x : L[b]->m) L[a]->m.push_back(x); L[b]->m.clear(); L[a]->placed = L[b]->placed = false; } }
        else if ((c -= lists * lists) < lists) { mc::note("head of list %d", c); L[c]->head(i & 1); }
        else { c -= lists; if (!L[c]->placed || L[c]->pos < 0) mc::prune(); mc::note("next of list %d", c); L[c]->next(i & 1); }
        for (auto &l : L) l->check("after the step");
    }
    std::string s; for (auto &l : L) { s += std::to_string(l->m.size()) + "@" + std::to_string(l->placed ? l->pos : -2) + ":"; for (auto &e : l->m) s += std::to_string(e.op) + std::to_string(e.status) + ","; } mc::state(s);
    for (std::size_t i = 0; i < L.size(); i++) L[i]->walk(i & 1, "walk");
}
static void lengths() {
    static const int N[] = {0, 1, 2, 63, 64, 65, 127, 128, 129, 200}; fresh(); int a = N[mc::choose(10)], b = N[mc::choose(10)], c = N[mc::choose(10)], api = mc::choose(2), kind = mc::choose(3); static const int K[3] = {1, 3, 8}; mc::note("%d + %d + %d of kind %d", a, b, c, K[kind]);
    List x, y; auto fill = [&](List &l, int n) { for (int i = 0; i < n; i++) { l.r->Add(make(K[kind], l.m)); mc::transition(); } };
    fill(x, a); fill(y, b); x.walk(api, "before"); x.r->Append(y.r); for (auto &e : y.m) x.m.push_back(e); y.m.clear(); y.walk(api, "emptied"); fill(x, c); x.walk(api, "appended"); fill(y, c % 5); y.walk(!api, "reused"); y.r->Append(x.r); for (auto &e : x.m) y.m.push_back(e); x.m.clear(); y.walk(api, "back"); x.walk(!api, "emptied"); mc::state(std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c));
}
// lists built from response messages, as a flush builds them
static void responses() {
    fresh(); List l; R::Response *first = nullptr, **link = &first; std::vector<Ent> e; int nres = 1 + mc::choose(2);
    for (int q = 0; q < nres; q++) {
        int kind = mc::choose(5), n = mc::choose(4); std::vector<int> ok(n), recs(n, 1); for (int &x : ok) x = mc::choose(2); if (kind == 2) for (int i = 0; i < n; i++) recs[i] = ok[i] ? 1 + mc::choose(3) : 1; mc::note("response kind %d, %d items", kind, n);
        static const hxhim_op_t OPS[] = {HXHIM_PUT, HXHIM_GET, HXHIM_GETOP, HXHIM_DELETE, HXHIM_HISTOGRAM}; R::Response *res = nullptr;
        auto ent = [&](int i, int j) { Ent x; x.op = OPS[kind]; x.ds = q + 3; x.status = ok[i] ? HXHIM_SUCCESS : HXHIM_ERROR; std::string id = std::to_string(q) + std::to_string(i) + std::to_string(j); x.s = "subj" + id; x.p = "pred" + id; x.o = "obj" + id; x.st = HXHIM_DATA_POINTER; x.pt = HXHIM_DATA_BYTE; x.ot = HXHIM_DATA_FLOAT; return x; };
        auto stat = [&](int i) { return ok[i] ? DATASTORE_SUCCESS : DATASTORE_ERROR; };
        if (kind == 0) { auto *r = construct<R::BPut>(n); for (int i = 0; i < n; i++) { Ent x = ent(i, 0); e.push_back(x); r->add(owned(x.s, x.st), owned(x.p, x.pt), stat(i)); r->orig.subjects[i] = owned(x.s, x.st); r->orig.predicates[i] = owned(x.p, x.pt); } res = r; }
        if (kind == 1) { auto *r = construct<R::BGet>(n); for (int i = 0; i < n; i++) { Ent x = ent(i, 0); e.push_back(x); r->add(owned(x.s, x.st), owned(x.p, x.pt), owned(x.o, x.ot), stat(i)); r->orig.subjects[i] = owned(x.s, x.st); r->orig.predicates[i] = owned(x.p, x.pt); } res = r; }
        if (kind == 2) { auto *r = construct<R::BGetOp>(n); for (int i = 0; i < n; i++) { Blob *s = alloc_array<Blob>(recs[i]), *p = alloc_array<Blob>(recs[i]), *o = alloc_array<Blob>(recs[i]); for (int j = 0; j < recs[i]; j++) { Ent x = ent(i, j); e.push_back(x); s[j] = owned(x.s, x.st); p[j] = owned(x.p, x.pt); if (ok[i]) o[j] = owned(x.o, x.ot); } r->add(s, p, o, recs[i], stat(i)); } res = r; }
        if (kind == 3) { auto *r = construct<R::BDelete>(n); for (int i = 0; i < n; i++) { Ent x = ent(i, 0); e.push_back(x); r->add(owned(x.s, x.st), owned(x.p, x.pt), stat(i)); r->orig.subjects[i] = owned(x.s, x.st); r->orig.predicates[i] = owned(x.p, x.pt); } res = r; }
        if (kind == 4) { auto *r = construct<R::BHistogram>(n); for (int i = 0; i < n; i++) { Ent x = ent(i, 0); ::Histogram::Config c{1, histogram_n_buckets, (void *) 2}; std::shared_ptr<::Histogram::Histogram> h(new ::Histogram::Histogram(c, x.s)); h->add(i); if (ok[i]) x.h = h; e.push_back(x); r->add(h, stat(i)); } res = r; }
        res->src = q + 3; res->next = nullptr; *link = res; link = &res->next; mc::transition();
    }
    HR::AddAll(&g_hx, l.r, first); l.m = e; l.walk(0, "from responses"); List k; k.r->Append(l.r); k.m = l.m; l.m.clear(); k.walk(1, "appended"); mc::state(std::to_string(e.size()));
}
// nothing where a list should be, and C lists that outlive their session
static void nulls() {
    int how = mc::choose(4); mc::transition(); mc::note("case %d", how);
    if (how < 2) {
        hxhim_results_t *c = how ? hxhim_results_init(&g_hx, nullptr) : nullptr; std::size_t n = 77; int i = 77; hxhim_op_t op; void *p = nullptr; hxhim_data_t t;
        MC_CHECK(hxhim_results_valid(c) == HXHIM_ERROR && hxhim_results_valid_iterator(c) == HXHIM_ERROR && hxhim_results_goto_head(c) == HXHIM_ERROR && hxhim_results_goto_next(c) == HXHIM_ERROR && hxhim_results_size(c, &n) == HXHIM_ERROR && n == 77, "null-list", "a missing list is usable");
        MC_CHECK(hxhim_result_op(c, &op) == HXHIM_ERROR && hxhim_result_status(c, &i) == HXHIM_ERROR && i == 77 && hxhim_result_range_server(c, &i) == HXHIM_ERROR && hxhim_result_subject(c, &p, &n, &t) == HXHIM_ERROR && hxhim_result_predicate(c, &p, &n, &t) == HXHIM_ERROR && hxhim_result_object(c, &p, &n, &t) == HXHIM_ERROR && hxhim_result_histogram(c, nullptr, nullptr, nullptr, nullptr, nullptr) == HXHIM_ERROR && n == 77, "null-list", "a missing list has results");
        hxhim_results_destroy(c); RS::Destroy(nullptr);
    } else {
        hx::Session s; hx::Opt o; s.start(o); s.put(hx::B("a"), hx::B("b"), hx::B("c")); hxhim_results_t *c = hxhim_results_init(&s.h, hxhim::FlushPuts(&s.h)); RS *r = nullptr; s.put(hx::B("a"), hx::B("b"), hx::B("c")); r = hxhim::FlushPuts(&s.h);
        if (how == 3) { hxhim_results_destroy(c); RS::Destroy(r); s.close(); return; }
        s.close(); r->GoToHead(); MC_CHECK(hxhim_results_goto_head(c) == HXHIM_SUCCESS, "after-close", "the list is gone after Close"); int st = 0; MC_CHECK(hxhim_result_status(c, &st) == HXHIM_SUCCESS && st == HXHIM_SUCCESS && r->Size() == 1, "after-close", "status %d", st); RS::Destroy(r); hxhim_results_destroy(c);
    }
}
int main(int argc, char **argv) {
    hx::clean_env(); fmpi::reset(1, true); hxhim::Init(&g_hx, MPI_COMM_WORLD); hxhim_set_debug_level(&g_hx, MLOG_CRIT);
    mc::E().property = "C18";
    mc::E().assumptions = {"after add or append the position of the lists involved is undefined until the next go-to-head (documented)", "a list is not appended to itself", "a histogram whose buckets do not exist yet may still report its name"};
    mc::space("kinds", "all sequences of 3 of add (11 kinds of result, nothing) / append / head / next on two lists, every accessor of both interfaces after every step", [] { std::vector<int> k; for (int i = 0; i <= NKINDS; i++) k.push_back(i); sequences(2, k, 3); });
    mc::space("lists", "all sequences of 4 of add (GET, GETOP with 3 records) / append / head / next on three lists", [] { sequences(3, {1, 3}, 4); }).only_tier = 1;
    mc::space("lengths", "three lengths from 0,1,2,63,64,65,127,128,129,200 x result kind: add, append, walk, reuse", [] { lengths(); });
    mc::space("responses", "1..2 response messages of every kind with 0..3 items and every status mix", [] { responses(); });
    mc::space("nulls", "missing lists, lists destroyed after the session is closed", [] { nulls(); }).serial = true;
    { mc::Space &s = mc::space("lists-deep", "all sequences of 5 on three lists", [] { sequences(3, {1, 3}, 5); }); s.only_tier = 2; s.budget_s = 1500; }
    { mc::Space &s = mc::space("kinds-deep", "all sequences of 4, all kinds", [] { std::vector<int> k; for (int i = 0; i <= NKINDS; i++) k.push_back(i); sequences(2, k, 4); }); s.only_tier = 2; s.budget_s = 900; }
    return mc::run(argc, argv);
}
