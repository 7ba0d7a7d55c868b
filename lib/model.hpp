// Reference model of one or several datastores and of the results of queued operations.
#pragma once
#include "hx.hpp"
#include "refkey.hpp"
#include "hxhim/hash.h"
#include <map>
namespace hx {
enum Kind { KPUT = HXHIM_PUT, KGET = HXHIM_GET, KGETOP = HXHIM_GETOP, KDEL = HXHIM_DELETE, KHIST = HXHIM_HISTOGRAM };
struct QOp {
    int kind = KPUT; V s, p, o; hxhim_put_permutation_t perm = HXHIM_PUT_SPO;
    hxhim_getop_t op = HXHIM_GETOP_EQ; std::size_t n = 1; int hds = 0; std::string name;
};
inline std::string show(const QOp &q) {
    switch (q.kind) {
        case KPUT: return "PUT " + show(Key(q.s, q.p)) + "=" + show(q.o) + (q.perm == HXHIM_PUT_SPO ? "" : " perms " + std::to_string((int) q.perm));
        case KGET: return "GET " + show(Key(q.s, q.p));
        case KDEL: return "DELETE " + show(Key(q.s, q.p));
        case KGETOP: return std::string("GETOP ") + opname(q.op) + " " + show(Key(q.s, q.p)) + " x" + std::to_string(q.n);
        default: return "HISTOGRAM ds" + std::to_string(q.hds) + " " + show(q.name);
    }
}
static const int PERMS[6][4] = {{HXHIM_PUT_SPO, 0, 1, 2}, {HXHIM_PUT_SOP, 0, 2, 1}, {HXHIM_PUT_PSO, 1, 0, 2}, {HXHIM_PUT_POS, 1, 2, 0}, {HXHIM_PUT_OSP, 2, 0, 1}, {HXHIM_PUT_OPS, 2, 1, 0}};
// the orderings one PUT asks for
inline std::vector<QOp> permuted(const QOp &q) {
    std::vector<QOp> r; const V *part[3] = {&q.s, &q.p, &q.o};
    for (auto &m : PERMS) if (q.perm & m[0]) { QOp x = q; x.s = *part[m[1]]; x.p = *part[m[2]]; x.o = *part[m[3]]; x.perm = HXHIM_PUT_SPO; r.push_back(x); }
    return r;
}
inline int enqueue(Session &x, const QOp &q) {
    switch (q.kind) {
        case KPUT: return x.put(q.s, q.p, q.o, q.perm);
        case KGET: return x.get(q.s, q.p, HXHIM_DATA_BYTE);
        case KDEL: return x.del(q.s, q.p);
        case KGETOP: return x.getop(q.s, q.p, HXHIM_DATA_BYTE, q.n, q.op);
        default: return x.hist(q.hds, q.name);
    }
}
struct Model {
    Opt o;
    std::map<int, std::map<Key, V>> ds;                                  // contents of each datastore
    std::map<int, std::map<std::string, std::vector<double>>> hist;      // tracked values of each datastore, in order
    std::function<int(const V &, const V &)> route = [](const V &, const V &) { return 0; };
    void use(Session &x) { o = x.o; hxhim_t *h = &x.h; route = [h](const V &s, const V &p) { return hxhim_hash(h, s.ptr(), s.len(), p.ptr(), p.len()); }; }
    int ds_of(const QOp &q) const { return q.kind == KHIST ? q.hds : route(q.s, q.p); }
    std::vector<Row> rows(int d) const { std::vector<Row> r; auto it = ds.find(d); if (it != ds.end()) for (auto &e : it->second) { Row w; w.k = e.first; w.o = e.second; w.key = dbkey(e.first, o); r.push_back(w); } std::sort(r.begin(), r.end()); return r; }
    bool tracked(const V &p) const { return p.t == HXHIM_DATA_BYTE && std::find(o.track.begin(), o.track.end(), p.b) != o.track.end(); }
    // what one (already permuted) operation answers: every acceptable list of results
    std::vector<Recs> step(const QOp &q) {
        int d = ds_of(q); Rec r; r.op = q.kind; r.status = HXHIM_SUCCESS; r.ds = d; r.s = q.s; r.p = q.p; r.has_s = r.has_p = true;
        auto &m = ds[d]; Key k(q.s, q.p); Rec bad = r; bad.status = HXHIM_ERROR;
        switch (q.kind) {
            case KPUT:
                m[k] = q.o;
                if (tracked(q.p) && (q.o.t == HXHIM_DATA_FLOAT || q.o.t == HXHIM_DATA_DOUBLE)) hist[d][q.p.b].push_back(q.o.t == HXHIM_DATA_FLOAT ? (double) as<float>(q.o.b) : as<double>(q.o.b));
                return {{r}};
            case KGET: if (m.count(k)) { r.o = m[k]; r.has_o = true; return {{r}}; } return {{bad}};
            case KDEL: if (m.count(k)) { m.erase(k); return {{r}}; } return {{r}, {bad}};
            case KGETOP: {
                std::vector<Recs> all; Query Q; Q.s = q.s; Q.p = q.p; Q.op = q.op; Q.n = q.n;
                for (auto &w : getop_ref(rows(d), Q, o)) {
                    Recs v; for (auto &row : w) { Rec e = r; e.s = row.k.first; e.p = row.k.second; e.o = row.o; e.has_o = true; v.push_back(e); }
                    if (v.empty()) v.push_back(bad);
                    all.push_back(v);
                }
                if (!q.n) all.push_back({});
                return all;
            }
            default: r.s = r.p = V(); r.has_s = r.has_p = false; r.name = q.name; r.has_h = true;
                if (std::find(o.track.begin(), o.track.end(), q.name) != o.track.end()) return {{r}};
                r.status = HXHIM_ERROR; r.has_h = false; return {{r}};
        }
    }
};
// same kind, status, datastore, and whatever an answer carries (the contents of histograms are decided in C12/C13)
inline bool same(const Rec &got, const Rec &want) {
    if (got.op != want.op || got.ds != want.ds || got.ok() != want.ok() || (got.status != HXHIM_SUCCESS && got.status != HXHIM_ERROR)) return false;
    if (want.op == KHIST) return !want.ok() || (got.has_h && got.name == want.name);
    return got.has_s && got.has_p && got.s == want.s && got.p == want.p && got.has_o == want.has_o && (!want.has_o || got.o == want.o);
}
// executes the queued operations of one kind in the model and compares with the results of one flush (from index 'at'):
// on each datastore the operations answer in queue order
inline void check_flush(Model &m, const std::vector<QOp> &queued, const Recs &got, size_t &at, const char *what) {
    if (queued.empty()) return;
    int kind = queued[0].kind;
    size_t end = at; while (end < got.size() && got[end].op == kind) end++;
    std::map<int, Recs> part; for (size_t i = at; i < end; i++) part[got[i].ds].push_back(got[i]);
    std::map<int, size_t> pos; size_t expected = 0;
    for (auto &q : queued) for (auto &one : (q.kind == KPUT ? permuted(q) : std::vector<QOp>{q})) {
        int d = m.ds_of(one); auto all = m.step(one); bool good = false; Recs &r = part[d]; size_t &i = pos[d];
        std::sort(all.begin(), all.end(), [](const Recs &a, const Recs &b) { return a.size() > b.size(); });
        for (auto &w : all) {
            if (i + w.size() > r.size()) continue;
            bool eq = true; for (size_t j = 0; j < w.size() && eq; j++) eq = same(r[i + j], w[j]);
            if (eq) { good = true; i += w.size(); expected += w.size(); break; }
        }
        MC_CHECK(good, std::string(what) + "-wrong-result", "%s: %s on datastore %d: from its result %zu on got %s; expected %s", what, show(one).c_str(), d, i, show(r).c_str(), show(all[0]).c_str());
    }
    MC_CHECK(expected == end - at, std::string(what) + "-extra-result", "%s: %zu results expected, got %s", what, expected, show(Recs(got.begin() + at, got.begin() + end)).c_str());
    at = end;
}
// reads every key of the model (and the given extra keys) back
inline void check_contents(Session &x, Model &m, const std::vector<Key> &extra, const char *what) {
    std::set<Key> keys(extra.begin(), extra.end());
    for (auto &d : m.ds) for (auto &e : d.second) keys.insert(e.first);
    for (auto &k : keys) HX_QUEUED(x.get(k.first, k.second, HXHIM_DATA_BYTE), "get");
    Recs r = x.flush_gets(); std::vector<QOp> q;
    for (auto &k : keys) { QOp g; g.kind = KGET; g.s = k.first; g.p = k.second; q.push_back(g); }
    size_t at = 0; check_flush(m, q, r, at, what);
    MC_CHECK(at == r.size(), std::string(what) + "-extra-result", "%s: extra results in %s", what, show(r).c_str());
}
} // namespace hx
