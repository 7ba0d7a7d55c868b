// Reference model of datastore keys: encoded subject, encoded predicate, then what makes the key unique.
#pragma once
#include "hx.hpp"
#include "utils/elen.hpp"
#include <functional>
namespace hx {
// the text a typed value is stored as (C11 decides that this text orders and decodes correctly)
inline std::function<bool(const V &, std::string &)> &own_encoding() { static std::function<bool(const V &, std::string &)> f; return f; }   // types the user encodes (C21)
inline std::string enc(const V &v, const Opt &o = Opt()) {
    if (v.b.empty()) return "";
    std::string own; if (own_encoding() && own_encoding()(v, own)) return own;
    switch (v.t) {
        case HXHIM_DATA_INT32: return elen::encode::integers<int32_t>(as<int32_t>(v.b), o.neg, o.pos);
        case HXHIM_DATA_INT64: return elen::encode::integers<int64_t>(as<int64_t>(v.b), o.neg, o.pos);
        case HXHIM_DATA_UINT32: return elen::encode::integers<uint32_t>(as<uint32_t>(v.b), o.neg, o.pos);
        case HXHIM_DATA_UINT64: return elen::encode::integers<uint64_t>(as<uint64_t>(v.b), o.neg, o.pos);
        case HXHIM_DATA_FLOAT: return elen::encode::floating_point<float>(as<float>(v.b), o.fprec, o.neg, o.pos);
        case HXHIM_DATA_DOUBLE: return elen::encode::floating_point<double>(as<double>(v.b), o.dprec, o.neg, o.pos);
        default: return v.b;
    }
}
inline bool numeric(hxhim_data_t t) { return t >= HXHIM_DATA_INT32 && t <= HXHIM_DATA_DOUBLE; }
inline std::string dbkey(const Key &k, const Opt &o = Opt()) {
    std::string s = enc(k.first, o), p = enc(k.second, o);
    uint64_t sl = s.size(), pl = p.size();
    return s + p + "\xff" + raw(sl) + raw(pl) + std::string(1, (char) k.first.t) + std::string(1, (char) k.second.t);
}
struct Row { std::string key; Key k; V o; bool operator<(const Row &r) const { return key < r.key; } };
struct Query { V s, p; hxhim_getop_t op; std::size_t n; };
inline const char *opname(int o) { static const char *n[] = {"EQ", "NEXT", "PREV", "FIRST", "LAST", "LOWEST", "HIGHEST", "INVALID"}; return o >= 0 && o < 8 ? n[o] : "?"; }
inline std::string show(const Query &q) { return std::string(opname(q.op)) + Key(q.s, q.p).first.b.substr(0, 0) + show(Key(q.s, q.p)) + " x" + std::to_string(q.n); }

// the acceptable answers of a GETOP over rows sorted by key; an empty vector stands for "one error result"
inline std::vector<std::vector<Row>> getop_ref(const std::vector<Row> &db, const Query &q, const Opt &o = Opt()) {
    std::vector<std::vector<Row>> ok; std::vector<Row> r;
    std::string pre = enc(q.s, o) + enc(q.p, o);
    auto has = [&](const Row &x) { return x.key.compare(0, pre.size(), pre) == 0; };
    int n = db.size(), lo = 0;
    while (lo < n && db[lo].key < pre) lo++;
    int first = lo < n && has(db[lo]) ? lo : -1, last = -1;
    for (int i = 0; i < n; i++) if (has(db[i])) last = i;
    switch (q.op) {
        case HXHIM_GETOP_EQ: if (first >= 0) r.push_back(db[first]); break;          // the count is ignored
        case HXHIM_GETOP_NEXT: for (int i = lo; i < n && r.size() < q.n; i++) r.push_back(db[i]); break;
        case HXHIM_GETOP_PREV: if (lo < n) for (int i = lo; i >= 0 && r.size() < q.n; i--) r.push_back(db[i]); break;
        case HXHIM_GETOP_FIRST: for (int i = 0; i < n && r.size() < q.n; i++) r.push_back(db[i]); break;
        case HXHIM_GETOP_LAST: for (int i = n - 1; i >= 0 && r.size() < q.n; i--) r.push_back(db[i]); break;
        case HXHIM_GETOP_LOWEST: {
            if (first >= 0) for (int i = first; i <= last && r.size() < q.n; i++) r.push_back(db[i]);
            V probe = q.p; probe.b = std::string(8, 1); std::string ignored;
            if (q.p.b.empty() && numeric(q.p.t) && first >= 0 && !(own_encoding() && own_encoding()(probe, ignored))) { // may begin at the first number
                std::vector<Row> alt; int i = first; std::string seek = pre + o.neg + std::string(1, '\0');
                while (i <= last && db[i].key < seek) i++;
                for (; i <= last && alt.size() < q.n; i++) alt.push_back(db[i]);
                if (alt.size() != r.size() || (alt.size() && alt[0].key != r[0].key)) ok.push_back(alt);
            }
            break; }
        case HXHIM_GETOP_HIGHEST: if (last >= 0) for (int i = last; i >= first && r.size() < q.n; i--) r.push_back(db[i]); break;
        default: break;
    }
    ok.push_back(r);
    // no stored key has the prefix: NEXT and PREV may start at the key after it or name nothing
    if ((q.op == HXHIM_GETOP_NEXT || q.op == HXHIM_GETOP_PREV) && first < 0) ok.push_back({});
    return ok;
}
inline bool matches(const Recs &got, const std::vector<Row> &want, const Query &q) {
    if (want.empty()) return got.size() == 1 && got[0].op == HXHIM_GETOP && got[0].status == HXHIM_ERROR && got[0].s.b == q.s.b && got[0].p.b == q.p.b && got[0].s.t == q.s.t && got[0].p.t == q.p.t;
    if (got.size() != want.size()) return false;
    for (size_t i = 0; i < want.size(); i++) if (!(got[i].op == HXHIM_GETOP && got[i].ok() && got[i].s == want[i].k.first && got[i].p == want[i].k.second && got[i].o == want[i].o)) return false;
    return true;
}
inline std::string show(const std::vector<std::vector<Row>> &ok) {
    std::string s; for (auto &r : ok) { s += s.empty() ? "" : " or "; if (r.empty()) s += "one error"; for (auto &x : r) s += show(x.k) + "=" + show(x.o) + " "; } return s;
}
} // namespace hx
