// flavour: asan
// C10: composite keys are reversible, distinct and ordered.
#include "hx.hpp"
#include "datastore/triplestore.hpp"
#include <unordered_map>
using namespace hx;

// exact-size heap copy, so that reading past a part is an error
struct Part { Blob b; Part(const std::string &s, int t) : b(copy(s), s.size(), (hxhim_data_t) t, true) {} static void *copy(const std::string &s) { if (s.empty()) return nullptr; void *p = ::malloc(s.size()); memcpy(p, s.data(), s.size()); return p; } ~Part() { if (b.data()) ::free(b.data()); b.clear(); } };
static std::string bytes(const Blob &b) { return b.size() ? std::string((char *) b.data(), b.size()) : std::string(); }
static std::string roundtrip(const std::string &s, int st, const std::string &p, int pt) {
    Part a(s, st), b(p, pt); Blob key;
    mc::transition();
    MC_CHECK(sp_to_key(a.b, b.b, &key) == HXHIM_SUCCESS, "combine-failed", "sp_to_key(%s,%s) failed", show(s).c_str(), show(p).c_str());
    std::string k = bytes(key);
    MC_CHECK(bytes(a.b) == s && bytes(b.b) == p, "combine-changed-input", "sp_to_key changed its inputs");
    MC_CHECK(k.size() >= s.size() + p.size() && k.compare(0, s.size(), s) == 0 && k.compare(s.size(), p.size(), p) == 0, "key-prefix", "the key of (%s,%s) does not start with the subject and the predicate: %s", show(s).c_str(), show(p).c_str(), show(k).c_str());
    for (int copy = 0; copy < 2; copy++) {
        // from an exact-size copy of the key alone
        char *raw = (char *) ::malloc(k.size() + 1); memcpy(raw, k.data(), k.size()); raw = (char *) realloc(raw, k.size());
        Blob src = ReferenceBlob(raw, k.size(), HXHIM_DATA_BYTE), rs, rp;
        int rc = key_to_sp(src, rs, rp, copy);
        std::string gs, gp;
        if (rc == HXHIM_SUCCESS) {
            if (copy) memset(raw, 0x5a, k.size());     // a copy does not depend on the key
            gs = bytes(rs); gp = bytes(rp);
            bool in_s = rs.data() >= raw && rs.data() <= raw + k.size();
            MC_CHECK(copy || !rs.size() || in_s, "split-not-a-reference", "a reference was asked for");
            MC_CHECK(!copy || (!rs.size() || (rs.will_clean() && !in_s)), "split-not-a-copy", "a copy was asked for");
            MC_CHECK(!copy || !rp.size() || rp.will_clean(), "split-not-a-copy", "a copy was asked for");
            MC_CHECK(copy || (!rs.will_clean() && !rp.will_clean()), "split-reference-owned", "a reference that would free the key");
        }
        int ts = rs.data_type(), tp = rp.data_type();
        rs.dealloc(); rp.dealloc(); ::free(raw);
        MC_CHECK(rc == HXHIM_SUCCESS, "split-failed", "key_to_sp failed on the key of (%s,%s)", show(s).c_str(), show(p).c_str());
        MC_CHECK(gs == s && gp == p && ts == st && tp == pt, "split-differs", "(%s type %d, %s type %d) came back as (%s type %d, %s type %d)", show(s).substr(0, 60).c_str(), st, show(p).substr(0, 60).c_str(), pt, show(gs).substr(0, 60).c_str(), ts, show(gp).substr(0, 60).c_str(), tp);
    }
    return k;
}
static std::vector<std::string> words(const std::string &alpha, int len) { std::vector<std::string> v{""}; for (int l = 0, from = 0; l < len; l++) { int to = v.size(); for (int i = from; i < to; i++) for (char c : alpha) v.push_back(v[i] + c); from = to; } return v; }
static const int TYPES[] = {HXHIM_DATA_INT32, HXHIM_DATA_INT64, HXHIM_DATA_UINT32, HXHIM_DATA_UINT64, HXHIM_DATA_FLOAT, HXHIM_DATA_DOUBLE, HXHIM_DATA_BYTE, HXHIM_DATA_POINTER, HXHIM_DATA_INVALID};
static const std::string ALPHA("\0\x01" "a\xfe\xff", 5);
static void shortkeys(int len) {
    int ts = mc::choose(9), tp = mc::choose(9); auto w = words(ALPHA, len);
    std::unordered_map<std::string, std::pair<int, int>> seen; 
    for (size_t i = 0; i < w.size(); i++) for (size_t j = 0; j < w.size(); j++) {
        std::string k = roundtrip(w[i], TYPES[ts], w[j], TYPES[tp]);
        auto r = seen.emplace(k, std::make_pair((int) i, (int) j));
        MC_CHECK(r.second, "keys-collide", "(%s,%s) and (%s,%s) have the same key", show(w[i]).c_str(), show(w[j]).c_str(), show(w[r.first->second.first]).c_str(), show(w[r.first->second.second]).c_str());
    }
    mc::state("t" + std::to_string(ts) + "," + std::to_string(tp));
}
// types of both parts, and parts built from the pieces of other keys
static void mimicry() {
    auto base = words(std::string("a\xff", 2), 2); std::vector<std::string> parts = base; int first = mc::choose(16);
    for (auto &s : base) for (auto &p : base) { std::string k = roundtrip(s, HXHIM_DATA_BYTE, p, HXHIM_DATA_INT32); parts.push_back(k); for (size_t cut : {1, 2, 3, 9, 10, 17, 18, 19}) if (cut < k.size()) parts.push_back(k.substr(k.size() - cut)); parts.push_back(k.substr(0, s.size() + p.size() + 1)); }
    std::sort(parts.begin(), parts.end()); parts.erase(std::unique(parts.begin(), parts.end()), parts.end());
    std::unordered_map<std::string, int> seen; int n = 0;
    for (size_t i = first; i < parts.size(); i += 16) for (auto &b : parts) { std::string k = roundtrip(parts[i], HXHIM_DATA_BYTE, b, HXHIM_DATA_BYTE); MC_CHECK(seen.emplace(k, n++).second, "keys-collide", "two pairs have the key %s", show(k).c_str()); }
    mc::state("m" + std::to_string(first));
}
static void alltypes() {
    int a = mc::choose(9), b = mc::choose(9); std::set<std::string> keys; int n = 0;
    for (const char *s : {"", "x", "xy"}) for (const char *p : {"", "y", "xyx"}) { keys.insert(roundtrip(s, TYPES[a], p, TYPES[b])); n++; for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) if (i != a || j != b) MC_CHECK(!keys.count(roundtrip(s, TYPES[i], p, TYPES[j])), "keys-collide", "types %d,%d and %d,%d of (%s,%s) have the same key", TYPES[a], TYPES[b], TYPES[i], TYPES[j], s, p); }
    MC_CHECK((int) keys.size() == n, "keys-collide", "%d pairs give %zu keys", n, keys.size());
    mc::state("a" + std::to_string(a) + "," + std::to_string(b));
}
static const int L[] = {0, 1, 2, 7, 8, 9, 15, 16, 31, 127, 128, 129, 254, 255, 256, 257, 511, 512, 4095, 32767, 32768, 65534, 65535, 65536, 65537, 131072, 16777215, 16777216};
static void lengths(int max) {
    int i = mc::choose(28), j = mc::choose(28); if (L[i] > max || L[j] > max) return;
    for (char c : {'\0', '\xff'}) roundtrip(std::string(L[i], c), HXHIM_DATA_BYTE, std::string(L[j], (char) (c ^ 1)), HXHIM_DATA_BYTE);
    mc::state("l" + std::to_string(i) + "," + std::to_string(j));
}
// in a store: all records with one prefix are adjacent, in the byte order of their keys
static void ordered() {
    int backend = mc::choose(3), order = mc::choose(2); auto w = words(std::string("a\xff\0", 3), 2); std::vector<Key> keys;
    for (auto &s : w) for (auto &p : w) if (s.size() && p.size()) { keys.push_back(Key(B(s), B(p))); }
    std::map<std::string, Key> ref; for (auto &k : keys) ref[roundtrip(k.first.b, k.first.t, k.second.b, k.second.t)] = k;
    MC_CHECK(ref.size() == keys.size(), "keys-collide", "%zu pairs, %zu keys", keys.size(), ref.size());
    if (order) std::reverse(keys.begin(), keys.end());
    Opt o; o.backend = backend; o.dir = mc::fresh_dir("db"); fmpi::reset(1, true); Session x; x.start(o);
    for (auto &k : keys) HX_QUEUED(x.put(k.first, k.second, B("v")), "put");
    for (auto &r : x.flush_puts()) MC_CHECK(r.ok(), "put-failed", "%s", show(r).c_str());
    for (auto &s : w) for (auto &p : w) if (s.size()) {
        std::string prefix = s + p; std::vector<Key> want; for (auto &e : ref) if (e.first.compare(0, prefix.size(), prefix) == 0) want.push_back(e.second);
        HX_QUEUED(x.getop(B(s), B(p), HXHIM_DATA_BYTE, 1000, HXHIM_GETOP_NEXT), "getop"); Recs r = x.flush_getops(); mc::transition();
        std::vector<Key> got; for (auto &g : r) { MC_CHECK(g.ok(), "walk-failed", "NEXT from %s: %s", show(prefix).c_str(), show(g).c_str()); got.push_back(Key(g.s, g.p)); }
        MC_CHECK(got.size() >= want.size(), "walk-short", "%zu records from prefix %s, %zu exist", got.size(), show(prefix).c_str(), want.size());
        auto it = ref.lower_bound(prefix);
        for (size_t i = 0; i < got.size(); i++, ++it) { MC_CHECK(it != ref.end() && got[i] == it->second, "walk-order", "record %zu from prefix %s is %s, expected %s", i, show(prefix).c_str(), show(got[i]).c_str(), it == ref.end() ? "none" : show(it->second).c_str()); if (i < want.size()) MC_CHECK(got[i] == want[i], "prefix-not-contiguous", "record %zu of prefix %s", i, show(prefix).c_str()); }
    }
    x.close(); mc::state("o" + std::to_string(backend));
}
int main(int argc, char **argv) {
    clean_env();
    mc::E().property = "C10";
    mc::E().assumptions = {"order is the byte order of keys, as the three datastores use it"};
    mc::space("short", "all subjects and predicates of up to 3 bytes over {00,01,a,fe,ff} x 9 x 9 types", [] { shortkeys(3); }).only_tier = 1;
    mc::space("short-deep", "all subjects and predicates of up to 4 bytes over {00,01,a,fe,ff} x 9 x 9 types", [] { shortkeys(4); }).only_tier = 2;
    mc::space("mimicry", "all pairs of parts cut from whole keys (terminator, lengths and types inside the data)", [] { mimicry(); });
    mc::space("types", "all pairs of type pairs on 9 small pairs of parts", [] { alltypes(); });
    mc::space("lengths", "all pairs of 28 lengths around the powers of two up to 2^24", [] { lengths(mc::thorough() ? 1 << 24 : 131072); });
    mc::space("ordered", "walk over all 2-byte pairs in 3 datastores from every prefix", [] { ordered(); });
    return mc::run(argc, argv);
}
