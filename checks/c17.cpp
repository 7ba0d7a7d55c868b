// flavour: asan
// C17: configuration sources are applied with the documented precedence.
#include "hx.hpp"
#include "datastore/datastores.hpp"
#include "hxhim/options.hpp"
#include "hxhim/private/hxhim.hpp"
#include "hxhim/private/accessors.hpp"
#include "transport/backend/MPI/Options.hpp"
#include <fstream>
#include <map>
#include <set>
#include <sys/stat.h>
using namespace hx;
typedef std::map<std::string, std::string> Conf;    // key -> text
typedef std::map<std::string, std::string> St;      // setting -> canonical value

// ---- the effective settings of a session that has not been opened -----------------------------
static std::string num(long long x) { return std::to_string(x); }
static St settings(hxhim_t &h) {
    auto *p = h.p; St s; char b[64];
    s["DEBUG_LEVEL"] = num(p->debug_level);
    s["CLIENT_RATIO"] = num(p->range_server.client_ratio); s["SERVER_RATIO"] = num(p->range_server.server_ratio);
    auto &d = p->range_server.datastores;
    s["DATASTORES_PER_SERVER"] = num(d.per_server); s["DATASTORE_PREFIX"] = d.prefix; s["DATASTORE_BASENAME"] = d.basename; s["DATASTORE_POSTFIX"] = d.postfix;
    s["DATASTORE"] = d.config ? num(d.config->type) : "none";
    if (d.config && d.config->type == Datastore::LEVELDB) s["DATASTORE"] += dynamic_cast<Datastore::LevelDB::Config *>(d.config)->create_if_missing ? " create" : " existing";
    if (d.config && d.config->type == Datastore::ROCKSDB) s["DATASTORE"] += dynamic_cast<Datastore::RocksDB::Config *>(d.config)->create_if_missing ? " create" : " existing";
    s["TRANSPORT"] = p->transport.config ? num(p->transport.config->type) : "none";
    if (p->transport.config && p->transport.config->type == Transport::TRANSPORT_MPI) s["TRANSPORT"] += " " + num(dynamic_cast<Transport::MPI::Options *>(p->transport.config)->listeners);
    s["HASH"] = p->hash.name; auto it = hxhim::config::HASHES.find(p->hash.name); if (it == hxhim::config::HASHES.end() || it->second != p->hash.func || p->hash.args) s["HASH"] += " (other function)";
    for (int e : p->transport.endpointgroup) s["ENDPOINT_GROUP"] += num(e) + " ";
    s["START_ASYNC_PUTS_AT"] = num(p->async_puts.max_queued) + (p->async_puts.enabled ? " on" : " off");
    s["MAXIMUM_OPS_PER_REQUEST"] = num(p->queues.max_per_request.ops); s["MAXIMUM_SIZE_PER_REQUEST"] = num(p->queues.max_per_request.size);
    s["HISTOGRAM_FIRST_N"] = num(p->histograms.config.first_n); snprintf(b, sizeof b, "%p %p", (void *) p->histograms.config.generator, p->histograms.config.extra_args); s["HISTOGRAM_BUCKET_GEN_NAME"] = b;
    for (auto &n : p->histograms.names) s["HISTOGRAM_TRACK_PREDICATES"] += "<" + n + ">";
    s["HISTOGRAM_READ_EXISTING"] = num(p->histograms.read); s["HISTOGRAM_WRITE_AT_EXIT"] = num(p->histograms.write);
    auto &e = d.transform.numeric_extra; s["ELEN_NEG_SYMBOL"] = num(e.neg); s["ELEN_POS_SYMBOL"] = num(e.pos); s["ELEN_ENCODE_FLOAT_PRECISION"] = num(e.float_precision); s["ELEN_ENCODE_DOUBLE_PRECISION"] = num(e.double_precision);
    return s;
}

// ---- the reference: values are valid or not, and a valid value is applied ----------------------
struct Val { const char *text; const char *canon; };   // canon == nullptr: not valid
struct KeyDef { const char *key; std::vector<Val> vals; };
static std::string gen(const char *name) { char b[64]; snprintf(b, sizeof b, "%p %p", (void *) hxhim::config::HISTOGRAM_BUCKET_GENERATORS.at(name), hxhim::config::HISTOGRAM_BUCKET_GENERATOR_EXTRA_ARGS.at(name)); return b; }
static std::vector<KeyDef> K;
static const int RANKS = 3;
static void define() {
    static std::vector<std::string> keep; static auto S = [](const std::string &s) { keep.push_back(s); return keep.back().c_str(); }; keep.reserve(100);
    std::vector<Val> positive = {{"7", "7"}, {"1", "1"}, {"0", nullptr}, {"-3", nullptr}, {"many", nullptr}, {"4x", nullptr}};
    K.push_back({"DEBUG_LEVEL", {{"EMERGENCY", S(num(MLOG_EMERG))}, {"DEBUG3", S(num(MLOG_DBG3))}, {"critical?", nullptr}, {"", nullptr}}});
    K.push_back({"CLIENT_RATIO", positive}); K.push_back({"SERVER_RATIO", positive}); K.push_back({"DATASTORES_PER_SERVER", positive});
    K.push_back({"DATASTORE", {{"IN_MEMORY", "0"}, {"LEVELDB", "1"}, {"ROCKSDB", "2"}, {"leveldb", nullptr}}});
    K.push_back({"DATASTORE_PREFIX", {{"/x/y", "/x/y"}, {"some dir/p", "some dir/p"}}}); K.push_back({"DATASTORE_BASENAME", {{"bb", "bb"}, {"b c", "b c"}}}); K.push_back({"DATASTORE_POSTFIX", {{".db", ".db"}, {"", ""}}});
    K.push_back({"LEVELDB_CREATE_IF_MISSING", {{"false", "0"}, {"TRUE", "1"}, {"no", nullptr}}}); K.push_back({"ROCKSDB_CREATE_IF_MISSING", {{"False", "0"}, {"true", "1"}, {"2", nullptr}}});
    K.push_back({"HASH", {{"SUM_MOD_DATASTORES", "SUM_MOD_DATASTORES"}, {"UTHASH_FNV", "UTHASH_FNV"}, {"MD5", nullptr}}});
    K.push_back({"TRANSPORT", {{"MPI", "1"}, {"NULL", "0"}, {"TCP", nullptr}}}); K.push_back({"NUM_LISTENERS", {{"4", "4"}, {"1", "1"}, {"0", nullptr}, {"x", nullptr}, {"-1", nullptr}}});
    K.push_back({"ENDPOINT_GROUP", {{"ALL", "0 1 2 "}, {"2 0", "0 2 "}, {"1", "1 "}, {"0 -1", nullptr}, {"0 one", nullptr}, {"none", nullptr}}});
    K.push_back({"START_ASYNC_PUTS_AT", {{"5", "5 on"}, {"0", "0 off"}, {"-1", nullptr}, {"soon", nullptr}}});
    K.push_back({"MAXIMUM_OPS_PER_REQUEST", positive}); K.push_back({"MAXIMUM_SIZE_PER_REQUEST", {{"9000000", "9000000"}, {"1", "1"}, {"-3", nullptr}, {"big", nullptr}}});
    K.push_back({"HISTOGRAM_FIRST_N", {{"3", "3"}, {"99", "99"}, {"-2", nullptr}, {"n", nullptr}}});
    K.push_back({"HISTOGRAM_BUCKET_GEN_NAME", {{"STURGES_FORMULA", S(gen("STURGES_FORMULA"))}, {"UNIFORM_LOG2", S(gen("UNIFORM_LOG2"))}, {"UNIFORM_LOG10", S(gen("UNIFORM_LOG10"))}, {"11_BUCKETS", nullptr}}});
    K.push_back({"HISTOGRAM_TRACK_PREDICATES", {{"p", "<p>"}, {"a,test predicate", "<a><test predicate>"}}});
    K.push_back({"HISTOGRAM_READ_EXISTING", {{"false", "0"}, {"true", "1"}, {"maybe", nullptr}}}); K.push_back({"HISTOGRAM_WRITE_AT_EXIT", {{"FALSE", "0"}, {"True", "1"}, {"truely", nullptr}}});
    K.push_back({"ELEN_NEG_SYMBOL", {{"!", "33"}, {"+", "43"}, {"z", nullptr /* not below any of the other symbols */}, {"ab", nullptr}}}); K.push_back({"ELEN_POS_SYMBOL", {{"<", "60"}, {"~", "126"}, {"\"", nullptr /* see below */}, {"ab", nullptr}}});
    K.push_back({"ELEN_ENCODE_FLOAT_PRECISION", {{"6", "6"}, {"9", "9"}, {"0", nullptr}, {"-4", nullptr}, {"300", nullptr}}}); K.push_back({"ELEN_ENCODE_DOUBLE_PRECISION", {{"17", "17"}, {"12", "12"}, {"1", nullptr}, {"d", nullptr}}});
}
static const KeyDef *def(const std::string &k) { for (auto &d : K) if (k == d.key) return &d; return nullptr; }
// the value a configuration gives a key: 0 none, 1 valid (canon filled in), -1 given but not valid
static int give(const Conf &c, const char *key, std::string &canon) {
    auto it = c.find(key); if (it == c.end()) return 0;
    for (auto &v : def(key)->vals) if (it->second == v.text) { if (!v.canon) return -1; canon = v.canon; return 1; }
    mc::fail("harness", "unknown value %s of %s", it->second.c_str(), key); return -1;
}
static St DEFAULTS;
static void applyc(St &s, const Conf &c) {
    std::string v;
    for (const char *k : {"DEBUG_LEVEL", "CLIENT_RATIO", "SERVER_RATIO", "DATASTORES_PER_SERVER", "DATASTORE_PREFIX", "DATASTORE_BASENAME", "DATASTORE_POSTFIX", "ENDPOINT_GROUP", "START_ASYNC_PUTS_AT", "MAXIMUM_OPS_PER_REQUEST", "MAXIMUM_SIZE_PER_REQUEST", "HISTOGRAM_FIRST_N", "HISTOGRAM_BUCKET_GEN_NAME", "HISTOGRAM_TRACK_PREDICATES", "HISTOGRAM_READ_EXISTING", "HISTOGRAM_WRITE_AT_EXIT"})
        if (give(c, k, v) == 1) s[k] = v;
    std::string type = s["DATASTORE"].substr(0, 1), create = "1"; if (s["DATASTORE"].find("existing") != std::string::npos) create = "0";
    if (give(c, "DATASTORE", v) == 1 && v != type) { type = v; create = "1"; }
    if (type == "1" && give(c, "LEVELDB_CREATE_IF_MISSING", v) == 1) create = v;
    if (type == "2" && give(c, "ROCKSDB_CREATE_IF_MISSING", v) == 1) create = v;
    s["DATASTORE"] = type + (type == "0" ? "" : create == "1" ? " create" : " existing");
    // the null transport keeps everything local and always uses its own hash; a message transport needs its listeners
    std::string t, l; int gt = give(c, "TRANSPORT", t);
    if (gt == 1 && t == "0") { s["TRANSPORT"] = "0"; s["HASH"] = "RANK_MOD_DATASTORES"; }
    if (gt == 1 && t == "1" && give(c, "NUM_LISTENERS", l) == 1) { s["TRANSPORT"] = "1 " + l; if (give(c, "HASH", v) == 1) s["HASH"] = v; }
    // pairs that have to stay ordered
    auto pair = [&](const char *a, const char *b, bool positive) {
        auto parse = [&](const char *k, long cur) -> long { auto it = c.find(k); if (it == c.end()) return cur; if (positive) { char *e; long x = strtol(it->second.c_str(), &e, 10); return *e || it->second.empty() || x < 0 ? cur : x; } return it->second.size() == 1 ? it->second[0] : cur; };
        long x = parse(a, atol(s[a].c_str())), y = parse(b, atol(s[b].c_str()));
        if (x < y && (!positive || x > 0)) { s[a] = num(x); s[b] = num(y); }
    };
    pair("ELEN_NEG_SYMBOL", "ELEN_POS_SYMBOL", false); pair("ELEN_ENCODE_FLOAT_PRECISION", "ELEN_ENCODE_DOUBLE_PRECISION", true);
}

// ---- sources ----------------------------------------------------------------------------------
enum { FILE_, ENVFILE, ENVVAR, NSRC };
static const char *SRC[] = {"hxhim.conf", "the HXHIM_CONFIG file", "the environment"};
static void write(const std::string &name, const Conf &c) { std::ofstream f(name); for (auto &e : c) f << e.first << "   " << e.second << "\n"; }
struct Setup { Conf src[NSRC]; };
static void install(const Setup &u) {
    clean_env(); unlink("hxhim.conf"); unlink("other.conf");
    if (!u.src[FILE_].empty()) write("hxhim.conf", u.src[FILE_]);
    if (!u.src[ENVFILE].empty()) { write("other.conf", u.src[ENVFILE]); setenv("HXHIM_CONFIG", "other.conf", 1); }
    for (auto &e : u.src[ENVVAR]) setenv(("HXHIM_" + e.first).c_str(), e.second.c_str(), 1);
}
// closing waits for every rank: the other ranks of the world are not there any more
static int finish(hxhim_t *h) { fmpi::reset(1, true); fmpi::set_rank(0); return hxhim::Close(h); }
static void uninstall() { clean_env(); unlink("hxhim.conf"); unlink("other.conf"); }
static std::string show(const Setup &u) { std::string r; for (int i = 0; i < NSRC; i++) for (auto &e : u.src[i]) r += std::string(r.empty() ? "" : ", ") + e.first + "=\"" + e.second + "\" in " + SRC[i]; return r.empty() ? "nothing configured" : r; }
static void compare(const St &got, const St &want, const std::string &what) {
    for (auto &w : want) { auto it = got.find(w.first); std::string g = it == got.end() ? "" : it->second; MC_CHECK(g == w.second, "setting-" + w.first, "%s: %s is \"%s\", expected \"%s\"", what.c_str(), w.first.c_str(), g.c_str(), w.second.c_str()); }
    for (auto &g : got) MC_CHECK(want.count(g.first), "setting-" + g.first, "%s: %s is \"%s\", expected none", what.c_str(), g.first.c_str(), g.second.c_str());
}
static Conf merged(const Setup &u) { Conf m; for (int i = 0; i < NSRC; i++) for (auto &e : u.src[i]) m[e.first] = e.second; return m; }
static void run(const Setup &u) {
    install(u); hxhim_t h; h.p = nullptr; mc::note("%s", show(u).c_str()); mc::transition();
    int rc = hxhim::Init(&h, MPI_COMM_WORLD); uninstall();
    MC_CHECK(rc == HXHIM_SUCCESS && h.p, "init", "%s: Init failed", show(u).c_str());
    St want = DEFAULTS, got = settings(h); applyc(want, merged(u)); compare(got, want, show(u)); mc::state(mc::hash(show(u)));
    MC_CHECK(finish(&h) == HXHIM_SUCCESS, "close", "Close of a session that was not opened failed");
}
static void begin() { fmpi::reset(RANKS, true); fmpi::set_rank(1); static bool done = false; if (!done) { done = true; std::string d = mc::fresh_dir("conf"); if (chdir(d.c_str())) mc::fail("harness", "chdir"); } }

// the documented defaults
static void documented_defaults() {
    St d; d["DEBUG_LEVEL"] = num(MLOG_CRIT); d["CLIENT_RATIO"] = "2"; d["SERVER_RATIO"] = "1"; d["DATASTORES_PER_SERVER"] = "1"; d["DATASTORE_PREFIX"] = "."; d["DATASTORE_BASENAME"] = "hxhim"; d["DATASTORE_POSTFIX"] = "";
    d["DATASTORE"] = "1 create"; d["TRANSPORT"] = "0"; d["HASH"] = "RANK_MOD_DATASTORES"; d["ENDPOINT_GROUP"] = "0 1 2 "; d["START_ASYNC_PUTS_AT"] = "0 off"; d["MAXIMUM_OPS_PER_REQUEST"] = "128"; d["MAXIMUM_SIZE_PER_REQUEST"] = "1048576";
    d["HISTOGRAM_FIRST_N"] = "10"; d["HISTOGRAM_BUCKET_GEN_NAME"] = gen("10_BUCKETS"); d["HISTOGRAM_READ_EXISTING"] = "1"; d["HISTOGRAM_WRITE_AT_EXIT"] = "1";
    d["ELEN_NEG_SYMBOL"] = num('/'); d["ELEN_POS_SYMBOL"] = num(':'); d["ELEN_ENCODE_FLOAT_PRECISION"] = "8"; d["ELEN_ENCODE_DOUBLE_PRECISION"] = "16"; DEFAULTS = d;
}
// one key, any value in any subset of the sources, alone or after a complete group it belongs to
static void single() {
    begin(); const KeyDef &k = K[mc::choose(K.size())]; Setup u; int n = k.vals.size();
    for (int s = 0; s < NSRC; s++) { int v = mc::choose(n + 1); if (v) u.src[s][k.key] = k.vals[v - 1].text; }
    // whatever makes the setting visible: the transport for its listeners and the hash, the kind of datastore for its options
    std::string key = k.key; int at = mc::choose(NSRC);
    if (key == "NUM_LISTENERS" || key == "HASH") u.src[at]["TRANSPORT"] = "MPI";
    else if (key == "ROCKSDB_CREATE_IF_MISSING") u.src[at]["DATASTORE"] = "ROCKSDB";
    else if (at) { mc::prune(); return; }
    if (key == "HASH" || key == "TRANSPORT") u.src[0]["NUM_LISTENERS"] = "1";
    run(u);
}
// two keys, each with any value in any one source
static void pairs(int nvals) {
    begin(); int a = mc::choose(K.size()), b = mc::choose(K.size()); if (b <= a) { mc::prune(); return; }
    auto cnt = [&](const KeyDef &k) { return std::min<int>(nvals, k.vals.size()); };
    Setup u; int sa = mc::choose(NSRC), sb = mc::choose(NSRC), va = mc::choose(cnt(K[a])), vb = mc::choose(cnt(K[b]));
    auto idx = [&](const KeyDef &k, int v) { int n = k.vals.size(), c = cnt(k); return v == c - 1 ? n - 1 : v; };   // always includes the last (an invalid value, where there is one)
    u.src[sa][K[a].key] = K[a].vals[idx(K[a], va)].text; u.src[sb][K[b].key] = K[b].vals[idx(K[b], vb)].text; run(u);
}
static void triples() {
    begin(); int a = mc::choose(K.size()), b = mc::choose(K.size()), c = mc::choose(K.size()); if (b <= a || c <= b) { mc::prune(); return; }
    Setup u; int ids[] = {a, b, c};
    for (int i : ids) { int s = mc::choose(NSRC), bad = mc::choose(2); u.src[s][K[i].key] = bad ? K[i].vals.back().text : K[i].vals[0].text; }
    run(u);
}
// everything is given, with one key missing or not valid
static void complete() {
    begin(); int miss = mc::choose(K.size() + 1), how = mc::choose(3), s = mc::choose(NSRC), bg = mc::choose(2), v0 = mc::choose(2); Setup u;
    for (size_t i = 0; i < K.size(); i++) { int src = bg ? s : (int) i % NSRC; if ((int) i != miss) { int v = v0 && K[i].vals.size() > 1 && K[i].vals[1].canon ? 1 : 0; u.src[src][K[i].key] = K[i].vals[v].text; } else if (how) u.src[how == 2 ? ENVVAR : src][K[i].key] = K[i].vals.back().text; }
    run(u);
}
// the text of a configuration file
static void text(int nlines) {
    begin(); clean_env(); static const struct { const char *line; const char *key, *val; } L[] = {
        {"CLIENT_RATIO 7", "CLIENT_RATIO", "7"}, {"\t CLIENT_RATIO \t 1 \t", "CLIENT_RATIO", "1"}, {"# CLIENT_RATIO 7", 0, 0}, {"#CLIENT_RATIO 7", 0, 0}, {"", 0, 0}, {"   ", 0, 0}, {"DATASTORE_POSTFIX", "DATASTORE_POSTFIX", ""}, {"DATASTORE_POSTFIX .db", "DATASTORE_POSTFIX", ".db"},
        {"DATASTORE_PREFIX some dir/p  ", "DATASTORE_PREFIX", "some dir/p"}, {"UNKNOWN_SETTING 5", 0, 0}, {"client_ratio 7", 0, 0}, {"HISTOGRAM_TRACK_PREDICATES a,test predicate", "HISTOGRAM_TRACK_PREDICATES", "a,test predicate"}, {"DATASTORES_PER_SERVER\t7\r", "DATASTORES_PER_SERVER", "7"}, {"SERVER_RATIO", 0, 0}, {"CLIENT_RATIO many", "CLIENT_RATIO", "many"}};
    int n = sizeof L / sizeof *L; std::string t; Conf c; bool envfile = mc::choose(2), last_nl = mc::choose(2);
    for (int i = 0; i < nlines; i++) { int l = mc::choose(n); t += L[l].line; if (i + 1 < nlines || last_nl) t += "\n"; if (L[l].key) c[L[l].key] = L[l].val; }
    mc::note("%s: %s", envfile ? SRC[1] : SRC[0], show(t).c_str());
    unlink("hxhim.conf"); { std::ofstream f(envfile ? "other.conf" : "hxhim.conf"); f << t; } if (envfile) setenv("HXHIM_CONFIG", "other.conf", 1);
    hxhim_t h; int rc = hxhim::Init(&h, MPI_COMM_WORLD); uninstall(); MC_CHECK(rc == HXHIM_SUCCESS, "init", "Init failed");
    St want = DEFAULTS; applyc(want, c); compare(settings(h), want, "file " + show(t)); finish(&h); mc::transition(); mc::state(mc::hash(t));
}
// sources that are not there
static void missing() {
    begin(); clean_env(); uninstall(); int f = mc::choose(3), e = mc::choose(5), v = mc::choose(2); Setup u;
    if (f == 1) { std::ofstream x("hxhim.conf"); } if (f == 2) { u.src[FILE_]["CLIENT_RATIO"] = "7"; write("hxhim.conf", u.src[FILE_]); }
    mkdir("adir", 0700); { std::ofstream x("empty.conf"); } const char *E[] = {nullptr, "not-there.conf", "adir", "empty.conf", ""}; if (E[e]) setenv("HXHIM_CONFIG", E[e], 1);
    if (v) { u.src[ENVVAR]["SERVER_RATIO"] = "7"; setenv("HXHIM_SERVER_RATIO", "7", 1); }
    mc::note("hxhim.conf %s, HXHIM_CONFIG=%s, %s", f == 0 ? "missing" : f == 1 ? "empty" : "there", E[e] ? E[e] : "(unset)", v ? "HXHIM_SERVER_RATIO=7" : "");
    hxhim_t h; int rc = hxhim::Init(&h, MPI_COMM_WORLD); uninstall(); MC_CHECK(rc == HXHIM_SUCCESS, "init", "Init failed");
    St want = DEFAULTS; applyc(want, merged(u)); compare(settings(h), want, "missing sources"); finish(&h); mc::transition();
}
// option calls after the configuration was read: they win, or are refused and change nothing
struct Call { const char *what; std::function<int(hxhim_t *)> f; std::function<void(St &)> m; };   // no m: must be refused
static int myhash(hxhim_t *, void *, const size_t, void *, const size_t, void *) { return 0; }
static std::list<double> mygen(const std::list<double> &, void *) { return {}; }
static std::vector<Call> calls() {
    std::vector<Call> v; auto set = [](const char *k, std::string x) { return [=](St &s) { s[k] = x; }; }; auto add = [&](const char *w, std::function<int(hxhim_t *)> f, std::function<void(St &)> m) { v.push_back({w, f, m}); };
    add("debug level", [](hxhim_t *h) { return hxhim_set_debug_level(h, MLOG_ALERT); }, set("DEBUG_LEVEL", num(MLOG_ALERT)));
    add("client ratio", [](hxhim_t *h) { return hxhim_set_client_ratio(h, 11); }, set("CLIENT_RATIO", "11")); add("client ratio 0", [](hxhim_t *h) { return hxhim_set_client_ratio(h, 0); }, nullptr);
    add("server ratio", [](hxhim_t *h) { return hxhim_set_server_ratio(h, 12); }, set("SERVER_RATIO", "12")); add("server ratio 0", [](hxhim_t *h) { return hxhim_set_server_ratio(h, 0); }, nullptr);
    add("datastores", [](hxhim_t *h) { return hxhim_set_datastores_per_server(h, 13); }, set("DATASTORES_PER_SERVER", "13")); add("datastores 0", [](hxhim_t *h) { return hxhim_set_datastores_per_server(h, 0); }, nullptr);
    add("datastore name", [](hxhim_t *h) { return hxhim_set_datastore_name(h, "aa", "bb b", "cc"); }, [](St &s) { s["DATASTORE_PREFIX"] = "aa"; s["DATASTORE_BASENAME"] = "bb b"; s["DATASTORE_POSTFIX"] = "cc"; });
    add("in memory", [](hxhim_t *h) { return hxhim_set_datastore_in_memory(h); }, set("DATASTORE", "0")); add("leveldb", [](hxhim_t *h) { return hxhim_set_datastore_leveldb(h, 0); }, set("DATASTORE", "1 existing")); add("rocksdb", [](hxhim_t *h) { return hxhim_set_datastore_rocksdb(h, 1); }, set("DATASTORE", "2 create"));
    add("hash name", [](hxhim_t *h) { return hxhim_set_hash_name(h, "UTHASH_OAT"); }, set("HASH", "UTHASH_OAT")); add("bad hash name", [](hxhim_t *h) { return hxhim_set_hash_name(h, "nothing"); }, nullptr);
    add("hash function", [](hxhim_t *h) { return hxhim_set_hash_function(h, "mine", myhash, nullptr); }, set("HASH", "mine (other function)")); add("no hash function", [](hxhim_t *h) { return hxhim_set_hash_function(h, "mine", nullptr, nullptr); }, nullptr);
    add("null transport", [](hxhim_t *h) { return hxhim_set_transport_null(h); }, set("TRANSPORT", "0")); add("mpi transport", [](hxhim_t *h) { return hxhim_set_transport_mpi(h, 3); }, set("TRANSPORT", "1 3")); add("mpi transport 0", [](hxhim_t *h) { return hxhim_set_transport_mpi(h, 0); }, nullptr);
    add("clear endpoints", [](hxhim_t *h) { return hxhim_clear_endpoint_group(h); }, set("ENDPOINT_GROUP", "")); add("endpoint 5", [](hxhim_t *h) { return hxhim_add_endpoint_to_group(h, 5); }, [](St &s) { if ((" " + s["ENDPOINT_GROUP"]).find(" 5 ") == std::string::npos) s["ENDPOINT_GROUP"] += "5 "; }); add("endpoint -1", [](hxhim_t *h) { return hxhim_add_endpoint_to_group(h, -1); }, nullptr);
    add("async 4", [](hxhim_t *h) { return hxhim_set_start_async_puts_at(h, 4); }, set("START_ASYNC_PUTS_AT", "4 on")); add("async 0", [](hxhim_t *h) { return hxhim_set_start_async_puts_at(h, 0); }, set("START_ASYNC_PUTS_AT", "0 off"));
    add("max ops", [](hxhim_t *h) { return hxhim_set_maximum_ops_per_request(h, 14); }, set("MAXIMUM_OPS_PER_REQUEST", "14")); add("max ops 0", [](hxhim_t *h) { return hxhim_set_maximum_ops_per_request(h, 0); }, nullptr); add("max size", [](hxhim_t *h) { return hxhim_set_maximum_size_per_request(h, 15); }, set("MAXIMUM_SIZE_PER_REQUEST", "15"));
    add("first n", [](hxhim_t *h) { return hxhim_set_histogram_first_n(h, 16); }, set("HISTOGRAM_FIRST_N", "16")); add("generator", [](hxhim_t *h) { return hxhim_set_histogram_bucket_gen_name(h, "RICE_RULE"); }, set("HISTOGRAM_BUCKET_GEN_NAME", gen("RICE_RULE"))); add("bad generator", [](hxhim_t *h) { return hxhim_set_histogram_bucket_gen_name(h, "nothing"); }, nullptr);
    add("no generator", [](hxhim_t *h) { return hxhim_set_histogram_bucket_gen_function(h, nullptr, nullptr); }, nullptr);
    add("track", [](hxhim_t *h) { return hxhim_add_histogram_track_predicate(h, "zz", 2); }, [](St &s) { if (s["HISTOGRAM_TRACK_PREDICATES"].find("<zz>") == std::string::npos) s["HISTOGRAM_TRACK_PREDICATES"] += "<zz>"; });
    add("histograms off", [](hxhim_t *h) { return hxhim_datastore_histograms(h, 0, 0); }, [](St &s) { s["HISTOGRAM_READ_EXISTING"] = s["HISTOGRAM_WRITE_AT_EXIT"] = "0"; }); add("histograms read", [](hxhim_t *h) { return hxhim_datastore_histograms(h, 1, 0); }, [](St &s) { s["HISTOGRAM_READ_EXISTING"] = "1"; s["HISTOGRAM_WRITE_AT_EXIT"] = "0"; });
    add("numeric", [](hxhim_t *h) { return hxhim_set_transform_numeric_values(h, '-', '@', 5, 11); }, [](St &s) { s["ELEN_NEG_SYMBOL"] = num('-'); s["ELEN_POS_SYMBOL"] = num('@'); s["ELEN_ENCODE_FLOAT_PRECISION"] = "5"; s["ELEN_ENCODE_DOUBLE_PRECISION"] = "11"; });
    return v;
}
static void options(int depth) {
    begin(); Setup u; int s = mc::choose(NSRC + 1); if (s < NSRC) for (auto &k : K) u.src[s][k.key] = k.vals[0].text;
    install(u); hxhim_t h; int rc = hxhim::Init(&h, MPI_COMM_WORLD); uninstall(); MC_CHECK(rc == HXHIM_SUCCESS, "init", "Init failed");
    St want = DEFAULTS; applyc(want, merged(u)); auto C = calls(); std::string what = s < NSRC ? std::string("all settings in ") + SRC[s] : "defaults";
    for (int i = 0; i < depth; i++) { Call &c = C[mc::choose(C.size())]; int r = c.f(&h); what += std::string("; set ") + c.what; mc::note("%s", what.c_str()); mc::transition();
        MC_CHECK((r == HXHIM_SUCCESS) == !!c.m, std::string("option-") + (c.m ? "refused" : "accepted"), "%s: returned %d", what.c_str(), r); if (c.m) c.m(want); compare(settings(h), want, what); }
    finish(&h);
}
// what an opened session then does: kind, number and names of the datastores, ratio, hash
static bool exists(const std::string &p) { struct stat s; return !stat(p.c_str(), &s); }
static void opened() {
    begin(); fmpi::reset(1, true); fmpi::set_rank(0); if (system("/bin/rm -rf ./d1 './d 2' ./adir ./hxhim-0 ./n*")) {} mkdir("d1", 0700); mkdir("d 2", 0700);
    static const char *T[] = {nullptr, "IN_MEMORY", "LEVELDB", "ROCKSDB"}, *PRE[] = {"./d1", "./d 2"}, *BASE[] = {"nn", "n m"}, *POST[] = {nullptr, "", ".db"}, *N[] = {nullptr, "3"};
    int t = mc::choose(4), st = mc::choose(NSRC), pre = mc::choose(2), sp = mc::choose(NSRC), base = mc::choose(2), post = mc::choose(3), n = mc::choose(2), over = mc::choose(2); Setup u;
    if (T[t]) u.src[st]["DATASTORE"] = T[t]; u.src[sp]["DATASTORE_PREFIX"] = PRE[pre]; u.src[(sp + 1) % NSRC]["DATASTORE_BASENAME"] = BASE[base]; if (POST[post]) u.src[st]["DATASTORE_POSTFIX"] = POST[post]; if (N[n]) u.src[sp]["DATASTORES_PER_SERVER"] = N[n];
    if (over && sp) u.src[0]["DATASTORE_PREFIX"] = "./nowhere"; if (over && st) u.src[0]["DATASTORE_POSTFIX"] = ".zz"; if (over && (sp || st)) u.src[0]["CLIENT_RATIO"] = "5";
    Conf m = merged(u); mc::note("%s", show(u).c_str()); install(u); hxhim_t h; int rc = hxhim::Init(&h, MPI_COMM_WORLD); uninstall(); MC_CHECK(rc == HXHIM_SUCCESS, "init", "Init failed");
    rc = hxhim::Open(&h); MC_CHECK(rc == HXHIM_SUCCESS, "open", "%s: Open failed", show(u).c_str());
    std::size_t cnt = 0; int want = n ? 3 : 1; hxhim::GetDatastoreCount(&h, &cnt); MC_CHECK(cnt == (std::size_t) want, "count", "%zu datastores", cnt);
    std::size_t c = 0, s = 0; hxhim::GetRangeServerClientToServerRatio(&h, &c, &s); MC_CHECK(c == (m.count("CLIENT_RATIO") ? 5 : 2) && s == 1, "ratio", "ratio %zu:%zu", c, s);
    const char *hn = nullptr; hxhim::GetHash(&h, &hn, nullptr, nullptr); MC_CHECK(hn && !strcmp(hn, "RANK_MOD_DATASTORES"), "hash", "hash %s", hn);
    std::string kind = m.count("DATASTORE") ? m["DATASTORE"] : "LEVELDB";
    for (int i = 0; i < 4; i++) { std::string d = m["DATASTORE_PREFIX"] + "/" + m["DATASTORE_BASENAME"] + "-" + num(i) + (m.count("DATASTORE_POSTFIX") ? m["DATASTORE_POSTFIX"] : "");
        bool there = exists(d), should = kind != "IN_MEMORY" && i < want; MC_CHECK(there == should, "datastore-files", "%s: %s %s", show(u).c_str(), d.c_str(), there ? "exists" : "does not exist");
        if (should) { bool rocks = exists(d + "/IDENTITY"); MC_CHECK(rocks == (kind == "ROCKSDB"), "datastore-kind", "%s is not a %s datastore", d.c_str(), kind.c_str()); } }
    finish(&h); mc::transition();
}
int main(int argc, char **argv) {
    auto &e = mc::E(); e.property = "C17";
    e.rule = "Every documented setting, with valid and invalid values, is given in every subset of hxhim.conf, the HXHIM_CONFIG file and the environment, alone, in pairs, and with all others; after Init all settings of the session are compared with a last-writer-wins model applied to the documented defaults. Option calls afterwards, and the datastores an opened session creates, are compared as well.";
    e.assumptions = {"the settings of a session that has not been opened are read from its private record", "the MPI transport needs NUM_LISTENERS from the same sources; the NULL transport always uses RANK_MOD_DATASTORES (it keeps every operation local)"};
    define(); documented_defaults();
    mc::space("one setting, any sources", "every key, every value or none in each of the 3 sources", single);
    mc::space("all settings, one missing or not valid", "every key x missing / not valid", complete);
    mc::space("sources that are missing", "3 x 5 x 2", missing);
    mc::space("text of a file", "2 lines of 15 forms, both files, with and without a final newline", [] { text(2); });
    mc::space("option calls", "every sequence of 2 calls after each source", [] { options(2); });
    mc::space("opened session", "kind, prefix, basename, postfix and number in every source", opened).fork_each = false;
    mc::space("two settings", "every pair of keys, 3 values each, every placement", [] { pairs(3); });
    mc::space("two settings, all values", "every pair of keys, every value, every placement", [] { pairs(9); }).only_tier = 2;
    mc::space("text of a file, 3 lines", "3 lines of 15 forms", [] { text(3); }).only_tier = 2;
    mc::space("option calls, 3", "every sequence of 3 calls", [] { options(3); }).only_tier = 2;
    auto &t3 = mc::space("three settings", "every triple of keys, one valid and one invalid value each, every placement", triples); t3.only_tier = 2; t3.budget_s = 1200;
    return mc::run(argc, argv);
}
