// flavour: mc
// extra: lib/fakelog.cpp lib/sched.cpp
// C07: operations of several ranks over the message transport behave as local ones.  Every rank is a thread of this
// process that runs the real session code with the real MPI transport over an in-process MPI; all threads of all
// ranks run under a controlled scheduler.
#include "model.hpp"
#include "sched.hpp"
#include "utils/memory.hpp"
#include <thread>
using namespace hx;

struct Conf { int ranks = 2, client = 1, server = 1, per = 1, listeners = 1; bool eager = true; int max_ops = 128, async = 0, backend = MEM; };
static std::string show(const Conf &c) { char b[200]; snprintf(b, sizeof b, "%d ranks, ratio %d:%d, %d datastores per server, %d listeners, %s, %d per request, background PUTs from %d, %s", c.ranks, c.client, c.server, c.per, c.listeners, c.eager ? "eager" : "rendezvous", c.max_ops, c.async, bname(c.backend)); return b; }
static int servers(const Conf &c) { int n = 0; for (int r = 0; r < c.ranks; r++) if (c.client <= c.server || r % c.client < c.server) n++; return n; }
// one thread per rank
template <typename F> static void ranks(const Conf &c, F body) {
    std::vector<std::thread> th; int me = fmpi::rank();
    for (int r = 0; r < c.ranks; r++) { fmpi::set_rank(r); th.emplace_back([&body, r] { body(r); }); }
    fmpi::set_rank(me); for (auto &t : th) t.join();
}
static Opt options(const Conf &c, const std::string &dir) {
    Opt o; o.backend = c.backend; o.dir = dir; o.datastores = c.per; o.client = c.client; o.server = c.server; o.mpi = true; o.listeners = c.listeners; o.max_ops = c.max_ops; o.async = c.async;
    o.hash = "SUM_MOD_DATASTORES"; o.track = {"p"}; o.first_n = 64; return o;
}
static Key key(int rank, int i) { return Key(B(std::string(1, 'a' + rank) + std::string(1, 'A' + i)), i % 2 ? B("p") : B("q")); }   // neighbouring i are on neighbouring datastores
static QOp op(int kind, const Key &k, const V &v = V()) { QOp q; q.kind = kind; q.s = k.first; q.p = k.second; q.o = v; return q; }
// queues operations of one or several kinds, flushes them with one call and compares every result with the model
static void perform(Session &x, Model &m, const std::vector<QOp> &ops, bool whole, const char *what) {
    std::map<int, std::vector<QOp>> kinds; for (auto &q : ops) { HX_QUEUED(enqueue(x, q), "op"); kinds[q.kind].push_back(q); }
    for (int k : {KPUT, KGET, KGETOP, KDEL, KHIST}) if (kinds.count(k) && !whole) {
        Recs r = k == KPUT ? x.flush_puts() : k == KGET ? x.flush_gets() : k == KGETOP ? x.flush_getops() : k == KDEL ? x.flush_dels() : x.flush_hists();
        size_t at = 0; check_flush(m, kinds[k], r, at, what); MC_CHECK(at == r.size(), std::string(what) + "-extra-result", "%s: %zu results expected, got %s", what, at, show(r).c_str());
    }
    if (whole) {
        Recs r = x.flush(); std::stable_sort(r.begin(), r.end(), [](const Rec &a, const Rec &b) { return a.op < b.op; });
        size_t at = 0; for (auto &k : kinds) { while (at < r.size() && r[at].op < k.first) at++; check_flush(m, k.second, r, at, what); }
        MC_CHECK(at == r.size(), std::string(what) + "-extra-result", "%s: %zu results expected, got %s", what, at, show(r).c_str());
    }
}
static void sync(Session &x, const char *what) { Recs r = x.sync(); size_t n = 0; for (auto &e : r) { if (e.op == HXHIM_SYNC) { n++; MC_CHECK(e.ok(), "sync-failed", "%s: %s", what, show(e).c_str()); } else if (e.op != HXHIM_PUT) mc::fail("sync-extra-result", "%s: Sync returned %s", what, show(r).c_str()); } (void) n; }
static void finished(const Conf &c) {
    MC_CHECK(fmpi::pending() == 0, "message-left", "%s: %zu messages were sent and never received", show(c).c_str(), fmpi::pending());
    MC_CHECK(fmpi::active_requests() == 0, "request-left", "%s: %zu communication requests were neither completed nor freed", show(c).c_str(), fmpi::active_requests());
}
// several phases of operations, each compared with the model; a Sync of all ranks between phases
static void phases(const Conf &c, int delays, int nkeys) {
    mc::note("%s", show(c).c_str()); fmpi::reset(c.ranks, c.eager); std::string dir = mc::fresh_dir("d");
    std::vector<Model> M(c.ranks); int total = servers(c) * c.per; std::vector<std::string> outs(c.ranks);
    sched::load_points = false; sched::begin_delays(std::max(delays, 0)); if (delays < 0) fmpi::choose_source = nullptr;
    ranks(c, [&](int r) {
        Session x; x.start(options(c, dir)); Model &m = M[r]; m.use(x);
        std::vector<QOp> w; for (int i = 0; i < nkeys; i++) w.push_back(op(KPUT, key(r, i), D(100 * r + i))); w.push_back(op(KPUT, key(r, 0), B("again" + std::to_string(r))));
        w[1].perm = HXHIM_PUT_SPO | HXHIM_PUT_PSO;
        if (c.async) { for (auto &q : w) HX_QUEUED(enqueue(x, q), "op"); Recs p = x.flush_puts(); size_t n = 0; for (auto &q : w) for (auto &one : permuted(q)) { n++; m.step(one); } MC_CHECK(p.size() == n, "put-results", "rank %d: %zu background PUTs gave %s", r, n, show(p).c_str()); for (auto &e : p) MC_CHECK(e.ok() && e.op == HXHIM_PUT, "put-failed", "rank %d: %s", r, show(e).c_str()); }
        else perform(x, m, w, r & 1, "PUT");
        sync(x, "after PUT");
        for (int o = 0; o < c.ranks; o++) if (o != r) { for (int i = 0; i < nkeys; i++) { for (auto &one : permuted([&] { QOp q = op(KPUT, key(o, i), D(100 * o + i)); if (i == 1) q.perm = HXHIM_PUT_SPO | HXHIM_PUT_PSO; return q; }())) m.step(one); } m.step(op(KPUT, key(o, 0), B("again" + std::to_string(o)))); }
        std::vector<QOp> rd; for (int o = 0; o < c.ranks; o++) { for (int i = 0; i < nkeys; i++) rd.push_back(op(KGET, key(o, i))); QOp g = op(KGETOP, key(o, 1)); g.op = HXHIM_GETOP_NEXT; g.n = 3; rd.push_back(g); g.op = HXHIM_GETOP_LAST; g.n = 2; rd.push_back(g); g.op = HXHIM_GETOP_EQ; rd.push_back(g); }
        rd.push_back(op(KGET, Key(B("no"), B("such")))); for (int d = 0; d < total; d++) { QOp h; h.kind = KHIST; h.hds = d; h.name = d % 3 == 2 ? "unknown" : "p"; rd.push_back(h); }
        perform(x, m, rd, true, "reads"); sync(x, "after reads");
        std::vector<QOp> ch = {op(KDEL, key(r, 1)), op(KDEL, key(r, 0))}; perform(x, m, ch, false, "DELETE"); ch = {op(KPUT, key(r, 1), I64(r))}; perform(x, m, ch, true, "PUT again");
        sync(x, "after DELETE");
        for (int o = 0; o < c.ranks; o++) if (o != r) { m.step(op(KDEL, key(o, 1))); m.step(op(KDEL, key(o, 0))); m.step(op(KPUT, key(o, 1), I64(o))); }
        std::vector<Key> all; for (int o = 0; o < c.ranks; o++) for (int i = 0; i < nkeys; i++) all.push_back(key(o, i)); check_contents(x, m, all, "finally");
        MC_CHECK(x.close() == HXHIM_SUCCESS, "close", "rank %d: Close failed", r);
    });
    sched::end(); finished(c);
    mc::transition(sched::steps()); mc::state(show(c)); mc::outcome(mc::hash(show(c)) ^ mc::mix(sched::switches)); sched::switches = 0;
}
// short programs, many schedules
enum Prog { PUT_CLOSE, SHARED, READ_BACK, MIXED, OVERLAP, NPROG };
static const char *PN[] = {"PUT, flush, close", "PUT and GET of one key by all ranks, Sync, GET", "PUT, Sync, GET of the other ranks' keys, close", "PUT, GETOP, DELETE, HISTOGRAM in one flush, close", "PUT, Sync, then other PUTs, and reads that are not preceded by a flush of the PUTs, close"};
static void schedules(Conf c, int prog, int delays, int sources = 1) {
    mc::note("%s: %s", show(c).c_str(), PN[prog]); fmpi::reset(c.ranks, c.eager); std::string dir = mc::fresh_dir("d"); std::vector<Model> M(c.ranks); std::vector<Rec> last(c.ranks);
    sched::load_points = false; sched::begin_delays(delays); if (!sources) fmpi::choose_source = nullptr; sched::paid_sources = sources == 2;
    ranks(c, [&](int r) {
        Session x; x.start(options(c, dir)); Model &m = M[r]; m.use(x); int n = servers(c) * c.per, k = n > 2 ? n : 2;
        if (prog == SHARED) {
            Key s = key(0, c.per); HX_QUEUED(x.put(s.first, s.second, I64(r)), "put"); if (r & 1) { Recs p = x.flush_puts(); MC_CHECK(p.size() == 1 && p[0].ok() && p[0].s == s.first && p[0].p == s.second, "shared-put", "rank %d: %s", r, show(p).c_str()); }
            HX_QUEUED(x.get(s.first, s.second, HXHIM_DATA_INT64), "get"); Recs g = x.flush(); size_t want = r & 1 ? 1 : 2; MC_CHECK(g.size() == want, "shared-results", "rank %d: %s", r, show(g).c_str());
            for (auto &e : g) { MC_CHECK(e.ok() && e.s == s.first && e.p == s.second, "shared-failed", "rank %d: %s", r, show(e).c_str()); if (e.op == HXHIM_GET) { bool known = false; for (int i = 0; i < c.ranks; i++) known = known || e.o == I64(i); MC_CHECK(known, "shared-value", "rank %d read %s", r, show(e).c_str()); } }
            sync(x, "shared"); HX_QUEUED(x.get(s.first, s.second, HXHIM_DATA_INT64), "get"); g = x.flush_gets(); MC_CHECK(g.size() == 1 && g[0].ok(), "shared-get", "rank %d: %s", r, show(g).c_str()); last[r] = g[0];
        } else if (prog == OVERLAP) { // with background PUTs both threads of a rank exchange messages at the same time
            std::vector<QOp> w, rd; for (int i = 0; i < k; i++) { w.push_back(op(KPUT, key(r, i), D(i))); rd.push_back(op(KGET, key(r, i))); }
            if (c.async) { for (auto &q : w) { HX_QUEUED(enqueue(x, q), "op"); m.step(q); } Recs p = x.flush_puts(); MC_CHECK(p.size() == w.size(), "put-results", "rank %d: %s", r, show(p).c_str()); } else perform(x, m, w, false, "PUT");
            for (int i = 0; i < k; i++) { HX_QUEUED(x.put(B(std::string(1, 'a' + r) + std::string(1, 'P' + i)), B("q"), I64(i)), "put"); }
            perform(x, m, rd, false, "GET"); Recs p = x.flush_puts(); MC_CHECK(p.size() == (size_t) k, "put-results", "rank %d: %s", r, show(p).c_str());
            for (auto &e : p) MC_CHECK(e.ok() && e.op == HXHIM_PUT && e.s.b.size() == 2 && e.s.b[0] == 'a' + r && e.s.b[1] >= 'P', "put-wrong-result", "rank %d: %s", r, show(p).c_str());
        } else {
            std::vector<QOp> w; for (int i = 0; i < k; i++) w.push_back(op(KPUT, key(r, i), D(100 * r + i)));
            if (c.async) { for (auto &q : w) { HX_QUEUED(enqueue(x, q), "op"); m.step(q); } if (prog != PUT_CLOSE) { Recs p = x.flush_puts(); MC_CHECK(p.size() == w.size(), "put-results", "rank %d: %s", r, show(p).c_str()); } }
            else if (prog != MIXED) perform(x, m, w, false, "PUT");
            if (prog == READ_BACK) { sync(x, "after PUT"); int o = (r + 1) % c.ranks; std::vector<QOp> rd; for (int i = 0; i < k; i++) { m.step(op(KPUT, key(o, i), D(100 * o + i))); rd.push_back(op(KGET, key(o, i))); } perform(x, m, rd, true, "GET"); }
            if (prog == MIXED) { w.push_back(op(KGET, key(r, 0))); QOp g = op(KGETOP, key(r, 1)); g.op = HXHIM_GETOP_EQ; w.push_back(g); w.push_back(op(KDEL, key(r, 1))); QOp h; h.kind = KHIST; h.hds = n - 1; h.name = "p"; w.push_back(h); perform(x, m, w, true, "mixed"); }
        }
        MC_CHECK(x.close() == HXHIM_SUCCESS, "close", "rank %d: Close failed", r);
    });
    sched::end(); finished(c);
    if (prog == SHARED) for (int r = 1; r < c.ranks; r++) MC_CHECK(last[r].o == last[0].o, "shared-agreement", "after Sync rank 0 reads %s and rank %d reads %s", show(last[0]).c_str(), r, show(last[r]).c_str());
    mc::transition(sched::steps()); mc::state(show(c) + PN[prog] + (prog == SHARED ? show(last[0].o) : "")); mc::outcome(mc::hash(show(c) + PN[prog]) ^ mc::mix(sched::switches)); sched::switches = 0;
}
static Conf many() { // more than two remote servers for a rank with and without a server of its own
    Conf c; c.ranks = 4; static const int ratios[][2] = {{1, 1}, {4, 3}}; int k = mc::choose(2); c.client = ratios[k][0]; c.server = ratios[k][1]; c.per = 1 + mc::choose(2); c.eager = !mc::choose(2); c.max_ops = mc::choose(2) ? 1 : 128; c.async = mc::choose(2) ? 1 : 0; return c;
}
static Conf choose_conf(int max_ranks) {
    Conf c; c.ranks = 1 + mc::choose(max_ranks); static const int ratios[][2] = {{1, 1}, {2, 1}, {3, 1}, {3, 2}, {1, 2}}; int k = mc::choose(5); c.client = ratios[k][0]; c.server = ratios[k][1];
    c.per = 1 + mc::choose(2); c.listeners = 1 + mc::choose(2); c.eager = !mc::choose(2); c.max_ops = mc::choose(2) ? 1 : 128; c.async = mc::choose(2) ? 1 : 0; return c;
}
int main(int argc, char **argv) {
    mc::E().property = "C07"; clean_env(); bool t = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) t = true;
    mc::space("phases", "1..3 (thorough 4) ranks x 5 ratios x 1..2 datastores per server x 1..2 listeners x eager or rendezvous x 1 or 128 operations per request x background PUTs or not: four phases of PUT, reads, DELETE, reads by all ranks; the default schedule, up to 2 ranks every choice of message source", [=] { Conf c = choose_conf(t ? 4 : 3); phases(c, c.ranks > 2 ? -1 : 0, 4); });
    mc::space("phases, 4 ranks", "4 ranks x ratio 1:1 or 4:3 x 1..2 datastores per server x eager or rendezvous x 1 or 128 operations per request x background PUTs or not: as phases, one schedule", [] { phases(many(), -1, 6); });
    mc::space("phases, LevelDB", "1..2 ranks x 5 ratios x 1..2 datastores per server x 1..2 listeners x eager or rendezvous x 1 or 128 operations per request x background PUTs or not, LevelDB", [=] { Conf c = choose_conf(2); c.backend = LDB; phases(c, 0, 3); });
    mc::space("phases, schedules", "as phases for 2 ranks, ratio 1:1 and 2:1, one (thorough also two) datastores per server, all schedules with 1 deviation", [=] { Conf c; c.client = 1 + mc::choose(2); c.per = t ? 1 + mc::choose(2) : 1; c.listeners = 2; c.eager = !mc::choose(2); c.async = mc::choose(2); phases(c, 1, 2); });
    mc::space("schedules", "5 programs x 2 ranks x ratio 1:1 or 2:1 x 1..2 datastores per server x as many listeners (thorough: 1..2) x eager or rendezvous x background PUTs or not; all schedules with up to 1 (thorough 2) deviations from round robin", [=] { Conf c; int p = mc::choose(NPROG); c.client = 1 + mc::choose(2); c.per = 1 + mc::choose(2); c.listeners = t ? 1 + mc::choose(2) : c.per; c.eager = !mc::choose(2); c.async = mc::choose(2); c.max_ops = c.async ? 1 : 128; schedules(c, p, t ? 2 : 1); }).budget_s = t ? 2400 : 0;
    mc::space("schedules, 3 ranks", "5 programs x 3 ranks x ratio 1:1, 3:1 (thorough also 2:1) x eager or rendezvous x (thorough) background PUTs or not; all schedules with 1 deviation (thorough: and all choices of message source)", [=] { Conf c; c.ranks = 3; int p = mc::choose(NPROG); c.client = t ? 1 + mc::choose(3) : 1 + 2 * mc::choose(2); c.eager = !mc::choose(2); c.async = t ? mc::choose(2) : 0; c.max_ops = c.async ? 1 : 128; schedules(c, p, 1, t); });
    mc::space("schedules and sources, 3 ranks", "a PUT of all ranks to all ranks, ratio 1:1, eager or rendezvous: every choice of message source and up to 1 deviation; thorough: a PUT, then a PUT and a GET, up to 2 deviations and other sources than the lowest", [=] { Conf c; c.ranks = 3; c.eager = !mc::choose(2); if (t) schedules(c, OVERLAP, 2, 2); else schedules(c, PUT_CLOSE, 1); }).budget_s = t ? 2000 : 0;
    mc::space("schedules, deep", "one PUT and GET of one key by 2 ranks, one a server: all schedules with up to 2 deviations (thorough 3)", [=] { Conf c; c.client = 2; c.eager = !mc::choose(2); schedules(c, SHARED, t ? 3 : 2); });
    mc::E().assumptions = {"an MPI whose messages between two ranks do not overtake each other and whose calls may come from any thread; sends complete at once (eager) or when received (rendezvous)", "sequentially consistent memory within a rank; races between threads of one rank are reported", "atomic reads are not scheduling points: polls are", "the set of ranks with a server, and where keys are stored, is decided in C09"};
    return mc::run(argc, argv);
}
