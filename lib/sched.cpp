// Controlled scheduler: pthread create/join/mutex/condition calls of the executable are replaced.  While control
// is on, exactly one thread holds the token; mutexes and conditions are modelled (never really locked), so the
// scheduler knows which threads are enabled.  fakempi reports failed polls (wait), things that may end a wait
// (event) and calls (point).
//
// In the mc flavour the library is compiled with -fsanitize=thread, and the hooks the compiler emits are
// implemented here: a vector-clock race detector with byte-precise shadow memory.  Happens-before comes from
// mutexes, conditions, thread creation and join, atomics, and MPI messages.  Threads of different (simulated)
// ranks never conflict.  Freed memory is kept until the execution ends, and any access to it is a failure.
#include "sched.hpp"
#include "mc.hpp"
#include "fakempi.hpp"
#include <atomic>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <time.h>

namespace sched {
enum { MAXT = 16, MAXOBJ = 16384 };
typedef uint32_t Clk;
struct VC { Clk c[MAXT]; };
static inline void vjoin(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

enum State { RUN, BMUTEX, BCOND, BJOIN, BEVENT, DONE };
static const char *SN[] = {"runnable", "waiting for a mutex", "waiting for a condition", "joining", "polling", "ended"};
struct T { State st; void *obj; void *mtx; int target; unsigned long seen; sem_t go; pthread_t id; int rank; VC vc; bool joined; };
static T t[MAXT]; static int nt = 0, cur = 0, preempt_left = 0, spurious_left = 0; static long step_count = 0, step_max = 0; static std::atomic<bool> on{false};
static unsigned long events[64]; static long idle_steps = 0;
static bool delay_mode = false; static thread_local int me = -1; static thread_local int ign = 0;
unsigned long accesses = 0, switches = 0;
bool paid_sources = false;
bool detect_races = true, load_points = true;

// modelled objects: mutexes, conditions, atomics, messages
struct Obj { void *p; int owner; VC vc; unsigned gen; };
static Obj objs[MAXOBJ]; static unsigned objgen = 1;
static Obj &obj(void *p) {
    size_t i = (mc::mix((uint64_t) p)) % MAXOBJ;
    for (int k = 0; k < MAXOBJ; k++, i = (i + 1) % MAXOBJ) { Obj &o = objs[i]; if (o.gen != objgen) { o.p = p; o.owner = -1; o.gen = objgen; memset(&o.vc, 0, sizeof o.vc); return o; } if (o.p == p) return o; }
    fprintf(stderr, "sched: too many objects\n"); abort();
}
static void acquire(VC &v) { vjoin(t[me].vc, v); }
static void release(VC &v) { vjoin(v, t[me].vc); t[me].vc.c[me]++; }
static void release_store(VC &v) { v = t[me].vc; t[me].vc.c[me]++; }

// calls made by the embedded databases themselves are not modelled: control never passes to another thread
// while one of them runs, so their own locks are free whenever they ask for them
static struct { uint64_t lo, hi; } forn[8]; static int nforn = -1;
static bool foreign(void *pc) { for (int i = 0; i < nforn; i++) if ((uint64_t) pc >= forn[i].lo && (uint64_t) pc < forn[i].hi) return true; return false; }
static int find_foreign(struct dl_phdr_info *i, size_t, void *) {
    if (!i->dlpi_name || (!strstr(i->dlpi_name, "leveldb") && !strstr(i->dlpi_name, "rocksdb") && !strstr(i->dlpi_name, "libsnappy"))) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && nforn < 8 && (i->dlpi_phdr[k].p_flags & PF_X)) { forn[nforn].lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; forn[nforn].hi = forn[nforn].lo + i->dlpi_phdr[k].p_memsz; nforn++; }
    return 0;
}
struct Ign { Ign() { ign++; } ~Ign() { ign--; } };
bool active() { return on && me >= 0; }
static std::string states() { std::string s; for (int i = 0; i < nt; i++) { char b[160]; snprintf(b, sizeof b, "%sthread %d (rank %d): %s", i ? "; " : "", i, t[i].rank, SN[t[i].st]); s += b; if (t[i].st == BMUTEX) { snprintf(b, sizeof b, " held by %d", obj(t[i].obj).owner); s += b; } } return s; }

static bool enabled(int i) {
    switch (t[i].st) {
        case RUN: return true;
        case BMUTEX: return obj(t[i].obj).owner < 0;
        case BCOND: return false;
        case BJOIN: return t[t[i].target].st == DONE;
        case BEVENT: return events[t[i].rank & 63] != t[i].seen;
        default: return false;
    }
}
static void hand_over(int to) {
    if (to == cur) return;
    int from = cur; cur = to; switches++;
    sem_post(&t[to].go);
    if (t[from].st != DONE) while (sem_wait(&t[from].go) && errno == EINTR) {}
}
// the running thread either could go on (a point) or has just blocked; picks who runs next
static void reschedule(const char *what) {
    Ign g;
    mc::beat();
    if (++step_count > step_max) mc::fail("livelock", "more than %ld steps without ending (%s): %s", step_max, what, states().c_str());
    int cand[MAXT * 2], n = 0; bool self = enabled(me);
    if (self) cand[n++] = me;
    if (delay_mode) { // round robin; every deviation from it is paid for
        if (!self || preempt_left > 0) for (int k = 1; k < nt; k++) { int i = (me + k) % nt; if (enabled(i)) cand[n++] = i; }
        if (preempt_left <= 0 && n > 1) n = 1;
    } else
    if (!self || preempt_left > 0) for (int i = 0; i < nt; i++) if (i != me && enabled(i)) cand[n++] = i;
    int real = n;
    if (spurious_left > 0 && (!self || preempt_left > 0)) for (int i = 0; i < nt; i++) if (t[i].st == BCOND && obj(t[i].mtx).owner < 0) cand[n++] = i; // wakes up without a notification
    if (!real) mc::fail("deadlock", "no thread can go on (%s): %s", what, states().c_str());
    int k = n > 1 ? mc::choose(n, what) : 0, to = cand[k];
    if (k >= real) { spurious_left--; t[to].st = BMUTEX; t[to].obj = t[to].mtx; }
    if (to != me) { if (self || (delay_mode && k)) preempt_left--; if (n > 1) mc::note("%s of thread %d -> thread %d", what, me, to); }
    if (t[to].st != DONE) t[to].st = RUN;
    hand_over(to);
}
void point(const char *what) { if (active()) reschedule(what); }
long steps() { return step_count; }
int threads() { return nt; }
void ignore(int d) { ign += d; }

// ---- race detector -------------------------------------------------------------------------------
struct Acc { Clk clk; uint8_t tid, mask, wr, at; void *pc; };
enum { NA = 6 };
struct Gran { uint32_t gen; uint16_t n; uint16_t freed; Acc a[NA]; void *freepc; };
struct Page { uint64_t base; Page *next; Gran g[512]; };
enum { PH = 1 << 14 };
static Page *pages[PH]; static uint32_t sgen = 1;
static Page *page_of(uint64_t addr, bool make) {
    uint64_t b = addr >> 12; size_t h = mc::mix(b) & (PH - 1);
    for (Page *p = pages[h]; p; p = p->next) if (p->base == b) return p;
    if (!make) return nullptr;
    Page *p = (Page *) mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) abort();
    p->base = b; p->next = pages[h]; pages[h] = p; return p;
}
static thread_local Page *last_page = nullptr;
static inline Gran &gran(uint64_t addr) {
    Page *p = last_page; if (!p || p->base != addr >> 12) p = last_page = page_of(addr, true);
    Gran &g = p->g[(addr & 4095) >> 3];
    if (g.gen != sgen) { g.gen = sgen; g.n = 0; g.freed = 0; }
    return g;
}
static std::string fn(void *pc) {
    Dl_info d; if (!pc || !dladdr((char *) pc - 1, &d) || !d.dli_sname) return "?";
    int st; char *x = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); std::string s = st == 0 && x ? x : d.dli_sname; free(x);
    // drop arguments and template arguments
    std::string r; int depth = 0; for (char c : s) { if (c == '<') depth++; else if (c == '>') depth--; else if (c == '(' && !depth && r.find("operator") == std::string::npos) break; else if (!depth) r += c; }
    size_t sp = r.rfind(' '); if (sp != std::string::npos && r.find("operator") == std::string::npos) r = r.substr(sp + 1);
    return r;
}
static void race(const Acc &o, void *pc, bool wr, bool at, uint64_t addr) {
    std::string a = fn(o.pc), b = fn(pc); std::string x = a < b ? a + " and " + b : b + " and " + a;
    mc::fail("race:" + x, "data race at %p: thread %d %s%s in %s, thread %d %s%s in %s, not ordered by synchronisation", (void *) addr, o.tid, o.at ? "atomic " : "", o.wr ? "wrote" : "read", a.c_str(), me, at ? "atomically " : "", wr ? "writes" : "reads", b.c_str());
}
static void touch(uint64_t addr, uint8_t mask, bool wr, bool at, void *pc) { // within one granule
    Gran &g = gran(addr); T &m = t[me]; Clk now = m.vc.c[me];
    if (g.freed) { Ign i; mc::fail("use-after-free:" + fn(pc) + " after " + fn(g.freepc), "thread %d %s memory released by %s in %s", me, wr ? "writes" : "reads", fn(g.freepc).c_str(), fn(pc).c_str()); }
    int keep = 0; bool covered = false;
    for (int i = 0; i < g.n; i++) {
        Acc &o = g.a[i];
        if (o.tid == me) {
            if (o.clk == now && (o.mask & mask) == mask && o.wr >= (uint8_t) wr && o.at == (uint8_t) at) covered = true;
            if (!(((mask & o.mask) == o.mask) && (uint8_t) wr >= o.wr && !at) || covered) g.a[keep++] = o;
            continue;
        }
        if ((o.mask & mask) && (o.wr || wr) && !(o.at && at) && t[o.tid].rank == m.rank && o.clk > m.vc.c[o.tid]) { Ign ig; race(o, pc, wr, at, addr); }
        bool before = o.clk <= m.vc.c[o.tid];
        if (before && wr && (mask & o.mask) == o.mask) continue; // superseded
        if (before && !wr && !o.wr && (mask & o.mask) == o.mask) continue; // every later conflicting access that is ordered after this one is ordered after that one
        g.a[keep++] = o;
    }
    g.n = keep;
    if (!covered) { if (g.n == NA) { memmove(g.a, g.a + 1, sizeof(Acc) * (NA - 1)); g.n--; } Acc &o = g.a[g.n++]; o.clk = now; o.tid = me; o.mask = mask; o.wr = wr; o.at = at; o.pc = pc; }
}
static void range(const void *p, size_t n, bool wr, bool at, void *pc) {
    if (ign || me < 0 || !on || !detect_races || !n) return;
    ign++; accesses++;
    uint64_t a = (uint64_t) p, e = a + n;
    while (a < e) { uint64_t top = (a & ~7ull) + 8; uint64_t stop = e < top ? e : top; uint8_t mask = (uint8_t) (((1u << (stop - a)) - 1) << (a & 7)); touch(a, mask, wr, at, pc); a = stop; }
    ign--;
}
void access(const void *p, size_t n, bool write) { range(p, n, write, false, __builtin_return_address(0)); }
static void forget(const void *p, size_t n) { // fresh memory
    if (!on || !detect_races) return;
    for (uint64_t a = (uint64_t) p & ~7ull; a < (uint64_t) p + n; a += 8) { Page *q = page_of(a, false); if (!q) { a = (a | 4095) - 7; continue; } Gran &g = q->g[(a & 4095) >> 3]; if (g.gen == sgen) { g.n = 0; g.freed = 0; } }
}
static void forget_stack() {
    pthread_attr_t at; void *lo; size_t n; if (pthread_getattr_np(pthread_self(), &at)) return;
    if (!pthread_attr_getstack(&at, &lo, &n)) forget(lo, n);
    pthread_attr_destroy(&at);
}

// ---- hooks of the MPI stand-in ---------------------------------------------------------------------
static void h_wait() {
    if (!active()) { sched_yield(); return; }
    T &m = t[me];
    // a poll that failed: wait until something has happened since the previous failed poll began
    unsigned long &e = events[m.rank & 63]; if (m.seen != e) { m.seen = e; return; }
    m.st = BEVENT; reschedule("poll");
}
static void h_event(int rank) { if (rank >= 0) events[rank & 63]++; else for (auto &e : events) e++; }
static void h_point(const char *w) { if (active()) reschedule(w); }
static void h_ignore(int d) { ign += d; }
static void h_hb(void *key, bool rel) { if (!active()) return; Ign g; Obj &o = obj(key); if (rel) release(o.vc); else acquire(o.vc); }
static void h_error(const char *m) { mc::fail("mpi-misuse", "%s", m); }

void begin_delays(int delays, long max_steps) { begin(delays, 0, max_steps); delay_mode = true; }
void begin(int preemptions, int spurious, long max_steps) {
    delay_mode = false;
    if (nforn < 0) { nforn = 0; dl_iterate_phdr(find_foreign, nullptr); }
    objgen++; sgen++; nt = 1; cur = 0; me = 0; preempt_left = preemptions; spurious_left = spurious; step_count = 0; step_max = max_steps; for (auto &e : events) e = 1;
    static int pinned = -1; // the threads of one worker take turns: they share a core
    if (pinned < 0) { cpu_set_t c, one; pinned = 0; if (!sched_getaffinity(0, sizeof c, &c) && CPU_COUNT(&c) >= mc::E().nslots && mc::E().nslots > 1) { int k = mc::E().slot_id % CPU_COUNT(&c); for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &c) && k-- == 0) { CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); pinned = 1; break; } } }
    memset(&t[0].vc, 0, sizeof t[0].vc); t[0].vc.c[0] = 1; t[0].st = RUN; t[0].rank = fmpi::rank(); t[0].joined = false; t[0].seen = 0; t[0].id = pthread_self(); sem_init(&t[0].go, 0, 0);
    fmpi::wait_hook = h_wait; fmpi::event_hook = h_event; fmpi::point_hook = h_point; fmpi::ignore_hook = h_ignore; fmpi::hb_hook = h_hb; fmpi::access_hook = access; fmpi::error_hook = h_error;
    fmpi::choose_source = [](int n) { if (!active() || (paid_sources && preempt_left <= 0)) return 0; int k = mc::choose(n, "source"); if (k && paid_sources) preempt_left--; return k; };
    mc::E().soft_skip = true; on = true;
}
static void release_quarantine();
void end() {
    Ign g;
    std::string alive; for (int i = 1; i < nt; i++) if (t[i].st != DONE) alive += " " + std::to_string(i);
    if (!alive.empty()) mc::fail("thread-remains", "threads still alive at the end:%s (%s)", alive.c_str(), states().c_str());
    on = false; me = -1; mc::E().soft_skip = false;
    fmpi::wait_hook = nullptr; fmpi::event_hook = nullptr; fmpi::point_hook = nullptr; fmpi::ignore_hook = nullptr; fmpi::hb_hook = nullptr; fmpi::access_hook = nullptr; fmpi::choose_source = nullptr;
    release_quarantine();
}
struct Start { void *(*f)(void *); void *a; int rank, id; };
static void *trampoline(void *p) {
    Start s = *(Start *) p; free(p);
    fmpi::inherit(s.rank);
    if (s.id < 0) return s.f(s.a);
    ign++;
    me = s.id;
    while (sem_wait(&t[me].go) && errno == EINTR) {}
    forget_stack();
    ign--;
    void *r = s.f(s.a);
    { Ign g; obj(&t[me]); release(obj(&t[me]).vc); h_event(-1); t[me].st = DONE; mc::note("thread %d ends", me);
      // another thread goes on
      int self = me; (void) self; reschedule("end"); }
    me = -1;
    return r;
}
} // namespace sched
using namespace sched;

#define REAL(name, type) using RealT = type; static RealT real; if (!real) real = (RealT) dlsym(RTLD_NEXT, name)
extern "C" {
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    REAL("pthread_create", int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *));
    Start *s = (Start *) malloc(sizeof(Start)); s->f = f; s->a = a; s->rank = fmpi::rank(); s->id = -1;
    if (!active()) { int r = real(th, at, trampoline, s); if (r) free(s); return r; }
    Ign g;
    if (nt >= MAXT) { fprintf(stderr, "sched: too many threads\n"); abort(); }
    int id = nt; T &n = t[id]; n.st = RUN; n.rank = fmpi::rank(); n.joined = false; n.seen = 0; n.vc = t[me].vc; n.vc.c[id] = 1; t[me].vc.c[me]++; sem_init(&n.go, 0, 0); nt++;
    s->id = id;
    int r = real(th, at, trampoline, s); if (r) abort();
    n.id = *th;
    mc::note("thread %d makes thread %d", me, id);
    reschedule("create");
    return 0;
}
int pthread_join(pthread_t th, void **ret) {
    REAL("pthread_join", int (*)(pthread_t, void **));
    if (active()) {
        Ign g;
        for (int i = 0; i < nt; i++) if (t[i].id == th && !t[i].joined && i != me) {
            t[me].st = BJOIN; t[me].target = i; reschedule("join");
            t[i].joined = true; acquire(obj(&t[i]).vc); break;
        }
    }
    return real(th, ret);
}
int pthread_detach(pthread_t th) {
    REAL("pthread_detach", int (*)(pthread_t)); return real(th);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    REAL("pthread_mutex_lock", int (*)(pthread_mutex_t *));
    if (!active() || foreign(__builtin_return_address(0))) return real(m);
    Ign g;
    reschedule("lock");
    if (obj(m).owner == me) mc::fail("deadlock", "thread %d locks a mutex it already holds", me);
    while (obj(m).owner >= 0) { t[me].st = BMUTEX; t[me].obj = m; reschedule("lock"); }
    Obj &o = obj(m); o.owner = me; acquire(o.vc);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    REAL("pthread_mutex_trylock", int (*)(pthread_mutex_t *));
    if (!active() || foreign(__builtin_return_address(0))) return real(m);
    Ign g; reschedule("trylock"); Obj &o = obj(m); if (o.owner >= 0) return EBUSY; o.owner = me; acquire(o.vc); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    REAL("pthread_mutex_unlock", int (*)(pthread_mutex_t *));
    if (!active() || foreign(__builtin_return_address(0))) return real(m);
    Ign g; Obj &o = obj(m);
    if (o.owner != me) mc::fail("unlock-not-owner", "thread %d unlocks a mutex held by %d", me, o.owner);
    release_store(o.vc); o.owner = -1;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
    REAL("pthread_mutex_destroy", int (*)(pthread_mutex_t *));
    if (active() && !foreign(__builtin_return_address(0))) { Ign g; if (obj(m).owner >= 0) mc::fail("destroy-locked-mutex", "thread %d destroys a mutex held by %d", me, obj(m).owner); }
    return real(m);
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    Ign g; reschedule("before wait"); Obj &o = obj(m);
    if (o.owner != me) mc::fail("wait-without-mutex", "thread %d waits on a condition without holding its mutex", me);
    release_store(o.vc); o.owner = -1;
    t[me].st = BCOND; t[me].obj = c; t[me].mtx = m; reschedule("wait");
    while (obj(m).owner >= 0) { t[me].st = BMUTEX; t[me].obj = m; reschedule("relock"); }
    Obj &q = obj(m); q.owner = me; acquire(q.vc); acquire(obj(c).vc);
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    REAL("pthread_cond_wait", int (*)(pthread_cond_t *, pthread_mutex_t *));
    if (!active() || foreign(__builtin_return_address(0))) return real(c, m);
    return cond_wait(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    REAL("pthread_cond_timedwait", int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *));
    if (!active() || foreign(__builtin_return_address(0))) return real(c, m, ts);
    return cond_wait(c, m); // time never passes
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
    REAL("pthread_cond_clockwait", int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *));
    if (!active() || foreign(__builtin_return_address(0))) return real(c, m, k, ts);
    return cond_wait(c, m);
}
static int wake(pthread_cond_t *c, bool all) {
    Ign g; reschedule(all ? "broadcast" : "signal");
    release(obj(c).vc);
    int w[MAXT], n = 0; for (int i = 0; i < nt; i++) if (t[i].st == BCOND && t[i].obj == (void *) c) w[n++] = i;
    if (!n) return 0;
    if (!all) { int k = mc::choose(n, "signal"); w[0] = w[k]; n = 1; }
    for (int i = 0; i < n; i++) { t[w[i]].st = BMUTEX; t[w[i]].obj = t[w[i]].mtx; }
    return 0;
}
int pthread_cond_signal(pthread_cond_t *c) { REAL("pthread_cond_signal", int (*)(pthread_cond_t *)); return active() && !foreign(__builtin_return_address(0)) ? wake(c, false) : real(c); }
int pthread_cond_broadcast(pthread_cond_t *c) { REAL("pthread_cond_broadcast", int (*)(pthread_cond_t *)); return active() && !foreign(__builtin_return_address(0)) ? wake(c, true) : real(c); }
int pthread_cond_destroy(pthread_cond_t *c) {
    REAL("pthread_cond_destroy", int (*)(pthread_cond_t *));
    if (active()) { Ign g; for (int i = 0; i < nt; i++) if (t[i].st == BCOND && t[i].obj == (void *) c) mc::fail("destroy-waited-condition", "thread %d destroys a condition thread %d waits on", me, i); }
    return real(c);
}
int __cxa_guard_acquire(long long *g) { REAL("__cxa_guard_acquire", int (*)(long long *)); int r = real(g); if (!r && active()) { Ign i; acquire(obj(g).vc); } return r; }
void __cxa_guard_release(long long *g) { REAL("__cxa_guard_release", void (*)(long long *)); if (active()) { Ign i; release(obj(g).vc); } real(g); }
int sched_yield() { REAL("sched_yield", int (*)()); if (active()) { h_wait(); return 0; } return real(); }
}

#ifndef __SANITIZE_ADDRESS__
// ---- memory: freed blocks stay until the execution ends ------------------------------------------------
namespace sched {
struct Hdr { size_t n; Hdr *next; };
static Hdr *quarantine = nullptr;
static void release_quarantine() { while (quarantine) { Hdr *h = quarantine; quarantine = h->next; free(h); } }
static void *take(size_t n) { Hdr *h = (Hdr *) malloc(sizeof(Hdr) + n + 16); if (!h) throw std::bad_alloc(); h->n = n; if (active()) { ign++; forget(h + 1, n); memset(h + 1, 0xa5, n); ign--; } return h + 1; }
static void give(void *p, void *pc) {
    if (!p) return; Hdr *h = (Hdr *) p - 1;
    if (!active()) { free(h); return; }
    bool was = ign || foreign(pc); size_t n = h->n ? h->n : 1;
    if (detect_races) {
        if (!was) range(p, n, true, false, pc);
        ign++;
        if (!was && n > 0) for (uint64_t a = (uint64_t) p & ~7ull; a < (uint64_t) p + n; a += 8) { Gran &g = gran(a); g.freed = 1; g.freepc = pc; }
        ign--;
    }
    h->next = quarantine; quarantine = h;
}
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return take(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return take(n); }
void operator delete(void *p) noexcept { give(p, __builtin_return_address(0)); }
void operator delete[](void *p) noexcept { give(p, __builtin_return_address(0)); }
void operator delete(void *p, size_t) noexcept { give(p, __builtin_return_address(0)); }
void operator delete[](void *p, size_t) noexcept { give(p, __builtin_return_address(0)); }
void operator delete(void *p, const std::nothrow_t &) noexcept { give(p, __builtin_return_address(0)); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { give(p, __builtin_return_address(0)); }

// ---- what the compiler emits ----------------------------------------------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void *p) { range(p, n, false, false, PC); } \
void __tsan_write##n(void *p) { range(p, n, true, false, PC); } \
void __tsan_unaligned_read##n(void *p) { range(p, n, false, false, PC); } \
void __tsan_unaligned_write##n(void *p) { range(p, n, true, false, PC); } \
void __tsan_volatile_read##n(void *p) { range(p, n, false, false, PC); } \
void __tsan_volatile_write##n(void *p) { range(p, n, true, false, PC); } \
void __tsan_unaligned_volatile_read##n(void *p) { range(p, n, false, false, PC); } \
void __tsan_unaligned_volatile_write##n(void *p) { range(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { range(p, n, false, false, PC); }
void __tsan_write_range(void *p, size_t n) { range(p, n, true, false, PC); }
void __tsan_vptr_update(void **p, void *) { range(p, 8, true, false, PC); }
void __tsan_vptr_read(void **p) { range(p, 8, false, false, PC); }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { range(s, n, false, false, PC); range(d, n, true, false, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { range(s, n, false, false, PC); range(d, n, true, false, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { range(d, n, true, false, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { range(a, n, false, false, PC); range(b, n, false, false, PC); return __real_memcmp(a, b, n); }
}
namespace sched {
template <typename A> static inline A *before(volatile A *p, bool wr, void *pc, const char *w) { if (active() && !ign) { if (load_points || wr) reschedule(w); range((void *) p, sizeof(A), wr, true, pc); } return (A *) p; }
static inline void acq(volatile void *p, int mo) { if (active() && !ign && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) { Ign g; acquire(obj((void *) p).vc); } }
static inline void rel(volatile void *p, int mo, bool rmw) { if (active() && !ign) { Ign g; h_event(t[me].rank); if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) { if (rmw) release(obj((void *) p).vc); else release_store(obj((void *) p).vc); } else if (!rmw) memset(&obj((void *) p).vc, 0, sizeof(VC)); } }
}
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
extern "C" {
#define AT(n, A) \
A __tsan_atomic##n##_load(const volatile A *p, int mo) { before((volatile A *) p, false, PC, "load"); A v = __atomic_load_n(p, __ATOMIC_SEQ_CST); acq((void *) p, mo); return v; } \
void __tsan_atomic##n##_store(volatile A *p, A v, int mo) { before(p, true, PC, "store"); rel(p, mo, false); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
A __tsan_atomic##n##_exchange(volatile A *p, A v, int mo) { before(p, true, PC, "exchange"); acq(p, mo); rel(p, mo, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
A __tsan_atomic##n##_fetch_add(volatile A *p, A v, int mo) { before(p, true, PC, "rmw"); acq(p, mo); rel(p, mo, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
A __tsan_atomic##n##_fetch_sub(volatile A *p, A v, int mo) { before(p, true, PC, "rmw"); acq(p, mo); rel(p, mo, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
A __tsan_atomic##n##_fetch_and(volatile A *p, A v, int mo) { before(p, true, PC, "rmw"); acq(p, mo); rel(p, mo, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
A __tsan_atomic##n##_fetch_or(volatile A *p, A v, int mo) { before(p, true, PC, "rmw"); acq(p, mo); rel(p, mo, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
A __tsan_atomic##n##_fetch_xor(volatile A *p, A v, int mo) { before(p, true, PC, "rmw"); acq(p, mo); rel(p, mo, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##n##_compare_exchange_strong(volatile A *p, A *e, A v, int mo, int) { before(p, true, PC, "cas"); acq(p, mo); rel(p, mo, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##n##_compare_exchange_weak(volatile A *p, A *e, A v, int mo, int) { before(p, true, PC, "cas"); acq(p, mo); rel(p, mo, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
A __tsan_atomic##n##_compare_exchange_val(volatile A *p, A e, A v, int mo, int) { before(p, true, PC, "cas"); acq(p, mo); rel(p, mo, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, a8) AT(16, a16) AT(32, a32) AT(64, a64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#else
namespace sched { static void release_quarantine() {} }
#endif
