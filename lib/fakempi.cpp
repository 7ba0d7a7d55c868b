#include "fakempi.hpp"
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <sched.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <string>
#include <vector>

namespace fmpi {
int  (*choose_source)(int) = nullptr;
void (*wait_hook)() = nullptr;
void (*event_hook)(int) = nullptr;
void (*point_hook)(const char *) = nullptr;
void (*error_hook)(const char *) = nullptr;
void (*ignore_hook)(int) = nullptr;
void (*hb_hook)(void *, bool) = nullptr;
void (*access_hook)(const void *, size_t, bool) = nullptr;
int fail_countdown = 0;

struct Req {
    bool send; bool done = false; bool freed = false;
    int me, peer, tag;             // peer may be MPI_ANY_SOURCE
    void *buf; size_t count;
    int src = -1; size_t got = 0; char *key = nullptr; // of the message it was matched with
};
struct Msg { int src, dst, tag; char *key; std::vector<char> data; const char *live = nullptr; size_t len; Req *req = nullptr; };
struct World {
    int n = 1; bool eager = true;
    std::deque<Msg> q; std::vector<Req *> posted;
    int bar_in = 0; unsigned long bar_gen = 0; unsigned long sent = 0; long active = 0; char keys[1 << 16]; char bar_key;
    std::map<int, std::vector<char>> coll; std::vector<char> coll_result; int coll_left = 0;
};
static World &W() { static World *w = new World; return *w; }
static thread_local int my_rank = 0;
static std::atomic_flag lk = ATOMIC_FLAG_INIT;
static void hb(void *k, bool rel) { if (hb_hook) hb_hook(k, rel); }
struct Lock { Lock() { if (ignore_hook) ignore_hook(1); while (lk.test_and_set(std::memory_order_acquire)) syscall(SYS_sched_yield); } ~Lock() { lk.clear(std::memory_order_release); if (ignore_hook) ignore_hook(-1); } };
static bool initialized = false;

void reset(int ranks, bool eager) { World &w = W(); w.q.clear(); w.posted.clear(); w.bar_in = 0; w.sent = 0; w.active = 0; w.coll.clear(); w.n = ranks; w.eager = eager; my_rank = 0; initialized = true; }
void set_rank(int r) { my_rank = r; }
int rank() { return my_rank; }
void inherit(int r) { my_rank = r; }
size_t pending() { return W().q.size(); }
size_t active_requests() { return W().active; }
unsigned long messages() { return W().sent; }
static void err(const char *m) { if (error_hook) error_hook(m); else { fprintf(stderr, "fakempi: %s\n", m); abort(); } }
static void event(int rank) { if (event_hook) event_hook(rank); }
static void wait() { if (wait_hook) wait_hook(); else sched_yield(); }
static void point(const char *w) { if (point_hook) point_hook(w); }
static bool fault() { return fail_countdown > 0 && --fail_countdown == 0; }

// try to complete a posted receive; called with the lock held
static bool match(Req *r) {
    World &w = W();
    // first message of each candidate source (non-overtaking order)
    std::vector<size_t> cand; std::vector<int> srcs;
    for (size_t i = 0; i < w.q.size(); i++) {
        Msg &m = w.q[i];
        if (m.dst != r->me || m.tag != r->tag) continue;
        if (r->peer != MPI_ANY_SOURCE && m.src != r->peer) continue;
        bool seen = false; for (int s : srcs) seen = seen || s == m.src;
        if (seen) continue;
        srcs.push_back(m.src); cand.push_back(i);
    }
    if (cand.empty()) return false;
    size_t k = 0;
    if (cand.size() > 1 && choose_source) k = choose_source((int) cand.size());
    Msg &m = w.q[cand[k]];
    if (m.len > r->count) err("message truncated");
    size_t n = m.len < r->count ? m.len : r->count;
    memcpy(r->buf, m.live ? m.live : m.data.data(), n);
    r->src = m.src; r->got = m.len; r->done = true; r->key = m.key;
    if (m.req) { m.req->done = true; m.req->key = m.key + (1 << 15); }
    w.q.erase(w.q.begin() + cand[k]);
    return true;
}
// receives are matched in posting order
static void progress() {
    World &w = W();
    for (size_t i = 0; i < w.posted.size();) {
        Req *r = w.posted[i];
        if (match(r)) { w.posted.erase(w.posted.begin() + i); event(r->me); event(r->src); i = 0; } else i++;
    }
}
static size_t tsize(MPI_Datatype t) {
    if (t == MPI_CHAR) return 1; if (t == MPI_INT) return sizeof(int); if (t == MPI_UINT32_T || t == MPI_UNSIGNED) return 4;
    if (t == MPI_LONG_DOUBLE) return sizeof(long double); if (t == MPI_DOUBLE) return 8; if (t == MPI_UNSIGNED_LONG || t == MPI_LONG || t == MPI_UINT64_T) return 8;
    return 1;
}
static void barrier() {
    World &w = W(); unsigned long g;
    { Lock l; g = w.bar_gen; hb(&w.bar_key, true); if (++w.bar_in == w.n) { w.bar_in = 0; w.bar_gen++; hb(&w.bar_key, false); event(-1); return; } }
    for (;;) { { Lock l; if (w.bar_gen != g) { hb(&w.bar_key, false); return; } } wait(); }
}
}
using namespace fmpi;

extern "C" {
int MPI_Init(int *, char ***) { initialized = true; return MPI_SUCCESS; }
int MPI_Init_thread(int *, char ***, int req, int *prov) { initialized = true; if (prov) *prov = req; return MPI_SUCCESS; }
int MPI_Initialized(int *f) { *f = initialized; return MPI_SUCCESS; }
int MPI_Finalize() { return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int *r) { if (c == MPI_COMM_NULL) return MPI_ERR_COMM; *r = my_rank; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int *s) { if (c == MPI_COMM_NULL) return MPI_ERR_COMM; *s = W().n; return MPI_SUCCESS; }
int MPI_Barrier(MPI_Comm c) { if (c == MPI_COMM_NULL) return MPI_ERR_COMM; point("MPI_Barrier"); barrier(); return MPI_SUCCESS; }
int MPI_Isend(const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm, MPI_Request *req) {
    point("MPI_Isend");
    if (access_hook) access_hook(buf, count * tsize(t), false);
    Lock l; World &w = W();
    if (fault()) return MPI_ERR_OTHER;
    if (dst < 0 || dst >= w.n) { err("send to an invalid rank"); return MPI_ERR_RANK; }
    Req *r = new Req; r->send = true; r->me = my_rank; r->peer = dst; r->tag = tag; r->buf = (void *) buf; r->count = count * tsize(t);
    Msg m; m.src = my_rank; m.dst = dst; m.tag = tag; m.len = r->count; m.key = w.keys + (w.sent & 0x7fff); hb(m.key, true);
    if (w.eager) { m.data.assign((const char *) buf, (const char *) buf + r->count); r->done = true; }
    else { m.live = (const char *) buf; m.req = r; }
    w.q.push_back(m); w.sent++; w.active++;
    progress(); event(dst); event(my_rank);
    *req = (MPI_Request) r;
    return MPI_SUCCESS;
}
int MPI_Irecv(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Request *req) {
    point("MPI_Irecv");
    Lock l; World &w = W();
    if (fault()) return MPI_ERR_OTHER;
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= w.n)) { err("receive from an invalid rank"); return MPI_ERR_RANK; }
    Req *r = new Req; r->send = false; r->me = my_rank; r->peer = src; r->tag = tag; r->buf = buf; r->count = count * tsize(t);
    w.posted.push_back(r); w.active++;
    progress();
    *req = (MPI_Request) r;
    return MPI_SUCCESS;
}
int MPI_Test(MPI_Request *req, int *flag, MPI_Status *st) {
    if (*req == MPI_REQUEST_NULL || !*req) { *flag = 1; return MPI_SUCCESS; }
    Req *r = (Req *) *req;
    {
        { Lock l; progress(); }
        if (r->done) {
            if (!r->send) { if (r->key) { hb(r->key, false); hb(r->key + (1 << 15), true); } if (access_hook) access_hook(r->buf, r->got, true); }
            else if (r->key) hb(r->key, false);
            Lock l;
            *flag = 1;
            if (st != MPI_STATUS_IGNORE && st) { st->MPI_SOURCE = r->src; st->MPI_TAG = r->tag; st->MPI_ERROR = MPI_SUCCESS; }
            W().active--; delete r; *req = MPI_REQUEST_NULL;
            return MPI_SUCCESS;
        }
        *flag = 0;
    }
    wait();
    return MPI_SUCCESS;
}
int MPI_Request_free(MPI_Request *req) {
    if (!req || *req == MPI_REQUEST_NULL || !*req) return MPI_ERR_REQUEST;
    Lock l; World &w = W(); Req *r = (Req *) *req;
    for (size_t i = 0; i < w.posted.size(); i++) if (w.posted[i] == r) { w.posted.erase(w.posted.begin() + i); break; }
    for (Msg &m : w.q) if (m.req == r) { m.data.assign(m.live, m.live + m.len); m.live = nullptr; m.req = nullptr; }
    w.active--; delete r; *req = MPI_REQUEST_NULL;
    return MPI_SUCCESS;
}
static void collect(const void *s, size_t n) {
    { Lock l; W().coll[my_rank].assign((const char *) s, (const char *) s + n); }
    barrier();
}
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm) {
    point("MPI_Allgather");
    if (s != MPI_IN_PLACE) collect(s, n * tsize(t)); else collect((char *) r + my_rank * rn * tsize(rt), rn * tsize(rt));
    { Lock l; for (int i = 0; i < W().n; i++) memcpy((char *) r + (size_t) i * rn * tsize(rt), W().coll[i].data(), W().coll[i].size()); }
    barrier();
    return MPI_SUCCESS;
}
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm) {
    point("MPI_Gather");
    collect(s, n * tsize(t));
    if (root == my_rank) { Lock l; for (int i = 0; i < W().n; i++) memcpy((char *) r + (size_t) i * rn * tsize(rt), W().coll[i].data(), W().coll[i].size()); }
    barrier();
    return MPI_SUCCESS;
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op, MPI_Comm) { // MAX of int only
    point("MPI_Allreduce");
    collect(s, n * tsize(t));
    { Lock l; for (int k = 0; k < n; k++) { int best = 0; for (int i = 0; i < W().n; i++) { int v; memcpy(&v, W().coll[i].data() + k * tsize(t), sizeof v); if (!i || v > best) best = v; } memcpy((char *) r + k * tsize(t), &best, sizeof best); } }
    barrier();
    return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int c) { exit(c); }
}
