// Choice-point model-checking engine: exhaustive depth-first enumeration of executions.
//
// A harness registers spaces; a space is a function run once per choice vector.  Inside it calls
// mc::choose(n); the engine enumerates every vector.  The tree is split over forked workers; the vector
// being executed lives in shared memory so crashes, sanitizer reports and hangs are attributed to it.
#pragma once
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

enum { MAXV = 6000, MAXFAIL = 400, TRACE = 16384, SLOTS = 64, HT = 1 << 23, SAMPLES = 6 };

struct Failure {
    int space;
    int confirmed;        // filled by the root
    uint64_t count;       // how many executions failed with this signature
    int len;
    uint16_t vec[MAXV];
    char sig[256];
    char msg[3000];
    char trace[TRACE];
};

struct Slot {
    volatile uint64_t beat;
    volatile int len;             // choices made so far in the current execution
    volatile int prefix;          // length of the forced prefix
    volatile int in_exec;
    volatile int failed;          // the runner recorded a failure itself
    volatile int finished;        // the runner exhausted its tree
    volatile uint64_t digest;
    uint16_t vec[MAXV];
    uint16_t ar[MAXV];
    uint8_t soft[MAXV];
    volatile int trace_len;
    char trace[TRACE];
};

struct Shared {
    std::atomic<uint64_t> executions, transitions, states, outcomes, skipped, diverged, nondet, checks, pruned;
    std::atomic<int> capped;
    std::atomic<uint64_t> ht[HT];
    std::atomic_flag lock;
    int nfail;
    uint64_t lost_failures;
    Failure fails[MAXFAIL];
    char samples[SAMPLES][4000];
    int nsamples;
    Slot slots[SLOTS];
};

struct Skip {};

typedef std::function<void()> Fn;
struct Space {
    std::string name, bound;
    Fn fn;
    bool fork_each = false;
    int hang_s = 20;
    int only_tier = 0;   // 0 both, 1 quick only, 2 thorough only
    double budget_s = 0; // 0: unlimited up to the global deadline
    int serial = 0;
};

struct Engine {
    std::string property, level = "model_checking";
    std::vector<Space> spaces;
    std::vector<std::string> assumptions;
    std::string rule;
    std::map<std::string, std::string> extra;   // raw json values
    Shared *sh = nullptr;
    Slot *slot = nullptr;
    int slot_id = -1, nslots = 0, space_id = -1;
    bool fork_each = false, replaying = false, in_child = false;
    uint64_t shard_prod = 1; bool sharded = false;
    bool soft_skip = false, abandoned = false; // soft_skip: an execution of another worker is finished (first choice everywhere), not abandoned by an exception
    uint64_t prefix_hash = 0;
    std::string scratch_root, tier = "quick";
    int seed = 0;
    double deadline = 0;
    double start = 0;
    pid_t owner = 0;
};
inline Engine &E() { static Engine e; return e; }
inline bool thorough() { return E().tier == "thorough"; }
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char *c = (const unsigned char *) p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ULL) { return hash(s.data(), s.size(), mix(h + s.size())); }

// ---- tracing -------------------------------------------------------------------------------
inline void vnote(const char *fmt, va_list ap) {
    Slot *s = E().slot;
    if (!s) return;
    int l = s->trace_len;
    if (l < TRACE - 2) {
        int n = vsnprintf(s->trace + l, TRACE - 2 - l, fmt, ap);
        if (n < 0) n = 0;
        l += n; if (l > TRACE - 2) l = TRACE - 2;
        s->trace[l] = '\n'; s->trace[l + 1] = 0;
        s->trace_len = l + 1;
    }
}
__attribute__((format(printf, 1, 2))) inline void note(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vnote(fmt, ap); va_end(ap); }

// ---- counters ------------------------------------------------------------------------------
inline bool insert_hash(uint64_t h, std::atomic<uint64_t> &counter) {
    Shared *sh = E().sh;
    if (!sh) return false;
    if (!h) h = 1;
    uint64_t i = mix(h) & (HT - 1);
    for (int probe = 0; probe < 4096; probe++) {
        uint64_t cur = sh->ht[i].load(std::memory_order_relaxed);
        if (cur == h) return false;
        if (!cur) {
            if (sh->ht[i].compare_exchange_strong(cur, h)) { counter++; return true; }
            if (cur == h) return false;
        }
        i = (i + 1) & (HT - 1);
    }
    return false; // table full: undercounts
}
// a distinct state of the system under test (hash of what the property can observe)
inline bool state(uint64_t h) { return insert_hash(mix(h * 2 + 1 + 977 * (uint64_t) E().space_id), E().sh->states); }
inline bool state(const std::string &s) { return state(hash(s)); }
// a distinct observable outcome of an execution
inline bool outcome(uint64_t h) { E().slot->digest = mix(E().slot->digest ^ h); return insert_hash(mix(h * 2 + 0x9e3779b97f4a7c15ULL * (E().space_id + 3)), E().sh->outcomes); }
inline bool outcome(const std::string &s) { return outcome(hash(s)); }
inline void transition(uint64_t n = 1) { E().sh->transitions += n; E().slot->beat++; }
inline void beat() { E().slot->beat++; }

// ---- failures ------------------------------------------------------------------------------
inline void lock(Shared *sh) { int spins = 0; while (sh->lock.test_and_set()) { if (++spins > 2000000) break; syscall(SYS_sched_yield); } }
inline void unlock(Shared *sh) { sh->lock.clear(); }

inline void record_failure(Slot *s, int space, const char *sig, const char *msg) {
    Shared *sh = E().sh;
    lock(sh);
    Failure *f = nullptr;
    for (int i = 0; i < sh->nfail; i++)
        if (sh->fails[i].space == space && !strncmp(sh->fails[i].sig, sig, sizeof(f->sig) - 1)) { f = &sh->fails[i]; break; }
    bool fill = false;
    if (!f) {
        if (sh->nfail < MAXFAIL) { f = &sh->fails[sh->nfail++]; f->count = 0; f->confirmed = 0; fill = true; }
        else sh->lost_failures++;
    } else if (s->len < f->len) fill = true;
    if (f) {
        f->count++;
        if (fill) {
            f->space = space; f->len = s->len;
            memcpy(f->vec, s->vec, sizeof(uint16_t) * s->len);
            snprintf(f->sig, sizeof f->sig, "%s", sig);
            snprintf(f->msg, sizeof f->msg, "%s", msg);
            memcpy(f->trace, s->trace, TRACE); f->trace[TRACE - 1] = 0;
            if (s->trace_len < TRACE) f->trace[s->trace_len] = 0;
        }
    }
    unlock(sh);
}

[[noreturn]] inline void end_runner(int code) { _exit(code); }

// the property is violated in this execution
[[noreturn]] __attribute__((format(printf, 2, 3))) inline void fail(const std::string &sig, const char *fmt, ...) {
    char msg[3000];
    va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    E().slot->failed = 1;
    record_failure(E().slot, E().space_id, sig.c_str(), msg);
    if (E().replaying) { fprintf(stdout, "REPLAY-FAIL sig=%s\n%s\n--- trace\n%s\n", sig.c_str(), msg, E().slot->trace); fflush(stdout); }
    end_runner(77);
}
#define MC_CHECK(cond, sig, ...) do { mc::E().sh->checks++; if (!(cond)) mc::fail(sig, __VA_ARGS__); } while (0)

// ---- choices -------------------------------------------------------------------------------
inline void shard_point() {
    Engine &e = E();
    if (e.sharded || e.nslots <= 1 || e.replaying) return;
    e.sharded = true;
    if ((int) (mix(e.prefix_hash) % e.nslots) != e.slot_id) {
        e.sh->skipped++;
        if (e.soft_skip) { e.abandoned = true; return; }
        if (e.fork_each) end_runner(78);
        throw Skip();
    }
}
inline int choose(int n, const char *what = nullptr) {
    Engine &e = E(); Slot *s = e.slot;
    if (n <= 0) { fprintf(stderr, "choose(%d) %s\n", n, what ? what : ""); abort(); }
    if (n == 1 || e.abandoned) return 0;
    int i = s->len, v = 0;
    if (i >= MAXV) { fprintf(stderr, "choice vector too long\n"); abort(); }
    if (i < s->prefix) {
        v = s->vec[i];
        if (s->ar[i] && s->ar[i] != n) { e.sh->diverged++; note("DIVERGENCE at choice %d: arity %d was %d (%s)", i, n, s->ar[i], what ? what : ""); if (v >= n) v = n - 1; }
        if (v >= n) { e.sh->diverged++; v = n - 1; }
    }
    s->vec[i] = (uint16_t) v; s->ar[i] = (uint16_t) n; s->soft[i] = e.soft_skip; s->len = i + 1; s->beat++;
    if (!e.sharded) {
        e.prefix_hash = mix(e.prefix_hash * 31 + v + 1);
        e.shard_prod *= (uint64_t) n;
        if (e.soft_skip) { if (v) shard_point(); } // schedules: split at the first deviation from the default
        else if (e.shard_prod >= 256) shard_point();
    }
    return v;
}
// abandons this execution: not a member of the explored space (e.g. symmetric to another)
inline void prune() { E().sh->pruned++; if (E().fork_each) end_runner(79); throw Skip(); }

// advances to the next vector in depth-first order; false when exhausted
inline bool next_vector(Slot *s) {
    int i = s->len - 1;
    while (i >= 0 && s->vec[i] + 1 >= s->ar[i]) i--;
    if (i < 0) return false;
    s->vec[i]++;
    s->prefix = i + 1; 
    for (int k = i + 1; k < s->len; k++) s->ar[k] = 0;
    s->len = 0;
    return true;
}

// whether the subtree of the next vector is known to belong to another worker (the decision choose() would come to)
inline bool others_subtree(Slot *s) {
    Engine &e = E();
    if (e.nslots <= 1 || e.replaying || e.fork_each) return false;
    uint64_t h = 0, prod = 1;
    for (int i = 0; i < s->prefix; i++) {
        h = mix(h * 31 + s->vec[i] + 1); prod *= (uint64_t) s->ar[i];
        if (s->soft[i] ? s->vec[i] != 0 : prod >= 256) { if ((int) (mix(h) % e.nslots) == e.slot_id) return false; s->len = i + 1; return true; }
    }
    return false;
}

// ---- scratch -------------------------------------------------------------------------------
inline void rm_rf(const std::string &p) {
    if (E().scratch_root.empty() || p.compare(0, E().scratch_root.size(), E().scratch_root) != 0) return; // only ever below our own scratch
    struct stat st;
    if (lstat(p.c_str(), &st)) return;
    if (S_ISDIR(st.st_mode)) {
        DIR *d = opendir(p.c_str());
        if (d) {
            while (dirent *e = readdir(d)) {
                std::string n = e->d_name;
                if (n != "." && n != "..") rm_rf(p + "/" + n);
            }
            closedir(d);
        }
        rmdir(p.c_str());
    } else unlink(p.c_str());
}
inline std::string scratch() { // private directory of this worker
    std::string p = E().scratch_root + "/s" + std::to_string(E().slot_id);
    mkdir(p.c_str(), 0700);
    return p;
}
inline std::string fresh_dir(const char *name = "d") { std::string p = scratch() + "/" + name; rm_rf(p); mkdir(p.c_str(), 0700); return p; }

// ---- execution -----------------------------------------------------------------------------
inline void one_execution(Space &sp) {
    Engine &e = E(); Slot *s = e.slot;
    s->len = 0; s->trace_len = 0; s->trace[0] = 0; s->digest = 0; s->failed = 0;
    e.shard_prod = 1; e.sharded = false; e.prefix_hash = 0; e.abandoned = false;
    s->in_exec = 1; s->beat++;
    bool ok = true;
    try {
        sp.fn();
        if (!e.abandoned) shard_point();
        if (e.abandoned) ok = false; // tiny trees: the whole execution belongs to one worker
    } catch (Skip &) { ok = false; }
    s->in_exec = 0;
    if (ok) {
        uint64_t n = ++e.sh->executions;
        if ((n & (n - 1)) == 0 || n == 3) {
            lock(e.sh);
            int k = e.sh->nsamples < SAMPLES ? e.sh->nsamples++ : (int) (mix(n) % SAMPLES);
            std::string t = sp.name + ":";
            for (int i = 0; i < s->len && i < 60; i++) t += " " + std::to_string(s->vec[i]);
            snprintf(e.sh->samples[k], sizeof e.sh->samples[k], "%s\n%.*s", t.c_str(), 3000, s->trace);
            unlock(e.sh);
        }
    }
}

inline void redirect_stderr(const std::string &path) {
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); if (fd > 2) close(fd); }
}

inline std::string slurp(const std::string &p, size_t max = 1 << 20) {
    std::string r; FILE *f = fopen(p.c_str(), "r"); if (!f) return r;
    char b[4096]; size_t n; while (r.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f); return r;
}

inline std::string crash_sig(int status, const std::string &err, std::string &msg) {
    std::string sig;
    size_t p = err.find("SUMMARY: AddressSanitizer: ");
    if (p != std::string::npos) {
        size_t q = err.find('\n', p);
        std::string line = err.substr(p + 27, q - p - 27);
        // kind + function, without addresses and line numbers
        std::string kind = line.substr(0, line.find(' '));
        size_t in = line.rfind(" in ");
        std::string fn = in == std::string::npos ? "" : line.substr(in + 4);
        sig = "asan:" + kind + (fn.empty() ? "" : " in " + fn);
        // first frame inside the repository
        size_t fpos = 0; 
        while ((fpos = err.find("/repo/", fpos)) != std::string::npos) {
            size_t b = err.rfind('\n', fpos); size_t e2 = err.find('\n', fpos);
            std::string fr = err.substr(b + 1, e2 - b - 1);
            size_t i2 = fr.find(" in ");
            if (i2 != std::string::npos) { std::string f2 = fr.substr(i2 + 4); sig += " @" + f2.substr(0, f2.find_first_of("(<")); break; }
            fpos = e2 == std::string::npos ? err.size() : e2;
        }
    } else if (WIFSIGNALED(status)) sig = "signal:" + std::to_string(WTERMSIG(status));
    else sig = "exit:" + std::to_string(WEXITSTATUS(status));
    size_t l = err.find("terminate called"); if (l != std::string::npos) sig += " terminate";
    msg = err.substr(0, 2600);
    return sig;
}

// runs executions of the current tree until the tree is exhausted, something fails, or (fork_each) once
inline void runner(Space &sp, bool once) {
    Engine &e = E(); Slot *s = e.slot;
    for (;;) {
        one_execution(sp);
        if (once) end_runner(76);
        do { if (!next_vector(s)) { s->finished = 1; end_runner(0); } } while (others_subtree(s) && ++e.sh->skipped);
        if (now() > e.deadline) { e.sh->capped = 1; end_runner(75); }
    }
}

inline void on_alarm(int) {}
inline int wait_runner(pid_t pid, Slot *s, int hang_s, bool &hung) {
    hung = false;
    uint64_t last = s->beat; double t = now();
    for (;;) {
        int st = 0;
        pid_t r = waitpid(pid, &st, 0);
        if (r == pid) return st;
        if (r < 0 && errno != EINTR) return 0;
        if (s->beat != last) { last = s->beat; t = now(); }
        else if (now() - t > hang_s) {
            hung = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); return st;
        }
    }
}

inline void manager(int space) {
    Engine &e = E(); Space &sp = e.spaces[space]; Slot *s = e.slot;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr);
    struct itimerval it = {{1, 0}, {1, 0}}; setitimer(ITIMER_REAL, &it, nullptr);
    std::string errf = e.scratch_root + "/err" + std::to_string(e.slot_id);
    s->len = 0; s->prefix = 0; s->finished = 0; memset(s->ar, 0, sizeof s->ar);
    int fails = 0, crashes = 0;
    for (;;) {
        if (now() > e.deadline) { e.sh->capped = 1; break; }
        s->failed = 0;
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &z, nullptr);
            e.in_child = true; e.fork_each = sp.fork_each; e.space_id = space;
            redirect_stderr(errf);
            runner(sp, sp.fork_each);
        }
        if (pid < 0) { usleep(10000); continue; }
        bool hung; int st = wait_runner(pid, s, sp.hang_s, hung);
        if (s->finished) break;
        bool clean = WIFEXITED(st) && (WEXITSTATUS(st) == 76 || WEXITSTATUS(st) == 78 || WEXITSTATUS(st) == 79);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 75) break;
        if (!clean) {
            fails++;
            if (!s->failed) {
                std::string err = slurp(errf), msg, sig;
                if (hung) { sig = "hang"; msg = "no progress for " + std::to_string(sp.hang_s) + " s"; }
                else sig = crash_sig(st, err, msg);
                record_failure(s, space, sig.c_str(), msg.c_str());
            }
            e.sh->executions++;
            rm_rf(e.scratch_root + "/s" + std::to_string(e.slot_id));
            if (hung && fails > 3) { e.sh->capped = 1; break; }
            if (!s->failed && ++crashes > 30) { e.sh->capped = 1; break; }
            if (fails > 4000) { e.sh->capped = 1; break; }
        }
        if (!next_vector(s)) break;
    }
    _exit(0);
}

// ---- known findings ------------------------------------------------------------------------
struct Known { std::string property, sig, what; bool fixed; int hits = 0; };
inline std::string json_str(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
// known_findings.txt:  KNOWN <property> <space/signature glob> :: <text>      (one per line)
inline std::vector<Known> load_known(const std::string &path, const std::string &prop) {
    std::vector<Known> r; FILE *f = fopen(path.c_str(), "r"); if (!f) return r;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        std::string l = line; while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
        if (l.compare(0, 6, "KNOWN ")) continue;
        size_t a = l.find(' ', 6); size_t b = l.find(" :: "); if (a == std::string::npos || b == std::string::npos) continue;
        if (l.substr(6, a - 6) != prop) continue;
        Known k; k.property = prop; k.sig = l.substr(a + 1, b - a - 1); k.what = l.substr(b + 4); k.fixed = false;
        r.push_back(k);
    }
    fclose(f); return r;
}

inline int run_vector(int space, const std::vector<uint16_t> &vec, int hang_s, std::string *sig_out, bool verbose) {
    Engine &e = E();
    e.slot_id = 60; e.slot = &e.sh->slots[60];
    Slot *s = e.slot; s->len = 0; s->prefix = vec.size(); memset(s->ar, 0, sizeof s->ar); s->finished = 0; s->failed = 0; s->beat = 0;
    for (size_t i = 0; i < vec.size(); i++) s->vec[i] = vec[i];
    int before = e.sh->nfail;
    // remember counts so that a fresh failure can be recognised
    std::vector<uint64_t> counts; for (int i = 0; i < before; i++) counts.push_back(e.sh->fails[i].count);
    std::string errf = e.scratch_root + "/err60";
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        e.replaying = verbose; e.in_child = true; e.fork_each = e.spaces[space].fork_each; e.space_id = space; e.nslots = 1;
        if (!verbose) redirect_stderr(errf);
        one_execution(e.spaces[space]);
        if (verbose) { printf("REPLAY-OK\n--- trace\n%s\n", s->trace); fflush(stdout); }
        _exit(76);
    }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr);
    struct itimerval it = {{1, 0}, {1, 0}}; setitimer(ITIMER_REAL, &it, nullptr);
    bool hung; int st = wait_runner(pid, s, hang_s, hung);
    struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &z, nullptr);
    int r = 0; std::string sig;
    if (hung) { sig = "hang"; r = 1; }
    else if (WIFEXITED(st) && (WEXITSTATUS(st) == 76 || WEXITSTATUS(st) == 79 || WEXITSTATUS(st) == 78)) r = 0;
    else {
        r = 1;
        if (s->failed) {
            for (int i = 0; i < e.sh->nfail; i++)
                if (i >= before || e.sh->fails[i].count != counts[i]) { sig = e.sh->fails[i].sig; if (i < before) e.sh->fails[i].count = counts[i]; }
        } else { std::string msg; sig = crash_sig(st, slurp(errf), msg); if (verbose) printf("REPLAY-FAIL %s\n", sig.c_str()); }
    }
    e.sh->nfail = before;
    rm_rf(e.scratch_root + "/s60");
    if (sig_out) *sig_out = sig;
    return r;
}

inline bool glob(const char *p, const char *s) {
    for (; *p; p++, s++) {
        if (*p == '*') { while (*p == '*') p++; if (!*p) return true; for (; *s; s++) if (glob(p, s)) return true; return false; }
        if (!*s || *p != *s) return false;
    }
    return !*s;
}

inline std::string exe_dir() { return ""; }

inline int run(int argc, char **argv) {
    Engine &e = E();
    e.start = now();
    std::string verif = "/verif", replay; int only = -1; bool list = false; int nproc = (int) sysconf(_SC_NPROCESSORS_ONLN);
    if (const char *t = getenv("VERIF_TIER")) e.tier = t;
    if (const char *t = getenv("VERIF_SEED")) e.seed = atoi(t);
    if (const char *t = getenv("VERIF_DIR")) verif = t;
    double budget = e.tier == "thorough" ? 3600 : 420;
    if (const char *t = getenv("MC_BUDGET")) budget = atof(t);
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--replay" && i + 1 < argc) replay = argv[++i];
        else if (a == "--space" && i + 1 < argc) { std::string n = argv[++i]; for (size_t k = 0; k < e.spaces.size(); k++) if (e.spaces[k].name == n) only = k; if (only < 0) { fprintf(stderr, "no space %s\n", n.c_str()); return 2; } }
        else if (a == "--list") list = true;
        else if (a == "--thorough") e.tier = "thorough";
        else if (a == "-j" && i + 1 < argc) nproc = atoi(argv[++i]);
    }
    if (list) { for (auto &s : e.spaces) printf("%s: %s\n", s.name.c_str(), s.bound.c_str()); return 0; }
    unsetenv("HXHIM_CONFIG");
    if (!replay.empty() && replay[0] != '/') { char b[4096]; if (realpath(replay.c_str(), b)) replay = b; }
    e.sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (e.sh == MAP_FAILED) { perror("mmap"); return 2; }
    char tmpl[64]; snprintf(tmpl, sizeof tmpl, "%s/hxmc.XXXXXX", access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
    if (!mkdtemp(tmpl)) { strcpy(tmpl, "/tmp/hxmc.XXXXXX"); if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; } }
    e.scratch_root = tmpl; e.owner = getpid();
    if (chdir(tmpl)) {}
    struct Clean { ~Clean() { if (getpid() == E().owner) { if (chdir("/")) {} rm_rf(E().scratch_root); } } } clean;

    if (!replay.empty()) {
        std::string j = slurp(replay);
        auto field = [&](const char *k) { size_t p = j.find(std::string("\"") + k + "\":"); if (p == std::string::npos) return std::string(); p += strlen(k) + 3; while (j[p] == ' ') p++; if (j[p] == '"') { size_t q = j.find('"', p + 1); return j.substr(p + 1, q - p - 1); } if (j[p] == '[') { size_t q = j.find(']', p); return j.substr(p + 1, q - p - 1); } return std::string(); };
        std::string t = field("tier"); if (!t.empty()) e.tier = t;
        std::string spn = field("space"), vs = field("vector");
        int sp = -1; for (size_t k = 0; k < e.spaces.size(); k++) if (e.spaces[k].name == spn) sp = k;
        if (sp < 0) { fprintf(stderr, "unknown space %s\n", spn.c_str()); return 2; }
        std::vector<uint16_t> v; std::stringstream ss(vs); std::string x; while (std::getline(ss, x, ',')) v.push_back(atoi(x.c_str()));
        std::string sig; int r = run_vector(sp, v, 60, &sig, true);
        printf(r ? "reproduced: %s\n" : "not reproduced%s\n", sig.c_str());
        return r ? 1 : 0;
    }

    double global_deadline = e.start + budget;
    std::string spaces_json;
    bool all_exhaustive = true;
    uint64_t le = 0, lt = 0, lst = 0, lo = 0;
    for (size_t k = 0; k < e.spaces.size(); k++) {
        Space &sp = e.spaces[k];
        if (only >= 0 && (int) k != only) continue;
        if ((sp.only_tier == 1 && thorough()) || (sp.only_tier == 2 && !thorough())) continue;
        e.sh->capped = 0;
        double t0 = now();
        e.deadline = global_deadline; if (sp.budget_s && t0 + sp.budget_s < e.deadline) e.deadline = t0 + sp.budget_s;
        e.nslots = sp.serial ? 1 : (nproc < 1 ? 1 : nproc > 56 ? 56 : nproc);
        e.space_id = k;
        fflush(stdout);
        std::vector<pid_t> kids;
        for (int i = 0; i < e.nslots; i++) {
            pid_t p = fork();
            if (p == 0) { e.slot_id = i; e.slot = &e.sh->slots[i]; manager(k); }
            kids.push_back(p);
        }
        for (pid_t p : kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
        bool ex = !e.sh->capped; all_exhaustive = all_exhaustive && ex;
        uint64_t ce = e.sh->executions, ct = e.sh->transitions, cs = e.sh->states, co = e.sh->outcomes;
        printf("%s space %-28s executions=%llu states=%llu transitions=%llu outcomes=%llu %s %.1fs\n", e.property.c_str(), sp.name.c_str(),
               (unsigned long long) (ce - le), (unsigned long long) (cs - lst), (unsigned long long) (ct - lt), (unsigned long long) (co - lo), ex ? "complete" : "CAPPED", now() - t0);
        fflush(stdout);
        char b[600]; snprintf(b, sizeof b, "%s{\"name\":%s,\"bound\":%s,\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"distinct_outcomes\":%llu,\"completed\":%s,\"wall_s\":%.2f}",
            spaces_json.empty() ? "" : ",", json_str(sp.name).c_str(), json_str(sp.bound.substr(0, 300)).c_str(), (unsigned long long) (ce - le), (unsigned long long) (cs - lst), (unsigned long long) (ct - lt), (unsigned long long) (co - lo), ex ? "true" : "false", now() - t0);
        spaces_json += b;
        le = ce; lt = ct; lst = cs; lo = co;
    }

    // judge
    std::vector<Known> known = load_known(verif + "/known_findings.txt", e.property);
    std::string rdir = verif + "/evidence/replay"; mkdir((verif + "/evidence").c_str(), 0755); mkdir(rdir.c_str(), 0755);
    int violations = 0, n = e.sh->nfail, unreproduced = 0; std::string vj;
    int shown = 0;
    for (int i = 0; i < n; i++) {
        Failure &f = e.sh->fails[i]; Space &sp = e.spaces[f.space];
        std::string full = sp.name + "/" + f.sig;
        Known *hit = nullptr;
        for (auto &kf : known) if (glob(kf.sig.c_str(), full.c_str())) { hit = &kf; break; }
        if (hit) { hit->hits += f.count; continue; }
        if (shown >= 8) { violations++; continue; }
        std::vector<uint16_t> vec(f.vec, f.vec + f.len); std::string sig; int rep = 0;
        std::string want = f.sig;
        for (int a = 0; a < 3 && !rep; a++) rep = run_vector(f.space, vec, want == "hang" ? 3 * sp.hang_s : 2 * sp.hang_s, &sig, false);
        if (!rep) {
            unreproduced++;
            std::string uv; for (uint16_t q : vec) uv += (uv.empty() ? "" : ",") + std::to_string(q);
            printf("NOTE unreproduced failure (not reported): %s [%s]: %s\n", full.c_str(), uv.c_str(), f.msg);
            continue;
        }
        violations++; shown++;
        std::string path = rdir + "/" + e.property + "-" + std::to_string(shown) + ".json";
        std::string vs; for (size_t q = 0; q < vec.size(); q++) vs += (q ? "," : "") + std::to_string(vec[q]);
        FILE *o = fopen(path.c_str(), "w");
        if (o) { fprintf(o, "{\"property\": %s,\n \"space\": %s,\n \"tier\": %s,\n \"sig\": %s,\n \"count\": %llu,\n \"vector\": [%s],\n \"message\": %s,\n \"trace\": %s}\n", json_str(e.property).c_str(), json_str(sp.name).c_str(), json_str(e.tier).c_str(), json_str(f.sig).c_str(), (unsigned long long) f.count, vs.c_str(), json_str(f.msg).c_str(), json_str(f.trace).c_str()); fclose(o); }
        printf("  failure %s (%llu executions)\n    %.1500s\n    trace:\n", full.c_str(), (unsigned long long) f.count, f.msg);
        std::stringstream ss(f.trace); std::string l; int c = 0; while (std::getline(ss, l) && c++ < 30) printf("      %s\n", l.c_str());
        printf("VIOLATION property=%s replay=%s\n", e.property.c_str(), path.c_str()); fflush(stdout);
    }
    for (auto &kf : known) if (kf.hits) printf("KNOWN-FINDING: property=%s %s\n", e.property.c_str(), kf.what.c_str());
    if (e.sh->lost_failures) violations++;

    // evidence
    std::string samples;
    for (int i = 0; i < e.sh->nsamples; i++) samples += (i ? "," : "") + json_str(e.sh->samples[i]);
    if (!e.sh->nsamples) samples = json_str("none");
    std::string ef = verif + "/evidence/" + e.property + ".json";
    FILE *o = fopen(ef.c_str(), "w");
    if (o) {
        fprintf(o, "{\"property\": %s, \"tier\": %s, \"seed\": %d, \"level\": %s,\n \"coverage\": {", json_str(e.property).c_str(), json_str(thorough() ? "thorough" : "quick").c_str(), e.seed, json_str(e.level).c_str());
        unsigned long long ex = e.sh->executions, st = e.sh->states, tr = e.sh->transitions, oc = e.sh->outcomes;
        if (e.level == "model_checking") fprintf(o, "\"states\": %llu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu, \"distinct_outcomes\": %llu,", st, tr, ex, oc);
        else fprintf(o, "\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"rule\": %s, \"checks\": %llu,", ex, oc, json_str(e.rule).c_str(), (unsigned long long) e.sh->checks);
        fprintf(o, "\"exhaustive\": %s, \"pruned\": %llu, \"replay_divergences\": %llu, \"unreproduced\": %d,\n \"spaces\": [%s],\n \"samples\": [%s]", all_exhaustive ? "true" : "false", (unsigned long long) e.sh->pruned, (unsigned long long) e.sh->diverged, unreproduced, spaces_json.c_str(), samples.c_str());
        for (auto &x : e.extra) fprintf(o, ",\n %s: %s", json_str(x.first).c_str(), x.second.c_str());
        fprintf(o, "},\n \"assumptions\": [");
        for (size_t i = 0; i < e.assumptions.size(); i++) fprintf(o, "%s%s", i ? "," : "", json_str(e.assumptions[i]).c_str());
        fprintf(o, "],\n \"wall_s\": %.2f, \"violations\": %d}\n", now() - e.start, violations);
        fclose(o);
    }
    printf("%s: executions=%llu states=%llu transitions=%llu checks=%llu divergences=%llu %s violations=%d wall=%.1fs\n", e.property.c_str(), (unsigned long long) e.sh->executions, (unsigned long long) e.sh->states, (unsigned long long) e.sh->transitions,
           (unsigned long long) e.sh->checks, (unsigned long long) e.sh->diverged, all_exhaustive ? "complete" : "CAPPED", violations, now() - e.start);
    return violations ? 1 : 0;
}

inline Space &space(const std::string &name, const std::string &bound, Fn fn) {
    Space s; s.name = name; s.bound = bound; s.fn = fn; E().spaces.push_back(s); return E().spaces.back();
}
} // namespace mc

extern "C" __attribute__((weak)) const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_abort=0:allocator_may_return_null=1:detect_odr_violation=0:max_allocation_size_mb=4096";
}
