#include "threads.hpp"
#include "fakempi.hpp"
#include <dlfcn.h>
#include <pthread.h>
#include <string.h>
std::atomic<int> hx_live_threads{0};
struct Start { void *(*f)(void *); void *a; int rank; bool ours; };
static void *trampoline(void *p) { Start s = *(Start *) p; delete (Start *) p; fmpi::inherit(s.rank); void *r = s.f(s.a); if (s.ours) hx_live_threads--; return r; }
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)) dlsym(RTLD_NEXT, "pthread_create");
    // a std::thread passes its state, whose virtual table lives where the thread's function was compiled
    static Dl_info self; static int have = dladdr((void *) &trampoline, &self); Dl_info d; bool ours = false;
    if (have && a && dladdr((void *) f, &d) && d.dli_fname && (strstr(d.dli_fname, "libstdc++") || d.dli_fbase == self.dli_fbase) && dladdr(*(void **) a, &d)) ours = d.dli_fbase == self.dli_fbase;
    if (ours) hx_live_threads++;
    int r = real(t, at, trampoline, new Start{f, a, fmpi::rank(), ours});
    if (r && ours) hx_live_threads--;
    return r;
}
