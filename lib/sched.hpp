// Controlled scheduler and race detector (see sched.cpp).
#pragma once
#include <cstddef>
#include <string>
namespace sched {
// From begin() on, only one thread of this process runs at a time and every switch is a choice of the
// engine: at each scheduling point the running thread may be preempted (at most `preemptions` times per
// execution); when it blocks, any enabled thread may go on.  `spurious`: condition waits that may return
// without a notification per execution.
void begin(int preemptions, int spurious = 0, long max_steps = 200000);
// The same with a bound on all deviations from a fixed round-robin schedule: choosing another thread than the
// next one costs 1, whether the running thread could go on or has blocked.
void begin_delays(int delays, long max_steps = 400000);
// Ends control.  Fails the execution when a thread made since begin() is still alive.
void end();
bool active();
void point(const char *what);          // explicit scheduling point of a harness
long steps();                          // scheduling points passed in this execution
int  threads();                        // threads made since begin(), the caller included
void ignore(int d);                    // +1/-1: accesses of the calling thread are not examined
// memory accessed on behalf of the calling thread by code that is not instrumented
void access(const void *p, std::size_t n, bool write);
extern bool load_points;               // atomic reads are scheduling points (default)
extern bool paid_sources;              // a message source other than the first costs 1 like a deviation
extern bool detect_races;              // only with the mc flavour
extern unsigned long accesses;         // instrumented accesses examined
extern unsigned long switches;
}
