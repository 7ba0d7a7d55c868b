// In-process MPI: every rank is a set of threads of one process.
#pragma once
#include <cstddef>
namespace fmpi {
void reset(int ranks, bool eager);     // start a new world
void set_rank(int rank);               // rank of the calling thread
int  rank();                           // inherited by created threads
void inherit(int rank);
extern int  (*choose_source)(int n);   // which of n sources an ANY_SOURCE receive matches (default: first)
extern void (*wait_hook)();            // called when a poll or a barrier cannot make progress
extern void (*event_hook)(int rank);   // called when something a poller of that rank (-1: any) may wait for has happened
extern void (*point_hook)(const char *what); // scheduling point before each call
extern void (*error_hook)(const char *msg);  // misuse (truncation, bad rank, ...)
extern void (*ignore_hook)(int);             // +1/-1 around the stand-in's own bookkeeping
extern void (*hb_hook)(void *key, bool release); // what happens before what
extern void (*access_hook)(const void *, std::size_t, bool write); // user memory read or written by a call
extern int fail_countdown;             // >0: the n-th communication call from now fails
size_t pending();                      // messages sent and not yet received
size_t active_requests();              // requests neither completed nor freed
unsigned long messages();              // messages sent so far
}
