// A controlled OpenMP runtime: team members are fibers of one OS thread, switched only where
// the controller decides.  Replaces libgomp (link without it).  Code compiled with
// -fsanitize=thread (and linked without the TSan runtime) is also switchable at every memory
// access, and the runtime notices accesses to freed memory and conflicting accesses.
#pragma once
#include <cstdint>
#include <vector>
namespace sched {
struct Config {
    uint64_t seed = 1;
    std::vector<int> plan;      // thread to run at the n-th synchronisation point (if it can run), repeated
    bool randomSync = true;     // without a plan: random choice, else stay
    int preemptPerMille = 0;    // chance to switch at any memory access
    int hotPerMille = 0;        // chance to switch at an access known to conflict
    bool detect = false;        // look for conflicting accesses
    bool races = false;         // in a process: stop at conflicting accesses not ordered by locks, atomics, creation or joining
    int spuriousPerMille = 0;   // chance that a waiter on a condition wakes up for no reason
};
void begin(const Config &c);    // applies to parallel regions executed from now on
void end();                     // back to: run every team member to completion in turn
void point();                   // a synchronisation point (to be called by user operations)
// Runs fn as the main thread of a little process whose threads (pthread_create, std::thread) are
// fibers and whose mutexes and conditions are served here.  False: nobody could go on any more.
bool process(void (*fn)(void *), void *data);
int thread();                   // the thread running now, 1 = the main thread of process()
struct Stats { long regions = 0, syncs = 0, switches = 0, accesses = 0, conflicts = 0, maxTeam = 0; };
Stats stats();
bool hot();                     // conflicting accesses have been seen (in any run of this process)
void forgetHot();
void releaseQuarantine();       // really free what was freed
}
