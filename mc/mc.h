// Controlled scheduler: every atomic / mutex / condvar / thread / OpenMP operation of the
// instrumented library is a scheduling point whose outcome is chosen by vp::Chooser.
#pragma once
#include <functional>
#include <string>
#include "../vp/vp.h"

namespace mc {

struct Config {
    int preemptions = -1;     // -1: unbounded, with sleep-set partial-order reduction; >=0: preemption bound, no reduction
    int max_steps = 200000;   // scheduling points per execution
    bool races = true;        // report data races (happens-before over the C++ memory model's sync operations)
    int spurious_wakeups = 0;  // number of condition-variable wakeups without a notification the scheduler may inject
    int hardware_threads = 2; // std::thread::hardware_concurrency() seen by the library
};

struct Result {
    int steps = 0, threads = 0, preemptions = 0;
    bool redundant = false;   // equivalent to an execution already explored (sleep set)
};

// Run `body` once as controlled thread 0; the schedule is drawn from ch.
Result run(vp::Ctx& ctx, vp::Chooser& ch, const Config& cfg, const std::function<void()>& body);

int tid();                    // controlled thread id (-1 outside of run)
bool active();
void yield_point();           // harness-inserted scheduling point (dependent with every other one)
void local_point(const void* obj); // scheduling point that only depends on others with the same obj
// Run body in n controlled threads concurrently and join them.
void parallel(int n, const std::function<void(int)>& body);

// Accesses made by the harness's own bookkeeping are not events.
struct Ignore { Ignore(); ~Ignore(); };
// Re-enables event tracking inside an Ignore region.
struct Track { int saved; Track(); ~Track(); };

}
