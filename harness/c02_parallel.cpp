// C02: parallel::foreach - exactly-once, thread indices, exceptions, progress, under every schedule.
#include "harness/common.h"
#include "mc/mc.h"
#include <atomic>
using namespace lm;

namespace {
struct BodyError : std::runtime_error { long long i; int loop; BodyError(long long i, int loop) : std::runtime_error("body"), i(i), loop(loop) {} };

struct Loop { int n; int mask; };   // mask: indices that throw

void run_case(vp::Ctx& ctx, vp::Chooser& ch, int nthreads, int interval, const std::vector<Loop>& loops, int preempt) {
    std::string desc = "threads=" + std::to_string(nthreads) + " interval=" + std::to_string(interval);
    for (auto& l : loops) desc += " foreach(n=" + std::to_string(l.n) + ",throwing=" + std::to_string(l.mask) + ")";
    ctx.trace(desc);
    struct Rec { int loop; long long index; int thread; bool done; };
    std::vector<Rec> recs; recs.reserve(64);
    struct Prog { int loop; long long v; int thread; };
    std::vector<Prog> progs; progs.reserve(64);
    std::vector<int> in_body(8, 0);
    std::vector<std::pair<int, long long>> caught(loops.size(), {0, -1});
    char slots[64];
    bool returned = true;
    mc::Config cfg; cfg.hardware_threads = nthreads; cfg.preemptions = preempt;
    auto r = mc::run(ctx, ch, cfg, [&] {
        for (int li = 0; li < (int)loops.size(); li++) {
            { mc::Ignore ig; returned = false; }
            try {
                parallel::foreach(loops[li].n, [&](long long i, int t) {
                    bool thr;
                    {
                        mc::Ignore ig;
                        if (returned) ctx.record("body-after-return", "a body ran although its loop had returned");
                        if (i < 0 || i >= loops[li].n) ctx.record("index-range", "body called with index " + std::to_string(i));
                        if (t < 0 || t >= nthreads) { ctx.record("thread-range", "body called with thread index " + std::to_string(t) + " of " + std::to_string(nthreads)); t = 0; }
                        if (in_body[t]++) ctx.record("thread-shared", "two concurrently running bodies were given the same thread index");
                        recs.push_back({li, i, mc::tid(), false});
                        thr = (loops[li].mask >> i) & 1;
                    }
                    mc::local_point(&slots[i < 64 ? i : 0]);
                    { mc::Ignore ig; in_body[t]--; for (auto& r : recs) if (r.loop == li && r.index == i) r.done = true; }
                    if (thr) throw BodyError(i, li);
                }, [&](long long p) {
                    mc::Ignore ig;
                    if (returned) ctx.record("progress-after-return", "progress reported although the loop had returned");
                    progs.push_back({li, p, mc::tid()});
                    if (!parallel::main_thread()) ctx.record("progress-thread", "progress was reported from a thread whose index is not 0");
                });
            }
            catch (const BodyError& e) { mc::Ignore ig; caught[li] = {1, e.i}; if (e.loop != li) ctx.record("stale-exception", "foreach rethrew the exception of an earlier loop"); }
            catch (...) { mc::Ignore ig; caught[li] = {2, -1}; }
            { mc::Ignore ig; returned = true; }
        }
    });
    if (r.redundant) return;
    std::string st = desc;
    for (auto& x : recs) st += "/" + std::to_string(x.loop) + ":" + std::to_string(x.index) + "@" + std::to_string(x.thread);
    for (auto& p : progs) st += "|" + std::to_string(p.v);
    ctx.state(st);
    for (int li = 0; li < (int)loops.size(); li++) {
        std::vector<int> cnt(loops[li].n, 0); bool threw = false;
        for (auto& x : recs) if (x.loop == li) {
            if (x.index >= 0 && x.index < loops[li].n) cnt[x.index]++;
            if (!x.done) ctx.fail("unfinished", "foreach returned while a body was still running");
            if ((loops[li].mask >> x.index) & 1) threw = true;
        }
        for (int i = 0; i < loops[li].n; i++) {
            ctx.checkf(cnt[i] <= 1, "twice", [&] { return "index " + std::to_string(i) + " was processed " + std::to_string(cnt[i]) + " times"; });
            if (!threw) ctx.checkf(cnt[i] == 1, "skipped", [&] { return "index " + std::to_string(i) + " of loop " + std::to_string(li) + " was never processed although no body threw"; });
        }
        if (loops[li].mask) ctx.check(threw, "skipped-throwing", "a loop with throwing bodies ran none of them");
        ctx.checkf((caught[li].first == 1) == threw, threw ? "exception-lost" : "exception-invented", [&] { return std::string("body threw: ") + (threw ? "yes" : "no") + ", foreach threw: " + std::to_string(caught[li].first); });
        if (threw) {
            bool ran = false; for (auto& x : recs) if (x.loop == li && x.index == caught[li].second) ran = true;
            ctx.check(ran && ((loops[li].mask >> caught[li].second) & 1), "exception-wrong", "foreach rethrew an exception no body of this loop threw");
        }
        // a thread whose body threw has cancelled the loop: it starts no further index
        { std::set<int> out; for (auto& x : recs) if (x.loop == li) { ctx.checkf(!out.count(x.thread), "continued", [&] { return "index " + std::to_string(x.index) + " was started by a thread whose body had thrown before"; }); if ((loops[li].mask >> x.index) & 1) out.insert(x.thread); } }
        long long prev = 0;
        for (auto& p : progs) if (p.loop == li) {
            ctx.checkf(p.v >= prev, "progress-decreases", [&] { return "progress went from " + std::to_string(prev) + " to " + std::to_string(p.v); });
            ctx.checkf(p.v >= 0 && p.v <= loops[li].n, "progress-exceeds", [&] { return "progress reported " + std::to_string(p.v) + " processed of " + std::to_string(loops[li].n); });
            prev = p.v;
        }
    }
}
void setup(int nthreads, int interval) {
    parallel::init("openmp", {{"num_threads", nthreads}, {"progress_update_interval", interval}});
}
void family(vp::Ctx& ctx, std::vector<int> threads, int maxn, std::vector<int> intervals, bool throwing, int nloops, int preempt) {
    H::init(1);
    ctx.bound("loops of 0.." + std::to_string(maxn) + " indices x" + std::to_string(nloops) + (throwing ? ", every subset of throwing indices" : "") + ", up to " + std::to_string(threads.back()) +
              " threads, " + (preempt < 0 ? "all interleavings" : "preemption bound " + std::to_string(preempt)));
    ctx.explore([&](vp::Chooser& ch) {
        int nt = ch.pick(threads), iv = ch.pick(intervals);
        std::vector<Loop> loops;
        for (int i = 0; i < nloops; i++) { int n = ch.choose(maxn + 1); int m = throwing ? ch.choose(1 << n) : 0; loops.push_back({n, m}); }
        setup(nt, iv);
        run_case(ctx, ch, nt, iv, loops, preempt);
        parallel::shutdown();
    });
}
}

SCENARIO("serial") { family(ctx, {1}, 4, {1, 2, 100}, true, 2, -1); }
SCENARIO("two_threads") { family(ctx, {2}, 3, {1, 2, 100}, false, 1, -1); }
SCENARIO("two_threads_throwing") { family(ctx, {2}, 3, {1, 2}, true, 1, -1); }
SCENARIO("two_threads_two_loops") { family(ctx, {2}, 2, {1, 2, 3}, true, 2, 2); }
SCENARIO("three_threads") { family(ctx, {3}, 3, {1, 2}, false, 1, 2); }
SCENARIO("three_threads_throwing") { family(ctx, {3}, 3, {1}, true, 1, 1); }
SCENARIO_T("two_threads_deep") { family(ctx, {2}, 5, {1, 2, 3}, false, 1, -1); }
SCENARIO_T("two_threads_throwing_deep") { family(ctx, {2}, 4, {1, 2, 3}, true, 1, -1); }
SCENARIO_T("two_threads_three_loops") { family(ctx, {2}, 2, {1, 2, 3}, true, 3, 2); }
SCENARIO_T("three_threads_deep") { family(ctx, {3}, 4, {1, 2, 3}, false, 1, 3); }
SCENARIO_T("three_threads_throwing_deep") { family(ctx, {3}, 3, {1, 2}, true, 1, 3); }

// Context configuration: the number of threads used is the configured one.
SCENARIO("thread_count") {
    H::init(1);
    ctx.bound("num_threads in -1..4 with 2..4 hardware threads, loops of 8 indices");
    ctx.explore([&](vp::Chooser& ch) {
        int hw = 2 + ch.choose(3), req = ch.choose(6) - 1;
        if (req <= 0 && hw + req < 1) return;
        ctx.trace("hw=" + std::to_string(hw) + " num_threads=" + std::to_string(req));
        mc::Config cfg; cfg.hardware_threads = hw; cfg.preemptions = 0;
        std::set<int> used;
        int reported = 0;
        mc::run(ctx, ch, cfg, [&] {
            parallel::init("openmp", {{"num_threads", req}});
            reported = parallel::num_threads();
            static char slot[8];
            parallel::foreach(8, [&](long long i, int t) { { mc::Ignore ig; used.insert(t); } mc::local_point(&slot[i]); }, [](long long) {});
            parallel::shutdown();
        });
        int exp = req <= 0 ? hw + req : req;
        ctx.checkf(reported == exp, "num_threads", [&] { return "num_threads()=" + std::to_string(reported) + " expected " + std::to_string(exp); });
        for (int t : used) ctx.checkf(t >= 0 && t < exp, "thread-range", [&] { return "thread index " + std::to_string(t) + " with " + std::to_string(exp) + " threads"; });
    });
}

int main(int argc, char** argv) { return vp::run_main(argc, argv); }
