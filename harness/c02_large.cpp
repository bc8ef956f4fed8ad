// C02: loops with more indices than 32 bits count, on the real OpenMP context. A loop is checked by the number, sum and sum of squares of the indices it ran.
#include "harness/common.h"
using namespace lm;
namespace {
using U = unsigned long long;
void large(vp::Ctx& ctx, long long n, int threads) {
    lm::init(); log::set_severity(1000);
    ctx.bound("one loop of " + std::to_string(n) + " indices on " + std::to_string(threads) + " thread(s)");
    ctx.explore([&](vp::Chooser& ch) {
        ch.choose(1); ctx.trace("foreach(" + std::to_string(n) + ") on " + std::to_string(threads) + " thread(s)");
        parallel::init("openmp", {{"num_threads", threads}, {"progress_update_interval", 1 << 20}});
        struct alignas(128) Acc { U c = 0, s = 0, q = 0; long long lo = 0, hi = 0; }; std::vector<Acc> acc(threads);
        long long last = 0; bool back = false, over = false, stray = false;
        parallel::foreach(n, [&](long long i, int t) { if (t < 0 || t >= threads) { stray = true; return; } Acc& a = acc[t]; a.c++; a.s += U(i); a.q += U(i) * U(i); if (i < a.lo) a.lo = i; if (i > a.hi) a.hi = i; },
            [&](long long p) { if (p < last) back = true; last = p; if (p > n) over = true; });
        Acc all; for (auto& a : acc) { all.c += a.c; all.s += a.s; all.q += a.q; all.lo = std::min(all.lo, a.lo); all.hi = std::max(all.hi, a.hi); }
        // sums over [0,n) modulo 2^64
        unsigned __int128 N = n, s = N * (N - 1) / 2, q = N * (N - 1) / 2; q = (q % 3 == 0 ? (q / 3) * (2 * N - 1) : q * ((2 * N - 1) / 3));
        ctx.checkf(!stray, "large-thread", [&] { return std::string("a thread index is out of range"); });
        ctx.checkf(all.c == U(n) && all.lo == 0 && all.hi == n - 1 && all.s == U(s) && all.q == U(q), "large", [&] { return "a loop of " + std::to_string(n) + " indices ran " + std::to_string(all.c) + " bodies with indices from " + std::to_string(all.lo) + " to " + std::to_string(all.hi); });
        ctx.checkf(!back && !over && last <= n, "large-progress", [&] { return "the progress of a loop of " + std::to_string(n) + " indices goes back or beyond, to " + std::to_string(last); });
        ctx.state(std::to_string(all.c)); ctx.extra_transitions += all.c;
    });
}
SCENARIO("large_32bit") { large(ctx, (1ll << 32) + 5, 1); }
SCENARIO_T("large_31bit") { large(ctx, (1ll << 31) + 3, 1); }
SCENARIO_T("large_32bit_threads") { large(ctx, (1ll << 32) + 5, 4); }
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
