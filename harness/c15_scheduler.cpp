// C15: schedulers dispatch every requested sample exactly once, under every schedule of the worker threads and every course of time.
#include "harness/vclock.h"
#include "harness/common.h"
#include "mc/mc.h"
#include <lm/scheduler.h>
#include <lm/progresscontext.h>
using namespace lm;
namespace {
struct Ev { int k; long long v; double t; };
std::vector<Ev> g_ev;
struct Rec final : public progress::ProgressContext {
    void construct(const Json&) override {}
    void start(progress::ProgressMode m, long long total, double t) override { mc::Ignore ig; g_ev.push_back({m == progress::ProgressMode::Samples ? 0 : 1, total, t}); }
    void update(long long p) override { mc::Ignore ig; g_ev.push_back({2, p, 0}); }
    void update_time(Float e) override { mc::Ignore ig; g_ev.push_back({3, 0, e}); }
    void end() override { mc::Ignore ig; g_ev.push_back({4, 0, 0}); }
};
LM_COMP_REG_IMPL(Rec, "progress::vt");
struct BodyError {};
struct Call { long long p, s; int t; };

// kind: 0 spp::sample 1 spi::sample 2 spp::time 3 spi::time
struct Case { int kind; int w, h; long long n; double budget; int threads; int interval; int thrower; };
void run_case(vp::Ctx& ctx, vp::Chooser& ch, const Case& k, const std::vector<double>& dts, int preempt) {
    static const char* T[] = {"spp::sample", "spi::sample", "spp::time", "spi::time"};
    std::string tr = std::string(T[k.kind]) + " film=" + std::to_string(k.w) + "x" + std::to_string(k.h) + " n=" + std::to_string(k.n) + " threads=" + std::to_string(k.threads) + " interval=" + std::to_string(k.interval) + " throwing=" + std::to_string(k.thrower);
    ctx.trace(tr);
    H::g_now_ns = 7000000000ll; g_ev.clear(); g_ev.reserve(256);
    lm::load<Film>("film", "film::bitmap", {{"w", k.w}, {"h", k.h}});
    Json p;
    if (k.kind == 0) p = {{"spp", k.n}, {"output", "$.assets.film"}};
    if (k.kind == 1) p = {{"num_samples", k.n}};
    if (k.kind == 2) p = {{"render_time", k.budget}, {"output", "$.assets.film"}};
    if (k.kind == 3) p = {{"render_time", k.budget}, {"samples_per_iter", k.n}};
    auto sch = comp::create<scheduler::Scheduler>(std::string("scheduler::") + T[k.kind], "$.s", p);
    ctx.check(!!sch, "create", "scheduler not created");
    parallel::init("openmp", {{"num_threads", k.threads}, {"progress_update_interval", k.interval}});
    std::vector<Call> calls; calls.reserve(256); std::vector<double> at; at.reserve(256);
    const long long pix = (long long)k.w * k.h, round = k.kind == 2 ? pix : k.n;
    const double t0 = H::g_now_ns * 1e-6; double tcur = 0; bool running = false, over = false;
    long long ret = -1; int caught = 0; char slots[64];
    mc::Config cfg; cfg.hardware_threads = k.threads; cfg.preemptions = preempt;
    auto r = mc::run(ctx, ch, cfg, [&] {
        { mc::Ignore ig; running = true; }
        try {
            ret = sch->run([&](long long px, long long s, int t) {
                bool thr;
                {
                    mc::Ignore ig;
                    if (!running) ctx.record("after-return", "process called after run returned");
                    calls.push_back({px, s, t});
                    if (t < 0 || t >= k.threads) ctx.record("thread", "thread index " + std::to_string(t));
                    thr = (int)calls.size() - 1 == k.thrower;
                    // the last invocation of a round decides how long the round took
                    if (k.kind >= 2 && calls.size() % round == 0) {
                        if (calls.size() / round > 6) { ctx.record("endless", "rounds continue although the time budget is exceeded"); thr = true; }
                        else { double d = dts[ch.choose((int)dts.size())]; if (calls.size() / round > 3) d = 100; H::advance_ms(d); tcur += d; at.push_back(tcur); }
                    }
                }
                mc::local_point(&slots[(px * 7 + s) % 64]);
                if (thr) throw BodyError();
            });
        } catch (const BodyError&) { mc::Ignore ig; caught = 1; }
        { mc::Ignore ig; running = false; }
    });
    if (r.redundant) return;
    std::string times; for (double a : at) times += " " + std::to_string((int)a);
    tr += times.empty() ? "" : " rounds end at" + times; ctx.trace(tr);
    std::string st = tr; for (auto& c : calls) st += "/" + std::to_string(c.p) + "," + std::to_string(c.s) + "@" + std::to_string(c.t); ctx.state(st);
    // progress: one start, updates, one end
    ctx.check(g_ev.size() >= 2 && g_ev.front().k == (k.kind >= 2) && g_ev.back().k == 4, "progress-frame", "progress was not reported from start to end");
    for (size_t i = 1; i + 1 < g_ev.size(); i++) {
        ctx.check(g_ev[i].k == (k.kind >= 2 ? 3 : 2), "progress-frame", "start or end reported in between, or the wrong kind of update");
        if (i > 1) ctx.check(g_ev[i].v >= g_ev[i - 1].v && g_ev[i].t >= g_ev[i - 1].t, "progress-decreases", "progress went backwards");
        ctx.check(g_ev[i].t >= 0 && g_ev[i].t <= tcur / 1000 + 1e-9, "progress-time", "reported elapsed time exceeds the elapsed time");
        if (k.kind < 2) ctx.check(g_ev[i].v >= 0 && g_ev[i].v <= g_ev[0].v, "progress-ratio", "reported progress exceeds the total");
    }
    if (k.kind < 2) ctx.checkf(g_ev[0].v == (k.kind == 0 ? pix * k.n : k.n), "progress-total", [&] { return "progress total " + std::to_string(g_ev[0].v); });
    else ctx.checkf(g_ev[0].t == k.budget, "progress-total", [&] { return "progress duration " + std::to_string(g_ev[0].t); });
    std::map<std::pair<long long, long long>, int> cnt; for (auto& c : calls) cnt[{c.p, c.s}]++;
    for (auto& kv : cnt) ctx.checkf(kv.second == 1, "repeated", [&] { return "(pixel " + std::to_string(kv.first.first) + ", sample " + std::to_string(kv.first.second) + ") dispatched " + std::to_string(kv.second) + " times"; });
    if (k.thrower >= 0 && (long long)calls.size() > k.thrower) { ctx.check(caught, "exception-lost", "exception of the process was not passed on"); return; }
    ctx.check(!caught, "exception", "unexpected exception");
    long long rounds = 1, want = 0;
    if (k.kind >= 2) { rounds = 0; for (double a : at) { rounds++; if (a / 1000 > k.budget) break; }
        ctx.checkf((long long)at.size() == rounds, at.size() > (size_t)rounds ? "too-long" : "too-short", [&] { return "dispatched " + std::to_string(at.size()) + " rounds instead of " + std::to_string(rounds); });
        ctx.check(at.empty() || at.back() / 1000 > k.budget, "too-short", "stopped before the time budget was exceeded"); }
    const long long np = k.kind == 0 || k.kind == 2 ? pix : 1, ns = k.kind == 0 || k.kind == 1 ? k.n : k.kind == 2 ? rounds : rounds * k.n;
    want = np * ns;
    ctx.checkf((long long)calls.size() == want, "count", [&] { return std::to_string(calls.size()) + " invocations instead of " + std::to_string(want); });
    for (long long p2 = 0; p2 < np; p2++) for (long long s = 0; s < ns; s++) ctx.checkf(cnt.count({p2, s}) == 1, "skipped", [&] { return "(pixel " + std::to_string(p2) + ", sample " + std::to_string(s) + ") was never dispatched"; });
    ctx.checkf(ret == ns, "returned", [&] { return "run returned " + std::to_string(ret) + " instead of " + std::to_string(ns); });
}
void setup() { H::init(1); progress::init("vt"); }
void samples(vp::Ctx& ctx, std::vector<int> threads, int maxn, bool throwing, int preempt) {
    ctx.bound("sample-limited schedulers: films 1x1,2x1,1x2,3x1,2x2, 0.." + std::to_string(maxn) + " samples, up to " + std::to_string(threads.back()) + " threads" + (throwing ? ", a throw at every invocation" : "") + ", preemption bound " + std::to_string(preempt));
    setup();
    static const std::vector<std::pair<int, int>> F = {{1, 1}, {2, 1}, {1, 2}, {3, 1}, {2, 2}};
    ctx.explore([&](vp::Chooser& c) {
        Case k{}; k.kind = c.choose(2); k.w = k.h = 1; if (k.kind == 0) { auto f = c.pick(F); k.w = f.first; k.h = f.second; }
        k.n = c.choose(maxn + 1); k.threads = c.pick(threads); k.interval = c.pick(std::vector<int>{1, 2, 100}); k.thrower = throwing ? c.choose((int)std::max<long long>(1, k.w * k.h * k.n)) : -1;
        run_case(ctx, c, k, {}, preempt);
    });
}
void timed(vp::Ctx& ctx, std::vector<int> threads, int maxn, int preempt) {
    ctx.bound("time-limited schedulers: films 1x1,2x1,3x1,2x2 or 1.." + std::to_string(maxn) + " samples per iteration, rounds of 0/1/2/3 ms each against budgets of 0.5, 2.5 and 4.5 ms, up to " + std::to_string(threads.back()) + " threads, preemption bound " + std::to_string(preempt));
    setup();
    static const std::vector<std::pair<int, int>> F = {{1, 1}, {2, 1}, {3, 1}, {2, 2}};
    ctx.explore([&](vp::Chooser& c) {
        Case k{}; k.kind = 2 + c.choose(2); k.w = k.h = 1; if (k.kind == 2) { auto f = c.pick(F); if (f.first * f.second > maxn + 1) f = {1, 1}; k.w = f.first; k.h = f.second; k.n = 0; } else k.n = 1 + c.choose(maxn);
        k.budget = c.pick(std::vector<double>{.0005, .0025, .0045}); k.threads = c.pick(threads); k.interval = c.pick(std::vector<int>{1, 100}); k.thrower = -1;
        run_case(ctx, c, k, {0, 1, 2, 3}, preempt);
    });
}
SCENARIO("samples_serial") { samples(ctx, {1}, 5, true, 0); }
SCENARIO("samples_two") { samples(ctx, {2}, 2, false, 2); }
SCENARIO("samples_two_throwing") { samples(ctx, {2}, 1, true, 1); }
SCENARIO("timed_serial") { timed(ctx, {1}, 3, 0); }
SCENARIO("timed_two") { timed(ctx, {2}, 2, 0); }
SCENARIO("samples_three") { samples(ctx, {3}, 1, false, 1); }
SCENARIO_T("samples_two_deep") { samples(ctx, {2}, 3, false, 3); }
SCENARIO_T("samples_two_throwing_deep") { samples(ctx, {2}, 2, true, 1); }
SCENARIO_T("samples_three_deep") { samples(ctx, {3}, 2, false, 2); }
SCENARIO_T("timed_two_deep") { timed(ctx, {2}, 3, 1); }
// defaults and invalid parameters
SCENARIO("parameters") {
    ctx.bound("missing or unresolvable parameters of all four schedulers; default number of samples per iteration");
    setup();
    ctx.explore([&](vp::Chooser& c) {
        static const std::vector<std::pair<std::string, Json>> bad = {{"spp::sample", {{"spp", 1}}}, {"spp::sample", {{"output", "$.assets.film"}}}, {"spp::sample", {{"spp", 1}, {"output", "$.assets.nope"}}}, {"spp::time", {{"render_time", 1}}}, {"spp::time", {{"output", "$.assets.film"}}}, {"spi::sample", Json::object()}, {"spi::time", Json::object()}};
        lm::load<Film>("film", "film::bitmap", {{"w", 2}, {"h", 1}});
        int i = c.choose((int)bad.size()); ctx.trace("bad " + std::to_string(i)); bool threw = false;
        try { comp::create<scheduler::Scheduler>("scheduler::" + bad[i].first, "$.s", bad[i].second); } catch (const lm::Exception&) { threw = true; }
        ctx.check(threw, "accepted", "a scheduler with missing parameters was accepted");
    });
}
// ---- sizes beyond 32 bits: a parallel context that runs a few indices of the requested range only -------------------------------
std::vector<long long> g_loops;
struct Probe final : public parallel::ParallelContext {
    void construct(const Json&) override {}
    int num_threads() const override { return 1; }
    bool main_thread() const override { return true; }
    static std::vector<long long> picks(long long n) { std::vector<long long> v; for (long long i : {0ll, 1ll, 2ll, 6ll, 7ll, 8ll, 99ll, (1ll << 31) - 1, 1ll << 31, (1ll << 31) + 1, (1ll << 32) - 1, 1ll << 32, (1ll << 32) + 5, 3ll << 33, n / 2, n - 2, n - 1}) if (i >= 0 && i < n && std::find(v.begin(), v.end(), i) == v.end()) v.push_back(i); std::sort(v.begin(), v.end()); return v; }
    void foreach(long long n, const parallel::ParallelProcessFunc& f, const parallel::ProgressUpdateFunc& p) const override { g_loops.push_back(n); for (auto i : picks(n)) { f(i, 0); p(i + 1); } H::advance_ms(600); }
};
LM_COMP_REG_IMPL(Probe, "parallel::probe");
long long g_pixels = 0;
struct HugeFilm final : public Film {
    void construct(const Json&) override {}
    FilmSize size() const override { return {1, 1}; } long long num_pixels() const override { return g_pixels; }
    void set_pixel(int, int, Vec3) override {} bool save(const std::string&) const override { return false; } FilmBuffer buffer() override { return {}; }
    void accum(const Film*) override {} void splat_pixel(int, int, Vec3) override {} void update_pixel(int, int, const PixelUpdateFunc&) override {} void rescale(Float) override {} void clear() override {}
};
LM_COMP_REG_IMPL(HugeFilm, "film::huge");
SCENARIO("large") {
    lm::init(); log::set_severity(1000); progress::init("vt"); parallel::init("probe");
    static const long long S[] = {1, 3, 100, (1ll << 31) - 1, 1ll << 31, (1ll << 31) + 7, (1ll << 32) + 3, 5ll << 33};
    ctx.bound("4 schedulers x 8 numbers of pixels x 8 numbers of samples up to 5 * 2^33, the indices around every power of two of interest, by a parallel context that runs only those");
    ctx.explore([&](vp::Chooser& ch) {
        static const char* T[] = {"spp::sample", "spi::sample", "spp::time", "spi::time"};
        const int kind = ch.choose(4); const long long pix = kind == 0 || kind == 2 ? S[ch.choose(8)] : 1, n = kind == 2 ? 1 : S[ch.choose(8)];
        if (kind == 0 && (unsigned __int128)pix * n >= ((unsigned __int128)1 << 62)) return;
        g_pixels = pix; g_loops.clear(); g_ev.clear(); H::g_now_ns = 7000000000ll;
        ctx.trace(std::string(T[kind]) + " pixels=" + std::to_string(pix) + " samples=" + std::to_string(n));
        lm::load<Film>("film", "film::huge", {});
        Json p; if (kind == 0) p = {{"spp", n}, {"output", "$.assets.film"}}; if (kind == 1) p = {{"num_samples", n}}; if (kind == 2) p = {{"render_time", 1.0}, {"output", "$.assets.film"}}; if (kind == 3) p = {{"render_time", 1.0}, {"samples_per_iter", n}};
        auto sch = comp::create<scheduler::Scheduler>(std::string("scheduler::") + T[kind], "$.s", p); ctx.check(!!sch, "create", "scheduler not created");
        std::vector<std::pair<long long, long long>> got, want; const auto ret = sch->run([&](long long px, long long s, int) { got.push_back({px, s}); });
        const int rounds = kind >= 2 ? 2 : 1; long long len = kind == 0 ? pix * n : kind == 2 ? pix : n;
        ctx.checkf(g_loops == std::vector<long long>(rounds, len), "large-loop", [&] { return "the loops run over " + std::to_string(g_loops.empty() ? -1 : g_loops[0]) + " indices (" + std::to_string(g_loops.size()) + " loops), expected " + std::to_string(len); });
        for (int r = 0; r < rounds; r++) for (auto i : Probe::picks(len)) want.push_back(kind == 0 ? std::make_pair(i / n, i % n) : kind == 2 ? std::make_pair(i, (long long)r) : std::make_pair(0ll, i + r * n));
        ctx.checkf(got == want, "large-index", [&] { std::string m = "calls with unexpected indices:"; for (size_t i = 0; i < got.size() && i < want.size(); i++) if (got[i] != want[i]) m += " (" + std::to_string(got[i].first) + "," + std::to_string(got[i].second) + ") instead of (" + std::to_string(want[i].first) + "," + std::to_string(want[i].second) + ")"; return m; });
        const long long wr = kind == 2 ? rounds : kind == 3 ? rounds * n : n;
        ctx.checkf(ret == wr, "large-return", [&] { return "returns " + std::to_string(ret) + " instead of " + std::to_string(wr); });
        ctx.checkf(!g_ev.empty() && (kind < 2 ? g_ev[0].k == 0 && g_ev[0].v == len : g_ev[0].k == 1), "large-total", [&] { return "progress starts with a total of " + std::to_string(g_ev[0].v) + ", expected " + std::to_string(len); });
        if (kind < 2) { auto P = Probe::picks(len); size_t q = 0; for (auto& e : g_ev) if (e.k == 2) { ctx.checkf(q < P.size() && e.v == P[q] + 1, "large-update", [&] { return "progress reported as " + std::to_string(e.v); }); q++; } ctx.check(q == P.size(), "large-update", "progress updates are missing"); }
        ctx.state(ctx.note);
    });
}
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
