// C23: contexts initialise, reset and shut down cleanly.  All histories of lifecycle operations on the real subsystems, compared
// with a reference state through every observable of every subsystem after every operation.
#include "harness/catalogue.h"
#include <lm/loggercontext.h>
#include <lm/progresscontext.h>
#include <lm/parallelcontext.h>
#include <lm/objloader.h>
using namespace lm;
namespace {
std::vector<std::string> g_rec; int g_live = 0;
template <typename B> struct Counted : B { Counted() { g_live++; } ~Counted() { g_live--; } };
struct RecLogger final : public Counted<log::LoggerContext> {
    std::string id; int sev = 0;
    void construct(const Json& p) override { id = json::value<std::string>(p, "id", "-"); }
    void log(log::LogLevel, int s, const char*, int, const char* m) override { if (s >= sev) g_rec.push_back("log " + id + " " + m); }
    void update_indentation(int) override {}
    void set_severity(int s) override { sev = s; }
};
struct RecProgress final : public Counted<progress::ProgressContext> {
    std::string id;
    void construct(const Json& p) override { id = json::value<std::string>(p, "id"); }
    void start(progress::ProgressMode, long long, double) override { g_rec.push_back("start " + id); }
    void update(long long) override { g_rec.push_back("update " + id); }
    void update_time(Float) override { g_rec.push_back("time " + id); }
    void end() override { g_rec.push_back("end " + id); }
};
struct RecParallel final : public Counted<parallel::ParallelContext> {
    int n = 0;
    void construct(const Json& p) override { n = json::value<int>(p, "n"); }
    int num_threads() const override { return n; }
    bool main_thread() const override { return true; }
    void foreach(long long k, const parallel::ParallelProcessFunc& f, const parallel::ProgressUpdateFunc&) const override { for (long long i = 0; i < k; i++) f(i, n - 1); }
};
struct RecObj final : public Counted<objloader::OBJLoaderContext> {
    void construct(const Json&) override {}
    bool load(const std::string&, objloader::OBJSurfaceGeometry&, const objloader::ProcessMeshFunc&, const objloader::ProcessMaterialFunc&) override { g_rec.push_back("obj"); return true; }
};
LM_COMP_REG_IMPL(RecLogger, "logger::vt");
LM_COMP_REG_IMPL(RecProgress, "progress::vt");
LM_COMP_REG_IMPL(RecParallel, "parallel::vt");
LM_COMP_REG_IMPL(RecObj, "objloader::vt");

enum E { Ok, Uninit, Other };
template <typename F> E attempt(F&& f) {
    try { f(); return Ok; }
    catch (const lm::Exception& e) { return std::string(e.what()).find("ninitialized") != std::string::npos ? Uninit : Other; }
    catch (...) { return Other; }
}
struct State {
    bool user = false, asset = false;
    std::string log = "", par = "", prog = "", obj = ""; int sev = 0;
    std::string str() const { return std::string(user ? "U" : "-") + (asset ? "A" : "-") + "/" + log + std::to_string(sev) + "/" + par + "/" + prog + "/" + obj; }
};
const int NOPS = 26;
const char* NAME[NOPS] = {"init", "shutdown", "reset", "load", "log.init", "log.init(vt)", "log.init(unknown)", "log.shutdown", "severity25", "severity0", "par.init(3)", "par.init(vt5)", "par.init(unknown)", "par.init(bad)", "par.shutdown",
    "prog.init(a)", "prog.init(b)", "prog.init(unknown)", "prog.init(bad)", "prog.shutdown", "obj.init", "obj.init(vt)", "obj.init(unknown)", "obj.shutdown", "log.scoped", "exception.init"};
struct World {
    vp::Ctx& ctx; State s; std::string objfile, statefile;
    void must(E got, E want, const std::string& what) {
        static const char* N[] = {"succeeds", "raises the uninitialised error", "raises another error"};
        ctx.checkf(got == want, what, [&] { return what + " " + N[got] + ", expected: " + N[want]; });
    }
    void op(int k) {
        switch (k) {
        case 0: must(attempt([] { lm::init(); }), Ok, "lm::init"); s.user = true; s.asset = false; s.log = "default"; s.sev = 0; s.par = "omp" + std::to_string(std::thread::hardware_concurrency()); s.prog = "default"; s.obj = "simple"; break;
        case 1: must(attempt([] { lm::shutdown(); }), s.user ? Ok : Uninit, "lm::shutdown"); if (s.user) { s = State(); } break;
        case 2: must(attempt([] { lm::reset(); }), s.user ? Ok : Uninit, "lm::reset"); if (s.user) s.asset = false; break;
        case 3: must(attempt([] { lm::load<Material>("a", "material::diffuse", {{"Kd", {1, 1, 1}}}); }), s.user ? Ok : Uninit, "lm::load"); if (s.user) s.asset = true; break;
        case 4: must(attempt([] { log::init("default", {{"color", false}}); }), Ok, "log::init"); s.log = "default"; s.sev = 0; break;
        case 5: must(attempt([] { log::init("vt", {{"id", "L"}}); }), Ok, "log::init(vt)"); s.log = "vt"; s.sev = 0; break;
        case 6: attempt([] { log::init("nope"); }); s.log = ""; break;
        case 7: must(attempt([] { log::shutdown(); }), Ok, "log::shutdown"); s.log = ""; break;
        case 8: log::set_severity(25); if (!s.log.empty()) s.sev = 25; break;
        case 9: log::set_severity(0); if (!s.log.empty()) s.sev = 0; break;
        case 10: must(attempt([] { parallel::init("openmp", {{"num_threads", 3}}); }), Ok, "parallel::init"); s.par = "omp3"; break;
        case 11: must(attempt([] { parallel::init("vt", {{"n", 5}}); }), Ok, "parallel::init(vt)"); s.par = "vt5"; break;
        case 12: attempt([] { parallel::init("nope"); }); s.par = ""; break;
        case 13: must(attempt([] { parallel::init("openmp", {{"num_threads", "many"}}); }), Other, "parallel::init with an invalid parameter"); s.par = ""; break;
        case 14: must(attempt([] { parallel::shutdown(); }), Ok, "parallel::shutdown"); s.par = ""; break;
        case 15: must(attempt([] { progress::init("vt", {{"id", "a"}}); }), Ok, "progress::init"); s.prog = "a"; break;
        case 16: must(attempt([] { progress::init("vt", {{"id", "b"}}); }), Ok, "progress::init"); s.prog = "b"; break;
        case 17: attempt([] { progress::init("nope"); }); s.prog = ""; break;
        case 18: must(attempt([] { progress::init("vt", Json::object()); }), Other, "progress::init without a required parameter"); s.prog = ""; break;
        case 19: must(attempt([] { progress::shutdown(); }), Ok, "progress::shutdown"); s.prog = ""; break;
        case 20: must(attempt([] { objloader::init(); }), Ok, "objloader::init"); s.obj = "simple"; break;
        case 21: must(attempt([] { objloader::init("vt"); }), Ok, "objloader::init(vt)"); s.obj = "vt"; break;
        case 22: attempt([] { objloader::init("nope"); }); s.obj = ""; break;
        case 23: must(attempt([] { objloader::shutdown(); }), Ok, "objloader::shutdown"); s.obj = ""; break;
        case 24: { bool thrown = false; try { log::ScopedInit g("vt", {{"id", "S"}}); s.log = "vt"; s.sev = 0; observe_log("S"); throw 1; } catch (int) { thrown = true; } s.log = ""; break; }
        case 25: exception::init(); { exception::ScopedInit g; } break;
        }
    }
    void observe_log(const std::string& id) {
        for (int sv : {-5, 0, 24, 25, 1000}) {
            g_rec.clear(); std::stringstream ss; auto* old = std::cout.rdbuf(ss.rdbuf());
            log::log(log::LogLevel::Info, sv, "f", 1, "hello");
            std::cout.rdbuf(old);
            const bool adm = s.log.empty() || sv >= s.sev;
            if (s.log == "vt") ctx.check(g_rec == (adm ? std::vector<std::string>{"log " + id + " hello"} : std::vector<std::string>{}) && ss.str().empty(), "log-backend", "message of severity " + std::to_string(sv) + " not handled by the configured logger at severity " + std::to_string(s.sev));
            else { ctx.check(g_rec.empty(), "log-backend", "message went to a logger that was replaced or shut down"); bool raw = ss.str() == "hello\n", fmtd = ss.str().size() > 6 && ss.str()[0] == '[';
                ctx.check(s.log.empty() ? raw : adm ? fmtd : ss.str().empty(), "log-default", "message of severity " + std::to_string(sv) + " at severity " + std::to_string(s.sev) + " with logger '" + s.log + "' printed: " + ss.str()); }
        }
    }
    void observe(bool full) {
        observe_log("L");
        std::stringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf());
        struct Restore { std::streambuf* o; ~Restore() { std::cout.rdbuf(o); } } rs{old};
        const E pe = s.par.empty() ? Uninit : Ok; int n = 0;
        must(attempt([&] { n = parallel::num_threads(); }), pe, "parallel::num_threads");
        if (pe == Ok) ctx.checkf(n == std::stoi(s.par.substr(s.par[0] == 'o' ? 3 : 2)), "num_threads", [&] { return "num_threads() is " + std::to_string(n) + " after initialisation as " + s.par; });
        must(attempt([&] { parallel::main_thread(); }), pe, "parallel::main_thread");
        std::atomic<int> cnt{0}; std::atomic<int> bad{0};
        if (s.par.empty() || s.par == "vt5" || (full && s.par == "omp3")) {
            must(attempt([&] { parallel::foreach(4, [&](long long i, int t) { cnt++; if (t < 0 || t >= n) bad++; }, [](long long) {}); }), pe, "parallel::foreach");
            ctx.check(cnt == (pe == Ok ? 4 : 0) && !bad, "foreach", "loop bodies executed");
        }
        const E ge = s.prog.empty() ? Uninit : Ok; g_rec.clear();
        must(attempt([&] { progress::start(progress::ProgressMode::Samples, 3, -1); }), ge, "progress::start");
        must(attempt([&] { progress::update(1); }), ge, "progress::update");
        must(attempt([&] { progress::update_time(.1); }), ge, "progress::update_time");
        if (s.log != "vt") { must(attempt([&] { progress::end(); }), ge, "progress::end");
            std::vector<std::string> want; if (s.prog == "a" || s.prog == "b") for (auto k : {"start ", "update ", "time ", "end "}) want.push_back(k + s.prog);
            ctx.check(g_rec == want, "progress-backend", "reports were not delivered to the backend of the latest initialisation"); }
        g_rec.clear(); objloader::OBJSurfaceGeometry geo; bool r = false;
        const E oe = s.obj.empty() ? Uninit : Ok;
        must(attempt([&] { r = objloader::load(objfile, geo, [](auto&, auto&) { return true; }, [](auto&) { return true; }); }), oe, "objloader::load");
        if (oe == Ok) ctx.check(r && (s.obj == "vt") == (std::count(g_rec.begin(), g_rec.end(), "obj") == 1) && (s.obj == "vt" || geo.ps.size() == 3), "obj-backend", "file was not loaded by the configured loader");
        const E ue = s.user ? Ok : Uninit; AssetGroup* ag = nullptr;
        must(attempt([&] { ag = lm::assets(); }), ue, "lm::assets"); if (s.user) ctx.check(ag && ag->loc() == "$.assets", "assets", "root asset group");
        must(attempt([&] { lm::info(); }), ue, "lm::info");
        must(attempt([&] { debug::print_asset_tree(true); }), ue, "debug::print_asset_tree");
        if (full) must(attempt([&] { lm::save_state_to_file(statefile); }), ue, "lm::save_state_to_file");
        if (s.user) ctx.check(bool(comp::get<Material>("$.assets.a")) == s.asset, "asset", s.asset ? "loaded asset disappeared" : "asset survived a reset or re-initialisation");
        if (!s.user && full) must(attempt([&] { lm::load_state_from_file(statefile); }), Uninit, "lm::load_state_from_file");
        const int live = (s.log == "vt") + (s.prog == "a" || s.prog == "b") + (s.par == "vt5") + (s.obj == "vt");
        ctx.checkf(g_live == live, "contexts-alive", [&] { return std::to_string(g_live) + " context instances alive instead of " + std::to_string(live); });
        ctx.state(s.str());
    }
};
void clear() { log::shutdown(); parallel::shutdown(); progress::shutdown(); objloader::shutdown(); try { lm::shutdown(); } catch (...) {} }
void histories(vp::Ctx& ctx, int depth, int part, int parts, bool full) {
    ctx.bound("all histories of " + std::to_string(depth) + " lifecycle operations out of " + std::to_string(NOPS) + ", from the uninitialised and from the initialised framework");
    const std::string o = ctx.scratch + "/t.obj"; { std::ofstream f(o); f << "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n"; }
    ctx.explore([&](vp::Chooser& c) {
        std::stringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf());
        clear(); g_live = 0;
        std::cout.rdbuf(old);
        World w{ctx}; w.objfile = o; w.statefile = ctx.scratch + "/s.bin"; std::string tr;
        if (c.flip()) { w.op(0); tr = "init"; }
        for (int i = 0; i < depth; i++) {
            int k = i == 0 && parts > 1 ? part + parts * c.choose((NOPS - part + parts - 1) / parts) : c.choose(NOPS);
            tr += std::string(" ") + NAME[k]; ctx.trace(tr);
            { std::stringstream s2; auto* o2 = std::cout.rdbuf(s2.rdbuf()); try { w.op(k); } catch (...) { std::cout.rdbuf(o2); throw; } std::cout.rdbuf(o2); }
            if (i + 1 == depth) w.observe(full);   // shorter histories are explored on their own
        }
    });
    clear();
}
SCENARIO("histories1") { histories(ctx, 1, 0, 1, true); }
SCENARIO("histories2") { histories(ctx, 2, 0, 1, true); }
struct R { R() {
    for (int p = 0; p < 6; p++) vp::scenarios().push_back({"histories3_" + std::to_string(p), [=](vp::Ctx& c) { histories(c, 3, p, 6, true); }, 0});
    for (int p = 0; p < 26; p++) vp::scenarios().push_back({"histories4_" + std::to_string(p), [=](vp::Ctx& c) { histories(c, 4, p, 26, false); }, 1});
} } r_;
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
