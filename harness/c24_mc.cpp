// C24, second harness: render threads under every schedule (preemption bound), with happens-before race detection.
#include "harness/rscenes.h"
#include "mc/mc.h"
#include <lm/renderer.h>
#include <lm/film.h>
#include <lm/parallel.h>
#include <lm/scheduler.h>
#include <lm/medium.h>
using namespace lm;
using namespace H;
namespace {
struct RK { std::string name, key; Json p; bool pixel; };
std::vector<RK> kinds() {
    std::vector<RK> r; for (auto m : {"naive", "nee", "mis"}) for (auto i : {"pixel", "image"}) r.push_back({std::string("pt ") + m + " " + i, "renderer::pt", {{"sampling_mode", m}, {"primary_ray_sampling_mode", i}}, std::string(i) == "pixel"});
    for (auto n : {"lt", "pt_naive_path", "pt_nee_path", "lt_nee_path", "bdpt", "bdptopt"}) r.push_back({n, std::string("renderer::") + n, Json::object(), false});
    for (auto n : {"volpt_naive", "volpt"}) r.push_back({n, std::string("renderer::") + n, Json::object(), true});
    r.push_back({"raycast", "renderer::raycast", Json::object(), true});
    return r;
}
void schedules(vp::Ctx& ctx, int scene, int threads, int preempt, int mx) {
    init(1); auto K = kinds();
    ctx.bound(fmt::format("render threads: {} threads, every renderer ({} configurations), {} samples (or one sample per pixel of a 2x2 film), paths of up to {} vertices, all schedules with up to {} preemptions; no unsynchronised access to shared memory", threads, K.size(), 2 * threads, mx, preempt));
    auto* a = lm::assets(); load_rassets(ctx.scratch, 1.); a->load_asset("film", "film::bitmap", {{"w", 2}, {"h", 2}});
    auto R = rscenes(); const std::vector<int> use = {5, 14, 10, 16, 12, 3}; RScene r = R[use[scene % use.size()]]; Scene* sc = build_rscene(r);
    if (scene >= (int)use.size()) {     // with a medium
        a->load_asset("ph", "phase::hg", {{"g", .4}});
        if (scene % 2) a->load_asset("me", "medium::homogeneous", {{"density", .6}, {"albedo", Vec3(.9, .6, .3)}, {"phase", "$.assets.ph"}, {"bound_min", Vec3(-2, .2, -1.5)}, {"bound_max", Vec3(2, 3, 5)}});
        else { a->load_asset("vs", "volume::sphere", {{"scalar", .6}, {"color", Vec3(1)}, {"pos", Vec3(0, 1, 3)}, {"radius", 2.}}); a->load_asset("vc", "volume::constant", {{"color", Vec3(.5)}, {"bound_min", Vec3(-9)}, {"bound_max", Vec3(9)}}); a->load_asset("vm", "volume::multi", {{"volumes_den", Json::array({"$.assets.vs"})}, {"volumes_alb", Json::array({"$.assets.vc"})}}); a->load_asset("me", "medium::heterogeneous", {{"volume_density", "$.assets.vm"}, {"volume_albedo", "$.assets.vm"}, {"phase", "$.assets.ph"}}); }
        sc->add_primitive({{"medium", "$.assets.me"}}); sc->build(); std::vector<RK> k2; for (auto& k : K) if (k.key.find("volpt") != std::string::npos) k2.push_back(k); K = k2;
    }
    auto* film = comp::get<Film>("$.assets.film"); int last = -1; Renderer* ren = nullptr;
    ctx.explore([&](vp::Chooser& ch) {
        const int ki = ch.choose(K.size()); const auto& k = K[ki]; auto id = [&] { return fmt::format("{} on {}, {} threads", k.name, r.name, threads); }; ctx.trace(id());
        if (ki != last) { Json p = {{"scene", "$.assets.sc"}, {"output", "$.assets.film"}, {"scheduler", "sample"}, {"spp", 1}, {"num_samples", 2 * threads}, {"max_verts", mx}, {"min_verts", 2}, {"seed", 7}}; p.update(k.p); ren = dynamic_cast<Renderer*>(a->load_asset("r", k.key, p)); last = ki; }
        parallel::init("openmp", {{"num_threads", threads}, {"progress_update_interval", 100}}); film->clear();
        std::string err; Json res; mc::Config cfg; cfg.hardware_threads = threads; cfg.preemptions = preempt; cfg.max_steps = 2000000;
        // a fresh thread renders: per-thread state of the renderers starts from the seed in every execution
        auto rr = mc::run(ctx, ch, cfg, [&] { mc::parallel(1, [&](int) { try { res = ren->render(); } catch (const std::exception& e) { mc::Ignore ig; err = e.what(); } }); });
        if (rr.redundant) return;
        ctx.checkf(err.empty(), "throws", [&] { return id() + ": render threw " + err; });
        if (k.key != "renderer::raycast") ctx.checkf(res.contains("processed") && res["processed"].get<long long>() == (k.pixel ? 1 : 2 * threads), "processed", [&] { return id() + ": result " + res.dump(); });
        auto b = film->buffer(); std::vector<float> px(b.data, b.data + 3 * b.w * b.h); for (float v : px) ctx.checkf(std::isfinite(v) && v >= 0, "range", [&] { return fmt::format("{}: pixel value {}", id(), v); });
        ctx.state(id() + ch.str());
    });
}
struct Init { Init() {
    auto add = [](const std::string& n, int s, int th, int pre, int tier) { vp::scenarios().push_back({n + std::to_string(s), [=](vp::Ctx& c) { schedules(c, s, th, pre, 4); }, tier}); };
    for (int s = 0; s < 8; s++) { add("render_", s, 2, 1, 0); add("render_p2_", s, 2, 2, s == 0 || s >= 6 ? 0 : 1); add("render_3t_", s, 3, 1, s == 1 || s >= 6 ? 0 : 1); add("render_p3_", s, 2, 3, 1); add("render_3t_p2_", s, 3, 2, 1); }
} } init_;
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
