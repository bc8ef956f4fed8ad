// C03: parallel construction of the BVH under every interleaving of its worker threads.
#include "harness/geom.h"
#include "mc/mc.h"
#include <lm/accel.h>
#include <lm/scene.h>
#include <lm/mesh.h>
#include <lm/material.h>
using namespace lm;
using H::T3;

namespace {
T3 tri_at(double x, double y, double z, double s = 1) { return {{x, y, z}, {x + s, y, z}, {x, y + s, z}}; }

// Triangle sets that force: a single leaf, one split, a chain of splits, a leaf with several
// triangles (coincident centres), an unsplittable (zero area) node, and no triangle at all.
std::vector<std::pair<std::string, std::vector<T3>>> sets() {
    auto z = [](double x, double y) { return tri_at(x, y, 0); };
    std::vector<std::pair<std::string, std::vector<T3>>> s;
    s.push_back({"one", {z(0, 0)}});
    s.push_back({"two_apart", {z(0, 0), z(9, 0)}});
    s.push_back({"two_coincident", {z(0, 0), z(0, 0)}});
    s.push_back({"two_stacked", {tri_at(0, 0, 0), tri_at(0, 0, 5)}});
    s.push_back({"three_chain", {z(0, 0), z(5, 0), z(50, 0)}});
    s.push_back({"three_point", {{{1, 1, 1}, {1, 1, 1}, {1, 1, 1}}, {{1, 1, 1}, {1, 1, 1}, {1, 1, 1}}, {{1, 1, 1}, {1, 1, 1}, {1, 1, 1}}}});
    s.push_back({"three_mixed", {z(0, 0), z(0, 0), z(30, 0)}});
    s.push_back({"four_grid", {z(0, 0), z(9, 0), z(0, 9), z(9, 9)}});
    s.push_back({"five_line", {z(0, 0), z(8, 0), z(16, 0), z(24, 0), z(32, 0)}});
    s.push_back({"none", {}});
    return s;
}

struct World { std::vector<T3> tris; Scene* scene; Component* material; };
World make(const std::vector<T3>& ts) {
    World w; w.tris = ts;
    lm::reset();
    lm::load<Material>("mat", "material::diffuse", {{"Kd", Vec3(1)}});
    auto* mesh = lm::load<Mesh>("mesh", "mesh::raw", H::mesh_prop(ts));
    w.scene = lm::load<Scene>("scene", "scene::default", {});
    w.scene->add_primitive({{"mesh", mesh->loc()}, {"material", "$.assets.mat"}});
    return w;
}

// rec: called from several controlled threads, failures are recorded instead of thrown
void verify(vp::Ctx& ctx, const World& w, Accel* accel, bool rec = false) {
    auto bad = [&](bool ok, const char* kind, const std::function<std::string()>& m) { if (!rec) ctx.checkf(ok, kind, m); else if (!ok) { mc::Ignore ig; ctx.record(kind, m()); } };
    std::vector<std::pair<Vec3, Vec3>> rays;
    for (auto& t : w.tris) {
        Vec3 c = t.a * 0.5 + t.b * 0.3 + t.c * 0.2;
        rays.push_back({c + Vec3(0.01, 0.02, 7), Vec3(0, 0, -1)});
        rays.push_back({c + Vec3(-0.01, 0.01, -6), Vec3(0, 0, 1)});
        rays.push_back({c + Vec3(3, 2, 7), glm::normalize(Vec3(-3, -2, -7))});
    }
    rays.push_back({Vec3(-100, 0, 3), Vec3(0, 0, 1)});
    for (auto& [o, d] : rays) {
        int best = -1; double bt = 1e300; bool unsure = false;
        for (int i = 0; i < (int)w.tris.size(); i++) {
            auto h = H::ref_tri(w.tris[i], o, d);
            if (h.edge) unsure = true;
            if (h.hit && h.t > 1e-4 && h.t < bt) { bt = h.t; best = i; }
        }
        if (unsure) continue;
        auto hit = accel->intersect({o, d}, 1e-4, 1e4);
        bad((best >= 0) == (bool)hit, best >= 0 ? "lost-triangle" : "phantom-hit", [&] { return "ray from " + H::v3(o) + " along " + H::v3(d) + (best >= 0 ? " misses triangle " + std::to_string(best) : " hits nothing but a hit was reported"); });
        if (hit) bad(std::abs(hit->t - bt) < 1e-9 * (1 + bt), "wrong-hit", [&] { return "closest distance " + std::to_string(hit->t) + " expected " + std::to_string(bt); });
    }
}

void family(vp::Ctx& ctx, int nthreads, std::vector<std::string> which, int preempt, int spurious = 0, int rebuild = 0, int queries = 0) {
    H::init(1);
    std::vector<std::pair<std::string, std::vector<T3>>> use;
    for (auto& s : sets()) if (std::find(which.begin(), which.end(), s.first) != which.end()) use.push_back(s);
    std::string names; for (auto& n : which) names += " " + n;
    ctx.bound(std::to_string(nthreads) + " builder threads, triangle sets:" + names + ", " + (preempt < 0 ? "all interleavings" : "preemption bound " + std::to_string(preempt)) + (spurious ? ", spurious wakeups" : "") + (queries ? ", then " + std::to_string(queries) + " threads query the structure concurrently (no unsynchronised access, answers as above)" : ""));
    World w; int cur = -1;
    ctx.explore([&](vp::Chooser& ch) {
        int k = ch.choose((int)use.size());
        if (k != cur) { w = make(use[k].second); cur = k; }
        ctx.trace("threads=" + std::to_string(nthreads) + " set=" + use[k].first + (rebuild ? " built twice" : ""));
        auto accel = comp::create<Accel>("accel::sahbvh", "");
        mc::Config cfg; cfg.hardware_threads = nthreads; cfg.preemptions = preempt; cfg.spurious_wakeups = spurious;
        std::string err;
        auto r = mc::run(ctx, ch, cfg, [&] {
            try { accel->build(*w.scene); if (rebuild) accel->build(*w.scene); if (queries) mc::parallel(queries, [&](int) { verify(ctx, w, accel.get(), true); }); }
            catch (const std::exception& e) { mc::Ignore ig; err = e.what(); }
        });
        if (r.redundant) return;
        ctx.state(use[k].first + "/" + ch.str());
        ctx.checkf(err.empty(), "build-throws", [&] { return "build of a valid scene threw: " + err; });
        verify(ctx, w, accel.get());
    });
}
}

SCENARIO("t1_all") { family(ctx, 1, {"one", "two_apart", "two_coincident", "two_stacked", "three_chain", "three_point", "three_mixed", "four_grid", "five_line", "none"}, -1); }
SCENARIO("t2_small") { family(ctx, 2, {"one", "two_coincident", "three_point", "none"}, -1); }
SCENARIO("t2_two_apart") { family(ctx, 2, {"two_apart"}, 4); }
SCENARIO("t2_three") { family(ctx, 2, {"three_chain", "three_mixed"}, 3); }
SCENARIO("t2_bounded") { family(ctx, 2, {"two_apart", "two_stacked", "three_chain", "three_mixed", "four_grid", "five_line"}, 2); }
SCENARIO("t2_spurious") { family(ctx, 2, {"two_apart", "three_mixed"}, 1, 2); }
SCENARIO("t2_rebuild") { family(ctx, 2, {"two_apart"}, 1, 0, 1); }
SCENARIO("t1_queries") { family(ctx, 1, {"one", "two_apart", "three_chain", "four_grid", "five_line"}, 2, 0, 0, 2); }
SCENARIO("t2_queries") { family(ctx, 2, {"two_apart", "four_grid"}, 0, 0, 0, 3); }
SCENARIO("t3_small") { family(ctx, 3, {"one", "two_coincident", "none"}, 2); }
SCENARIO("t3_bounded") { family(ctx, 3, {"two_apart", "three_chain"}, 1); }
SCENARIO_T("t2_full") { family(ctx, 2, {"two_apart", "two_stacked", "three_mixed"}, -1); }
SCENARIO_T("t2_deep") { family(ctx, 2, {"three_chain", "four_grid"}, 4); }
SCENARIO_T("t3_deep") { family(ctx, 3, {"two_apart", "three_mixed", "four_grid"}, 2); }
SCENARIO_T("t4_bounded") { family(ctx, 4, {"one", "two_apart", "three_mixed"}, 1); }

int main(int argc, char** argv) { return vp::run_main(argc, argv); }
