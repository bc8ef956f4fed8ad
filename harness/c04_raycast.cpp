// C04: closest hit, surface interaction and visibility against an independent brute-force oracle,
// over every scene and ray of a bounded lattice.
#include "harness/geom.h"
#include <lm/accel.h>
#include <lm/scene.h>
#include <lm/mesh.h>
#include <lm/material.h>
#include <lm/light.h>
using namespace lm;
using H::T3;

namespace {
struct Flat { T3 w; T3 local; int prim, face; Mat4 M; };
struct World { std::vector<Flat> flat; Scene* scene = nullptr; Accel* accel = nullptr; int env = -1; };

Vec3 xf(const Mat4& M, Vec3 p) { return Vec3(M * Vec4(p, 1)); }

struct Builder {
    World w; int nmesh = 0;
    Builder() {
        lm::reset();
        lm::load<Material>("mat", "material::diffuse", {{"Kd", Vec3(1)}});
        w.accel = lm::load<Accel>("accel", "accel::sahbvh", {});
        w.scene = lm::load<Scene>("scene", "scene::default", {{"accel", w.accel->loc()}});
    }
    int mesh_node(const std::vector<T3>& ts) {
        auto name = "mesh" + std::to_string(nmesh++);
        auto* m = lm::load<Mesh>(name, "mesh::raw", H::mesh_prop(ts));
        return w.scene->create_primitive_node({{"mesh", m->loc()}, {"material", "$.assets.mat"}});
    }
    void occurrence(const std::vector<T3>& ts, int prim, const Mat4& M) {
        for (int f = 0; f < (int)ts.size(); f++) w.flat.push_back({{xf(M, ts[f].a), xf(M, ts[f].b), xf(M, ts[f].c)}, ts[f], prim, f, M});
    }
    void add(const std::vector<T3>& ts, const Mat4& M) {
        int g = w.scene->create_group_node(M);
        int p = mesh_node(ts);
        w.scene->add_child(g, p);
        w.scene->add_child(w.scene->root_node(), g);
        occurrence(ts, p, M);
    }
    void env() {
        lm::load<Light>("env", "light::envconst", {{"Le", Vec3(1)}});
        w.env = w.scene->create_primitive_node({{"light", "$.assets.env"}});
        w.scene->add_child(w.scene->root_node(), w.env);
    }
    World done() { w.scene->build(); return w; }
};

struct Best { bool hit = false, unsure = false; double t = 1e300; std::vector<int> ids; };
Best oracle(const World& w, Vec3 o, Vec3 d, double tl, double th) {
    Best b;
    std::vector<std::pair<double, int>> hs;
    for (int i = 0; i < (int)w.flat.size(); i++) {
        auto h = H::ref_tri(w.flat[i].w, o, d);
        double tol = 1e-7 * (1 + std::abs(h.t));
        if (h.edge && h.t > tl - tol && h.t < th + tol) { b.unsure = true; continue; }
        if (!h.hit) continue;
        if (std::abs(h.t - tl) < tol || std::abs(h.t - th) < tol) { b.unsure = true; continue; }
        if (h.t > tl && h.t < th) hs.push_back({h.t, i});
    }
    for (auto& h : hs) if (h.first < b.t) { b.t = h.first; b.hit = true; }
    for (auto& h : hs) if (h.first < b.t + 1e-9 * (1 + b.t)) b.ids.push_back(h.second);
    return b;
}
bool near(Vec3 a, Vec3 b, double tol) { return glm::length(a - b) <= tol * (1 + glm::length(b)); }

void query(vp::Ctx& ctx, const World& w, Vec3 o, Vec3 d, double tl, double th) {
    ctx.extra_transitions++;
    auto b = oracle(w, o, d, tl, th);
    if (b.unsure) { ctx.counters["ambiguous_rays_skipped"]++; return; }
    auto what = [&] { char s[256]; snprintf(s, sizeof s, "ray o=%s d=%s in [%g,%g]", H::v3(o).c_str(), H::v3(d).c_str(), tl, th); return std::string(s); };
    auto h = w.accel->intersect({o, d}, tl, th);
    ctx.checkf((bool)h == b.hit, b.hit ? "missed-hit" : "phantom-hit", [&] { return what() + (b.hit ? ": nearest triangle at t=" + std::to_string(b.t) + " not reported" : ": hit reported at t=" + std::to_string(h->t) + " where there is none"); });
    auto si = w.scene->intersect({o, d}, tl, th);
    if (!b.hit) {
        bool env = w.env >= 0 && th >= Inf;
        ctx.checkf((bool)si == env, env ? "env-missing" : "env-phantom", [&] { return what() + (env ? ": environment light not reported" : ": an interaction was reported for a ray that hits nothing"); });
        if (si) {
            ctx.check(si->geom.infinite && !si->geom.degenerated && si->primitive == w.env && si->is_type(SceneInteraction::LightEndpoint), "env-kind", what() + ": environment interaction is not flagged infinite/light or names the wrong primitive");
            ctx.check(near(si->geom.wo, -d, 1e-9), "env-dir", what() + ": environment interaction has the wrong direction");
        }
        return;
    }
    ctx.checkf(std::abs(h->t - b.t) <= 1e-8 * (1 + b.t), "not-closest", [&] { return what() + ": t=" + std::to_string(h->t) + " but the nearest triangle is at " + std::to_string(b.t); });
    const Flat* f = nullptr;
    for (int i : b.ids) if (w.flat[i].prim == h->primitive && w.flat[i].face == h->face) {
        double diff = 0; for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) diff = std::max(diff, std::abs(w.flat[i].M[c][r] - h->global_transform.M[c][r]));
        if (diff < 1e-12) { f = &w.flat[i]; break; }
    }
    ctx.checkf(f != nullptr, "wrong-identity", [&] { return what() + ": reported primitive " + std::to_string(h->primitive) + " face " + std::to_string(h->face) + " is not the nearest triangle"; });
    auto r = H::ref_tri(f->w, o, d);
    ctx.checkf(std::abs(h->uv.x - r.u) < 1e-6 && std::abs(h->uv.y - r.v) < 1e-6, "wrong-barycentric", [&] { return what() + ": barycentric coordinates (" + std::to_string(h->uv.x) + "," + std::to_string(h->uv.y) + ") expected (" + std::to_string(r.u) + "," + std::to_string(r.v) + ")"; });
    ctx.check((bool)si, "scene-miss", what() + ": Scene::intersect misses what the acceleration structure hits");
    auto& g = si->geom;
    ctx.check(si->is_type(SceneInteraction::SurfaceInteraction) && !g.infinite && !g.degenerated, "kind", what() + ": hit not reported as a surface interaction");
    ctx.checkf(si->primitive == h->primitive, "scene-primitive", [&] { return what() + ": interaction names primitive " + std::to_string(si->primitive); });
    ctx.checkf(near(g.p, o + d * b.t, 1e-7), "point", [&] { return what() + ": point " + H::v3(g.p) + " is not on the ray at the hit distance"; });
    Vec3 ln = glm::normalize(glm::cross(f->local.b - f->local.a, f->local.c - f->local.a));
    Vec3 wn = glm::normalize(Mat3(glm::transpose(glm::inverse(f->M))) * ln);
    ctx.checkf(near(g.gn, wn, 1e-7), "geometry-normal", [&] { return what() + ": geometry normal " + H::v3(g.gn) + " expected " + H::v3(wn); });
    ctx.checkf(near(g.n, wn, 1e-7), "shading-normal", [&] { return what() + ": shading normal " + H::v3(g.n) + " expected " + H::v3(wn); });
    ctx.checkf(std::abs(g.t.x - r.u) < 1e-6 && std::abs(g.t.y - r.v) < 1e-6, "texcoord", [&] { return what() + ": wrong texture coordinate"; });
    // tangent frame
    auto ok = std::abs(glm::dot(g.u, g.v)) < 1e-9 && std::abs(glm::dot(g.u, g.n)) < 1e-9 && std::abs(glm::length(g.u) - 1) < 1e-9 && near(glm::cross(g.u, g.v), g.n, 1e-9)
        && near(g.to_world * Vec3(0, 0, 1), g.n, 1e-9) && near(g.to_local * g.n, Vec3(0, 0, 1), 1e-9);
    ctx.check(ok, "frame", what() + ": tangent frame of the interaction is not right-handed orthonormal around the normal");
}

// Ray lattice: origins on a 3x3x3 lattice around the scene (slightly irrational offsets, so that generic
// rays do not graze edges) plus axis-aligned rays with zero components, against every lattice direction.
struct Rays { std::vector<std::pair<Vec3, Vec3>> r; };
Rays rays(int dens) {
    Rays R;
    const double off[3] = {-1.7312, 0.2871, 2.4137};
    std::vector<Vec3> os, ds;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) os.push_back({off[i], off[j] * 0.91 + 0.05, off[k] * 1.07 - 0.02});
    if (dens > 0) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { os.push_back({off[i] * 0.3 + 0.3, off[j] * 0.3 + 0.25, 5}); os.push_back({off[i] * 0.5, -5, off[j] * 0.4 + 0.2}); }
    for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) for (int k = -1; k <= 1; k++) if (i || j || k) ds.push_back(glm::normalize(Vec3(i, j, k)));
    if (dens > 1) for (int i = -1; i <= 1; i += 2) for (int j = -1; j <= 1; j += 2) for (int k = -1; k <= 1; k += 2) { ds.push_back(glm::normalize(Vec3(i, 0.37 * j, 0.11 * k))); ds.push_back(glm::normalize(Vec3(0.21 * i, j, 0.53 * k))); ds.push_back(glm::normalize(Vec3(0.43 * i, 0.17 * j, k))); }
    for (auto& o : os) for (auto& d : ds) R.r.push_back({o, d});
    // aimed rays: through the inside of the unit cell from every origin
    for (auto& o : os) for (double x : {0.15, 0.45, 1.2}) for (double y : {0.13, 0.6}) for (double z : {-0.02, 0.51}) { Vec3 t(x, y, z); if (glm::length(t - o) > 1e-3) R.r.push_back({o, glm::normalize(t - o)}); }
    return R;
}
const std::vector<std::pair<double, double>>& intervals() {
    static const std::vector<std::pair<double, double>> v = {{Eps, Inf}, {Eps, 1e5}, {0.9, 2.1}, {1.3, Inf}, {Eps, 1.1}};
    return v;
}
void all_rays(vp::Ctx& ctx, const World& w, const Rays& R) {
    for (auto& [o, d] : R.r) for (auto& [a, b] : intervals()) query(ctx, w, o, d, a, b);
}

std::vector<T3> lattice() {
    return {
        {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, {{0, 0, 1}, {1, 0, 1}, {0, 1, 1}}, {{0, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{1, 0, 0}, {1, 0, 1}, {1, 1, 0}},
        {{0, 0, 0}, {1, 0, 0}, {0, 0, 1}}, {{-1, -1, 0.5}, {2, -1, 0.5}, {-1, 2, 0.5}}, {{0, 0, 0}, {1, 1, 0}, {0, 1, 1}}, {{1, 1, 1}, {0, 1, 0}, {1, 0, 0}},
        {{0.2, 0.2, 0.2}, {0.4, 0.2, 0.3}, {0.2, 0.5, 0.2}}, {{2, 2, 2}, {3, 2, 2}, {2, 3, 2.5}}, {{0, 0, 0}, {0, 1, 0}, {1, 0, 0}} /* first one, flipped */,
        {{0.5, 0.5, 0.5}, {0.5, 0.5, 0.5}, {0.5, 0.5, 0.5}} /* degenerate */,
    };
}
std::vector<std::pair<std::string, Mat4>> transforms() {
    std::vector<std::pair<std::string, Mat4>> v;
    v.push_back({"I", Mat4(1)});
    v.push_back({"translate", glm::translate(Mat4(1), Vec3(0.3, -0.2, 0.4))});
    v.push_back({"rotate", glm::rotate(Mat4(1), 0.7, glm::normalize(Vec3(1, 2, 0.5)))});
    v.push_back({"stretch", glm::scale(Mat4(1), Vec3(2, 0.5, 1.5))});
    v.push_back({"mirror", glm::scale(Mat4(1), Vec3(-1, 1, 1))});
    v.push_back({"shear", Mat4(1, 0.3, 0, 0, 0, 1, 0.4, 0, 0.2, 0, 1, 0, 0.1, 0, 0, 1)});
    return v;
}
std::vector<T3> structured(int kind, int n) {
    std::vector<T3> v;
    for (int i = 0; i < n; i++) {
        double x = i % 4, y = i / 4 % 4, z = i / 16;
        switch (kind) {
            case 0: v.push_back({{x * 0.7, y * 0.7, z}, {x * 0.7 + 0.6, y * 0.7, z + 0.1}, {x * 0.7, y * 0.7 + 0.6, z - 0.1}}); break;             // sheet
            case 1: v.push_back({{-1, -1, i * 0.13 - 1}, {2, -1, i * 0.13 - 1}, {-1, 2, i * 0.13 - 0.9}}); break;                                // stack
            case 2: { double a = i * 2.399963, s = 0.5 + 0.1 * (i % 5); v.push_back({{std::cos(a), std::sin(a), 0.2 * i - 1}, {std::cos(a) * s, std::sin(a) * s, 0.2 * i - 0.7}, {0.1 * i, 0.3, std::cos(i)}}); break; } // scattered
            case 3: v.push_back({{0, 0, 0}, {1 + 0.1 * i, 0, 0.05 * i}, {0, 1, 0.05 * i}}); break;                                           // fan of overlapping
            case 4: { double s = std::pow(1.6, i); v.push_back({{0.3 * s, 0, 0.1 * i}, {0.3 * s + s * 0.2, 0, 0.1 * i}, {0.3 * s, s * 0.2, 0.1 * i}}); break; }   // geometric growth
            default: v.push_back(lattice()[i % 11]); break;                                                                                  // repeated duplicates
        }
    }
    return v;
}
}

void subsets(vp::Ctx& ctx, int size, int dens) {
    H::init(1);
    auto L = lattice(); auto R = rays(dens);
    ctx.bound("every set of " + std::to_string(size) + " of " + std::to_string(L.size()) + " lattice triangles x " + std::to_string(R.r.size()) + " lattice rays x " + std::to_string(intervals().size()) + " intervals");
    ctx.explore([&](vp::Chooser& ch) {
        std::vector<T3> ts; std::string d = "triangles"; int lo = 0;
        for (int i = 0; i < size; i++) { int k = lo + ch.choose((int)L.size() - lo); ts.push_back(L[k]); d += " " + std::to_string(k); lo = k; }
        ctx.trace(d); ctx.state(d);
        Builder b; b.add(ts, Mat4(1)); auto w = b.done();
        all_rays(ctx, w, R);
    });
}
SCENARIO("one_triangle") { subsets(ctx, 1, 2); }
SCENARIO("two_triangles") { subsets(ctx, 2, 0); }
SCENARIO("three_triangles") { subsets(ctx, 3, -1); }
SCENARIO_T("two_triangles_dense") { subsets(ctx, 2, 2); }
SCENARIO_T("three_triangles_dense") { subsets(ctx, 3, 2); }
SCENARIO_T("four_triangles") { subsets(ctx, 4, 0); }

SCENARIO("transformed_instances") {
    H::init(1);
    auto L = lattice(); auto X = transforms(); auto R = rays(0);
    ctx.bound("two primitives (1 and 2 triangles) under every pair of " + std::to_string(X.size()) + " transforms, nested and shared groups, with and without environment light");
    ctx.explore([&](vp::Chooser& ch) {
        int a = ch.choose((int)X.size()), c = ch.choose((int)X.size()); int mode = ch.choose(3); bool env = mode == 1;
        ctx.trace("transforms " + X[a].first + "," + X[c].first + " mode " + std::to_string(mode)); ctx.state(ctx.note);
        Builder b;
        std::vector<T3> m1 = {L[6]}, m2 = {L[0], L[3]};
        if (mode < 2) { b.add(m1, X[a].second); b.add(m2, X[c].second); }
        else {
            // m1 shared by two groups, one nested inside the other
            auto* s = b.w.scene;
            int g1 = s->create_group_node(X[a].second), g2 = s->create_group_node(X[c].second), p1 = b.mesh_node(m1), p2 = b.mesh_node(m2), ig = s->create_instance_group_node();
            s->add_child(ig, p1); s->add_child(g1, ig); s->add_child(g1, p2); s->add_child(g2, g1); s->add_child(g2, ig); s->add_child(0, g2); s->add_child(0, g1);
            b.occurrence(m1, p1, X[c].second * X[a].second); b.occurrence(m2, p2, X[c].second * X[a].second);
            b.occurrence(m1, p1, X[c].second); b.occurrence(m1, p1, X[a].second); b.occurrence(m2, p2, X[a].second);
        }
        if (env) b.env();
        auto w = b.done();
        all_rays(ctx, w, R);
    });
}

SCENARIO("larger_sets") {
    H::init(1);
    auto R = rays(1); std::vector<int> sizes = ctx.thorough ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 31, 32, 48, 64, 100} : std::vector<int>{4, 5, 7, 8, 16, 33};
    ctx.bound("six structured families of up to " + std::to_string(sizes.back()) + " triangles x all lattice rays");
    ctx.explore([&](vp::Chooser& ch) {
        int kind = ch.choose(6), n = ch.pick(sizes);
        if (kind == 4 && n > 17) n = 17;
        ctx.trace("family " + std::to_string(kind) + " size " + std::to_string(n)); ctx.state(ctx.note);
        Builder b; b.add(structured(kind, n), Mat4(1)); auto w = b.done();
        all_rays(ctx, w, R);
    });
}

// Trees as deep as the number of triangles.
SCENARIO("deep_trees") {
    H::init(1);
    ctx.bound("chains of 10..130 triangles of tenfold size (tree depth up to ~130), mirrored both ways");
    ctx.explore([&](vp::Chooser& ch) {
        int n = ch.pick(std::vector<int>{10, 20, 60, 99, 100, 101, 110, 130}); double sg = ch.flip() ? -1 : 1;
        ctx.trace("chain of " + std::to_string(n) + (sg < 0 ? " descending" : " ascending")); ctx.state(ctx.note);
        std::vector<T3> ts;
        // extents cover the origin region of the ray in every node, so that a ray along x visits the whole chain
        for (int i = 0; i < n; i++) { int e = i + 9 - n; double s = std::pow(10.0, e < -4 ? e - 2 : e) /* triangles below the documented tolerance are never hit */; ts.push_back({{sg * s, -s, -s}, {sg * s, s, -s}, {sg * s, 0, s}}); }
        Builder b; b.add(ts, Mat4(1)); auto w = b.done();
        for (double y : {0.0, 0.011, 0.13}) {
            double z = y == 0 ? 0 : -0.1;
            query(ctx, w, Vec3(0, y, z), Vec3(sg, 0, 0), Eps, Inf);
            query(ctx, w, Vec3(0, y, z), Vec3(-sg, 0, 0), Eps, Inf);
            query(ctx, w, Vec3(sg * 2e9, y, z), Vec3(-sg, 0, 0), Eps, Inf);
            query(ctx, w, Vec3(sg * 1.5, y, z), glm::normalize(Vec3(sg, 0.01, 0.02)), Eps, Inf);
        }
    });
}

SCENARIO("visibility") {
    H::init(1);
    auto L = lattice();
    ctx.bound("every set of up to 2 lattice triangles with an environment light, all ordered pairs of 24 free points and 6 points at infinity");
    std::vector<Vec3> pts;
    for (double x : {-0.83, 0.31, 1.57}) for (double y : {-0.6, 0.27}) for (double z : {-0.71, 0.19, 0.77, 1.9}) pts.push_back({x, y, z});
    std::vector<Vec3> inf = {{0, 0, 1}, {0, 0, -1}, glm::normalize(Vec3(1, 0.2, 0.1)), glm::normalize(Vec3(-0.3, 1, 0.2)), glm::normalize(Vec3(0.3, -1, 0.4)), glm::normalize(Vec3(1, 1, -1))};
    ctx.explore([&](vp::Chooser& ch) {
        int n = 1 + ch.choose(2); std::vector<T3> ts; std::string d = "triangles"; int lo = 0;
        for (int i = 0; i < n; i++) { int k = lo + ch.choose((int)L.size() - lo); ts.push_back(L[k]); d += " " + std::to_string(k); lo = k; }
        ctx.trace(d); ctx.state(d);
        Builder b; b.add(ts, Mat4(1)); b.env(); auto w = b.done();
        auto sp = [&](Vec3 p) { return SceneInteraction::make_camera_endpoint(0, PointGeometry::make_degenerated(p)); };
        for (size_t i = 0; i < pts.size(); i++) {
            for (size_t j = 0; j < pts.size(); j++) {
                if (i == j) continue;
                ctx.extra_transitions++;
                Vec3 d = pts[j] - pts[i]; double len = glm::length(d); d = d / len;
                auto r1 = oracle(w, pts[i], d, Eps, len * (1 - Eps));
                // hits within the tolerance of either end are not decided by the property
                auto r2 = oracle(w, pts[i], d, -2 * Eps, len + 2 * Eps);
                if (r1.unsure || r2.unsure || r1.hit != r2.hit) { ctx.counters["ambiguous_rays_skipped"]++; continue; }
                bool v = w.scene->visible(sp(pts[i]), sp(pts[j]));
                ctx.checkf(v == !r1.hit, v ? "visible-through" : "not-visible", [&] { return "points " + H::v3(pts[i]) + " and " + H::v3(pts[j]) + (v ? " reported visible although a triangle blocks them" : " reported occluded although nothing is between them"); });
            }
            for (auto& wo : inf) for (int sw = 0; sw < 2; sw++) {
                ctx.extra_transitions++;
                auto s2 = SceneInteraction::make_light_endpoint(w.env, PointGeometry::make_infinite(wo));
                auto r = oracle(w, pts[i], -wo, Eps, Inf);
                if (r.unsure) continue;
                bool v = sw ? w.scene->visible(s2, sp(pts[i])) : w.scene->visible(sp(pts[i]), s2);
                ctx.checkf(v == !r.hit, v ? "visible-through-inf" : "not-visible-inf", [&] { return "point " + H::v3(pts[i]) + " and infinite point in direction " + H::v3(-wo) + (v ? " reported visible although blocked" : " reported occluded although free"); });
            }
        }
    });
}

// Surface points found by ray casting: the classic "self shadowing" setting.
SCENARIO("visibility_of_surface_points") {
    H::init(1);
    auto L = lattice(); auto R = rays(-1);
    ctx.bound("mutual visibility of all pairs of surface points hit by lattice rays, every set of 2 lattice triangles");
    ctx.explore([&](vp::Chooser& ch) {
        int a = ch.choose((int)L.size()), c = a + ch.choose((int)L.size() - a);
        ctx.trace("triangles " + std::to_string(a) + " " + std::to_string(c)); ctx.state(ctx.note);
        Builder b; b.add({L[a], L[c]}, Mat4(1)); auto w = b.done();
        std::vector<SceneInteraction> sps;
        for (size_t i = 0; i < R.r.size(); i += 3) { auto h = w.scene->intersect({R.r[i].first, R.r[i].second}); if (h) sps.push_back(*h); if (sps.size() >= 40) break; }
        for (auto& s1 : sps) for (auto& s2 : sps) {
            Vec3 d = s2.geom.p - s1.geom.p; double len = glm::length(d);
            if (len < 0.05) continue;
            d = d / len;
            auto r1 = oracle(w, s1.geom.p, d, Eps, len * (1 - Eps)), r2 = oracle(w, s1.geom.p, d, 3 * Eps, len * (1 - 3 * Eps));
            auto r3 = oracle(w, s2.geom.p, -d, Eps, len * (1 - Eps));
            if (r1.unsure || r2.unsure || r3.unsure || r1.hit != r2.hit || r1.hit != r3.hit) { ctx.counters["ambiguous_rays_skipped"]++; continue; }
            ctx.extra_transitions++;
            bool v = w.scene->visible(s1, s2), vr = w.scene->visible(s2, s1);
            ctx.checkf(v == !r1.hit, v ? "visible-through" : "not-visible", [&] { return "surface points " + H::v3(s1.geom.p) + " and " + H::v3(s2.geom.p) + (v ? " reported visible although blocked" : " reported occluded although free"); });
            ctx.check(v == vr, "asymmetric", "visibility is not symmetric");
        }
    });
}

// The scene is built, changed and built again: queries see the present scene only.
SCENARIO("rebuilt") {
    H::init(1);
    auto L = lattice(); auto R = rays(-1); auto X = transforms();
    ctx.bound("every pair of lattice triangles as first and second content; the second is added, or replaces the first after a reset, or the same structure serves another scene; up to 3 builds; all lattice rays");
    ctx.explore([&](vp::Chooser& ch) {
        int a = ch.choose((int)L.size()), c = ch.choose((int)L.size()), op = ch.choose(4);
        ctx.trace("triangles " + std::to_string(a) + " " + std::to_string(c) + " op " + std::to_string(op)); ctx.state(ctx.note);
        Builder b; b.add({L[a]}, Mat4(1)); b.done();
        if (op == 0) b.add({L[c]}, X[1].second);
        if (op == 1) { b.w.scene->reset(); b.w.flat.clear(); b.add({L[c]}, Mat4(1)); }
        if (op == 2) { b.w.scene->reset(); b.w.flat.clear(); b.add({L[c], L[a]}, Mat4(1)); b.done(); b.w.scene->reset(); b.w.flat.clear(); b.add({L[a]}, X[1].second); }
        if (op == 3) { b.w.scene = lm::load<Scene>("scene_b", "scene::default", {{"accel", b.w.accel->loc()}}); b.w.flat.clear(); b.add({L[c]}, Mat4(1)); }
        auto w = b.done();
        all_rays(ctx, w, R);
    });
}

// An occluder close to one of the two points, on either side of it.
SCENARIO("visibility_near_ends") {
    H::init(1);
    auto L = lattice();
    ctx.bound("every lattice triangle x crossing points and directions x distances 0.3..100 x an occluder 4e-3..2e-2 of the distance inside or outside of either end");
    const std::vector<Vec3> ds = {glm::normalize(Vec3(1, 0.3, 0.2)), glm::normalize(Vec3(-0.2, 1, 0.4)), glm::normalize(Vec3(0.31, -0.17, 1)), glm::normalize(Vec3(-0.5, 0.4, -1))};
    ctx.explore([&](vp::Chooser& ch) {
        int a = ch.choose((int)L.size());
        ctx.trace("triangle " + std::to_string(a)); ctx.state(ctx.note);
        Builder b; b.add({L[a]}, Mat4(1)); auto w = b.done();
        Vec3 m = (L[a].a * 0.41 + L[a].b * 0.33 + L[a].c * 0.26), n = glm::cross(L[a].b - L[a].a, L[a].c - L[a].a);
        if (glm::length(n) < 1e-6) return;
        n = glm::normalize(n);
        auto sp = [&](Vec3 p) { return SceneInteraction::make_camera_endpoint(0, PointGeometry::make_degenerated(p)); };
        for (auto d : ds) {
            if (std::abs(glm::dot(d, n)) < 0.2) continue;
            for (double len : {0.3, 1.0, 10.0, 100.0}) for (double f : {4e-3, 6e-3, 0.009, 0.02}) for (int where = 0; where < 4; where++) {
                if (len * f < 4 * Eps) continue;
                // position of the occluder on the segment, as a fraction of its length
                double at = where == 0 ? f : where == 1 ? 1 - f : where == 2 ? -f : 1 + f;
                Vec3 p1 = m - d * (at * len), p2 = p1 + d * len; bool blocked = where < 2;
                for (int sw = 0; sw < 2; sw++) {
                    ctx.extra_transitions++;
                    bool v = sw ? w.scene->visible(sp(p2), sp(p1)) : w.scene->visible(sp(p1), sp(p2));
                    ctx.checkf(v != blocked, v ? "visible-through-near" : "not-visible-near", [&] { char s[80]; snprintf(s, sizeof s, " (triangle at %g of the distance %g)", at, len); return "points " + H::v3(sw ? p2 : p1) + " and " + H::v3(sw ? p1 : p2) + (v ? " reported visible although a triangle is between them" : " reported occluded although nothing is between them") + s; });
                }
            }
        }
    });
}

int main(int argc, char** argv) { return vp::run_main(argc, argv); }
