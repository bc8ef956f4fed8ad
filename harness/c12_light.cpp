// C12: lights and cameras sample exactly the distribution they report.
#include "harness/catalogue.h"
#include <lm/light.h>
#include <lm/camera.h>
#include <lm/texture.h>
using namespace lm;
using namespace H;
namespace {
bool fin(Vec3 v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z); }
bool nonneg(Vec3 v) { return fin(v) && v.x >= 0 && v.y >= 0 && v.z >= 0; }
bool near(double a, double b, double e) { return std::abs(a - b) <= e * std::max(1., std::max(std::abs(a), std::abs(b))); }
bool rel(double a, double b, double e) { return std::abs(a - b) <= e * std::max(std::abs(a), std::abs(b)); }
bool near(Vec3 a, Vec3 b, double e) { return near(a.x, b.x, e) && near(a.y, b.y, e) && near(a.z, b.z, e); }
bool near(Vec2 a, Vec2 b, double e) { return near(a.x, b.x, e) && near(a.y, b.y, e); }
std::string S(Vec3 v) { return v3(v); }
using V2s = std::vector<Vec2>;
V2s lattice(int n, bool ends) { V2s r; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.push_back(Vec2((i + .5) / n, (j + .5) / n)); if (ends) { for (double a : {0., .5, std::nextafter(1., 0.)}) for (double b : {0., .5, std::nextafter(1., 0.)}) r.push_back(Vec2(a, b)); } return r; }
struct Tf { std::string n; Mat4 M; };
std::vector<Tf> transforms() {
    Mat4 sh(1.); sh[1][0] = .7; sh[2][1] = -.4;
    return {{"identity", Mat4(1.)}, {"scale .2", glm::scale(Vec3(.2))}, {"scale 3", glm::scale(Vec3(3))}, {"scale (2,3,.5)", glm::scale(Vec3(2, 3, .5))}, {"rotate+translate", glm::translate(Vec3(3, -2, 1)) * glm::rotate(1.1, glm::normalize(Vec3(1, 2, 3)))},
        {"mirror x", glm::scale(Vec3(-1, 1, 1))}, {"translate rotate scale", glm::translate(Vec3(0, 5, 0)) * glm::rotate(2.3, glm::normalize(Vec3(0, 1, 1))) * glm::scale(Vec3(.5, 1, 4))}, {"shear", sh}, {"mirror z, scale", glm::scale(Vec3(2, 2, -3))}};
}
std::vector<std::vector<T3>> emitters() {
    return {{{Vec3(0, 0, 0), Vec3(1, 0, 0), Vec3(0, 1, 0)}},
        {{Vec3(-1, -1, 0), Vec3(1, -1, 0), Vec3(1, 1, 0)}, {Vec3(-1, -1, 0), Vec3(1, 1, 0), Vec3(-1, 1, 0)}},
        {{Vec3(0, 0, 0), Vec3(3, 0, 0), Vec3(0, 1, 0)}, {Vec3(0, 0, 2), Vec3(0, 1, 2), Vec3(1, 0, 3)}, {Vec3(5, 0, 0), Vec3(5, 2, 0), Vec3(5, 0, 1)}, {Vec3(0, 4, 0), Vec3(1, 4, 1), Vec3(0, 4, 2)}},
        {{Vec3(0, 0, 0), Vec3(1, 1, 1), Vec3(2, 2, 2)}, {Vec3(0, 0, 0), Vec3(0, 0, 2), Vec3(0, 2, 0)}, {Vec3(1, 0, 0), Vec3(1, 0, 0), Vec3(1, 0, 0)}, {Vec3(0, 0, 9), Vec3(.1, 0, 9), Vec3(0, .1, 9)}}};
}
double surfcos(const PointGeometry& g, Vec3 w) { return g.degenerated ? 1 : std::abs(glm::dot(g.n, w)); }
std::vector<PointGeometry> refs() {
    std::vector<PointGeometry> r; for (auto p : {Vec3(.3, .2, 4), Vec3(-2, 3, -5), Vec3(10, 1, .5)}) { r.push_back(PointGeometry::make_degenerated(p)); for (auto n : {Vec3(0, 0, 1), glm::normalize(Vec3(1, -1, .5)), glm::normalize(Vec3(-.3, .9, -.5))}) r.push_back(PointGeometry::make_on_surface(p, n, n, Vec2(0))); }
    return r;
}
#define CK(cond, kind, ...) ctx.checkf(cond, kind, [&] { return id() + ": " + fmt::format(__VA_ARGS__); })
template <class F> void unsupported(vp::Ctx& ctx, const std::string& what, F f) { bool t = false; try { f(); } catch (const Exception&) { t = true; } ctx.check(t, "unsupported", what + " did not report that it is unsupported"); }

// ------------------------------------------------------------------ area lights
void area(vp::Ctx& ctx) {
    init(1);
    ctx.bound("area: 4 emitters (1-4 triangles, very different and zero areas) x 9 transforms (scales, rotations, mirrors, shear) x 400 selection numbers x 64x64 positions (moments), 15x15+9 ray samples x 15x15 directions, 12 reference points (3 positions, in the air or on surfaces of 3 normals)");
    auto E = emitters(); auto T = transforms(); const Vec3 Ke(2, .5, 7);
    for (size_t i = 0; i < E.size(); i++) { lm::assets()->load_asset("m" + std::to_string(i), "mesh::raw", mesh_prop(E[i])); lm::assets()->load_asset("l" + std::to_string(i), "light::area", {{"Ke", Ke}, {"mesh", "$.assets.m" + std::to_string(i)}}); }
    ctx.explore([&](vp::Chooser& ch) {
        const int e = ch.choose(E.size()); const auto& tf = T[ch.choose(T.size())]; const Transform tr(tf.M);
        auto* l = comp::get<Light>("$.assets.l" + std::to_string(e)); auto id = [&] { return fmt::format("light::area on emitter {} under {}", e, tf.n); };
        ctx.trace(id());
        CK(!l->is_specular() && !l->is_infinite() && !l->is_env(), "flags", "is flagged specular, infinite or as an environment");
        struct W { Vec3 a, b, c, n; double A; }; std::vector<W> w; double A = 0;
        for (auto& t : E[e]) { W x{Vec3(tf.M * Vec4(t.a, 1)), Vec3(tf.M * Vec4(t.b, 1)), Vec3(tf.M * Vec4(t.c, 1))}; const Vec3 ln = glm::cross(t.b - t.a, t.c - t.a); x.A = .5 * glm::length(glm::cross(x.b - x.a, x.c - x.a)); x.n = x.A > 1e-12 ? glm::normalize(glm::transpose(glm::inverse(Mat3(tf.M))) * ln) : Vec3(0); A += x.A; w.push_back(x); }
        auto locate = [&](const PointGeometry& g, Vec2& bc) { for (size_t i = 0; i < w.size(); i++) { if (w[i].A < 1e-12) continue; const auto& x = w[i]; const Vec3 n = glm::cross(x.b - x.a, x.c - x.a); if (std::abs(glm::dot(glm::normalize(n), g.p - x.a)) > 1e-9 * (1 + std::sqrt(A))) continue; const double nn = glm::dot(n, n), v = glm::dot(n, glm::cross(x.a - x.c, g.p - x.c)) / nn, q = glm::dot(n, glm::cross(x.b - x.a, g.p - x.a)) / nn; if (v < -1e-7 || q < -1e-7 || v + q > 1 + 1e-7) continue; bc = Vec2(v, q); return int(i); } return -1; };
        std::vector<double> cnt(w.size(), 0), pdf(w.size(), -1); const int NC = 400;
        for (int k = 0; k < NC + 2; k++) {
            const double upc = k == NC ? 0 : k == NC + 1 ? std::nextafter(1., 0.) : (k + .5) / NC;
            auto s = l->sample_position({Vec2(.3, .6), upc}, tr); CK(!!s, "position-none", "no position for selection number {}", upc);
            Vec2 bc; const int i = locate(s->geom, bc); CK(i >= 0, "off-emitter", "sampled position {} (selection {}) is not on the emitter", S(s->geom.p), upc);
            if (k < NC) cnt[i] += 1. / NC; const double p = l->pdf_position(s->geom, tr);
            CK(std::isfinite(p) && p > 0, "position-pdf", "density {} of a sampled position", p); if (pdf[i] < 0) pdf[i] = p; CK(rel(p, pdf[i], 1e-9), "position-uniform", "densities {} and {} on one triangle", p, pdf[i]);
            CK(near(s->weight * p, Vec3(1), 1e-9), "position-weight", "weight {} of a position of density {}", S(s->weight), p);
        }
        double tot = 0; for (size_t i = 0; i < w.size(); i++) if (pdf[i] > 0) { tot += pdf[i] * w[i].A; CK(std::abs(pdf[i] * w[i].A - cnt[i]) <= 1.5 / NC, "triangle-frequency", "triangle {} receives {} of the selection numbers, its density integrates to {}", i, cnt[i], pdf[i] * w[i].A); }
            else CK(w[i].A / A < 2. / NC, "triangle-missed", "triangle {} with {} of the area was never sampled", i, w[i].A / A);
        if (e != 3) CK(near(tot, 1, 1e-9), "position-norm", "the density of positions integrates to {}", tot);
        // positions on a triangle
        std::vector<double> sels; { std::vector<char> seen(w.size(), 0); for (int k = 0; k < NC; k++) { auto s = l->sample_position({Vec2(.3, .6), (k + .5) / NC}, tr); Vec2 bc; int i = locate(s->geom, bc); if (i >= 0 && !seen[i]) { seen[i] = 1; sels.push_back((k + .5) / NC); } } }
        for (double upc : sels) {
            double m1 = 0, m2 = 0, m11 = 0, m22 = 0, m12 = 0; const int N = 64; std::vector<double> h(4, 0);
            for (auto& up : lattice(N, false)) { auto s = l->sample_position({up, upc}, tr); Vec2 b; const int i = locate(s->geom, b); CK(i >= 0, "off-emitter", "sampled position {} is not on the emitter", S(s->geom.p)); const double q = 1. / (N * N); m1 += b.x * q; m2 += b.y * q; m11 += b.x * b.x * q; m22 += b.y * b.y * q; m12 += b.x * b.y * q; h[b.x > .5 ? 0 : b.y > .5 ? 1 : b.x + b.y < .5 ? 2 : 3] += q; ctx.extra_transitions++; }
            CK(near(m1, 1. / 3, 4e-3) && near(m2, 1. / 3, 4e-3) && near(m11, 1. / 6, 4e-3) && near(m22, 1. / 6, 4e-3) && near(m12, 1. / 12, 4e-3), "triangle-uniform", "barycentric moments {} {} {} {} {} are not those of the uniform distribution", m1, m2, m11, m22, m12);
            for (double x : h) CK(std::abs(x - .25) < .02, "triangle-quarter", "a quarter of the triangle receives {} of the positions", x);
            for (auto& up : lattice(15, true)) {
                auto s0 = l->sample_position({up, upc}, tr); Vec2 bc; const int ti = locate(s0->geom, bc); CK(ti >= 0, "off-emitter", "sampled position {} (u={},{}) is not on the emitter", S(s0->geom.p), up.x, up.y);
                const auto& g = s0->geom; CK(!g.degenerated && !g.infinite && near(g.n, w[ti].n, 1e-9) && near(g.gn, w[ti].n, 1e-9), "normal", "sampled normal {} / {}, the surface has {}", S(g.n), S(g.gn), S(w[ti].n));
                CK(l->is_connectable(g), "connectable", "is not connectable");
                // rays
                for (auto& ud : V2s{Vec2(up.y, up.x), Vec2(.2, .7), Vec2(.91, .13), Vec2(0, 0)}) {
                    auto s = l->sample_ray({up, upc, ud}, tr); auto d = l->sample_direction({ud}, g); CK(s && d, "ray-none", "no ray u=({},{})", ud.x, ud.y); ctx.extra_transitions++;
                    CK(near(s->geom.p, g.p, 1e-12), "ray-position", "positions of a sampled ray and of a sampled position differ");
                    CK(near(glm::length(s->wo), 1, 1e-9) && near(glm::length(d->wo), 1, 1e-9) && glm::dot(s->wo, g.n) >= -1e-9, "ray-direction", "direction {} below the surface or not normalised", S(s->wo));
                    if (glm::dot(s->wo, g.n) < 1e-7) continue;
                    const double p = l->pdf_ray(s->geom, s->wo, tr, false), pd = l->pdf_direction(g, d->wo);
                    CK(std::isfinite(p) && p > 0 && rel(p, pdf[ti] * l->pdf_direction(s->geom, s->wo), 1e-9), "ray-pdf", "ray density {} is not the product of the densities of position {} and direction {}", p, pdf[ti], pd);
                    CK(near(s->weight * p, l->eval(s->geom, s->wo, false), 1e-9) && nonneg(s->weight), "ray-weight", "ray weight {} but Le = {}, p = {}", S(s->weight), S(l->eval(s->geom, s->wo, false)), p);
                    CK(near(d->weight * pd, l->eval(g, d->wo, false), 1e-9), "direction-weight", "direction weight {} but Le = {}, p = {}", S(d->weight), S(l->eval(g, d->wo, false)), pd);
                    CK(l->eval(g, d->wo, false) == Ke && l->eval(g, d->wo, true) == Ke && l->eval(g, -d->wo, false) == Vec3(0) && l->pdf_direction(g, -d->wo) == 0 && l->pdf_ray(g, -d->wo, tr, false) == 0, "sided", "emission is not one-sided Ke");
                }
            }
            // direction density by Jacobian (both ways of sampling) and moments
            auto s0 = l->sample_position({Vec2(.4, .3), upc}, tr); const auto g = s0->geom;
            for (int way = 0; way < 2; way++) { auto at = [&](Vec2 u) { return way ? l->sample_direction({u}, g)->wo : l->sample_ray({Vec2(.4, .3), upc, u}, tr)->wo; };
                Vec3 m(0); double mz = 0; for (auto& u : lattice(48, false)) { const Vec3 d = at(u); m += d / (48. * 48); mz += math::sq(glm::dot(d, g.n)) / (48. * 48); const double p = l->pdf_direction(g, d), J = [&] { const double h = 1e-6; return glm::length(glm::cross((at(u + Vec2(h, 0)) - at(u - Vec2(h, 0))) / (2 * h), (at(u + Vec2(0, h)) - at(u - Vec2(0, h))) / (2 * h))); }(); if (J > 1e-9) CK(near(p * glm::dot(d, g.n) * J, 1, 2e-3), "direction-density", "density of a sampled direction times the solid angle per random number is {}", p * glm::dot(d, g.n) * J); }
                CK(near(m, 2. / 3 * g.n, 4e-3), "direction-mean", "mean direction {}", S(m)); CK(near(mz, .5, 4e-3), "direction-moment", "E[cos^2] = {}", mz); }
            // direct sampling
            for (auto& x : refs()) for (auto& up : lattice(9, true)) {
                auto sp = l->sample_position({up, upc}, tr); auto s = l->sample_direct({up, upc, Vec2(.3)}, x, tr); ctx.extra_transitions++;
                const Vec3 dv = x.p - sp->geom.p; const Vec3 wo = glm::normalize(dv); const double cl = glm::dot(wo, sp->geom.n), G = std::abs(cl) * surfcos(x, wo) / glm::dot(dv, dv);
                const double p = l->pdf_direct(x, sp->geom, tr, wo, false), pti = l->pdf_position(sp->geom, tr);
                if (cl <= 0) { CK(p == 0 && (!s || s->weight == Vec3(0)), "direct-back", "reference point {} behind the emitter: density {}", S(x.p), p); continue; }
                if (G < 1e-9) continue;
                CK(s && near(s->geom.p, sp->geom.p, 1e-12) && near(s->wo, wo, 1e-9), "direct", "direct sampling towards {} does not return the sampled point", S(x.p));
                CK(std::isfinite(p) && p > 0 && rel(p * G, pti, 1e-7), "direct-measure", "density {} of the direction towards a point of density {} with geometry term {}", p, pti, G);
                CK(near(s->weight * p, Ke, 1e-9), "direct-weight", "weight {} with density {}", S(s->weight), p);
                const Vec3 back = l->eval(s->geom, -wo, false); CK(back == Vec3(0) && l->pdf_direct(x, sp->geom, tr, -wo, false) == 0, "direct-sided", "emission or density on the back side");
            }
        }
        ctx.state(id());
    });
}

// ------------------------------------------------------------------ point and directional lights
void point_dir(vp::Ctx& ctx) {
    init(1);
    ctx.bound("point, directional: 3 positions x 9 directions x 4 scene bounds x 24x24+9 random numbers x 12 reference points");
    const std::vector<Vec3> P = {Vec3(0), Vec3(1, 2, 3), Vec3(-7, .5, 2)}; std::vector<Vec3> D; for (auto d : {Vec3(0, 0, 1), Vec3(0, 0, -1), Vec3(0, -1, 0), Vec3(1, 0, 0), Vec3(1, 1, 1), Vec3(-2, .5, .3), Vec3(.001, 0, -1), Vec3(-1, 0, 0), Vec3(0, 1e-3, 1)}) D.push_back(d);
    std::vector<Bound> B(4); B[0].min = Vec3(-1); B[0].max = Vec3(1); B[1].min = Vec3(0, 0, 0); B[1].max = Vec3(10, 1, .1); B[2].min = Vec3(-5, 20, -8); B[2].max = Vec3(-4, 22, 9); B[3].min = Vec3(0); B[3].max = Vec3(0, 4, 4);
    const Vec3 Le(3, .25, 1);
    for (size_t i = 0; i < P.size(); i++) lm::assets()->load_asset("p" + std::to_string(i), "light::point", {{"Le", Le}, {"position", P[i]}});
    for (size_t i = 0; i < D.size(); i++) lm::assets()->load_asset("d" + std::to_string(i), "light::directional", {{"Le", Le}, {"direction", D[i]}});
    const Transform I(Mat4(1.));
    ctx.explore([&](vp::Chooser& ch) {
        const int k = ch.choose(P.size() + D.size() * B.size());
        if (k < (int)P.size()) {
            auto* l = comp::get<Light>("$.assets.p" + std::to_string(k)); auto id = [&] { return fmt::format("light::point at {}", S(P[k])); }; ctx.trace(id());
            CK(!l->is_infinite() && !l->is_env(), "flags", "is flagged infinite");
            const int N = 32; Vec3 m(0); Mat3 q(0.); double w = 0;
            for (auto& u : lattice(N, false)) { auto s = l->sample_ray({Vec2(.1), .2, u}, I); CK(!!s, "none", "no ray"); const double p = l->pdf_ray(s->geom, s->wo, I, false); m += s->wo / (p * N * N); q += glm::outerProduct(s->wo, s->wo) / (p * N * N); w += 1 / (p * N * N); }
            CK(near(w, 4 * Pi, 1e-2) && glm::length(m) < .05, "sphere", "directions do not cover the sphere: total {} first moment {}", w, S(m)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CK(std::abs(q[i][j] - (i == j ? 4 * Pi / 3 : 0)) < .05, "sphere2", "second moment {} {} is {}", i, j, q[i][j]);
            for (auto& u : lattice(24, true)) {
                auto s = l->sample_ray({u, .2, u}, I); auto d = l->sample_direction({u}, s->geom); auto po = l->sample_position({u, .3}, I); ctx.extra_transitions++;
                CK(s && d && po && s->geom.degenerated && !s->geom.infinite && po->geom.degenerated && near(s->geom.p, P[k], 1e-12) && near(po->geom.p, P[k], 1e-12), "endpoint", "endpoint is not the degenerate position");
                CK(near(glm::length(s->wo), 1, 1e-9) && near(glm::length(d->wo), 1, 1e-9), "unit", "direction is not normalised"); CK(l->is_connectable(s->geom), "connectable", "is not connectable");
                CK(near(s->weight * l->pdf_ray(s->geom, s->wo, I, false), l->eval(s->geom, s->wo, false), 1e-9), "weight", "ray weight {}", S(s->weight)); CK(near(d->weight * l->pdf_direction(s->geom, d->wo), l->eval(s->geom, d->wo, false), 1e-9), "dweight", "direction weight {}", S(d->weight)); CK(near(po->weight * l->pdf_position(po->geom, I), Vec3(1), 1e-9), "pweight", "position weight {}", S(po->weight)); CK(near(l->pdf_ray(s->geom, s->wo, I, false), l->pdf_position(s->geom, I) * l->pdf_direction(s->geom, s->wo), 1e-9), "joint", "joint density is not the product");
                CK(l->eval(s->geom, s->wo, false) == Le, "Le", "Le = {}", S(l->eval(s->geom, s->wo, false)));
            }
            for (auto& x : refs()) { const Vec3 dv = x.p - P[k]; const Vec3 wo = glm::normalize(dv); const double G = surfcos(x, wo) / glm::dot(dv, dv); auto s = l->sample_direct({Vec2(.1), .2, Vec2(.3)}, x, I); if (G < 1e-9) continue;
                CK(s && near(s->wo, wo, 1e-9) && near(s->geom.p, P[k], 1e-12) && s->geom.degenerated, "direct", "direct sample towards {}", S(x.p)); const double p = l->pdf_direct(x, s->geom, I, wo, false); CK(rel(p * G, l->pdf_position(s->geom, I), 1e-9), "direct-measure", "density {} with geometry term {}", p, G); CK(near(s->weight * p, Le, 1e-9) && near(s->weight, Le * G, 1e-9), "direct-weight", "weight {}", S(s->weight)); }
            ctx.state(id()); return;
        }
        const int di = (k - P.size()) / B.size(), bi = (k - P.size()) % B.size(); auto* l = comp::get<Light>("$.assets.d" + std::to_string(di)); l->set_scene_bound(B[bi]); const Vec3 d = glm::normalize(D[di]);
        auto id = [&] { return fmt::format("light::directional along {} bound {} {}", S(D[di]), S(B[bi].min), S(B[bi].max)); }; ctx.trace(id());
        CK(l->is_infinite() && l->is_specular() && !l->is_env(), "flags", "flags are wrong");
        const double p0 = l->pdf_ray(PointGeometry::make_infinite(d), d, I, false); CK(std::isfinite(p0) && p0 > 0, "pdf", "density {}", p0);
        const double R = std::sqrt(1 / (Pi * p0)); const Vec3 c = (B[bi].min + B[bi].max) * .5; Vec3 m(0); double r2 = 0, rmax = 0; const int N = 24; Vec3 o(0);
        for (auto& u : lattice(N, false)) { auto s = l->sample_ray({u, .2, Vec2(.1, .7)}, I); o += s->geom.p / double(N * N); }
        for (auto& u : lattice(N, true)) {
            auto s = l->sample_ray({u, .2, Vec2(.1, .7)}, I); CK(s && s->geom.infinite && near(s->wo, d, 1e-9) && near(s->geom.wo, d, 1e-9), "ray", "sampled ray is not along the direction"); ctx.extra_transitions++;
            CK(!l->is_connectable(s->geom), "connectable", "is connectable"); CK(near(s->weight * l->pdf_ray(s->geom, s->wo, I, false), Le, 1e-9) && rel(l->pdf_ray(s->geom, s->wo, I, false), p0, 1e-9), "weight", "ray weight {}", S(s->weight)); CK(l->pdf_ray(s->geom, s->wo, I, true) == 0 && l->eval(s->geom, d, true) == Vec3(0) && l->eval(s->geom, d, false) == Le, "delta", "delta light has a value or density when its delta function is evaluated");
            for (int b = 0; b < 8; b++) { const Vec3 q(b & 1 ? B[bi].min.x : B[bi].max.x, b & 2 ? B[bi].min.y : B[bi].max.y, b & 4 ? B[bi].min.z : B[bi].max.z); CK(glm::dot(q - s->geom.p, d) >= -1e-9, "inside", "ray starts at {} inside of the scene bound", S(s->geom.p)); const Vec3 qq = q - c; CK(glm::length(qq - glm::dot(qq, d) * d) <= R * (1 + 1e-9), "cover", "the disk of radius {} does not cover the scene", R); }
            const Vec3 rr = s->geom.p - c, pr = rr - glm::dot(rr, d) * d; rmax = std::max(rmax, glm::length(pr));
        }
        for (auto& u : lattice(N, false)) { auto s = l->sample_ray({u, .2, Vec2(.1, .7)}, I); const Vec3 rr = s->geom.p - c, pr = rr - glm::dot(rr, d) * d; m += pr / double(N * N); r2 += glm::dot(pr, pr) / (N * N); }
        CK(rmax <= R * (1 + 1e-9) && glm::length(m) < .01 * R && near(r2 / (R * R), .5, 1e-2), "disk", "positions are not uniform on a disk of radius {}: {} {}", R, S(m), r2);
        for (auto& x : refs()) { const double G = surfcos(x, d); auto s = l->sample_direct({Vec2(.1), .2, Vec2(.3)}, x, I); if (G < 1e-9) continue; CK(s && s->geom.infinite && near(s->wo, d, 1e-9), "direct", "direct sample at {}", S(x.p)); const double p = l->pdf_direct(x, s->geom, I, d, false); CK(rel(p * G, 1, 1e-9) && near(s->weight, Le * G, 1e-9), "direct-weight", "weight {} density {} cosine {}", S(s->weight), p, G); CK(l->pdf_direct(x, s->geom, I, d, true) == 0, "direct-delta", "delta density is not zero"); }
        unsupported(ctx, id() + " sample_direction", [&] { l->sample_direction({Vec2(.1)}, PointGeometry::make_infinite(d)); }); unsupported(ctx, id() + " sample_position", [&] { l->sample_position({Vec2(.1), .1}, I); });
        ctx.state(id());
    });
}
// ------------------------------------------------------------------ environments
Vec3 dir_of(double phi, double theta) { return Vec3(std::sin(theta) * std::sin(phi), std::cos(theta), std::sin(theta) * std::cos(phi)); }
void env(vp::Ctx& ctx, int part) {
    init(1);
    ctx.bound("environments: constant and image lights (1x1, 2x1, 1x2, 3x2, 4x3, 5x4 images, bright, black and pure-coloured pixels, black rows) x 6 rotations x 2 scales: directions on a 97x98 grid, 96x96 random numbers of direct sampling at 4 reference points, 36x36 rays, 2 scene bounds");
    struct C { std::string n; Json p; int w, h; double rot, scale; int kind = 0; }; std::vector<C> cs; int fi = 0;
    cs.push_back({"envconst", {{"Le", Vec3(2, 1, .5)}}, 0, 0, 0, 1});
    for (auto& wh : std::vector<std::pair<int, int>>{{1, 1}, {2, 1}, {1, 2}, {3, 2}, {4, 3}, {5, 4}}) for (int kind = 0; kind < 4; kind++) {
        const int w = wh.first, h = wh.second; if (kind && w * h < 4) continue;
        const std::string f = ctx.scratch + "/e" + std::to_string(fi++) + ".tga";
        put_file(f, tga(w, h, 3, [&](int x, int y, int k) { const int i = y * w + x; return kind == 0 ? 100 + 37 * i % 150 + 3 * k : kind == 1 ? (i == w * h / 2 ? 255 : 10 + k) : kind == 3 ? (k == i % 3 ? 120 + 9 * i : 0) : (y == 1 || x == 1 ? 0 : 200 - 20 * k); }));
        for (double rot : {0., 30., 90., -45., 180., 400.}) { if (rot != 0 && rot != 30 && w * h < 12) continue; cs.push_back({"env", {{"path", f}, {"rot", rot}, {"scale", kind == 1 ? 3. : 1.}}, w, h, rot, kind == 1 ? 3. : 1., kind}); }
    }
    for (size_t i = 0; i < cs.size(); i++) lm::assets()->load_asset("e" + std::to_string(i), "light::" + cs[i].n, cs[i].p);
    std::vector<Bound> B(2); B[0].min = Vec3(-1); B[0].max = Vec3(1); B[1].min = Vec3(3, 0, 0); B[1].max = Vec3(10, 1, .1); const Transform I(Mat4(1.));
    std::vector<PointGeometry> X = {PointGeometry::make_degenerated(Vec3(1, 2, 3))}; for (auto n : {Vec3(0, 1, 0), Vec3(0, 0, -1), glm::normalize(Vec3(1, -2, .5))}) X.push_back(PointGeometry::make_on_surface(Vec3(1, 2, 3), n, n, Vec2(0)));
    ctx.explore([&](vp::Chooser& ch) {
        const int ci = ch.choose(cs.size()), bi = ch.choose(2); const auto& c = cs[ci]; if (ci % 4 != part) return; auto* l = comp::get<Light>("$.assets.e" + std::to_string(ci)); l->set_scene_bound(B[bi]);
        auto id = [&] { return fmt::format("light::{} {} ({}x{})", c.n, ci ? c.p.dump() : "", c.w, c.h); }; ctx.trace(id());
        CK(l->is_infinite() && l->is_env() && !l->is_specular(), "flags", "flags are wrong");
        auto* tex = c.w ? dynamic_cast<Texture*>(l->underlying("envmap")) : nullptr; CK(!c.w || tex, "envmap", "no environment map");
        // definition of the radiance
        auto Le = [&](Vec3 from) { return l->eval(PointGeometry::make_infinite(-from), -from, false); };
        for (int i = 0; i < 23; i++) for (int j = 0; j < 31; j++) { const double th = (i + .5) / 23 * Pi, ph = (j + .3) / 31 * 2 * Pi; double u = (j + .3) / 31; const Vec3 want = tex ? tex->eval(Vec2(u, (i + .5) / 23)) * c.scale : Vec3(2, 1, .5), got = Le(dir_of(ph + glm::radians(c.rot), th)); const double fu = u * std::max(1, c.w), fv = (i + .5) / 23 * std::max(1, c.h); if (std::abs(fu - std::round(fu)) < 1e-6 || std::abs(fv - std::round(fv)) < 1e-6) continue; CK(near(got, want, 1e-9), "radiance", "radiance {} from phi = {}, theta = {}, the map has {}", S(got), ph, th, S(want)); CK(l->eval(PointGeometry::make_infinite(dir_of(ph, th)), dir_of(ph, th), true) == l->eval(PointGeometry::make_infinite(dir_of(ph, th)), dir_of(ph, th), false), "nondelta", "depends on the delta flag"); }
        // rays
        const int N = 36; double w = 0, r2 = 0, rmax = 0; Vec3 m(0), lw(0); Mat3 q(0.); const Vec3 cen = (B[bi].min + B[bi].max) * .5; double R0 = -1;
        for (auto& u : lattice(N, true)) {
            auto s = l->sample_ray({Vec2(u.y, u.x), .4, u}, I); CK(s && s->geom.infinite && near(glm::length(s->wo), 1, 1e-9) && near(s->geom.wo, s->wo, 1e-12), "ray", "no proper ray"); const double p = l->pdf_ray(s->geom, s->wo, I, false); ctx.extra_transitions++;
            CK(std::isfinite(p) && p > 0 && near(s->weight * p, l->eval(s->geom, s->wo, false), 1e-9) && nonneg(s->weight), "ray-weight", "weight {} density {}", S(s->weight), p); CK(!l->is_connectable(s->geom), "connectable", "is connectable");
            const Vec3 d = s->wo, rr = s->geom.p - cen, pr = rr - glm::dot(rr, d) * d; rmax = std::max(rmax, glm::length(pr)); R0 = std::max(R0, -glm::dot(rr, d));
            for (int b = 0; b < 8; b++) { const Vec3 qq(b & 1 ? B[bi].min.x : B[bi].max.x, b & 2 ? B[bi].min.y : B[bi].max.y, b & 4 ? B[bi].min.z : B[bi].max.z); CK(glm::dot(qq - s->geom.p, d) >= -1e-9, "inside", "ray starts at {} inside of the scene bound", S(s->geom.p)); }
        }
        // fixed direction: disk of radius R; then 1/p integrates to 4 pi * pi R^2
        for (auto& u : lattice(N, false)) { auto s = l->sample_ray({u, .4, Vec2(.3, .8)}, I); const Vec3 d = s->wo, rr = s->geom.p - cen, pr = rr - glm::dot(rr, d) * d; r2 += glm::dot(pr, pr) / (N * N); }
        const double R = std::sqrt(2 * r2), A = Pi * R * R; CK(rmax <= R * 1.01 && R >= glm::length(B[bi].max - cen) * .999, "disk", "positions on a disk of radius {} (up to {}), the scene has radius {}", R, rmax, glm::length(B[bi].max - cen));
        for (auto& u : lattice(N, false)) { auto s = l->sample_ray({Vec2(.2, .6), .4, u}, I); const double p = l->pdf_ray(s->geom, s->wo, I, false), k = 1 / (p * A * N * N); w += k; m += k * s->wo; q += k * glm::outerProduct(s->wo, s->wo); lw += s->weight / (A * N * N); }
        CK(near(w / (4 * Pi), 1, 2e-2) && glm::length(m) < .1, "ray-norm", "ray densities do not match: total {} (4 pi), first moment {}", w, S(m)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CK(std::abs(q[i][j] - (i == j ? 4 * Pi / 3 : 0)) < .1, "ray-moment", "second moment {} {} is {}", i, j, q[i][j]);
        // direct sampling
        for (size_t xi = 0; xi < (bi ? 0 : X.size()); xi++) { const auto& x = X[xi]; const int TH = 97, PH = 98; double tot = 0; Vec3 E(0); Vec3 m1(0); std::vector<double> hq(32, 0), hs(32, 0);
            auto cell = [&](Vec3 f) { return (f.x > 0) + 2 * (f.y > 0) + 4 * (f.z > 0) + 8 * (f.x > f.z) + 16 * (std::abs(f.y) > .5); };
            for (int i = 0; i < TH * 3; i++) for (int j = 0; j < PH * 3; j++) { const double th = (i + .5) / (TH * 3) * Pi, ph = (j + .5) / (PH * 3) * 2 * Pi; const Vec3 f = dir_of(ph, th), wo = -f; auto g = PointGeometry::make_infinite(wo); const double p = l->pdf_direct(x, g, I, wo, false), cx = surfcos(x, f), dw = std::sin(th) * Pi / (TH * 3) * 2 * Pi / (PH * 3); const Vec3 L = l->eval(g, wo, false);
                CK(std::isfinite(p) && p >= 0 && nonneg(L), "direct-range", "density {} and radiance {} from {}", p, S(L), S(f)); CK(p > 0 || L == Vec3(0) || cx < 1e-9, "direct-support", "radiance {} from {} is never sampled", S(L), S(f)); tot += p * cx * dw; E += L * cx * dw; m1 += f * (p * cx * dw); hq[cell(f)] += p * cx * dw; ctx.extra_transitions++; }
            CK(std::abs(tot - 1) < 1.5e-2, "direct-norm", "reference {}: density integrates to {}", xi, tot);
            const int M = 96; double got = 0; Vec3 e(0), s1(0);
            for (auto& u : lattice(M, true)) for (int k = 0; k < (c.w ? 4 : 1); k++) {
                const bool in = u.x != 0 && u.y != 0 && u.x != .5 && u.y != .5 && u.x < .9999 && u.y < .9999; const Vec2 u2 = c.w ? Vec2((k % 2 + .5) / 2, (k / 2 + .5) / 2) : Vec2(.3);
                // the four numbers of the sampler are split into selection and position inside of a pixel: both pairs are swept
                for (int sw = 0; sw < (c.w ? 2 : 1); sw++) { auto s = l->sample_direct({sw ? u : u2, .4, sw ? u2 : u}, x, I); ctx.extra_transitions++; if (!s) continue;
                    const Vec3 f = -s->wo; CK(s->geom.infinite && near(glm::length(s->wo), 1, 1e-9) && near(s->geom.wo, s->wo, 1e-12), "direct", "not a direction from infinity"); const double p = l->pdf_direct(x, s->geom, I, s->wo, false); CK(std::isfinite(p) && p > 0 && near(s->weight * p, l->eval(s->geom, s->wo, false), 1e-9) && nonneg(s->weight), "direct-weight", "weight {}, density {}, radiance {}", S(s->weight), p, S(l->eval(s->geom, s->wo, false)));
                    (void)in; }
            }
            // distribution of the samples: all four numbers on a lattice
            const bool pure = c.kind == 3; const int Q = !c.w ? 1 : pure ? 6 : 16, K = !c.w ? 128 : pure ? 80 : 24; const double wt = 1. / (double(Q) * Q * K * K);
            for (auto& a : lattice(K, false)) for (auto& b : lattice(Q, false)) { auto s = l->sample_direct({b, .4, a}, x, I); ctx.extra_transitions++; if (!s) continue; const Vec3 f = -s->wo; got += wt; e += s->weight * wt; s1 += f * wt; hs[cell(f)] += wt; }
            CK(std::abs(got - tot) < 3e-2, "direct-total", "{} of the random numbers give a direction, the density integrates to {}", got, tot);
            for (int i = 0; i < 32; i++) CK(std::abs(hs[i] - hq[i]) < 6e-2, "direct-histogram", "reference {}: cell {} receives {} of the random numbers, the density integrates to {}", xi, i, hs[i], hq[i]);
            for (int i = 0; i < 3; i++) CK(std::abs(s1[i] - m1[i]) < 5e-2, "direct-mean", "reference {}: mean direction {}, the density has {}", xi, S(s1), S(m1));
            for (int i = 0; i < 3; i++) CK(std::abs(e[i] - E[i]) < 6e-2 * std::max(.05, E[i]), "direct-irradiance", "reference {}: sampled irradiance {}, the integral is {}", xi, S(e), S(E));
        }
        unsupported(ctx, id() + " sample_direction", [&] { l->sample_direction({Vec2(.1)}, X[0]); }); unsupported(ctx, id() + " sample_position", [&] { l->sample_position({Vec2(.1), .1}, I); });
        ctx.state(id() + std::to_string(bi));
    });
}
// ------------------------------------------------------------------ camera
void camera(vp::Ctx& ctx) {
    init(1);
    ctx.bound("camera::pinhole: 7 poses x 4 fields of view x 4 aspect ratios, given by look-at vectors or by a matrix, aspect ratio replaced or not: 21x21+9 raster positions, 31x40 directions on the sphere, 12 points of direct connection");
    struct Po { Vec3 p, c, u; }; const std::vector<Po> PO = {{Vec3(0), Vec3(0, 0, -1), Vec3(0, 1, 0)}, {Vec3(1, 2, 3), Vec3(0), Vec3(0, 1, 0)}, {Vec3(-4, 0, 1), Vec3(3, 1, -2), Vec3(0, 0, 1)}, {Vec3(0, 5, 0), Vec3(0), Vec3(1, 0, 0)}, {Vec3(2, 2, 2), Vec3(1, 2, 2.5), Vec3(.3, 1, -.2)}, {Vec3(0, 0, 5), Vec3(0, 0, -50), Vec3(0, -2, 0)}, {Vec3(-1, -1, 8), Vec3(-1.1, -1, 7.9), Vec3(1, 1, 0)}};
    const std::vector<double> FOV = {10, 45, 90, 140}, ASP = {1, .5, 16. / 9, 3};
    ctx.explore([&](vp::Chooser& ch) {
        const auto& po = PO[ch.choose(PO.size())]; const double fov = FOV[ch.choose(FOV.size())], asp = ASP[ch.choose(ASP.size())]; const bool mat = ch.flip(), set = ch.flip();
        const Vec3 f = glm::normalize(po.c - po.p), r = glm::normalize(glm::cross(f, po.u)), up = glm::cross(r, f);
        Json p = {{"vfov", fov}, {"aspect", set ? 7. : asp}};
        if (mat) { Mat4 M(1.); M[0] = Vec4(-r, 0); M[1] = Vec4(up, 0); M[2] = Vec4(f, 0); M[3] = Vec4(po.p, 1); p["matrix"] = M; } else { p["position"] = po.p; p["center"] = po.c; p["up"] = po.u; }
        auto cp = comp::create<Camera>("camera::pinhole", "", p); auto* c = cp.get(); if (set) c->set_aspect_ratio(asp);
        auto id = [&] { return fmt::format("camera at {} towards {} up {} vfov {} aspect {}{}{}", S(po.p), S(po.c), S(po.u), fov, asp, mat ? " by matrix" : "", set ? " set" : ""); }; ctx.trace(id());
        const double t = std::tan(glm::radians(fov) / 2); const Mat4 VP = c->projection_matrix() * c->view_matrix();
        auto geomE = PointGeometry::make_degenerated(po.p);
        auto uv = c->underlying_value(""); CK(near(Vec3(uv["eye"]), po.p, 1e-9) && near(glm::normalize(Vec3(uv["center"]) - Vec3(uv["eye"])), f, 1e-9) && glm::dot(glm::cross(f, Vec3(uv["up"])), r) > 1e-9 && near(glm::normalize(glm::cross(f, Vec3(uv["up"]))), r, 1e-9) && near(double(uv["vfov"]), fov, 1e-9) && near(double(uv["aspect"]), asp, 1e-9), "values", "reported parameters {}", uv.dump());
        for (auto& rp : lattice(21, true)) {
            const Ray ray = c->primary_ray(rp); ctx.extra_transitions++; const Vec3 want = glm::normalize(f + r * ((2 * rp.x - 1) * t * asp) + up * ((2 * rp.y - 1) * t));
            CK(near(ray.o, po.p, 1e-9) && near(glm::length(ray.d), 1, 1e-9) && near(ray.d, want, 1e-9), "primary", "primary ray {} through ({},{}), expected {}", S(ray.d), rp.x, rp.y, S(want));
            auto s = c->sample_ray({rp}); auto d = c->sample_direction({rp}, geomE); auto o = c->sample_position({rp}); CK(s && d && o && s->geom.degenerated && !s->geom.infinite && o->geom.degenerated && near(s->geom.p, po.p, 1e-9) && near(o->geom.p, po.p, 1e-9), "endpoint", "endpoint is not the degenerate pinhole"); CK(c->is_connectable(s->geom), "connectable", "is not connectable");
            const bool border = rp.x < 1e-6 || rp.y < 1e-6 || rp.x > 1 - 1e-6 || rp.y > 1 - 1e-6;
            for (Vec3 w : {ray.d, s->wo, d->wo}) { auto b = c->raster_position(w); if (border && !b) continue; CK(b && near(*b, rp, 1e-9), "raster", "raster position ({},{}) projects to {}", rp.x, rp.y, b ? fmt::format("({},{})", b->x, b->y) : "nothing"); }
            if (border) continue;
            const double pd = c->pdf_direction(geomE, s->wo), pr = c->pdf_ray(s->geom, s->wo), pp = c->pdf_position(o->geom), h = 1e-6;
            CK(std::isfinite(pd) && pd > 0 && rel(pr, pd * pp, 1e-9), "pdf", "densities {} {} {}", pr, pd, pp);
            auto at = [&](double a, double b) { return c->sample_direction({rp + Vec2(a, b)}, geomE)->wo; }; const double J = glm::length(glm::cross((at(h, 0) - at(-h, 0)) / (2 * h), (at(0, h) - at(0, -h)) / (2 * h)));
            CK(near(pd * J, 1, 1e-5), "density", "density times solid angle per raster area is {} at ({},{})", pd * J, rp.x, rp.y);
            CK(near(s->weight * pr, c->eval(s->wo), 1e-9) && near(d->weight * pd, c->eval(d->wo), 1e-9) && near(o->weight * pp, Vec3(1), 1e-9), "weight", "weights {} {} {}", S(s->weight), S(d->weight), S(o->weight));
            for (double dist : {.5, 3., 40.}) {
                const Vec3 q = po.p + ray.d * dist; Vec4 cl = VP * Vec4(q, 1); CK(near(Vec2(cl.x / cl.w, cl.y / cl.w), 2. * rp - 1., 1e-6), "matrices", "projection and view matrices map the point seen at ({},{}) to ({},{})", rp.x, rp.y, cl.x / cl.w, cl.y / cl.w);
                for (int k = 0; k < 2; k++) { const Vec3 n = glm::normalize(Vec3(.2, .9, -.4)); auto x = k ? PointGeometry::make_on_surface(q, n, n, Vec2(0)) : PointGeometry::make_degenerated(q); auto sd = c->sample_direct({Vec2(.3)}, x); const double G = surfcos(x, ray.d) / (dist * dist); if (G < 1e-9) continue; CK(sd && near(sd->wo, ray.d, 1e-9) && near(sd->geom.p, po.p, 1e-9), "direct", "no connection to a visible point"); const double p2 = c->pdf_direct(x, sd->geom, sd->wo); CK(rel(p2 * G, 1, 1e-7) && near(sd->weight * p2, c->eval(sd->wo), 1e-7), "direct-weight", "weight {} density {} G {}", S(sd->weight), p2, G); }
            }
        }
        for (int i = 0; i < 31; i++) for (int j = 0; j < 40; j++) {
            const Vec3 w = dir_of((j + .3) / 40 * 2 * Pi, (i + .5) / 31 * Pi); const double z = glm::dot(w, f), x = glm::dot(w, r) / z / (t * asp), y = glm::dot(w, up) / z / t; if (std::abs(z) < 1e-6 || std::abs(std::abs(x) - 1) < 1e-6 || std::abs(std::abs(y) - 1) < 1e-6) continue; ctx.extra_transitions++;
            const bool in = z > 0 && std::abs(x) < 1 && std::abs(y) < 1; auto b = c->raster_position(w); CK(!!b == in, "frustum", "direction {} is {}", S(w), b ? "seen outside of the frustum" : "not seen");
            auto x0 = PointGeometry::make_degenerated(po.p + w * 2.); auto sd = c->sample_direct({Vec2(.3)}, x0);
            if (in) CK(near(*b, Vec2(x, y) * .5 + .5, 1e-9) && sd, "frustum-raster", "direction {} projects to ({},{})", S(w), b->x, b->y);
            else { CK(c->eval(w) == Vec3(0) && c->pdf_direction(geomE, w) == 0 && c->pdf_ray(geomE, w) == 0, "outside", "sensitivity {} density {} outside of the frustum ({})", S(c->eval(w)), c->pdf_direction(geomE, w), S(w)); CK(!sd || sd->weight == Vec3(0), "outside-direct", "connection of weight {} to a point outside of the frustum", S(sd->weight)); }
        }
        auto inf = PointGeometry::make_infinite(-f); CK(!c->sample_direct({Vec2(.3)}, inf) && c->pdf_direct(inf, geomE, f) == 0, "infinite", "connects to infinity");
        ctx.state(id());
    });
}
// ------------------------------------------------------------------ in a scene
void in_scene(vp::Ctx& ctx) {
    init(1);
    ctx.bound("path:: sampling in scenes with 1-4 lights (every kind, area lights below nested transforms and in instances), 60 selection numbers x 5x5 random numbers, 4 reference points; sampled points are compared with what a ray from the reference point hits");
    auto* a = lm::assets(); put_file(ctx.scratch + "/e.tga", tga(4, 3, 3, [](int x, int y, int k) { return 60 + 40 * x + 11 * y + 5 * k; }));
    a->load_asset("cam", "camera::pinhole", {{"position", Vec3(0, 0, 9)}, {"center", Vec3(0)}, {"up", Vec3(0, 1, 0)}, {"vfov", 40.}, {"aspect", 1.5}});
    a->load_asset("mat", "material::diffuse", {{"Kd", Vec3(.5)}}); a->load_asset("q", "mesh::raw", mesh_prop({{Vec3(-5, -3, -4), Vec3(5, -3, -4), Vec3(5, -3, 4)}, {Vec3(-5, -3, -4), Vec3(5, -3, 4), Vec3(-5, -3, 4)}}));
    a->load_asset("em", "mesh::raw", mesh_prop({{Vec3(-1, 3, -1), Vec3(1, 3, -1), Vec3(1, 3, 1)}, {Vec3(-1, 3, -1), Vec3(1, 3, 1), Vec3(-1, 3, .5)}}));
    a->load_asset("la", "light::area", {{"Ke", Vec3(3, 2, 1)}, {"mesh", "$.assets.em"}}); a->load_asset("lp", "light::point", {{"Le", Vec3(1, 2, 3)}, {"position", Vec3(1, 1, 1)}}); a->load_asset("ld", "light::directional", {{"Le", Vec3(1, 2, 3)}, {"direction", Vec3(.3, -1, .1)}}); a->load_asset("le", "light::env", {{"path", ctx.scratch + "/e.tga"}}); a->load_asset("lc", "light::envconst", {{"Le", Vec3(1)}});
    const std::vector<std::vector<std::string>> SETS = {{"a"}, {"p"}, {"d"}, {"e"}, {"c"}, {"a", "t"}, {"t", "p"}, {"a", "d", "c"}, {"p", "t", "e", "d"}, {"i"}, {"i", "a"}, {"c", "i", "p"}};
    ctx.explore([&](vp::Chooser& ch) {
        const auto& set = SETS[ch.choose(SETS.size())]; a->load_asset("ac", "accel::sahbvh", {}); auto* sc = dynamic_cast<Scene*>(a->load_asset("sc", "scene::default", {{"accel", "$.assets.ac"}}));
        std::string nm; for (auto& s : set) nm += s; auto id = [&] { return "scene with lights " + nm; }; ctx.trace(id());
        sc->add_primitive({{"camera", "$.assets.cam"}}); sc->add_primitive({{"mesh", "$.assets.q"}, {"material", "$.assets.mat"}}); bool connectable = true; int nl = 0;
        for (auto& s : set) {
            if (s == "a") { sc->add_primitive({{"mesh", "$.assets.em"}, {"material", "$.assets.mat"}, {"light", "$.assets.la"}}); nl++; }
            else if (s == "t") { const int g = sc->create_group_node(glm::translate(Vec3(-3, 0, 0))), h = sc->create_group_node(glm::scale(Vec3(2, 1.5, .5)) * glm::rotate(.4, Vec3(1, 0, 0))); sc->add_child(h, sc->create_primitive_node({{"mesh", "$.assets.em"}, {"material", "$.assets.mat"}, {"light", "$.assets.la"}})); sc->add_child(g, h); sc->add_child(sc->root_node(), g); nl++; }
            else if (s == "i") { const int ig = sc->create_instance_group_node(); sc->add_child(ig, sc->create_primitive_node({{"mesh", "$.assets.em"}, {"material", "$.assets.mat"}, {"light", "$.assets.la"}})); for (int k = 0; k < 2; k++) { const int g = sc->create_group_node(glm::translate(Vec3(3. * k - 1, 1, 0)) * glm::rotate(.5 * k, Vec3(0, 0, 1))); sc->add_child(g, ig); sc->add_child(sc->root_node(), g); } nl += 2; }
            else { sc->add_primitive({{"light", "$.assets.l" + s}}); nl++; if (s != "p") connectable = false; }
        }
        sc->build(); CK(sc->num_lights() == nl, "lights", "{} lights, expected {}", sc->num_lights(), nl);
        double ps = 0; std::vector<double> cnt(nl, 0); for (int i = 0; i < nl; i++) ps += sc->pdf_light_selection(i); CK(near(ps, 1, 1e-9), "selection-norm", "selection probabilities sum to {}", ps);
        for (int k = 0; k < 120; k++) { auto s = sc->sample_light_selection((k + .5) / 120); CK(s.light_index >= 0 && s.light_index < nl && near(s.p_sel, sc->pdf_light_selection(s.light_index), 1e-12), "selection", "light {} selected with probability {}", s.light_index, s.p_sel); cnt[s.light_index] += 1. / 120; } for (int i = 0; i < nl; i++) CK(std::abs(cnt[i] - sc->pdf_light_selection(i)) < .013, "selection-frequency", "light {} is selected by {} of the random numbers, its probability is {}", i, cnt[i], sc->pdf_light_selection(i));
        std::vector<SceneInteraction> X; for (auto o : {Vec3(0, 0, 9), Vec3(2, 0, 0), Vec3(-3, 1, 1)}) { auto h = sc->intersect({o, glm::normalize(Vec3(.5, -3, .5) - o)}, Eps, Inf); CK(h && !h->geom.infinite, "setup", "floor not hit"); X.push_back(*h); } X.push_back(SceneInteraction::make_medium_interaction(0, PointGeometry::make_degenerated(Vec3(0, 1, 1))));
        for (int k = 0; k < 62; k++) for (auto& u : lattice(5, true)) {
            const double us = k == 60 ? 0 : k == 61 ? std::nextafter(1., 0.) : (k + .5) / 60; path::RaySampleU ru{u, Vec2(us, .37), Vec2(u.y, u.x), Vec2(.5)}; ctx.extra_transitions++;
            auto s = path::sample_primary_ray(ru, sc, TransDir::LE); CK(s && s->sp.is_type(SceneInteraction::LightEndpoint) && sc->is_light(s->sp), "primary", "no primary ray from a light");
            if (s->sp.geom.infinite || s->sp.geom.degenerated || glm::dot(s->wo, s->sp.geom.n) > 1e-6) { const double p = path::pdf_primary_ray(sc, s->sp, s->wo, false); const Vec3 f = path::eval_contrb_direction(sc, s->sp, {}, s->wo, 0, TransDir::LE, false); CK(std::isfinite(p) && p > 0 && near(s->weight * p, f, 1e-8), "primary-weight", "primary ray weight {} contribution {} density {}", S(s->weight), S(f), p); }
            if (connectable) { auto q = path::sample_position({u, Vec2(us, .37)}, sc, TransDir::LE); CK(q && near(q->weight * path::pdf_position(sc, q->sp), Vec3(1), 1e-8), "position-weight", "position weight {} density {}", S(q->weight), path::pdf_position(sc, q->sp)); CK(path::is_connectable_endpoint(sc, q->sp), "connectable", "endpoint is not connectable");
                auto d = path::sample_direction({u, Vec2(.5)}, sc, q->sp, {}, 0, TransDir::LE); if (d && (q->sp.geom.degenerated || glm::dot(d->wo, q->sp.geom.n) > 1e-6)) CK(near(d->weight * path::pdf_direction(sc, q->sp, {}, d->wo, 0, false), path::eval_contrb_direction(sc, q->sp, {}, d->wo, 0, TransDir::LE, false), 1e-8), "direction-weight", "direction weight {}", S(d->weight)); }
            for (auto& x : X) {
                auto d = path::sample_direct(ru, sc, x, TransDir::LE); if (!d) continue; const double p = path::pdf_direct(sc, x, d->sp, d->wo, false); const Vec3 f = path::eval_contrb_direction(sc, d->sp, {}, d->wo, 0, TransDir::LE, false);
                CK(std::isfinite(p) && p > 0 && near(d->weight * p, f, 1e-8) && nonneg(d->weight), "direct-weight", "direct weight {} contribution {} density {}", S(d->weight), S(f), p); CK(path::is_specular_component(sc, d->sp, 0) == sc->node_at(d->sp.primitive).primitive.light->is_specular(), "specular", "specular flag");
                if (!sc->visible(x, d->sp) || sc->node_at(d->sp.primitive).primitive.light->is_specular() || d->sp.geom.degenerated) continue;
                if (u.x == 0 || u.y == 0 || u.x > .999 || u.y > .999) continue;      // on the border of the emitter
                // what a ray towards the sample finds is that emitter, at that point, with the same radiance and density
                auto h = sc->intersect({x.geom.p, -d->wo}, Eps, Inf); CK(!!h, "hit", "nothing in the direction of a visible light sample"); 
                if (d->sp.geom.infinite) { CK(h->geom.infinite && sc->is_light(*h), "hit-env", "environment not found in the direction of its sample"); }
                else { if (h->geom.infinite || glm::length(h->geom.p - d->sp.geom.p) > 1e-6) { CK(h->geom.infinite, "hit-point", "found {} instead of {}", S(h->geom.p), S(d->sp.geom.p)); continue; } CK(sc->is_light(*h), "hit-light", "the emitter is not a light"); CK(near(h->geom.gn, d->sp.geom.gn, 1e-6), "hit-normal", "normals {} and {}", S(h->geom.gn), S(d->sp.geom.gn)); }
                auto hl = h->as_type(SceneInteraction::LightEndpoint); const double ph = path::pdf_direct(sc, x, hl, d->wo, true); const Vec3 fh = path::eval_contrb_direction(sc, hl, {}, d->wo, 0, TransDir::LE, true); CK(rel(ph, p, 1e-5) && near(fh, f, 1e-6), "hit-density", "density {} and radiance {} of the hit, {} and {} of the sample", ph, S(fh), p, S(f));
            }
        }
        // the choice of the light is independent of the point on it: means over all random numbers are those of the lights, mixed by their probabilities
        { struct M6 { Vec3 a{0}, b{0}, c{0}; void add(Vec3 p, Vec3 w, double k) { a += p * k; b += p * p * k; c += w * k; } }; const int NS = 60, NC = 12; const auto U = lattice(3, false); const double k0 = 1. / (NS * NC * U.size());
          auto cmp = [&](const M6& g, const M6& w, const std::string& what) { for (int q = 0; q < 3; q++) CK(std::abs(g.a[q] - w.a[q]) < .06 + .02 * std::abs(w.a[q]) && std::abs(g.b[q] - w.b[q]) < .15 + .03 * std::abs(w.b[q]) && std::abs(g.c[q] - w.c[q]) < .03, "mixed", "{}: mean position {} and direction {} over all random numbers, expected {} and {}", what, S(g.a), S(g.c), S(w.a), S(w.c)); };
          M6 g[3], w[3]; int miss[2] = {0, 0};
          for (auto& u : U) for (int c = 0; c < NC; c++) { const double uc = (c + .5) / NC; const Vec2 ud(u.y, .3 + .4 * u.x);
              for (int k = 0; k < NS; k++) { const Vec2 upc((k + .5) / NS, uc); auto s = path::sample_primary_ray({u, upc, ud, Vec2(.5)}, sc, TransDir::LE); if (s) g[0].add(s->sp.geom.p, s->wo, k0); if (connectable) { auto q = path::sample_position({u, upc}, sc, TransDir::LE); if (q) g[1].add(q->sp.geom.p, Vec3(0), k0); } auto d = path::sample_direct({u, upc, ud, Vec2(.5)}, sc, X[3], TransDir::LE); if (d) g[2].add(d->sp.geom.infinite ? Vec3(0) : d->sp.geom.p, d->wo, k0); else miss[0]++; }
              for (int i = 0; i < nl; i++) { const auto li = sc->light_primitive_index_at(i); auto* l = sc->node_at(li.index).primitive.light; const double kk = sc->pdf_light_selection(i) / (NC * U.size()); auto s = l->sample_ray({u, uc, ud}, li.global_transform); if (s) w[0].add(s->geom.p, s->wo, kk); if (connectable) { auto q = l->sample_position({u, uc}, li.global_transform); if (q) w[1].add(q->geom.p, Vec3(0), kk); } auto d = l->sample_direct({u, uc, ud}, X[3].geom, li.global_transform); if (d) w[2].add(d->geom.infinite ? Vec3(0) : d->geom.p, d->wo, kk); } }
          cmp(g[0], w[0], "primary rays"); if (connectable) cmp(g[1], w[1], "positions"); cmp(g[2], w[2], "direct samples"); }
        for (auto& u : lattice(9, false)) { path::RaySampleU ru{u, Vec2(.2), u, Vec2(.5)}; auto s = path::sample_primary_ray(ru, sc, TransDir::EL); CK(s && s->sp.is_type(SceneInteraction::CameraEndpoint) && near(s->weight * path::pdf_primary_ray(sc, s->sp, s->wo, false), path::eval_contrb_direction(sc, s->sp, {}, s->wo, 0, TransDir::EL, false), 1e-8), "camera-ray", "camera ray"); auto rp = path::raster_position(sc, s->wo); CK(rp && near(*rp, u, 1e-9) && near(path::primary_ray(sc, u).d, s->wo, 1e-12), "camera-raster", "raster position"); auto q = path::sample_position({u, u}, sc, TransDir::EL); CK(q && near(q->weight * path::pdf_position(sc, q->sp), Vec3(1), 1e-9), "camera-position", "camera position"); for (auto& x : X) { auto d = path::sample_direct(ru, sc, x, TransDir::EL); if (d) CK(near(d->weight * path::pdf_direct(sc, x, d->sp, d->wo, false), path::eval_contrb_direction(sc, d->sp, {}, d->wo, 0, TransDir::EL, false), 1e-8), "camera-direct", "camera direct"); else CK(!path::raster_position(sc, glm::normalize(x.geom.p - Vec3(0, 0, 9))), "camera-direct-none", "no connection to a visible point"); } }
        ctx.state(id());
    });
}
struct Init { Init() {
    vp::scenarios().push_back({"area", area, 0}); vp::scenarios().push_back({"point_dir", point_dir, 0});
    for (int i = 0; i < 4; i++) vp::scenarios().push_back({"env_" + std::to_string(i), [i](vp::Ctx& c) { env(c, i); }, 0});
    vp::scenarios().push_back({"camera", camera, 0}); vp::scenarios().push_back({"in_scene", in_scene, 0});
} } init_;
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
