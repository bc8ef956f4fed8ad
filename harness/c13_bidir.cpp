// C13: bidirectional path strategies agree and their MIS weights sum to one.
#include "harness/rscenes.h"
#include "harness/lattice.h"
#include <lm/bidir.h>
using namespace lm;
using namespace H;
namespace {
bool rel(double a, double b, double e) { return std::abs(a - b) <= e * std::max(std::abs(a), std::abs(b)); }
bool rel(Vec3 a, Vec3 b, double e) { const double m = std::max({std::abs(a.x), std::abs(a.y), std::abs(a.z), std::abs(b.x), std::abs(b.y), std::abs(b.z)}); return std::abs(a.x - b.x) <= e * m && std::abs(a.y - b.y) <= e * m && std::abs(a.z - b.z) <= e * m; }
bool nonneg(Vec3 v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z) && v.x >= 0 && v.y >= 0 && v.z >= 0; }
bool zero(Vec3 v) { return v == Vec3(0); }
std::string S(Vec3 v) { return v3(v); }
#define CK(cond, kind, ...) ctx.checkf(cond, kind, [&] { return id() + ": " + fmt::format(__VA_ARGS__); })
// ------------------------------------------------------------------ independent evaluation
Vec3 dir(const Vert& a, const Vert& b) { if (a.sp.geom.infinite) return a.sp.geom.wo; if (b.sp.geom.infinite) return -b.sp.geom.wo; return glm::normalize(b.sp.geom.p - a.sp.geom.p); }
double G(const Vert& a, const Vert& b) { auto c = [](const PointGeometry& g, Vec3 d) { return g.infinite || g.degenerated ? 1. : std::abs(glm::dot(g.n, d)); }; const Vec3 d = dir(a, b); const double r2 = a.sp.geom.infinite || b.sp.geom.infinite ? 1 : glm::dot(b.sp.geom.p - a.sp.geom.p, b.sp.geom.p - a.sp.geom.p); return c(a.sp.geom, d) * c(b.sp.geom, d) / r2; }
struct Ref {
    const Scene* sc; const std::vector<Vert>& v; int n;
    const Light* light() const { return sc->node_at(v[0].sp.primitive).primitive.light; }
    const Camera* camera() const { return sc->node_at(v[n - 1].sp.primitive).primitive.camera; }
    const Material* mat(int i) const { return sc->node_at(v[i].sp.primitive).primitive.material; }
    bool spec(int i) const { return i == 0 ? light()->is_specular() : i == n - 1 ? false : mat(i)->is_specular_component(v[i].comp); }
    // contribution of vertex i in the light (LE) or eye (EL) direction; delta: evaluate delta functions
    Vec3 f(int i, bool le, bool delta) const {
        if (i == 0) return light()->eval(v[0].sp.geom, dir(v[0], v[1]), delta); if (i == n - 1) return camera()->eval(dir(v[n - 1], v[n - 2]));
        const Vec3 a = dir(v[i], v[i - 1]), b = dir(v[i], v[i + 1]); const Vec3 wi = le ? a : b, wo = le ? b : a; const auto& g = v[i].sp.geom;
        const double gi = glm::dot(wi, g.gn), go = glm::dot(wo, g.gn), si = glm::dot(wi, g.n), so = glm::dot(wo, g.n); if (gi * si <= 0 || go * so <= 0) return Vec3(0);
        return mat(i)->eval(g, wi, wo, v[i].comp, le ? Material::TransDir::LE : Material::TransDir::EL, delta) * (le ? si * go / (so * gi) : 1);
    }
    Vec3 meas(int s) const { Vec3 r(1); for (int i = 0; i < n; i++) { const bool conn = i == s - 1 || i == s; r *= f(i, i < s, conn); } for (int i = 0; i + 1 < n; i++) r *= G(v[i], v[i + 1]); return r; }
    bool samplable(int s) const {
        if (s == 0) return !v[0].sp.geom.degenerated && !spec(0); if (s == n) return !v[n - 1].sp.geom.degenerated && !spec(n - 1);
        if (s == 1 && !light()->is_connectable(v[0].sp.geom)) return false; if (s == n - 1 && !camera()->is_connectable(v[n - 1].sp.geom)) return false; return !spec(s - 1) && !spec(s);
    }
    // density of vertex j given the vertices before it
    double step(int i, int j) const {     // direction sampled at i towards j, component of j
        double p; const Vec3 wo = dir(v[i], v[j]); const int k = 2 * i - j;
        if (i == 0) p = light()->pdf_direction(v[0].sp.geom, wo); else if (i == n - 1) p = camera()->pdf_direction(v[i].sp.geom, wo); else p = mat(i)->pdf_direction(v[i].sp.geom, dir(v[i], v[k]), wo, v[i].comp, false);
        return p * G(v[i], v[j]) * pc(j, i);
    }
    double pc(int j, int from) const { return j == 0 || j == n - 1 ? 1. : mat(j)->pdf_component(v[j].comp, v[j].sp.geom, dir(v[j], v[from])); }
    double psel() const { return 1. / sc->num_lights(); }
    Transform ltr() const { return sc->light_primitive_index_at(sc->light_index_at(v[0].sp.primitive)).global_transform; }
    double pdf(int s) const {
        if (!samplable(s)) return 0; double p = 1;
        if (s > 0) { int i = 0; if (light()->is_connectable(v[0].sp.geom)) p *= psel() * light()->pdf_position(v[0].sp.geom, ltr()); else { p *= psel() * light()->pdf_ray(v[0].sp.geom, dir(v[0], v[1]), ltr(), false) * G(v[0], v[1]) * pc(1, 0); i = 1; } for (; i < s - 1; i++) p *= step(i, i + 1); }
        if (s < n) { int i = n - 1; if (camera()->is_connectable(v[n - 1].sp.geom)) p *= camera()->pdf_position(v[n - 1].sp.geom); else { p *= camera()->pdf_ray(v[n - 1].sp.geom, dir(v[n - 1], v[n - 2])) * G(v[n - 1], v[n - 2]) * pc(n - 2, n - 1); i--; } for (; i > s; i--) p *= step(i, i - 1); }
        return p;
    }
};
std::string show(const Path& p) { std::string r; for (auto& v : p.vs) r += fmt::format("{}[{}:{} comp {}]", v.sp.geom.infinite ? "inf" + S(v.sp.geom.wo) : S(v.sp.geom.p), v.sp.primitive, v.sp.type, v.comp); return r; }
const int MAXV = 5;
struct Subs { Path L, E; };
Subs subpaths(const Scene* sc, uint64_t i) { Lattice::at(i); Rng rng(1); Subs s; s.E = path::sample_subpath(rng, sc, MAXV, TransDir::EL); s.L = path::sample_subpath(rng, sc, MAXV, TransDir::LE); return s; }
// ------------------------------------------------------------------ every path, every strategy
void paths(vp::Ctx& ctx, int half) {
    init(1); const int N = ctx.thorough ? 20000 : 1500;
    ctx.bound(fmt::format("18 scenes (every light and material class, mixtures, masks, refraction, interpolated normals, textures) x {} random number sequences of a lattice: both subpaths of up to 5 vertices, all connections (s,t) with 2 <= s+t <= 6, all strategies of every complete path found", N));
    load_rassets(ctx.scratch); auto R = rscenes();
    ctx.explore([&](vp::Chooser& ch) {
        const auto& r = R[2 * ch.choose(R.size() / 2) + half]; auto* sc = build_rscene(r); ctx.trace(r.name); std::string cur; auto id = [&] { return r.name + cur; };
        std::map<int, int> seen; std::map<std::pair<int, int>, int> used; struct CompFreq { double n = 0, got = 0, want = 0; }; std::map<int, CompFreq> cf;
        for (int k = 0; k < N; k++) {
            const auto sub = subpaths(sc, k); cur = fmt::format(", sequence {}", k);
            for (int e = 0; e < 2; e++) {
                const auto& p = e ? sub.E : sub.L; CK(p.num_verts() >= 1 && p.num_verts() <= MAXV, "subpath-size", "subpath of {} vertices", p.num_verts());
                CK(p.vs[0].sp.type == (e ? SceneInteraction::CameraEndpoint : SceneInteraction::LightEndpoint) && (e ? sc->is_camera(p.vs[0].sp) : sc->is_light(p.vs[0].sp)), "subpath-endpoint", "subpath starts with an interaction of type {}", p.vs[0].sp.type);
                for (int i = 1; i < p.num_verts(); i++) {
                    const auto& v = p.vs[i]; CK(v.sp.type == (v.sp.geom.infinite ? SceneInteraction::LightEndpoint : SceneInteraction::SurfaceInteraction), "subpath-type", "vertex {} of type {}", i, v.sp.type); CK(!v.sp.geom.infinite || i == p.num_verts() - 1, "subpath-infinite", "subpath continues after a vertex at infinity");
                    CK(p.subpath_vertex_at(i) == &v && !p.subpath_vertex_at(p.num_verts()) && !p.subpath_vertex_at(-1), "subpath-index", "subpath_vertex_at");
                    if (!v.sp.geom.infinite) { auto* m = sc->node_at(v.sp.primitive).primitive.material; CK(m->pdf_component(v.comp, v.sp.geom, dir(v, p.vs[i - 1])) > 0, "subpath-comp", "component {} of vertex {} has probability zero", v.comp, i); auto& c = cf[v.sp.primitive]; c.n++; c.got += v.comp == 0; c.want += m->pdf_component(0, v.sp.geom, dir(v, p.vs[i - 1])); }
                    const Vec3 d = dir(p.vs[i - 1], v); auto h = sc->intersect({p.vs[i - 1].sp.geom.p, d}, Eps, Inf); CK(h && h->primitive == v.sp.primitive && h->geom.infinite == v.sp.geom.infinite && (h->geom.infinite || glm::distance(h->geom.p, v.sp.geom.p) < 1e-6), "subpath-ray", "vertex {} is not what the ray from vertex {} hits", i, i - 1);
                    if (i >= 2) CK(p.vs[i - 1].sp.geom.infinite == false, "subpath-inner", "inner vertex at infinity");
                }
            }
            for (int s = 0; s <= sub.L.num_verts(); s++) for (int t = 0; t <= sub.E.num_verts(); t++) {
                const int n = s + t; if (n < 2 || n > 6) continue; ctx.extra_transitions++;
                auto p = path::connect_subpaths(sc, sub.L, sub.E, s, t); cur = fmt::format(", sequence {}, s={}, t={}", k, s, t);
                // when a connection has to exist
                auto& vl = s ? sub.L.vs[0] : sub.E.vs[t - 1]; auto& ve = t ? sub.E.vs[0] : sub.L.vs[s - 1]; bool want = sc->is_light(vl.sp) && sc->is_camera(ve.sp);
                if (!s && vl.sp.geom.degenerated) want = false; if (!t && ve.sp.geom.degenerated) want = false;
                if (s && t) { auto &a = sub.L.vs[s - 1], &b = sub.E.vs[t - 1]; if (a.sp.geom.infinite || b.sp.geom.infinite) want = false; else { const double D = glm::distance(a.sp.geom.p, b.sp.geom.p); auto h = sc->intersect({a.sp.geom.p, dir(a, b)}, Eps, D * (1 - Eps)); if (h && !h->geom.infinite) want = false; } }
                CK(!!p == want, "connect", "the subpaths {}", p ? "are connected although they form no light path" : "are not connected"); if (!p) continue;
                CK(p->num_verts() == n && p->num_edges() == n - 1, "connect-size", "{} vertices", p->num_verts());
                for (int i = 0; i < n; i++) { const auto& o = i < s ? sub.L.vs[i] : sub.E.vs[n - 1 - i]; const auto& v = p->vs[i]; CK(v.sp.primitive == o.sp.primitive && v.sp.geom.p == o.sp.geom.p && v.sp.geom.n == o.sp.geom.n && v.comp == o.comp, "connect-vertex", "vertex {} is not the one of the subpath", i); CK(v.sp.type == (i == 0 ? SceneInteraction::LightEndpoint : i == n - 1 ? SceneInteraction::CameraEndpoint : SceneInteraction::SurfaceInteraction), "connect-type", "vertex {} has type {}", i, v.sp.type); CK(p->vertex_at(i, TransDir::LE) == &v && p->vertex_at(n - 1 - i, TransDir::EL) == &v && !p->vertex_at(n, TransDir::LE) && !p->vertex_at(-1, TransDir::EL), "index", "vertex_at"); }
                { bool graze = false; for (int i = 0; i + 1 < n; i++) if (G(p->vs[i], p->vs[i + 1]) < 1e-9) graze = true; if (graze) continue; }    // vertices in one plane: rounding
                Ref ref{sc, p->vs, n}; double sum = 0, sum2 = 0; Vec3 f0(-1); bool adj = !r.smooth; for (int i = 1; i < n - 1; i++) if (r.refr && ref.spec(i)) adj = false;
                std::vector<double> P(n + 1);
                for (int q = 0; q <= n; q++) {
                    ctx.extra_transitions++; const double pd = p->pdf_bidir(sc, q), pr = ref.pdf(q); P[q] = pd; CK(std::isfinite(pd) && pd >= 0, "density-range", "strategy {}: density {}", q, pd);
                    CK(p->is_samplable_bidir(sc, q) == ref.samplable(q), "samplable", "strategy {} is {} to generate {}", q, p->is_samplable_bidir(sc, q) ? "reported able" : "reported unable", show(*p)); CK(ref.samplable(q) || pd == 0, "density-unable", "strategy {} cannot generate {} but reports density {}", q, show(*p), pd);
                    CK(rel(pd, pr, 1e-7), "density", "strategy {} reports density {}, the product of the sampling densities is {} for {}", q, pd, pr, show(*p)); sum2 += pd * pd;
                }
                for (int q = 0; q <= n; q++) {
                    if (P[q] == 0) continue; const Vec3 f = p->eval_measurement_contrb_bidir(sc, q), C = p->eval_sampling_weight_bidir(sc, q), fr = ref.meas(q);
                    CK(nonneg(f) && nonneg(C), "contribution-range", "strategy {}: contribution {} sampling weight {}", q, S(f), S(C));
                    CK(rel(f, fr, 1e-7), "contribution", "strategy {} reports contribution {}, the product of the terms is {} for {}", q, S(f), S(fr), show(*p));
                    CK(rel(C * P[q], f, 1e-7), "weight", "strategy {}: sampling weight {} times density {} is not the contribution {} of {}", q, S(C), P[q], S(f), show(*p));
                    if (adj) { if (f0.x < 0) f0 = f; else CK(rel(f, f0, 1e-7), "invariant", "strategy {} reports contribution {}, another one {} for {}", q, S(f), S(f0), show(*p)); }
                    const double w = p->eval_mis_weight(sc, q); sum += w; CK(std::isfinite(w) && w >= 0 && w <= 1 + 1e-9, "mis-range", "strategy {} has MIS weight {}", q, w); CK(std::abs(w - P[q] * P[q] / sum2) < 1e-7, "mis", "strategy {} has MIS weight {}, densities give {}", q, w, P[q] * P[q] / sum2);
                    if (!zero(f)) { used[{n, q}]++; const Vec2 rp = p->raster_position(sc); auto want = path::raster_position(sc, dir(p->vs[n - 1], p->vs[n - 2])); CK(want && glm::length(rp - *want) < 1e-9 && rp.x >= 0 && rp.x <= 1 && rp.y >= 0 && rp.y <= 1, "raster", "raster position ({},{})", rp.x, rp.y); }
                }
                if (sum2 > 0) CK(std::abs(sum - 1) < 1e-7, "mis-sum", "MIS weights sum to {} for {}", sum, show(*p));
                // the strategy that found the path can generate it, unless its density vanishes for the connection
                const Vec3 C = p->eval_sampling_weight_bidir(sc, s); CK(zero(C) || P[s] > 0, "found", "strategy {} found {} with weight {} but reports density 0", s, show(*p), S(C)); seen[n]++;
            }
        }
        Lattice::off(); cur = ""; std::string cov; for (auto& [k, v] : used) { ctx.state(fmt::format("{} {} {}", r.name, k.first, k.second)); cov += fmt::format(" {}/{}:{}", k.first, k.second, v); } CK(seen.size() >= 4, "coverage", "only {} path lengths found", seen.size());
        for (auto& [k, c] : cf) CK(std::abs(c.got - c.want) <= 6 * std::sqrt(c.n) + 5, "subpath-comp", "component 0 is chosen at {} of {} vertices on primitive {}, its probabilities sum to {}", c.got, c.n, k, c.want);
        ctx.counters["paths"] += 0; for (auto& [k, v] : seen) ctx.counters["paths"] += v;
    });
}
// ------------------------------------------------------------------ all strategies have the same integral
// Restricted to the paths a strategy can generate, the MIS combination of all strategies has the integral of that strategy.
void integrals(vp::Ctx& ctx, int part) {
    init(1); const int N = ctx.thorough ? 2000000 : 200000;
    ctx.bound(fmt::format("integral of the contributions of every strategy, and of the MIS combination of all strategies over the paths that strategy can generate, over {} random number sequences of a lattice: paths of 2-4 vertices in 18 scenes, whole image and its quadrants", N));
    load_rassets(ctx.scratch); auto R = rscenes();
    ctx.explore([&](vp::Chooser& ch) {
        const auto& r = R[6 * ch.choose(R.size() / 6) + part]; auto* sc = build_rscene(r); ctx.trace(r.name); auto id = [&] { return r.name; };
        const int M = 4, Z = 5; struct Acc { Vec3 s{0}, q{0}; long n = 0; void add(Vec3 c) { s += c; q += c * c; n++; } }; Acc I[M + 1][M + 1][Z], W[M + 1][M + 1][Z];
        for (int k = 0; k < N; k++) {
            const auto sub = subpaths(sc, k); Vec3 wk[M + 1][M + 1][Z]; for (auto& a : wk) for (auto& b : a) for (auto& c : b) c = Vec3(0);
            for (int s = 0; s <= sub.L.num_verts(); s++) for (int t = 0; t <= sub.E.num_verts(); t++) {
                const int n = s + t; if (n < 2 || n > M) continue; auto p = path::connect_subpaths(sc, sub.L, sub.E, s, t); if (!p) continue; const Vec3 C = p->eval_sampling_weight_bidir(sc, s); if (zero(C)) continue;
                CK(nonneg(C), "range", "sampling weight {} of {}", S(C), show(*p)); const double w = p->eval_mis_weight(sc, s); ctx.extra_transitions++; const Vec2 rp = p->raster_position(sc); const int z = 1 + (rp.x > .5) + 2 * (rp.y > .5);
                I[n][s][0].add(C); I[n][s][z].add(C); for (int q = 0; q <= n; q++) if (p->pdf_bidir(sc, q) > 0) { wk[n][q][0] += w * C; wk[n][q][z] += w * C; }
            }
            for (int n = 2; n <= M; n++) for (int s = 0; s <= n; s++) for (int z = 0; z < Z; z++) if (!zero(wk[n][s][z])) W[n][s][z].add(wk[n][s][z]);
        }
        Lattice::off(); int compared = 0;
        for (int n = 2; n <= M; n++) for (int s = 0; s <= n; s++) for (int z = 0; z < Z; z++) {
            auto &a = I[n][s][z], &b = W[n][s][z]; if (a.n < 200 || b.n < 200) { CK(a.n >= 10 || b.n < 4000 || s == n, "never", "strategy {} of paths of {} vertices found {} of them, the others {}", s, n, a.n, b.n); continue; } compared++;
            const Vec3 ma = a.s / double(N), mb = b.s / double(N), sa = glm::sqrt(glm::max(Vec3(0), a.q / double(N) - ma * ma) / double(N)), sb = glm::sqrt(glm::max(Vec3(0), b.q / double(N) - mb * mb) / double(N));
            double zz = 0; for (int c = 0; c < 3; c++) zz = std::max(zz, std::abs(ma[c] - mb[c]) / (sa[c] + sb[c])); if (getenv("VP_SHOW")) fprintf(stderr, "%5.2f %5.3f %s n=%d s=%d z=%d I=%s W=%s n=%ld %ld\n", zz, sa.x / ma.x, r.name.c_str(), n, s, z, S(ma).c_str(), S(mb).c_str(), a.n, b.n);
            CK(zz < 4.5, "integral", "paths of {} vertices, region {}: strategy {} integrates to {}, the MIS combination to {} (standard errors {} and {})", n, z, s, S(ma), S(mb), S(sa), S(sb));
        }
        CK(compared >= 8, "coverage", "only {} integrals compared", compared);
        ctx.state(r.name);
    });
}
struct Init { Init() { for (int i = 0; i < 2; i++) vp::scenarios().push_back({"paths_" + std::to_string(i), [i](vp::Ctx& c) { paths(c, i); }, 0}); for (int i = 0; i < 6; i++) vp::scenarios().push_back({"integrals_" + std::to_string(i), [i](vp::Ctx& c) { integrals(c, i); }, 0}); } } init_;
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
