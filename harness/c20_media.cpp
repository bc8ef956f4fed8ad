// C20: participating media, phase functions and volumes are self-consistent.
#include "harness/catalogue.h"
#include "harness/lattice.h"
#include <lm/medium.h>
#include <lm/phase.h>
#include <lm/volume.h>
using namespace lm;
using namespace H;
namespace {
bool near(double a, double b, double e) { return std::abs(a - b) <= e * std::max(1., std::max(std::abs(a), std::abs(b))); }
bool near(Vec3 a, Vec3 b, double e) { return near(a.x, b.x, e) && near(a.y, b.y, e) && near(a.z, b.z, e); }
std::string S(Vec3 v) { return v3(v); }
#define CK(cond, kind, ...) ctx.checkf(cond, kind, [&] { return id() + ": " + fmt::format(__VA_ARGS__); })
Vec3 sph(double c, double ph) { const double s = std::sqrt(std::max(0., 1 - c * c)); return Vec3(s * std::cos(ph), s * std::sin(ph), c); }
// ------------------------------------------------------------------ phase functions
void phase(vp::Ctx& ctx) {
    init(1);
    ctx.bound("phase: isotropic and HG with g in {0, +-.0005, +-.2, +-.5, +-.8, +-.95} x 6 incident directions: all pairs with 26 outgoing directions, 96x96+9 random numbers, density integrated over 400x64 directions, Jacobian at every random number");
    const std::vector<double> G = {0, .0005, -.0005, .2, -.2, .5, -.5, .8, -.8, .95, -.95};
    lm::assets()->load_asset("iso", "phase::isotropic", {}); for (size_t i = 0; i < G.size(); i++) lm::assets()->load_asset("g" + std::to_string(i), "phase::hg", {{"g", G[i]}});
    std::vector<Vec3> D = {Vec3(0, 0, 1), Vec3(0, 0, -1), Vec3(1, 0, 0), glm::normalize(Vec3(1, 1, 1)), glm::normalize(Vec3(-.2, .9, -.1)), glm::normalize(Vec3(.01, -.02, -1))};
    auto g0 = PointGeometry::make_degenerated(Vec3(1, 2, 3));
    ctx.explore([&](vp::Chooser& ch) {
        const int k = ch.choose(G.size() + 1); const Vec3 wi = D[ch.choose(D.size())]; auto* p = comp::get<Phase>(k ? "$.assets.g" + std::to_string(k - 1) : "$.assets.iso"); const double g = k ? G[k - 1] : 0;
        auto id = [&] { return fmt::format("{} g={} wi={}", p->key(), g, S(wi)); }; ctx.trace(id());
        const auto [bu, bv] = math::orthonormal_basis(wi); const Mat3 B(bu, bv, wi);
        const int A = 400, P = 64; double q = 0, qm = 0; for (int i = 0; i < A; i++) { const double x = -1 + 2 * (i + .5) / A, c = std::sin(Pi / 2 * x), dc = Pi / 2 * std::cos(Pi / 2 * x) * 2 / A; for (int j = 0; j < P; j++) { const Vec3 wo = B * sph(c, (j + .5) / P * 2 * Pi); const double v = p->pdf_direction(g0, wi, wo); CK(std::isfinite(v) && v >= 0, "range", "density {}", v); q += v * dc * 2 * Pi / P; qm += v * -c * dc * 2 * Pi / P; ctx.extra_transitions++; } }
        CK(near(q, 1, 3e-3), "norm", "density integrates to {}", q); CK(std::abs(qm - g) < 3e-3, "asymmetry", "mean cosine of the density is {}", qm);
        for (auto& wo : D) for (double s : {1., -1.}) { const Vec3 w = s * glm::normalize(wo + Vec3(.1, .2, .05)); CK(near(p->eval(g0, wi, w), p->eval(g0, w, wi), 1e-9), "symmetric", "f(wi,wo) = {} f(wo,wi) = {}", S(p->eval(g0, wi, w)), S(p->eval(g0, w, wi))); CK(near(p->eval(g0, wi, w), p->eval(g0, -wi, -w), 1e-9), "isotropic", "not invariant"); const double t = 1 + g * g + 2 * g * glm::dot(wi, w), want = (1 - g * g) / (4 * Pi * t * std::sqrt(t)); CK(near(p->eval(g0, wi, w), Vec3(want), 1e-9), "value", "value {} expected {}", S(p->eval(g0, wi, w)), want); }
        const int N = 96; double m = 0; Vec3 mv(0);
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
            const Vec2 u((i + .5) / N, (j + .5) / N); auto at = [&](double a, double b) { return p->sample_direction({u + Vec2(a, b)}, g0, wi)->wo; }; auto s = p->sample_direction({u}, g0, wi); ctx.extra_transitions++; CK(s && near(glm::length(s->wo), 1, 1e-9), "unit", "direction is not normalised");
            const double d = p->pdf_direction(g0, wi, s->wo); CK(near(s->weight * d, p->eval(g0, wi, s->wo), 1e-9), "weight", "weight {} f {} p {}", S(s->weight), S(p->eval(g0, wi, s->wo)), d);
            m += -glm::dot(s->wo, wi) / (N * N); mv += s->wo / double(N * N); const double h = 1e-6, J = glm::length(glm::cross((at(h, 0) - at(-h, 0)) / (2 * h), (at(0, h) - at(0, -h)) / (2 * h))); if (J > 1e-9) CK(near(d * J, 1, 1e-2), "density", "density times solid angle per random number is {} at ({},{})", d * J, u.x, u.y);
        }
        for (double a : {0., std::nextafter(1., 0.)}) for (double b : {0., std::nextafter(1., 0.)}) { auto s = p->sample_direction({Vec2(a, b)}, g0, wi); CK(s && near(glm::length(s->wo), 1, 1e-6) && std::isfinite(p->pdf_direction(g0, wi, s->wo)), "ends", "direction {} for ({},{})", S(s->wo), a, b); }
        CK(std::abs(m - g) < 4e-3 && glm::length(mv + g * wi) < 6e-3, "mean", "mean cosine of the samples is {}, mean direction {}", m, S(mv));
        ctx.state(id());
    });
}
// ------------------------------------------------------------------ volumes
struct Vol { std::string name, key; Json p; std::function<double(Vec3)> den; std::function<Vec3(Vec3)> col; Vec3 lo, hi; double mx; };
double box(Vec3 p, Vec3 lo, Vec3 hi) { return p.x >= lo.x && p.y >= lo.y && p.z >= lo.z && p.x <= hi.x && p.y <= hi.y && p.z <= hi.z; }
std::vector<Vol> volumes() {
    std::vector<Vol> v; auto F = [](Vec3 c) { return [c](Vec3) { return c; }; };
    v.push_back({"cc", "volume::constant", {{"bound_min", Vec3(-1, -2, -1)}, {"bound_max", Vec3(1, 1, 2)}, {"color", Vec3(.9, .5, .1)}}, nullptr, F(Vec3(.9, .5, .1)), Vec3(-1, -2, -1), Vec3(1, 1, 2), 0});
    v.push_back({"cs", "volume::constant", {{"bound_min", Vec3(-1, -2, -1)}, {"bound_max", Vec3(1, 1, 2)}, {"scalar", .7}}, [](Vec3) { return .7; }, nullptr, Vec3(-1, -2, -1), Vec3(1, 1, 2), .7});
    v.push_back({"cb", "volume::constant", {{"bound_min", Vec3(-1)}, {"bound_max", Vec3(1)}, {"scalar", .4}, {"color", Vec3(.2, .3, .4)}}, [](Vec3) { return .4; }, F(Vec3(.2, .3, .4)), Vec3(-1), Vec3(1), .4});
    v.push_back({"ck", "volume::checker", {{"bound_min", Vec3(-1, -1, -1)}, {"bound_max", Vec3(1.5, 1, 1)}}, [](Vec3 p) { const int x = int((p.x + 1) / 2.5 / .2), y = int((p.y + 1) / 2 / .2); return (x + y) % 2 == 0 ? 1. : 0.; }, nullptr, Vec3(-1), Vec3(1.5, 1, 1), 1});
    v.push_back({"s1", "volume::sphere", {{"scalar", 1.3}, {"color", Vec3(.5, .6, .7)}, {"pos", Vec3(.3, -.2, .1)}, {"radius", .8}}, [](Vec3 p) { return glm::length(p - Vec3(.3, -.2, .1)) < .8 ? 1.3 : 0.; }, F(Vec3(.5, .6, .7)), Vec3(.3, -.2, .1) - .8, Vec3(.3, -.2, .1) + .8, 1.3});
    v.push_back({"s2", "volume::sphere", {{"scalar", .5}}, [](Vec3 p) { return glm::length(p) < 1 ? .5 : 0.; }, nullptr, Vec3(-1), Vec3(1), .5});
    v.push_back({"g1", "volume::gaussian", {{"scalar", .9}, {"color", Vec3(.1, .2, .9)}, {"pos", Vec3(.2, .1, 0)}, {"sigma", Vec3(.3, .4, .2)}}, [](Vec3 p) { p -= Vec3(.2, .1, 0); return .9 * std::exp(-.5 * (p.x * p.x / .09 + p.y * p.y / .16 + p.z * p.z / .04)); }, F(Vec3(.1, .2, .9)), Vec3(.2, .1, 0) - 1., Vec3(.2, .1, 0) + 1., .9});
    v.push_back({"g2", "volume::gaussian", {{"scalar", .05}, {"sigma", Vec3(20, 5, 8)}}, [](Vec3 p) { return .05 * std::exp(-.5 * (p.x * p.x / 400 + p.y * p.y / 25 + p.z * p.z / 64)); }, nullptr, Vec3(-60), Vec3(60), .05});
    v.push_back({"mu", "volume::multi", {{"volumes_den", {"$.assets.s1", "$.assets.cb", "$.assets.g1"}}, {"volumes_alb", {"$.assets.s1", "$.assets.cc", "$.assets.g1"}}}, nullptr, nullptr, Vec3(-1), Vec3(1.1), 1.3 + .4 + .9});
    return v;
}
double den_at(const std::vector<Vol>& vs, const Vol& v, Vec3 p) { if (v.name != "mu") return v.den(p); return vs[4].den(p) + (box(p, Vec3(-1), Vec3(1)) ? .4 : 0) + vs[6].den(p); }
void volume(vp::Ctx& ctx) {
    init(1);
    ctx.bound("volumes: 9 volumes (constant, checker, sphere, Gaussian, sums) on an 15x15x15 lattice of points in and around them: value, bound, maximum, colour; invalid parameters and references");
    auto vs = volumes(); for (auto& v : vs) lm::assets()->load_asset(v.name, v.key, v.p);
    ctx.explore([&](vp::Chooser& ch) {
        const int k = ch.choose(vs.size() + 1); auto id = [&] { return k < (int)vs.size() ? vs[k].key + " " + vs[k].p.dump() : std::string("invalid volumes"); }; ctx.trace(id());
        if (k == (int)vs.size()) {
            auto bad = [&](const std::string& key, Json p) { bool t = false; try { auto c = comp::create<Volume>(key, "", p); t = !c; } catch (const Exception&) { t = true; } CK(t, "invalid", "{} {} was accepted", key, p.dump()); };
            for (auto n : {"volume::constant", "volume::sphere", "volume::gaussian"}) bad(n, {{"bound_min", Vec3(0)}, {"bound_max", Vec3(1)}});
            // the bound of a multi volume contains its parts, whatever their arrangement along the axes
            for (int ax = 0; ax < 3; ax++) for (int sg = -1; sg <= 1; sg += 2) for (int od = 0; od < 2; od++) { Vec3 o(0); o[ax] = 5. * sg; const Vec3 h(.2 + .1 * ax, .5, .4); auto* A = lm::assets(); A->load_asset("bx0", "volume::constant", {{"scalar", .4}, {"color", Vec3(1)}, {"bound_min", -h}, {"bound_max", h}}); A->load_asset("bx1", "volume::constant", {{"scalar", .3}, {"color", Vec3(1)}, {"bound_min", o - h}, {"bound_max", o + h}}); const Json l = od ? Json::array({"$.assets.bx0", "$.assets.bx1"}) : Json::array({"$.assets.bx1", "$.assets.bx0"}); auto* m = dynamic_cast<Volume*>(A->load_asset("bxm", "volume::multi", {{"volumes_den", l}, {"volumes_alb", l}})); const Bound b = m->bound(); auto id = [&] { return fmt::format("multi volume of boxes at 0 and {}", S(o)); };
                for (int i = 0; i < 3; i++) CK(b.min[i] <= std::min(0., o[i]) - h[i] + 1e-6 && b.max[i] >= std::max(0., o[i]) + h[i] - 1e-6, "multi-bound", "bound {} - {}", S(b.min), S(b.max)); CK(std::abs(m->eval_scalar(Vec3(0)) - .4) < 1e-9 && std::abs(m->eval_scalar(o) - .3) < 1e-9, "multi-density", "densities {} and {}", m->eval_scalar(Vec3(0)), m->eval_scalar(o)); }
            bad("volume::multi", {{"volumes_den", Json::array()}, {"volumes_alb", Json::array()}}); bad("volume::multi", {{"volumes_den", {"$.assets.s1", "$.assets.cb"}}, {"volumes_alb", {"$.assets.s1"}}}); bad("volume::multi", {{"volumes_den", {"$.assets.cc"}}, {"volumes_alb", {"$.assets.s1"}}}); bad("volume::multi", {{"volumes_den", {"$.assets.s1"}}, {"volumes_alb", {"$.assets.cs"}}}); bad("volume::multi", {{"volumes_den", {"$.assets.nope"}}, {"volumes_alb", {"$.assets.s1"}}}); bad("volume::multi", {{"volumes_den", {"$.assets.s1"}}, {"volumes_alb", {"$.assets.nope"}}});
            ctx.state(id()); return;
        }
        const auto& v = vs[k]; auto* c = comp::get<Volume>("$.assets." + v.name); const bool scalar = v.den || v.name == "mu", color = v.col || v.name == "mu"; const Bound b = c->bound();
        CK(c->has_scalar() == scalar && c->has_color() == color, "has", "has_scalar {} has_color {}", c->has_scalar(), c->has_color());
        CK(near(glm::max(b.min, v.lo), v.lo, 1e-9) && near(glm::min(b.max, v.hi), v.hi, 1e-9), "bound", "bound {} {} does not contain the volume", S(b.min), S(b.max));
        if (v.key == "volume::constant" || v.key == "volume::checker") CK(near(b.min, v.lo, 1e-12) && near(b.max, v.hi, 1e-12), "bound-exact", "bound {} {}", S(b.min), S(b.max));
        if (scalar) CK(near(c->max_scalar(), v.mx, 1e-9), "max", "maximum {}", c->max_scalar());
        const Vec3 lo = v.lo - .3 * (v.hi - v.lo), hi = v.hi + .3 * (v.hi - v.lo);
        for (int x = 0; x < 15; x++) for (int y = 0; y < 15; y++) for (int z = 0; z < 15; z++) {
            const Vec3 p = lo + (hi - lo) * (Vec3(x, y, z) + Vec3(.31, .57, .43)) / 15.; const bool in = box(p, b.min, b.max); ctx.extra_transitions++;
            if (scalar) { const double d = c->eval_scalar(p), w = den_at(vs, v, p); if (in) CK(std::isfinite(d) && d >= 0 && near(d, w, 1e-9), "scalar", "density {} at {}, expected {}", d, S(p), w); else if (v.key == "volume::sphere" || v.key == "volume::gaussian") CK(w <= v.mx * 1.1e-3, "cut", "density {} at {} outside of the bound {} {}", w, S(p), S(b.min), S(b.max)); if (in) CK(d <= c->max_scalar() * (1 + 1e-12), "exceeds", "density {} at {} exceeds the maximum {}", d, S(p), c->max_scalar()); }
            if (v.col) CK(near(c->eval_color(p), v.col(p), 1e-12), "color", "color {}", S(c->eval_color(p)));
            if (v.name == "mu" && in && den_at(vs, v, p) > 1e-9) { const double a = vs[4].den(p), q = box(p, Vec3(-1), Vec3(1)) ? .4 : 0, g = vs[6].den(p); CK(near(c->eval_color(p), (a * Vec3(.5, .6, .7) + q * Vec3(.9, .5, .1) + g * Vec3(.1, .2, .9)) / (a + q + g), 1e-9), "mixed", "albedo {} at {}", S(c->eval_color(p)), S(p)); }
        }
        ctx.state(id());
    });
}
// ------------------------------------------------------------------ media
struct Med { std::string name; int vol; double sigma; Vec3 lo, hi; Vec3 alb; };
// length of ray in box and interval
bool clip(Vec3 o, Vec3 d, Vec3 lo, Vec3 hi, double& a, double& b) { for (int i = 0; i < 3; i++) { if (d[i] == 0) { if (o[i] < lo[i] || o[i] > hi[i]) return false; continue; } double x = (lo[i] - o[i]) / d[i], y = (hi[i] - o[i]) / d[i]; if (x > y) std::swap(x, y); a = std::max(a, x); b = std::min(b, y); } return b > a; }
struct Rays { std::vector<Ray> r; std::vector<std::pair<double, double>> iv; };
Rays rays() { Rays q; for (auto o : {Vec3(-5, .1, .2), Vec3(.1, .15, .05), Vec3(.3, 4, -.2), Vec3(3, 3, 3)}) for (auto d : {Vec3(1, 0, 0), Vec3(0, -1, 0), Vec3(-1, -1.1, -.9), Vec3(.3, .2, -1), Vec3(1, .02, -.03)}) q.r.push_back({o, glm::normalize(d)}); for (double a : {0., .4, 4.7}) for (double l : {.3, 1.1, 5., 1e10}) q.iv.push_back({a, l == 1e10 ? Inf : a + l}); return q; }
void media(vp::Ctx& ctx, int part, bool thorough) {
    init(1);
    const int N = thorough ? 60000 : 6000;
    ctx.bound(fmt::format("media: homogeneous (3 densities, bounded and unbounded) and heterogeneous (constant, checker, spheres, Gaussians, sums) x 20 rays x 12 intervals x {} sequences of random numbers: every sampled event, the distribution of distances and the expected transmittance against the integral of the density", N));
    auto vs = volumes(); for (auto& v : vs) lm::assets()->load_asset(v.name, v.key, v.p);
    auto* a = lm::assets(); a->load_asset("ph", "phase::hg", {{"g", .3}}); std::vector<Med> M;
    for (double s : {0., .6, 3.}) for (int b = 0; b < 2; b++) { Med m{"h" + std::to_string(M.size()), -1, s, b ? Vec3(-1, -2, -1) : Vec3(-Inf), b ? Vec3(1, 1, 2) : Vec3(Inf), Vec3(.8, .4, .2)}; Json p = {{"density", s}, {"albedo", m.alb}, {"phase", "$.assets.ph"}}; if (b) { p["bound_min"] = m.lo; p["bound_max"] = m.hi; } a->load_asset(m.name, "medium::homogeneous", p); M.push_back(m); }
    for (int v : {1, 2, 3, 4, 5, 6, 8}) { Med m{"e" + std::to_string(v), v, 0}; a->load_asset(m.name, "medium::heterogeneous", {{"volume_density", "$.assets." + vs[v].name}, {"volume_albedo", std::string(v == 8 ? "$.assets.mu" : "$.assets.cc")}, {"phase", "$.assets.ph"}}); M.push_back(m); }
    auto R = rays();
    ctx.explore([&](vp::Chooser& ch) {
        const int mi = ch.choose(M.size()), ri = ch.choose(R.r.size()), ii = ch.choose(R.iv.size()); if ((mi + ri) % 8 != part) return;
        const auto& m = M[mi]; auto* c = comp::get<Medium>("$.assets." + m.name); const Ray ray = R.r[ri]; const double t0 = R.iv[ii].first, t1 = R.iv[ii].second;
        auto id = [&] { return fmt::format("{} {} ray {} {} interval [{}, {}]", c->key(), m.vol < 0 ? fmt::format("density {} bound {}", m.sigma, S(m.lo)) : vs[m.vol].key + " " + vs[m.vol].name, S(ray.o), S(ray.d), t0, t1); }; ctx.trace(id());
        CK(!c->is_emitter() && c->phase() == comp::get<Phase>("$.assets.ph"), "phase", "wrong phase function or emitter flag");
        auto* vol = m.vol < 0 ? nullptr : comp::get<Volume>("$.assets." + vs[m.vol].name); const Vec3 lo = vol ? vol->bound().min : m.lo, hi = vol ? vol->bound().max : m.hi;
        double ca = t0, cb = t1; const bool hit = clip(ray.o, ray.d, lo, hi, ca, cb);
        auto den = [&](Vec3 p) { return vol ? den_at(vs, vs[m.vol], p) : m.sigma; };
        // optical thickness, cumulative
        const int K = 4000; std::vector<double> tau(K + 1, 0); if (hit) { if (!vol) for (int i = 0; i <= K; i++) tau[i] = m.sigma * (cb - ca) * i / K; else for (int i = 0; i < K; i++) tau[i + 1] = tau[i] + den(ray.o + ray.d * (ca + (cb - ca) * (i + .5) / K)) * (cb - ca) / K; }
        const double T = std::exp(-tau[K]);
        double none = 0, tr = 0, trm = 0; std::vector<double> cdf(8, 0); const double tm = .5 * (t0 + (t1 > 1e9 ? t0 + 3 : t1)); double tra = 0, trb = 0;
        for (int i = 0; i < N; i++) {
            Rng rng(1); Lattice::at(i); auto s = c->sample_distance(rng, ray, t0, t1); ctx.extra_transitions++;
            if (s && s->medium) {
                const double t = glm::dot(s->p - ray.o, ray.d); CK(hit && t >= ca - 1e-6 && t <= cb + 1e-6 && glm::length(ray.o + ray.d * t - s->p) < 1e-6 * (1 + std::abs(t)), "event", "event at {} (t = {}), the medium covers [{}, {}]", S(s->p), t, ca, cb);
                const double d = vol ? vol->eval_scalar(s->p) : m.sigma; CK(d > 0, "event-density", "event at {} where the density is {}", S(s->p), d);
                const Vec3 alb = vol ? (m.vol == 8 ? vol->eval_color(s->p) : Vec3(.9, .5, .1)) : m.alb; CK(near(s->weight, alb, 1e-9), "event-weight", "weight {} of an event, the albedo is {}", S(s->weight), S(alb));
                if (hit) { const double x = (t - ca) / (cb - ca); for (int k = 0; k < 8; k++) if (cb < 1e9 ? x < (k + 1) / 8. : t - ca < (k + 1) * .3) cdf[k] += 1. / N; }
            } else { none += 1. / N; if (s) CK(near(s->weight, Vec3(1), 1e-9), "pass-weight", "weight {} without an event", S(s->weight)); }
            Lattice::at(i); const Vec3 tt = c->eval_transmittance(rng, ray, t0, t1); CK(tt.x >= 0 && tt.x <= 1 && tt.y >= 0 && tt.y <= 1 && tt.z >= 0 && tt.z <= 1, "transmittance-range", "transmittance {}", S(tt)); if (!hit) CK(tt == Vec3(1), "outside", "transmittance {} outside of the medium", S(tt)); if (!vol) CK(near(tt, Vec3(T), 1e-9), "transmittance-exact", "transmittance {} expected {}", S(tt), T);
            tr += tt.x / N; if (t1 < 1e9 && hit) { tra += c->eval_transmittance(rng, ray, t0, tm).x / N; trb += c->eval_transmittance(rng, ray, tm, t1).x / N; }
        }
        Lattice::off(); const double e = thorough ? .008 : .02;
        CK(std::abs(none - T) < e, "no-collision", "{} of the sequences have no event, the transmittance is {}", none, T);
        CK(std::abs(tr - T) < e, "transmittance", "mean transmittance {}, exp(-integral) = {}", tr, T);
        if (t1 < 1e9 && hit) CK(std::abs(tra * trb - T) < 2 * e, "multiplicative", "transmittance of the halves {} * {}, of the whole {}", tra, trb, T);
        if (hit) for (int k = 0; k < 8; k++) { double w; if (cb < 1e9) w = 1 - std::exp(-tau[K * (k + 1) / 8]); else w = 1 - std::exp(-m.sigma * (k + 1) * .3); CK(std::abs(cdf[k] - w) < e, "distances", "{} of the sequences have an event in the first part {}/8, expected {}", cdf[k], k + 1, w); }
        ctx.state(id());
    });
}
// ------------------------------------------------------------------ in a scene
void in_scene(vp::Ctx& ctx) {
    init(1);
    ctx.bound("scene: path::sample_distance and eval_transmittance with a homogeneous, a heterogeneous or no medium, with and without a wall, environment light and occluder: 12 rays x 4000 sequences, all pairs of 6 points");
    auto* a = lm::assets(); auto vs = volumes(); for (auto& v : vs) a->load_asset(v.name, v.key, v.p);
    a->load_asset("ph", "phase::isotropic", {}); a->load_asset("mat", "material::diffuse", {{"Kd", Vec3(.5)}}); a->load_asset("lc", "light::envconst", {{"Le", Vec3(1)}}); a->load_asset("w", "mesh::raw", mesh_prop({{Vec3(-9, -9, -.5), Vec3(9, -9, -.5), Vec3(9, 9, -.5)}, {Vec3(-9, -9, -.5), Vec3(9, 9, -.5), Vec3(-9, 9, -.5)}}));
    a->load_asset("M0", "medium::homogeneous", {{"density", .5}, {"albedo", Vec3(.8, .4, .2)}, {"phase", "$.assets.ph"}, {"bound_min", Vec3(-1, -2, -1)}, {"bound_max", Vec3(1, 1, 2)}}); a->load_asset("M1", "medium::heterogeneous", {{"volume_density", "$.assets.s1"}, {"volume_albedo", "$.assets.cc"}, {"phase", "$.assets.ph"}});
    ctx.explore([&](vp::Chooser& ch) {
        const int med = ch.choose(3); const bool wall = ch.flip(), env = ch.flip(); a->load_asset("ac", "accel::sahbvh", {}); auto* sc = dynamic_cast<Scene*>(a->load_asset("sc", "scene::default", {{"accel", "$.assets.ac"}})); auto id = [&] { return fmt::format("scene with {}{}{}", med == 0 ? "homogeneous medium" : med == 1 ? "heterogeneous medium" : "no medium", wall ? ", wall" : "", env ? ", environment" : ""); }; ctx.trace(id());
        if (wall) sc->add_primitive({{"mesh", "$.assets.w"}, {"material", "$.assets.mat"}}); else { a->load_asset("w2", "mesh::raw", mesh_prop({{Vec3(50, 50, 50), Vec3(51, 50, 50), Vec3(50, 51, 50)}})); sc->add_primitive({{"mesh", "$.assets.w2"}, {"material", "$.assets.mat"}}); }
        if (env) sc->add_primitive({{"light", "$.assets.lc"}}); if (med < 2) sc->add_primitive({{"medium", "$.assets.M" + std::to_string(med)}}); sc->build();
        CK((sc->medium_node() == -1) == (med == 2), "medium", "medium node {}", sc->medium_node());
        auto* m = med < 2 ? comp::get<Medium>("$.assets.M" + std::to_string(med)) : nullptr; const int N = 4000; Rng rng(1);
        if (m) for (auto o : {Vec3(0, 0, 4), Vec3(.1, .2, .3), Vec3(-3, 0, .1)}) for (auto d0 : {Vec3(0, .01, -1), Vec3(1, .05, -.2), Vec3(.2, -.1, 1), Vec3(-.3, .3, -.8)}) {
            const Vec3 d = glm::normalize(d0); auto sp = SceneInteraction::make_medium_interaction(sc->medium_node(), PointGeometry::make_degenerated(o)); const double tw = wall ? (-.5 - o.z) / d.z : -1; const bool hw = tw > Eps && std::abs(o.x + d.x * tw) < 9 && std::abs(o.y + d.y * tw) < 9; const double tmax = hw ? tw : Inf;
            double ns = 0, nd = 0;
            for (int i = 0; i < N; i++) {
                Lattice::at(i); auto s = path::sample_distance(rng, sc, sp, d); Lattice::at(i); auto r = m->sample_distance(rng, {o, d}, 0, tmax); ctx.extra_transitions++; const bool ev = r && r->medium; nd += ev;
                if (s && s->sp.is_type(SceneInteraction::MediumInteraction)) { ns++; const double t = glm::dot(s->sp.geom.p - o, d); CK(t >= 0 && t <= tmax && s->sp.geom.degenerated && s->sp.primitive == sc->medium_node(), "distance-event", "event at distance {} beyond the surface at {}", t, tmax); const Vec3 alb = med ? Vec3(.9, .5, .1) : Vec3(.8, .4, .2); CK(near(s->weight, alb, 1e-9), "distance-weight", "weight {}", S(s->weight)); }
                else if (s) { CK(near(s->weight, Vec3(1), 1e-9), "surface-weight", "weight {} of a surface", S(s->weight)); if (hw) CK(!s->sp.geom.infinite && std::abs(glm::length(s->sp.geom.p - o) - tw) < 1e-6, "surface", "surface at {}", S(s->sp.geom.p)); else CK(env && s->sp.geom.infinite, "surface-env", "a surface appeared"); }
                else CK(!hw && !env, "surface-missing", "neither event nor surface");
            }
            CK(std::abs(ns - nd) < .02 * N, "distance-frequency", "{} events through the scene, {} of the medium", ns, nd);
        }
        // transmittance between points
        const std::vector<Vec3> P = {Vec3(0, 0, 4), Vec3(0, 0, .3), Vec3(.2, .3, -.2), Vec3(-2, .1, 1), Vec3(.3, -.2, -3), Vec3(5, 5, 5)};
        auto T = [&](const SceneInteraction& x, const SceneInteraction& y) { double t = 0; for (int i = 0; i < N; i++) { Lattice::at(i); const Vec3 v = path::eval_transmittance(rng, sc, x, y); CK(v.x >= 0 && v.x <= 1 && v.x == v.y && v.y == v.z, "T-range", "transmittance {}", S(v)); t += v.x / N; if (!m) { t = v.x; break; } ctx.extra_transitions++; } return t; };
        for (size_t i = 0; i < P.size(); i++) for (size_t j = 0; j < P.size(); j++) if (i != j) {
            auto x = SceneInteraction::make_medium_interaction(0, PointGeometry::make_degenerated(P[i])), y = SceneInteraction::make_medium_interaction(0, PointGeometry::make_degenerated(P[j])); const Vec3 dv = P[j] - P[i]; const double L = glm::length(dv); const Vec3 d = dv / L; const double got = T(x, y); const double tw = (-.5 - P[i].z) / d.z; const bool blocked = wall && tw > 0 && tw < L;
            if (blocked) { CK(got == 0, "occluded", "transmittance {} through a wall", got); continue; } if (!m) { CK(got == 1, "vacuum", "transmittance {} in vacuum", got); continue; }
            double tau = 0; for (int k = 0; k < 4000; k++) { const Vec3 p = P[i] + dv * ((k + .5) / 4000); tau += (med ? vs[4].den(p) : box(p, Vec3(-1, -2, -1), Vec3(1, 1, 2)) * .5) * L / 4000; } CK(std::abs(got - std::exp(-tau)) < .02, "T", "transmittance {} between {} and {}, expected {}", got, S(P[i]), S(P[j]), std::exp(-tau));
        }
        for (size_t i = 0; i < P.size(); i++) for (auto wo : {Vec3(0, 0, -1), glm::normalize(Vec3(.3, .2, .9))}) { auto x = SceneInteraction::make_medium_interaction(0, PointGeometry::make_degenerated(P[i])), y = SceneInteraction::make_light_endpoint(0, PointGeometry::make_infinite(wo)); const Vec3 d = -wo; const double tw = (-.5 - P[i].z) / d.z; const bool blocked = wall && tw > 0 && std::abs(P[i].x + d.x * tw) < 9 && std::abs(P[i].y + d.y * tw) < 9; const double got = T(x, y); if (blocked) { CK(got == 0, "occluded-inf", "transmittance {} from infinity through a wall", got); continue; } if (!m) { CK(got == 1, "vacuum-inf", "transmittance {} in vacuum", got); continue; } double tau = 0; for (int k = 0; k < 8000; k++) { const Vec3 p = P[i] + d * ((k + .5) / 8000 * 12); tau += (med ? vs[4].den(p) : box(p, Vec3(-1, -2, -1), Vec3(1, 1, 2)) * .5) * 12 / 8000; } CK(std::abs(got - std::exp(-tau)) < .02, "T-inf", "transmittance {} towards infinity, expected {}", got, std::exp(-tau)); }
        Lattice::off(); ctx.state(id());
    });
}
struct Init { Init() {
    vp::scenarios().push_back({"phase", phase, 0}); vp::scenarios().push_back({"volume", volume, 0}); vp::scenarios().push_back({"in_scene", in_scene, 0});
    for (int i = 0; i < 8; i++) vp::scenarios().push_back({"media_" + std::to_string(i), [i](vp::Ctx& c) { media(c, i, false); }, 0});
    for (int i = 0; i < 8; i++) vp::scenarios().push_back({"media_deep_" + std::to_string(i), [i](vp::Ctx& c) { media(c, i, true); }, 1});
} } init_;
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
