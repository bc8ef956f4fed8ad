// C11: every material samples exactly the distribution and BSDF it reports.
#include "harness/catalogue.h"
#include <lm/material.h>
#include <lm/surface.h>
using namespace lm;
using namespace H;
namespace {
using TD = Material::TransDir;
// ncomp: component indices 0..ncomp-1; smooth: no branch on udc, moderately rough
struct Cfg { std::string name; int ncomp; bool branch; double rough; std::vector<std::pair<std::string, double>> mix; };
std::vector<Cfg> load_all(const std::string& dir) {
    auto* a = lm::assets(); std::vector<Cfg> r;
    put_file(dir + "/c.tga", tga(2, 2, 3, [](int x, int y, int k) { return 60 + 60 * x + 40 * y + 20 * k; }));
    put_file(dir + "/al.tga", tga(2, 2, 4, [](int x, int y, int k) { return k == 3 ? std::vector<int>{0, 255, 51, 178}[2 * y + x] : 50 + 50 * x + 60 * y + 20 * k; }));
    a->load_asset("tc", "texture::bitmap", {{"path", dir + "/c.tga"}}); a->load_asset("ta", "texture::bitmap", {{"path", dir + "/al.tga"}});
    auto L = [&](const std::string& n, const std::string& key, Json p, int nc = 1, bool br = false, double ro = 1, std::vector<std::pair<std::string, double>> mix = {}) { a->load_asset(n, key, p); r.push_back({n, nc, br, ro, mix}); };
    L("d", "material::diffuse", {{"Kd", Vec3(.8, .4, .1)}});
    L("d1", "material::diffuse", Json::object());
    L("d0", "material::diffuse", {{"Kd", Vec3(0)}});
    L("dt", "material::diffuse", {{"mapKd", "$.assets.tc"}, {"Kd", Vec3(.5)}});
    L("g5", "material::glossy", {{"Ks", Vec3(.8, .5, .2)}, {"ax", .5}, {"ay", .5}}, 1, false, .5);
    L("g2", "material::glossy", {{"Ks", Vec3(.9)}, {"ax", .25}, {"ay", .25}}, 1, false, .25);
    L("ga", "material::glossy", {{"Ks", Vec3(.7, .6, .5)}, {"ax", .6}, {"ay", .3}}, 1, false, .3);
    L("gs", "material::glossy", {{"Ks", Vec3(1)}, {"ax", .02}, {"ay", .05}}, 1, false, .02);
    L("g1", "material::glossy", {{"Ks", Vec3(1)}, {"ax", 1.}, {"ay", 1.}}, 1, false, 1);
    L("m", "material::mirror", {}); L("k", "material::mask", {});
    L("w15", "material::glass", {{"Ni", 1.5}}, 2); L("w07", "material::glass", {{"Ni", .7}}, 2); L("w1", "material::glass", {{"Ni", 1.}}, 2); L("w24", "material::glass", {{"Ni", 2.4}}, 2);
    for (auto n : {"d", "ga", "m", "w15"}) L(std::string("p") + n, "material::proxy", {{"ref", std::string("$.assets.") + n}}, std::string(n) == "w15" ? 2 : 1, false, std::string(n) == "ga" ? .3 : 1);
    auto mix = [&](const std::string& n, const std::vector<std::pair<std::string, double>>& e) {
        Json j = Json::array(); for (auto& x : e) j.push_back({{"material", "$.assets." + x.first}, {"weight", x.second}});
        double ro = 1; for (auto& x : e) if (x.first[0] == 'g') ro = std::min(ro, x.first == "gs" ? .02 : .3);
        int spec = 0; for (auto& x : e) spec += x.first == "m" || x.first == "k" || x.first[0] == 'w';
        L("r" + n, "material::constant_weight_mixture_rr", j, e.size(), false, ro, e);
        L("z" + n, "material::constant_weight_mixture_marginalized", j, 1 + spec, true, ro, e);
    };
    mix("1", {{"d", .5}, {"ga", .5}}); mix("2", {{"d", .2}, {"g5", .7}, {"m", .1}}); mix("3", {{"m", .3}, {"k", .7}}); mix("4", {{"d", 1}}); mix("5", {{"d", .3}, {"dt", 0}, {"g5", .4}, {"g1", .1}}); mix("6", {{"m", .25}, {"dt", 1.5}, {"k", .25}, {"g2", .5}});
    for (int i = 0; i < 4; i++) L("o" + std::to_string(i), "material::mixture_wavefrontobj", {{"Kd", i == 3 ? Vec3(0) : Vec3(.6, .3, .2)}, {"mapKd", std::string(i == 1 || i == 2 ? "$.assets.ta" : "")}, {"Ks", i == 3 ? Vec3(0) : Vec3(.2, .5, .3)}, {"ax", .4}, {"ay", .5}, {"no_alpha_mask", i == 2}}, 2, true, .4);
    r.push_back({"pz", 3, true, .3, {{"d", .2}, {"g5", .7}, {"m", .1}}}); r.back().ncomp = 2; r.back().mix.clear(); a->load_asset("pz", "material::proxy", {{"ref", "$.assets.z2"}});
    return r;
}
const std::vector<Vec3> NORMALS = {Vec3(0, 0, 1), Vec3(0, 0, -1), Vec3(1, 0, 0), glm::normalize(Vec3(1, 1, 1)), glm::normalize(Vec3(.3, -.8, -.4))};
std::vector<Vec3> local_dirs() { std::vector<Vec3> r; for (double c : {.999999, .9, .6, .3, .05}) for (double ph : {0.3, 2., 4.4}) for (int s : {1, -1}) { const double q = std::sqrt(1 - c * c); r.push_back(Vec3(q * std::cos(ph), q * std::sin(ph), s * c)); if (c > .9999) break; } r.push_back(Vec3(0, 0, 1)); r.push_back(Vec3(0, 0, -1)); return r; }
PointGeometry geom(int n, int t, bool tilt) { const Vec3 N = NORMALS[n]; const Vec3 gn = tilt ? glm::normalize(N + Vec3(.2, .1, -.15)) : N; const std::vector<Vec2> T = {Vec2(.25, .25), Vec2(.75, .25), Vec2(.25, .75), Vec2(.75, .75)}; return PointGeometry::make_on_surface(Vec3(1, 2, 3), N, gn, T[t]); }
bool fin(Vec3 v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z); }
bool nonneg(Vec3 v) { return fin(v) && v.x >= 0 && v.y >= 0 && v.z >= 0; }
bool near(double a, double b, double e) { return std::abs(a - b) <= e * std::max(1., std::max(std::abs(a), std::abs(b))); }
bool near(Vec3 a, Vec3 b, double e) { return near(a.x, b.x, e) && near(a.y, b.y, e) && near(a.z, b.z, e); }
std::string S(Vec3 v) { return v3(v); }
bool textured(const std::string& n) { return n == "dt" || n == "o1" || n == "o2" || n.back() == '5' || n.back() == '6'; }

// --- pointwise laws: sample = f/p, delta analogue, no NaN, reciprocity, component selection
void pointwise(vp::Ctx& ctx, int part) {
    init(1);
    ctx.bound("pointwise: 33 material configurations (all materials, textures, alpha masks, mixtures with zero and specular entries, proxies) x 5 normals x 4 texels x 30 incident directions on both sides x 12x12 random numbers x 8 selection numbers x both transport directions; all pairs of directions for reciprocity and finiteness");
    const auto cfgs = load_all(ctx.scratch); const auto dirs = local_dirs();
    const int N = 12;
    ctx.explore([&](vp::Chooser& ch) {
        const auto& c = cfgs[ch.choose(cfgs.size())]; const int n = ch.choose(NORMALS.size()), t = ch.choose(textured(c.name) ? 4 : 1); const bool tilt = n == 3;
        const Vec3 wl = dirs[ch.choose(dirs.size())];
        if (((&c - &cfgs[0]) + n) % 4 != part) return;
        auto* m = comp::get<Material>("$.assets." + c.name); const auto g = geom(n, t, tilt); const Vec3 wi = g.to_world * wl;
        auto id = [&] { return fmt::format("{} ({}) n={} texel {} wi_local={}", c.name, m->key(), S(g.n), t, S(wl)); };
        ctx.trace(id());
        // component selection
        double sum = 0; std::vector<double> pc; for (int k = 0; k < c.ncomp; k++) { const double p = m->pdf_component(k, g, wi); pc.push_back(p); ctx.checkf(std::isfinite(p) && p >= -1e-12 && p <= 1 + 1e-9, "pc-range", [&] { return id() + fmt::format(": probability {} of component {}", p, k); }); sum += p; }
        ctx.checkf(near(sum, 1, 1e-9), "pc-sum", [&] { return id() + fmt::format(": component probabilities sum to {}", sum); });
        const int NU = 512; std::vector<int> cnt(c.ncomp, 0);
        for (int i = 0; i < NU; i++) for (double u2 : {.1, .9}) {
            const double u = i == 0 ? 0 : (i + .5) / NU; auto s = m->sample_component({Vec2(u, u2)}, g, wi);
            ctx.checkf(s.comp >= 0 && s.comp < c.ncomp, "comp-range", [&] { return id() + fmt::format(": component {} was selected", s.comp); });
            ctx.checkf(pc[s.comp] > 0 && near(s.weight, 1 / pc[s.comp], 1e-9), "comp-weight", [&] { return id() + fmt::format(": component {} selected with weight {}, its probability is {}", s.comp, s.weight, pc[s.comp]); });
            if (u2 < .5) cnt[s.comp]++;
        }
        for (int k = 0; k < c.ncomp; k++) ctx.checkf(std::abs(cnt[k] / double(NU) - pc[k]) <= 1.5 / NU + 1e-9, "comp-freq", [&] { return id() + fmt::format(": component {} is selected by {} of the random numbers, its probability is {}", k, cnt[k] / double(NU), pc[k]); });
        const Vec3 refl = m->reflectance(g); ctx.check(nonneg(refl), "reflectance", id() + ": reflectance " + S(refl));
        for (int k = 0; k < c.ncomp; k++) {
            const bool spec = m->is_specular_component(k);
            for (auto td : {TD::EL, TD::LE}) {
                const bool sel = pc[k] > 0;
                for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int b = 0; b < (c.branch ? 8 : 2); b++) {
                    if (spec && (i || j || b)) continue;
                    if (!sel) continue;
                    const Vec2 ud((i + .37) / N, (j + .61) / N), udc(b ? (b + .5) / (c.branch ? 8 : 2) : 0, .3);
                    auto s = m->sample_direction({ud, udc}, g, wi, k, td); ctx.extra_transitions++;
                    if (!s) { ctx.check(!spec, "spec-none", id() + ": a specular component was not sampled"); continue; }
                    ctx.checkf(near(glm::length(s->wo), 1, 1e-6), "unit", [&] { return id() + ": sampled direction " + S(s->wo) + " is not of unit length"; });
                    ctx.checkf(nonneg(s->weight), "weight-range", [&] { return id() + fmt::format(" comp {} u=({},{}) udc={}: weight {}", k, ud.x, ud.y, udc.x, S(s->weight)); });
                    const double p = m->pdf_direction(g, wi, s->wo, k, false); const Vec3 f = m->eval(g, wi, s->wo, k, td, false);
                    ctx.checkf(std::isfinite(p) && p > 0, "positive", [&] { return id() + fmt::format(" comp {} u=({},{}) udc={}: density {} of a sampled direction {}", k, ud.x, ud.y, udc.x, p, S(s->wo)); });
                    ctx.checkf(near(s->weight * p, f, 1e-7) && near(s->weight, f / p, 1e-6), "f-over-p", [&] { return id() + fmt::format(" comp {} u=({},{}) udc={}: weight {} but f = {}, p = {}", k, ud.x, ud.y, udc.x, S(s->weight), S(f), p); });
                    const double pd = m->pdf_direction(g, wi, s->wo, k, true); const Vec3 fd = m->eval(g, wi, s->wo, k, td, true);
                    if (spec) ctx.checkf(pd == 0 && fd == Vec3(0), "delta", [&] { return id() + fmt::format(" comp {}: a delta component has value {} and density {} when its delta function is evaluated", k, S(fd), pd); });
                    else ctx.checkf(pd == p && fd == f, "nondelta", [&] { return id() + fmt::format(" comp {}: a non-specular component depends on the delta flag", k); });
                }
                if (spec) continue;
                // every other direction: finite, non-negative, reciprocal, zero exactly together with the density
                for (auto& ol : dirs) {
                    const Vec3 wo = g.to_world * ol; const double p = m->pdf_direction(g, wi, wo, k, true); const Vec3 f = m->eval(g, wi, wo, k, td, true), q = m->eval(g, wo, wi, k, td, true); ctx.extra_transitions++;
                    ctx.checkf(std::isfinite(p) && p >= 0 && nonneg(f), "value", [&] { return id() + fmt::format(" comp {} wo_local={}: f = {}, p = {}", k, S(ol), S(f), p); });
                    ctx.checkf(near(f, q, 1e-7), "reciprocal", [&] { return id() + fmt::format(" comp {} wo_local={}: f(wi,wo) = {}, f(wo,wi) = {}", k, S(ol), S(f), S(q)); });
                    ctx.checkf(!sel || p > 0 || f == Vec3(0), "support", [&] { return id() + fmt::format(" comp {} wo_local={}: f = {} where nothing is sampled", k, S(ol), S(f)); });
                    if (ol.z * wl.z < 0) ctx.checkf(p == 0 && f == Vec3(0), "transmit", [&] { return id() + fmt::format(" comp {} wo_local={}: an opaque component transmits f = {}, p = {}", k, S(ol), S(f), p); });
                }
            }
        }
        ctx.state(id());
    });
}
// --- definitions from the documentation
void definitions(vp::Ctx& ctx) {
    init(1);
    ctx.bound("definitions: diffuse = rho/pi with the texture at the texel, mirror, mask and glass directions (reflection, Snell), Fresnel weights that conserve energy and are equal from both sides of a refraction, mixtures = weighted sum of their entries, alpha = texture alpha, proxies = what they refer to");
    const auto cfgs = load_all(ctx.scratch); const auto dirs = local_dirs();
    ctx.explore([&](vp::Chooser& ch) {
        const int n = ch.choose(NORMALS.size()), t = ch.choose(4); const Vec3 wl = dirs[ch.choose(dirs.size())], ol = dirs[ch.choose(dirs.size())];
        const auto g = geom(n, t, false); const Vec3 wi = g.to_world * wl, wo = g.to_world * ol; const bool same = wl.z * ol.z > 0;
        auto M = [&](const std::string& s) { return comp::get<Material>("$.assets." + s); };
        auto* tc = comp::get<Texture>("$.assets.tc"); auto* ta = comp::get<Texture>("$.assets.ta");
        ctx.trace(fmt::format("n={} texel {} wi {} wo {}", S(g.n), t, S(wl), S(ol)));
        auto is = [&](const std::string& what, Vec3 a, Vec3 b) { ctx.checkf(near(a, b, 1e-9), what, [&] { return what + fmt::format(": {} expected {}", S(a), S(b)); }); };
        for (auto td : {TD::EL, TD::LE}) for (bool ed : {false, true}) {
            is("diffuse", M("d")->eval(g, wi, wo, 0, td, ed), same ? Vec3(.8, .4, .1) / Pi : Vec3(0));
            is("diffuse default", M("d1")->eval(g, wi, wo, 0, td, ed), same ? Vec3(1 / Pi) : Vec3(0));
            is("diffuse textured", M("dt")->eval(g, wi, wo, 0, td, ed), same ? tc->eval(g.t) / Pi : Vec3(0));
            for (auto& pr : std::vector<std::pair<std::string, std::string>>{{"pd", "d"}, {"pga", "ga"}, {"pm", "m"}, {"pw15", "w15"}}) for (int k = 0; k < (pr.second == "w15" ? 2 : 1); k++) { is("proxy eval", M(pr.first)->eval(g, wi, wo, k, td, ed), M(pr.second)->eval(g, wi, wo, k, td, ed)); is("proxy pdf", Vec3(M(pr.first)->pdf_direction(g, wi, wo, k, ed)), Vec3(M(pr.second)->pdf_direction(g, wi, wo, k, ed))); is("proxy comp", Vec3(M(pr.first)->pdf_component(k, g, wi)), Vec3(M(pr.second)->pdf_component(k, g, wi)));
                is("proxy spec", Vec3(M(pr.first)->is_specular_component(k)), Vec3(M(pr.second)->is_specular_component(k))); is("proxy refl", M(pr.first)->reflectance(g), M(pr.second)->reflectance(g)); }
            // mixtures: the weighted sum of the entries
            for (auto& c : cfgs) if (!c.mix.empty()) {
                Vec3 got(0), want(0), rw(0);
                for (int k = 0; k < c.ncomp; k++) if (!M(c.name)->is_specular_component(k)) got += M(c.name)->eval(g, wi, wo, k, td, ed);
                for (auto& e : c.mix) { rw += e.second * M(e.first)->reflectance(g); if (!M(e.first)->is_specular_component(0)) want += e.second * M(e.first)->eval(g, wi, wo, 0, td, ed); }
                is("mixture eval " + c.name, got, want); is("mixture reflectance " + c.name, M(c.name)->reflectance(g), rw);
                // specular entries: total weight (selection included) of each reflected / transmitted direction
                if (!ed) { Vec3 a(0), b(0); for (int k = 0; k < c.ncomp; k++) if (M(c.name)->is_specular_component(k) && M(c.name)->pdf_component(k, g, wi) > 0) { auto s = M(c.name)->sample_direction({Vec2(.3), Vec2(.3)}, g, wi, k, td); ctx.check(!!s, "mixture spec", "specular entry not sampled"); (glm::dot(s->wo + wi, wi) < .01 && glm::length(s->wo + wi) < 1e-6 ? a : b) += s->weight; }
                    Vec3 wa(0), wb(0); for (auto& e : c.mix) { if (e.first == "k") wa += Vec3(e.second); if (e.first == "m") wb += Vec3(e.second); }
                    is("mixture mask weight " + c.name, a, wa); is("mixture mirror weight " + c.name, b, wb); }
            }
            // OBJ mixture
            for (int i = 0; i < 4; i++) { const std::string o = "o" + std::to_string(i); auto* gl = dynamic_cast<Material*>(M(o)->underlying("glossy")); auto* di = dynamic_cast<Material*>(M(o)->underlying("diffuse"));
                const double al = i == 1 ? ta->eval_alpha(g.t) : 1; is("obj alpha", Vec3(M(o)->pdf_component(0, g, wi)), Vec3(al)); is("obj eval", M(o)->eval(g, wi, wo, 0, td, ed), al * (di->eval(g, wi, wo, 0, td, ed) + gl->eval(g, wi, wo, 0, td, ed)));
                is("obj Kd", di->reflectance(g), i == 1 || i == 2 ? ta->eval(g.t) : i == 3 ? Vec3(0) : Vec3(.6, .3, .2)); is("obj Ks", gl->reflectance(g), i == 3 ? Vec3(0) : Vec3(.2, .5, .3));
                ctx.check(M(o)->is_specular_component(1) && !M(o)->is_specular_component(0), "obj spec", "components of the OBJ mixture are misreported");
                if (i == 1 && al < 1) { auto s = M(o)->sample_direction({Vec2(.3), Vec2(.3)}, g, wi, 1, td); ctx.check(s && near(s->wo, -wi, 1e-9), "obj mask", "the alpha mask does not pass straight through"); is("obj mask weight", s->weight / M(o)->pdf_component(1, g, wi), Vec3(1)); } }
            // deltas
            auto s = M("m")->sample_direction({Vec2(.3), Vec2(.3)}, g, wi, 0, td); ctx.check(s && near(s->wo, 2. * glm::dot(wi, g.n) * g.n - wi, 1e-9), "mirror direction", "mirror direction is wrong"); is("mirror weight", s->weight, Vec3(1));
            s = M("k")->sample_direction({Vec2(.3), Vec2(.3)}, g, wi, 0, td); ctx.check(s && near(s->wo, -wi, 1e-9), "mask direction", "mask direction is wrong"); is("mask weight", s->weight, Vec3(1));
            for (auto& w : std::vector<std::pair<std::string, double>>{{"w15", 1.5}, {"w07", .7}, {"w1", 1}, {"w24", 2.4}}) {
                auto* G = M(w.first); const double eta = wl.z > 0 ? 1 / w.second : w.second, sin2 = (1 - wl.z * wl.z) * eta * eta; const Vec3 N = wl.z > 0 ? g.n : -g.n; const double c = std::abs(wl.z);
                const double F = G->pdf_component(0, g, wi);
                if (sin2 > 1 + 1e-9) { is("total reflection", Vec3(F), Vec3(1)); is("total reflection F", G->eval(g, wi, wo, 0, td, false), Vec3(1)); }
                const double R0 = math::sq((1 - w.second) / (1 + w.second));
                if (c == 1) is("normal incidence", Vec3(F), Vec3(R0));
                ctx.check(F >= R0 - 1e-9 && F <= 1 + 1e-9, "Fresnel range", "Fresnel term leaves [R0, 1]");
                auto r = G->sample_direction({Vec2(.3), Vec2(.3)}, g, wi, 0, td); ctx.check(r && near(r->wo, 2. * glm::dot(wi, g.n) * g.n - wi, 1e-9), "glass reflection", "reflected direction is wrong"); is("glass reflection weight", r->weight, Vec3(F));
                if (sin2 < 1 - 1e-9 && F < 1) {
                    auto q = G->sample_direction({Vec2(.3), Vec2(.3)}, g, wi, 1, td); const Vec3 wt = -eta * (wi - c * N) - std::sqrt(1 - sin2) * N;
                    ctx.checkf(q && near(q->wo, wt, 1e-9), "glass refraction", [&] { return "refracted direction " + S(q->wo) + " expected " + S(wt); });
                    is("glass refraction weight", q->weight, (1 - F) * (td == TD::EL ? Vec3(eta * eta) : Vec3(1)));      // radiance is compressed, importance is not
                    is("Fresnel symmetric", Vec3(G->pdf_component(0, g, wt)), Vec3(F));
                }
            }
            // specular directions follow the shading normal, whatever the geometric normal
            const auto gt = geom(n, t, true); auto st = M("m")->sample_direction({Vec2(.3), Vec2(.3)}, gt, wi, 0, td); ctx.check(st && near(st->wo, 2. * glm::dot(wi, g.n) * g.n - wi, 1e-9), "mirror direction (interpolated normal)", "mirror direction is wrong");
            for (auto& w : std::vector<std::pair<std::string, double>>{{"w15", 1.5}, {"w07", .7}}) {
                auto* G = M(w.first); const double eta = wl.z > 0 ? 1 / w.second : w.second, sin2 = (1 - wl.z * wl.z) * eta * eta, c = std::abs(wl.z); const Vec3 N = wl.z > 0 ? g.n : -g.n;
                auto r = G->sample_direction({Vec2(.3), Vec2(.3)}, gt, wi, 0, td); ctx.check(r && near(r->wo, 2. * glm::dot(wi, g.n) * g.n - wi, 1e-9), "glass reflection (interpolated normal)", "reflected direction is wrong");
                if (sin2 < 1 - 1e-9) { auto q = G->sample_direction({Vec2(.3), Vec2(.3)}, gt, wi, 1, td); ctx.check(q && near(q->wo, -eta * (wi - c * N) - std::sqrt(1 - sin2) * N, 1e-9), "glass refraction (interpolated normal)", "refracted direction is wrong"); }
            }
        }
        ctx.state(fmt::format("{}{}{}{}", n, t, S(wl), S(ol)));
    });
}
// --- the density is normalised and is the density of the samples: moments, histogram and local Jacobian
void density(vp::Ctx& ctx, int part) {
    init(1);
    ctx.bound("density: all non-specular components of 33 configurations x 2 normals x 13 incident directions: total, first and second moments and a 6x4 histogram of 128x128 (40x40x64 with a selection number) random numbers against the reported density integrated over a 160x320 grid of directions; the Jacobian of the map from random numbers to directions at 12x12 points");
    const auto cfgs = load_all(ctx.scratch);
    std::vector<Vec3> wls; for (double c : {.999, .9, .6, .3, .1}) for (double ph : {.4, 2.}) { const double q = std::sqrt(1 - c * c); wls.push_back(Vec3(q * std::cos(ph), q * std::sin(ph), c)); } wls.push_back(Vec3(0, 0, 1)); wls.push_back(Vec3(.6, 0, -.8)); wls.push_back(Vec3(-.3, .4, -std::sqrt(.75)));
    ctx.explore([&](vp::Chooser& ch) {
        const auto& c = cfgs[ch.choose(cfgs.size())]; const int n = ch.choose(2) * 4; const Vec3 wl = wls[ch.choose(wls.size())];
        if ((&c - &cfgs[0]) % 8 != part) return;
        auto* m = comp::get<Material>("$.assets." + c.name); const auto g = geom(n, 2, false); const Vec3 wi = g.to_world * wl;
        for (int k = 0; k < c.ncomp; k++) {
            if (m->is_specular_component(k) || m->pdf_component(k, g, wi) <= 0) continue;
            auto id = [&] { return fmt::format("{} ({}) comp {} n={} wi_local={}", c.name, m->key(), k, S(g.n), S(wl)); };
            ctx.trace(id());
            const double sgn = wl.z > 0 ? 1 : -1;
            auto cell = [&](Vec3 l) { const int a = std::min(3, int(std::abs(l.z) * 4)); double ph = std::atan2(l.y, l.x); if (ph < 0) ph += 2 * Pi; return std::min(5, int(ph / (2 * Pi) * 6)) * 4 + a; };
            // samples
            const int NB = c.branch ? 64 : 1, N = c.branch ? 40 : 128; double tot = 0; Vec3 s1(0); Mat3 s2(0.); std::vector<double> hist(24, 0); Vec3 alb(0);
            for (int b = 0; b < NB; b++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
                auto s = m->sample_direction({Vec2((i + .5) / N, (j + .5) / N), Vec2((b + .5) / NB, .5)}, g, wi, k, TD::EL); ctx.extra_transitions++;
                if (!s) continue; const Vec3 l = g.to_local * s->wo; const double w = 1. / (double(N) * N * NB);
                tot += w; s1 += w * l; s2 += w * glm::outerProduct(l, l); hist[cell(l)] += w; alb += w * s->weight;
            }
            if (c.rough >= .25) {
                double q = 0; Vec3 m1(0); Mat3 m2(0.); std::vector<double> hq(24, 0); Vec3 aq(0);
                const int A = 160, B = 320;
                for (int i = 0; i < A; i++) for (int j = 0; j < B; j++) {
                    const double x = (i + .5) / A, z = sgn * x * x, dz = 2 * x / A, ph = (j + .5) / B * 2 * Pi, r = std::sqrt(std::max(0., 1 - z * z)); const Vec3 l(r * std::cos(ph), r * std::sin(ph), z); const Vec3 wo = g.to_world * l;      // finer near the horizon
                    const double w = m->pdf_direction(g, wi, wo, k, false) * std::abs(z) * dz * 2 * Pi / B; ctx.extra_transitions++;
                    q += w; m1 += w * l; m2 += w * glm::outerProduct(l, l); hq[cell(l)] += w; if (w > 0) aq += m->eval(g, wi, wo, k, TD::EL, false) * std::abs(z) * dz * 2. * Pi / double(B);
                }
                const double e = c.branch ? 1e-2 : 4e-3;
                const double eb = c.branch ? 1 / 100. : 0;        // a selection probability between two of the 64 steps is off by at most 1/128
                ctx.checkf(q <= 1 + 6e-3, "norm", [&] { return id() + fmt::format(": density integrates to {}", q); });
                ctx.checkf(std::abs(q - tot) <= e + eb, "total", [&] { return id() + fmt::format(": {} of the random numbers give a direction, the density integrates to {}", tot, q); });
                for (int i = 0; i < 3; i++) ctx.checkf(std::abs(s1[i] - m1[i]) <= e + eb, "moment1", [&] { return id() + fmt::format(": mean direction {} but the density has {}", S(s1), S(m1)); });
                for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ctx.checkf(std::abs(s2[i][j] - m2[i][j]) <= e + eb, "moment2", [&] { return id() + fmt::format(": second moment ({},{}) {} but the density has {}", i, j, s2[i][j], m2[i][j]); });
                for (int i = 0; i < 24; i++) ctx.checkf(std::abs(hist[i] - hq[i]) <= 2.5 / N + eb, "histogram", [&] { return id() + fmt::format(": cell {} receives {} of the random numbers, the density integrates to {}", i, hist[i], hq[i]); });
                for (int i = 0; i < 3; i++) ctx.checkf(std::abs(alb[i] - aq[i]) <= (e + eb) * std::max(1., aq[i]), "albedo", [&] { return id() + fmt::format(": sampled albedo {} but the BSDF integrates to {}", S(alb), S(aq)); });
            }
            // local density of an unbranched map: p |cos| |d wo / d u| = 1
            if (!c.branch) for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) {
                const Vec2 u((i + .43) / 12, (j + .57) / 12); const double h = 1e-6; auto at = [&](double a, double b) { return m->sample_direction({u + Vec2(a, b), Vec2(.5)}, g, wi, k, TD::EL); };
                auto s = at(0, 0), a = at(h, 0), b = at(-h, 0), p = at(0, h), q = at(0, -h); if (!s || !a || !b || !p || !q) continue;
                const double J = glm::length(glm::cross((a->wo - b->wo) / (2 * h), (p->wo - q->wo) / (2 * h))), d = m->pdf_direction(g, wi, s->wo, k, false) * std::abs(glm::dot(s->wo, g.n)) * J;
                if (!(J > 1e-12)) continue;
                ctx.checkf(std::abs(d - 1) < 2e-3, "jacobian", [&] { return id() + fmt::format(" u=({},{}): density of the sampled direction times area per random number is {}", u.x, u.y, d); });
            }
            ctx.state(id());
        }
    });
}
struct Init { Init() {
    for (int i = 0; i < 4; i++) vp::scenarios().push_back({"pointwise_" + std::to_string(i), [i](vp::Ctx& c) { pointwise(c, i); }, 0});
    vp::scenarios().push_back({"definitions", definitions, 0});
    for (int i = 0; i < 8; i++) vp::scenarios().push_back({"density_" + std::to_string(i), [i](vp::Ctx& c) { density(c, i); }, 0});
} } init_;
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
