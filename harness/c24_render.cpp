// C24: renderers compute the same image, bounded by their configured path lengths.
#include "harness/rscenes.h"
#include "harness/lattice.h"
#include <lm/bidir.h>
#include <lm/renderer.h>
#include <lm/scheduler.h>
#include <lm/medium.h>
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace lm;
using namespace H;
namespace {
bool zero(Vec3 v) { return v == Vec3(0); }
std::string S(Vec3 v) { return v3(v); }
#define CK(cond, kind, ...) ctx.checkf(cond, kind, [&] { return id() + ": " + fmt::format(__VA_ARGS__); })
// ------------------------------------------------------------------ a scheduler that enumerates random number sequences
struct Ctl { uint64_t base = 0; long long n = 0; std::function<void(const scheduler::Scheduler::ProcessFunc&, long long npix)> run; long long ret = -1; bool lattice = true; } ctl;
class Sched_VP : public scheduler::Scheduler {
public:
    Film* film_ = nullptr;
    virtual void construct(const Json& prop) override { film_ = json::comp_ref<Film>(prop, "output"); }
    virtual bool pixel() const = 0;
    virtual long long run(const ProcessFunc& process) const override {
        const long long np = pixel() ? film_->num_pixels() : 1;
        if (ctl.run) { ctl.run(process, np); return ctl.n; }
        for (long long p = 0; p < np; p++) for (long long k = 0; k < ctl.n; k++) { if (ctl.lattice) Lattice::at(ctl.base + k); process(pixel() ? p : 0, k, 0); }
        Lattice::off(); return ctl.n;
    }
};
class Sched_SPP final : public Sched_VP { virtual bool pixel() const override { return true; } };
class Sched_SPI final : public Sched_VP { virtual bool pixel() const override { return false; } };
LM_COMP_REG_IMPL(Sched_SPP, "scheduler::spp::vp");
LM_COMP_REG_IMPL(Sched_SPI, "scheduler::spi::vp");
// ------------------------------------------------------------------ images as batches
const int B = 24;
struct Img {
    int np; std::vector<std::vector<Vec3>> b;           // batch -> pixel
    Img(int np = 0) : np(np), b(B, std::vector<Vec3>(np, Vec3(0))) {}
    Vec3 mean(int p) const { Vec3 m(0); for (auto& x : b) m += x[p]; return m / double(B); }
    Vec3 se(int p) const { const Vec3 m = mean(p); Vec3 v(0); for (auto& x : b) v += (x[p] - m) * (x[p] - m); return glm::sqrt(v / double(B - 1) / double(B)); }
    void add(const Img& o) { for (int i = 0; i < B; i++) for (int p = 0; p < np; p++) b[i][p] += o.b[i][p]; }
};
Img total(const Img& a) { Img r(1); for (int i = 0; i < B; i++) for (auto& v : a.b[i]) r.b[i][0] += v; return r; }
struct Cmp { double z = 0, rel = 0; int p = -1; };
double zmax_seen = 0;
Cmp compare(const Img& a, const Img& b, double scale) {
    Cmp r; for (int p = 0; p < a.np; p++) { const Vec3 ma = a.mean(p), mb = b.mean(p), sa = a.se(p), sb = b.se(p); for (int c = 0; c < 3; c++) { const double d = std::abs(ma[c] - mb[c]); if (!(d == d)) { r.z = 1e9; r.p = p; return r; } const double z = d / (sa[c] + sb[c] + 1e-6 * scale); if (z > r.z) { r.z = z; r.p = p; } r.rel = std::max(r.rel, (sa[c] + sb[c]) / std::max(1e-9, mb[c])); } } return r;
}
const double ZMAX = 6;
struct Fix { int W = 3, Hh = 2; Film* film; };
std::vector<Vec3> pixels(Film* f) { auto b = f->buffer(); std::vector<Vec3> r; for (int i = 0; i < b.w * b.h; i++) r.push_back(Vec3(b.data[3 * i], b.data[3 * i + 1], b.data[3 * i + 2])); return r; }
void dirty(Film* f) { for (int y = 0; y < f->size().h; y++) for (int x = 0; x < f->size().w; x++) f->set_pixel(x, y, Vec3(1e6 + x, 1e7 + y, -3)); }
struct RK { std::string name, key; Json p; bool pixel; };
Renderer* make(const RK& k, int mn, int mx) { Json p = {{"scene", "$.assets.sc"}, {"output", "$.assets.film"}, {"scheduler", "vp"}, {"max_verts", mx}, {"min_verts", mn}}; p.update(k.p); auto* r = dynamic_cast<Renderer*>(lm::assets()->load_asset("r", k.key, p)); if (!r) throw std::runtime_error("cannot create " + k.key); return r; }
Img render(vp::Ctx& ctx, const std::function<std::string()>& id, const RK& k, int mn, int mx, Film* film, int n) {
    auto* r = make(k, mn, mx); const int np = film->num_pixels(); Img im(np);
    for (int b = 0; b < B; b++) {
        ctl.n = k.pixel ? std::max(1, n / np) : n; ctl.base = 0; Lattice::shift = 1001 + b; dirty(film); const Json res = r->render(); ctx.extra_transitions += k.pixel ? ctl.n * np : ctl.n;
        CK(res.contains("processed") && res["processed"].get<long long>() == ctl.n, "processed", "{} reports {} samples processed, the scheduler processed {}", k.name, res.dump(), ctl.n); CK(res.contains("elapsed") && res["elapsed"].is_number(), "elapsed", "{} reports {}", k.name, res.dump());
        im.b[b] = pixels(film); for (auto& v : im.b[b]) CK(std::isfinite(v.x + v.y + v.z) && v.x >= 0 && v.y >= 0 && v.z >= 0, "range", "{} (vertices {}-{}) produced pixel {}", k.name, mn, mx, S(v));
    }
    return im;
}
int px(const Film* f, Vec2 rp) { const auto s = f->size(); return std::min(s.w - 1, int(rp.x * s.w)) + s.w * std::min(s.h - 1, int(rp.y * s.h)); }
// ------------------------------------------------------------------ references
const int MX = 5;
struct RefImgs { std::vector<Img> hit, nee, all, neep, lt; };
// walks over surfaces with the functions of lm::path (decided by C11, C12), no roulette
void ref_walk(const Scene* sc, Film* film, int n, int mx, std::vector<Img>& hit, std::vector<Img>& nee) {
    const int np = film->num_pixels(); hit.assign(mx + 1, Img(np)); nee.assign(mx + 1, Img(np));
    for (int b = 0; b < B; b++) for (int k = 0; k < n; k++) {
        Lattice::shift = 2001 + b; Lattice::at(k); Rng rng(1); auto s = path::sample_primary_ray(rng, sc, TransDir::EL); if (!s) continue; auto rp = path::raster_position(sc, s->wo); if (!rp) continue; const int p = px(film, *rp); const double w = double(np) / n;
        Vec3 th = s->weight; Ray ray = s->ray(); bool spec = true;
        for (int v = 2; v <= mx; v++) {
            auto h = sc->intersect(ray); if (!h) break;
            if (sc->is_light(*h)) { const Vec3 C = th * path::eval_contrb_direction(sc, h->as_type(SceneInteraction::LightEndpoint), {}, -ray.d, 0, TransDir::LE, true) * w; hit[v].b[b][p] += C; if (spec) nee[v].b[b][p] += C; }
            if (h->geom.infinite || v == mx) break;
            const Vec3 wi = -ray.d; auto c = path::sample_component(rng, sc, *h, wi); th *= c.weight; spec = path::is_specular_component(sc, *h, c.comp);
            if (!spec) { auto sl = path::sample_direct(rng, sc, *h, TransDir::LE); if (sl && sc->visible(*h, sl->sp)) nee[v + 1].b[b][p] += th * path::eval_contrb_direction(sc, *h, wi, -sl->wo, c.comp, TransDir::EL, true) * sl->weight * w; }
            auto d = path::sample_direction(rng, sc, *h, wi, c.comp, TransDir::EL); if (!d) break; th *= d->weight; ray = {h->geom.p, d->wo};
        }
    }
    Lattice::off();
}
void ref_bidir(const Scene* sc, Film* film, int n, int mx, RefImgs& R) {
    const int np = film->num_pixels(); R.all.assign(mx + 1, Img(np)); R.neep = R.lt = R.all;
    for (int b = 0; b < B; b++) for (int k = 0; k < n; k++) {
        Lattice::shift = 3001 + b; Lattice::at(k); Rng rng(1); auto E = path::sample_subpath(rng, sc, mx, TransDir::EL), L = path::sample_subpath(rng, sc, mx, TransDir::LE); const double w0 = double(np) / n;
        for (int s = 0; s <= L.num_verts(); s++) for (int t = 0; t <= E.num_verts(); t++) {
            const int v = s + t; if (v < 2 || v > mx) continue; auto p = path::connect_subpaths(sc, L, E, s, t); if (!p) continue; const Vec3 C = p->eval_sampling_weight_bidir(sc, s); if (zero(C)) continue; const Vec3 c = C * p->eval_mis_weight(sc, s) * w0; const int q = px(film, p->raster_position(sc));
            R.all[v].b[b][q] += c; if (p->is_samplable_bidir(sc, v - 1)) R.lt[v].b[b][q] += c;
            const auto& v1 = p->vs[1]; if (path::is_specular_component(sc, v1.sp, v1.comp) ? p->is_samplable_bidir(sc, 0) : p->is_samplable_bidir(sc, 1)) R.neep[v].b[b][q] += c;
        }
    }
    Lattice::off();
}
Img sum(const std::vector<Img>& v, int a, int b) { Img r(v[2].np); for (int i = a; i <= b && i < (int)v.size(); i++) r.add(v[i]); return r; }
std::vector<RK> kinds() {
    std::vector<RK> r; for (auto m : {"naive", "nee", "mis"}) for (auto i : {"pixel", "image"}) r.push_back({std::string("pt ") + m + " " + i, "renderer::pt", {{"sampling_mode", m}, {"primary_ray_sampling_mode", i}}, std::string(i) == "pixel"});
    r.push_back({"pt default", "renderer::pt", Json::object(), true});
    for (auto n : {"lt", "pt_naive_path", "pt_nee_path", "lt_nee_path", "bdpt", "bdptopt"}) r.push_back({n, std::string("renderer::") + n, Json::object(), false});
    for (auto n : {"volpt_naive", "volpt"}) r.push_back({n, std::string("renderer::") + n, Json::object(), true});
    return r;
}
bool ranged(const RK& k) { return k.key.find("_path") != std::string::npos || k.key.find("bdpt") != std::string::npos; }
void verdict(vp::Ctx& ctx, const std::function<std::string()>& id, const std::string& what, const Img& a, const Img& b) {
    double sc = 0; for (int p = 0; p < b.np; p++) sc = std::max(sc, glm::compMax(b.mean(p))); 
    for (int tot = 0; tot < 2; tot++) { const Img x = tot ? total(a) : a, y = tot ? total(b) : b; auto c = compare(x, y, sc); if (getenv("VP_SHOW")) fprintf(stderr, "%6.2f %6.4f %s: %s%s\n", c.z, c.rel, id().c_str(), what.c_str(), tot ? " (total)" : "");
        CK(c.z < ZMAX, "image", "{}{}: pixel {} is {} (standard error {}), expected {} ({})", what, tot ? ", sum of all pixels" : "", c.p, S(x.mean(c.p)), S(x.se(c.p)), S(y.mean(c.p)), S(y.se(c.p))); }
}
void film_of(int w, int h) { lm::assets()->load_asset("film", "film::bitmap", {{"w", w}, {"h", h}}); }
Film* the_film() { return comp::get<Film>("$.assets.film"); }
// ------------------------------------------------------------------ surfaces
void surfaces(vp::Ctx& ctx, int part, int parts) {
    init(1); const int n = ctx.thorough ? 30000 : 3000, nr = ctx.thorough ? 60000 : 6000;
    ctx.bound(fmt::format("surfaces: 18 scenes (every light and material class) x 15 renderer configurations (pt naive/nee/mis per pixel or per image, lt, path-based, bidirectional, volumetric in vacuum) x path length ranges, film 3x2, 24 x {} random number sequences of a lattice per image; expected images from 24 x {} walks and bidirectional paths over the functions decided by C11-C13", n, nr));
    load_rassets(ctx.scratch, 1.5); film_of(3, 2); auto R = rscenes(); const auto K = kinds(); int last = -1; RefImgs ref; Scene* sc = nullptr;
    ctx.explore([&](vp::Chooser& ch) {
        const int i = parts * ch.choose(R.size() / parts) + part; const auto& r = R[i]; auto* film = the_film(); std::string cur; auto id = [&] { return r.name; };
        if (i != last) { sc = build_rscene(r); ref_walk(sc, film, nr, MX, ref.hit, ref.nee); ref_bidir(sc, film, nr, MX, ref); last = i; }
        const auto& k = K[ch.choose(K.size())]; std::vector<std::pair<int, int>> rg = {{2, 4}}; if (ctx.thorough || i == 0 || i == 3 || i == 8 || i == 10 || i == 13 || i == 14) { rg.push_back({2, 2}); rg.push_back({2, 5}); if (ranged(k)) { rg.push_back({3, 3}); rg.push_back({4, 4}); rg.push_back({3, 4}); } else rg.push_back({2, 3}); }
        ctx.trace(r.name + ", " + k.name);
        for (auto [mn, mx] : rg) {
            const bool env = r.has("c") || r.has("e") || r.has("d"); Img want;
            if (k.name == "pt naive pixel" || k.name == "pt naive image" || k.name == "pt_naive_path" || k.name == "volpt_naive") want = sum(ref.hit, mn, mx);
            else if (k.name == "pt nee image" || k.name == "pt mis image") { want = sum(ref.nee, 3, mx); want.add(ref.all[2]); }
            else if (k.key == "renderer::pt" || k.key == "renderer::volpt") want = sum(ref.nee, mn, mx);
            else if (k.name == "lt") want = sum(ref.lt, 3, mx);
            else if (k.name == "lt_nee_path") want = sum(ref.lt, mn, mx);
            else if (k.name == "pt_nee_path") want = sum(ref.neep, mn, mx);
            else want = sum(ref.all, mn, mx);
            (void)env; const Img got = render(ctx, id, k, mn, mx, film, n); verdict(ctx, id, fmt::format("{} with {}-{} vertices", k.name, mn, mx), got, want);
        }
        // the references agree with each other where every technique reaches every path
        if (k.name == "bdpt" && r.wall != "m" && !r.refr && r.object != "wm" && r.floor != "rr") for (int v = 3; v <= 4; v++) verdict(ctx, id, fmt::format("bidirectional paths of {} vertices against walks", v), ref.all[v], ref.nee[v]);
        ctx.state(r.name + k.name);
    });
}

// ------------------------------------------------------------------ furnace: known values, Russian roulette
void furnace(vp::Ctx& ctx) {
    init(1); const int n = ctx.thorough ? 20000 : 2500;
    ctx.bound(fmt::format("furnace: closed box of reflectance (.8,.5,.2) emitting 1 everywhere, known radiance; path lengths 2-4, 3-7 and 2-10 (roulette), every renderer, 24 x {} random number sequences", n));
    auto* a = lm::assets(); film_of(2, 2); const Vec3 rho(.8, .5, .2); auto L = [](const std::string& x) { return "$.assets." + x; };
    a->load_asset("cam", "camera::pinhole", {{"position", Vec3(.1, .2, .3)}, {"center", Vec3(-.3, -.1, -1)}, {"up", Vec3(0, 1, 0)}, {"vfov", 60.}, {"aspect", 1.}}); a->load_asset("m", "material::diffuse", {{"Kd", rho}});
    a->load_asset("ac", "accel::sahbvh", {}); auto* sc = dynamic_cast<Scene*>(a->load_asset("sc", "scene::default", {{"accel", L("ac")}})); sc->add_primitive({{"camera", L("cam")}});
    const double r = 1.5; for (int ax = 0; ax < 3; ax++) for (int sg = -1; sg <= 1; sg += 2) { auto P = [&](double u, double v) { Vec3 p; p[ax] = sg * r; p[(ax + 1) % 3] = u * r; p[(ax + 2) % 3] = v * r * sg; return p; }; const std::string k = std::to_string(ax) + (sg > 0 ? "p" : "m"); auto q = quad(P(-1, 1), P(1, 1), P(1, -1), P(-1, -1)); const Vec3 nn = glm::cross(q[0].b - q[0].a, q[0].c - q[0].a); if (glm::dot(nn, q[0].a) > 0) q = quad(P(-1, -1), P(1, -1), P(1, 1), P(-1, 1)); a->load_asset("q" + k, "mesh::raw", mesh_prop(q)); a->load_asset("l" + k, "light::area", {{"Ke", Vec3(1)}, {"mesh", L("q" + k)}}); sc->add_primitive({{"mesh", L("q" + k)}, {"material", L("m")}, {"light", L("l" + k)}}); }
    sc->build(); auto K = kinds();
    ctx.explore([&](vp::Chooser& ch) {
        const auto& k = K[ch.choose(K.size())]; auto id = [&] { return std::string("furnace"); }; ctx.trace("furnace, " + k.name); auto* film = the_film(); const double av = [&] { auto s = path::sample_primary_ray({Vec2(.5), Vec2(.5), Vec2(.5), Vec2(.5)}, sc, TransDir::EL); return s->weight.x; }();
        for (auto [mn, mx] : std::vector<std::pair<int, int>>{{2, 4}, {3, 7}, {2, 10}}) {
            if (mn > 2 && !ranged(k)) mn = 2; if ((k.key == "renderer::bdpt" || k.key == "renderer::lt_nee_path") && mx == 10 && !ctx.thorough) mx = 7;
            const Img got = render(ctx, id, k, mn, mx, film, k.key == "renderer::bdpt" ? n / 2 : n); Vec3 w(0), pw(1); for (int v = 2; v <= mx; v++) { if (v >= mn && !(k.name == "lt" && v == 2)) w += pw; pw *= rho; } w *= av;
            double se = 0; for (int q = 0; q < got.np; q++) for (int c = 0; c < 3; c++) { const double d = std::abs(got.mean(q)[c] - w[c]), e = got.se(q)[c]; se = std::max(se, e / w[c]); if (getenv("VP_SHOW")) fprintf(stderr, "%6.2f %6.4f furnace %s %d-%d\n", d / (e + 1e-9), d / w[c], k.name.c_str(), mn, mx); CK(d <= 6 * e + (k.name.find("naive") == std::string::npos ? .03 : 3e-3) * w[c], "furnace", "{} with {}-{} vertices: pixel {} is {} (standard error {}), expected {}", k.name, mn, mx, q, S(got.mean(q)), S(got.se(q)), S(w)); }
            CK(se < .25, "furnace-noise", "{} with {}-{} vertices: relative standard error {}", k.name, mn, mx, se);
        }
        ctx.state(k.name);
    });
}
// ------------------------------------------------------------------ participating media
struct Slab { Vec3 lo, hi; bool sphere = false; Vec3 c; double r = 0; 
    bool span(Vec3 o, Vec3 d, double& a, double& b) const { if (sphere) { const double B2 = glm::dot(o - c, d), C = glm::dot(o - c, o - c) - r * r, D = B2 * B2 - C; if (D <= 0) return false; a = std::max(a, -B2 - std::sqrt(D)); b = std::min(b, -B2 + std::sqrt(D)); return a < b; }
        for (int k = 0; k < 3; k++) { double t0 = (lo[k] - o[k]) / d[k], t1 = (hi[k] - o[k]) / d[k]; if (t0 > t1) std::swap(t0, t1); a = std::max(a, t0); b = std::min(b, t1); } return a < b; } };
void media(vp::Ctx& ctx, int part) {
    init(1); const int n = ctx.thorough ? 40000 : 5000, nr = ctx.thorough ? 80000 : 10000;
    ctx.bound(fmt::format("media: homogeneous (box) and heterogeneous (sphere) media of phase functions HG and isotropic x area, point, constant environment, directional light: volpt and volpt_naive against transmittance and single scattering computed independently (2-3 vertices), against each other (2-4, 2-9 vertices), 24 x {} random number sequences", n));
    load_rassets(ctx.scratch, 1.5); film_of(3, 2); auto* a = lm::assets(); const double den = .35; const Vec3 alb(.9, .6, .3); auto Lc = [](const std::string& x) { return "$.assets." + x; };
    a->load_asset("ph0", "phase::isotropic", {}); a->load_asset("ph1", "phase::hg", {{"g", .4}});
    std::vector<Slab> G(2); G[0].lo = Vec3(-2, .2, -1.5); G[0].hi = Vec3(2, 3, 1.8); G[1].sphere = true; G[1].c = Vec3(0, 1.5, .5); G[1].r = 1.4;
    for (int p = 0; p < 2; p++) a->load_asset("mh" + std::to_string(p), "medium::homogeneous", {{"density", den}, {"albedo", alb}, {"phase", Lc("ph" + std::to_string(p))}, {"bound_min", G[0].lo}, {"bound_max", G[0].hi}});
    a->load_asset("vs", "volume::sphere", {{"scalar", den}, {"color", alb}, {"pos", G[1].c}, {"radius", G[1].r}}); a->load_asset("vc", "volume::constant", {{"color", alb}, {"bound_min", Vec3(-9)}, {"bound_max", Vec3(9)}});
    for (int p = 0; p < 2; p++) a->load_asset("ms" + std::to_string(p), "medium::heterogeneous", {{"volume_density", Lc("vs")}, {"volume_albedo", Lc("vc")}, {"phase", Lc("ph" + std::to_string(p))}});
    const std::vector<std::vector<std::string>> LS = {{"a"}, {"p"}, {"c"}, {"d"}, {"a", "c"}}; auto K = kinds(); RK naive, nee; for (auto& k : K) { if (k.name == "volpt") nee = k; if (k.name == "volpt_naive") naive = k; }
    ctx.explore([&](vp::Chooser& ch) {
        const auto& ls = LS[part]; const int g = ch.choose(2), p = ch.choose(2); RScene r{"", "d1", "m", "d3", ls}; std::string ln; for (auto& x : ls) ln += x; auto id = [&] { return fmt::format("{} medium, phase {}, lights {}", g ? "heterogeneous" : "homogeneous", p ? "HG" : "isotropic", ln); }; ctx.trace(id());
        auto* sc = build_rscene(r); sc->add_primitive({{"medium", Lc((g ? "ms" : "mh") + std::to_string(p))}}); sc->build(); auto* film = the_film(); const int np = film->num_pixels(); const auto& sl = G[g]; auto* phase = comp::get<Phase>(Lc("ph" + std::to_string(p))); const int mi = sc->medium_node();
        auto T = [&](Vec3 o, Vec3 d, double len) { double t0 = 0, t1 = len; return sl.span(o, d, t0, t1) ? std::exp(-den * (t1 - t0)) : 1.; };
        std::vector<Img> hit(4, Img(np)), nw(4, Img(np));
        for (int b = 0; b < B; b++) for (int k = 0; k < nr; k++) {
            Lattice::shift = 4001 + b; Lattice::at(k); Rng rng(1); auto s = path::sample_primary_ray(rng, sc, TransDir::EL); auto rp = path::raster_position(sc, s->wo); if (!rp) continue; const int q = px(film, *rp); const double w = double(np) / nr; const Ray ray = s->ray(); auto h = sc->intersect(ray); const double D = h && !h->geom.infinite ? glm::distance(h->geom.p, ray.o) : 100;
            const double ut = rng.u(); const auto ud = rng.next<path::RaySampleU>(); const auto ud2 = rng.next<path::RaySampleU>();
            auto direct = [&](const SceneInteraction& x, const path::RaySampleU& u, const std::function<Vec3(Vec3)>& f) { auto d = path::sample_direct(u, sc, x, TransDir::LE); if (!d || !sc->visible(x, d->sp)) return Vec3(0); const double len = d->sp.geom.infinite ? 100 : glm::distance(d->sp.geom.p, x.geom.p); return f(-d->wo) * d->weight * T(x.geom.p, -d->wo, len); };
            Vec3 med(0); double t0 = 0, t1 = D; if (sl.span(ray.o, ray.d, t0, t1)) { const double t = t0 + (t1 - t0) * ut; auto x = SceneInteraction::make_medium_interaction(mi, PointGeometry::make_degenerated(ray.o + ray.d * t)); med = direct(x, ud, [&](Vec3 wo) { return phase->eval(x.geom, -ray.d, wo); }) * alb * den * (t1 - t0) * T(ray.o, ray.d, t); }
            nw[3].b[b][q] += s->weight * med * w; if (!h) continue;
            if (sc->is_light(*h)) { const Vec3 C = s->weight * path::eval_contrb_direction(sc, h->as_type(SceneInteraction::LightEndpoint), {}, -ray.d, 0, TransDir::LE, true) * T(ray.o, ray.d, D) * w; hit[2].b[b][q] += C; nw[2].b[b][q] += C; } if (h->geom.infinite) continue;
            auto c = path::sample_component(rng, sc, *h, -ray.d); const Vec3 th = s->weight * c.weight * T(ray.o, ray.d, D);
            if (path::is_specular_component(sc, *h, c.comp)) { auto d = path::sample_direction(rng, sc, *h, -ray.d, c.comp, TransDir::EL); if (!d) continue; auto h2 = sc->intersect({h->geom.p, d->wo}); if (h2 && sc->is_light(*h2)) nw[3].b[b][q] += th * d->weight * path::eval_contrb_direction(sc, h2->as_type(SceneInteraction::LightEndpoint), {}, -d->wo, 0, TransDir::LE, true) * T(h->geom.p, d->wo, h2->geom.infinite ? 100 : glm::distance(h2->geom.p, h->geom.p)) * w; }
            else nw[3].b[b][q] += th * w * direct(*h, ud2, [&](Vec3 wo) { return path::eval_contrb_direction(sc, *h, -ray.d, wo, c.comp, TransDir::EL, true); });
        }
        Lattice::off(); const bool delta = r.has("p") || r.has("d");
        for (auto [mn, mx] : std::vector<std::pair<int, int>>{{2, 2}, {2, 3}}) { const Img want = sum(nw, 2, mx); verdict(ctx, id, fmt::format("volpt with 2-{} vertices", mx), render(ctx, id, nee, 2, mx, film, n), want); if (!delta) verdict(ctx, id, fmt::format("volpt_naive with 2-{} vertices", mx), render(ctx, id, naive, 2, mx, film, n), want); (void)mn; }
        if (!delta) for (int mx : {4, 9}) { const auto A = render(ctx, id, nee, 2, mx, film, n), C = render(ctx, id, naive, 2, mx, film, n); verdict(ctx, id, fmt::format("volpt against volpt_naive with 2-{} vertices", mx), A, C); if (mx == 9) { RK q = nee; q.p["rr_prob"] = .7; verdict(ctx, id, "volpt against volpt with roulette probability .7", A, render(ctx, id, q, 2, mx, film, n)); q = naive; q.p["rr_prob"] = .6; verdict(ctx, id, "volpt_naive against volpt_naive with roulette probability .6", C, render(ctx, id, q, 2, mx, film, n)); } }
        else { const auto A = render(ctx, id, nee, 2, 9, film, n); RK q = nee; q.p["rr_prob"] = .7; verdict(ctx, id, "volpt against volpt with roulette probability .7", A, render(ctx, id, q, 2, 9, film, n)); }
        ctx.state(id());
    });
}
// ------------------------------------------------------------------ deterministic renderers, refused scenes
void simple(vp::Ctx& ctx) {
    init(1); ctx.bound("raycast and blank on films of 4 sizes, all options, pixel by pixel against the ray through the centre of the pixel; every renderer on scenes without camera, light, primitives or acceleration structure");
    load_rassets(ctx.scratch, 1.5); auto* a = lm::assets(); auto R = rscenes(); auto K = kinds(); auto L = [](const std::string& x) { return "$.assets." + x; };
    const std::vector<std::pair<int, int>> SZ = {{1, 1}, {3, 2}, {7, 5}, {2, 9}};
    ctx.explore([&](vp::Chooser& ch) {
        const int kind = ch.choose(3);
        if (kind == 0) {
            const int si = ch.choose(R.size()); auto [w, h] = SZ[ch.choose(SZ.size())]; const int opt = ch.choose(6); auto* sc = build_rscene(R[si]); film_of(w, h); auto* f = the_film(); const Vec3 bg(.1, .2, .7), col(.9, .3, .5);
            Json p = {{"scene", L("sc")}, {"output", L("film")}}; if (opt != 5) p["bg_color"] = bg; if (opt == 1 || opt == 3) p["use_constant_color"] = true; if (opt == 2) p["visualize_normal"] = true; if (opt == 3 || opt == 4) p["color"] = col; auto id = [&] { return fmt::format("raycast of {} at {}x{}, option {}", R[si].name, w, h, opt); }; ctx.trace(id());
            auto* r = dynamic_cast<Renderer*>(a->load_asset("r", "renderer::raycast", p)); dirty(f); r->render(); auto px = pixels(f);
            for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
                const Ray ray = path::primary_ray(sc, Vec2((x + .5) / w, (y + .5) / h)); auto hh = sc->intersect(ray); Vec3 e;
                if (!hh) e = opt != 5 ? bg : Vec3(0); else if (opt == 2) e = hh->geom.infinite ? px[x + y * w] : glm::abs(hh->geom.n); else if (hh->geom.infinite) e = sc->node_at(hh->primitive).primitive.light->eval(hh->geom, -ray.d, false);
                else { auto rf = opt == 3 || opt == 4 ? std::optional<Vec3>(col) : sc->node_at(hh->primitive).primitive.material->reflectance(hh->geom); e = rf ? *rf : Vec3(0); if (opt != 1 && opt != 3) e *= .2 + .8 * std::abs(glm::dot(hh->geom.n, ray.d)); }
                CK(glm::length(px[x + y * w] - e) < 1e-4, "raycast", "pixel ({},{}) is {}, expected {}", x, y, S(px[x + y * w]), S(e)); ctx.extra_transitions++;
            }
            ctx.state(id());
        } else if (kind == 1) {
            auto [w, h] = SZ[ch.choose(SZ.size())]; film_of(w, h); auto* f = the_film(); dirty(f); auto id = [&] { return fmt::format("blank at {}x{}", w, h); }; ctx.trace(id()); auto* r = dynamic_cast<Renderer*>(a->load_asset("r", "renderer::blank", {{"color", Vec3(.25, .5, 2)}, {"output", L("film")}})); r->render(); for (auto& v : pixels(f)) CK(glm::length(v - Vec3(.25, .5, 2)) < 1e-5, "blank", "pixel {}", S(v)); ctx.state(id());
        } else {
            const auto& k = K[ch.choose(K.size())]; const int miss = ch.choose(4); film_of(2, 2); const char* W[] = {"camera", "light", "primitives", "acceleration structure"}; auto id = [&] { return fmt::format("{} on a scene without {}", k.name, W[miss]); }; ctx.trace(id());
            a->load_asset("ac", "accel::sahbvh", {}); auto* s = dynamic_cast<Scene*>(a->load_asset("sc", "scene::default", miss == 3 ? Json::object() : Json{{"accel", L("ac")}}));
            if (miss != 2) { if (miss != 0) s->add_primitive({{"camera", L("cam")}}); s->add_primitive({{"mesh", L("floor")}, {"material", L("d1")}}); if (miss != 1) s->add_primitive({{"light", L("lc")}}); } if (miss < 2) s->build();
            ctl.n = 3; ctl.base = 0; auto* r = make(k, 2, 3); bool thrown = false; try { r->render(); } catch (const Exception&) { thrown = true; } Lattice::off(); CK(thrown, "refused", "was rendered"); ctx.state(id());
        }
    });
}
// ------------------------------------------------------------------ two threads: all interleavings at the random number draws
struct Turn {                       // runs two threads one at a time; the hook is the scheduling point
    std::mutex m; std::condition_variable cv; int cur = 0; bool done[2] = {false, false}; vp::Chooser* ch = nullptr; int bound = 0, used = 0, points = 0; std::map<const void*, int> owner; bool shared = false;
    static inline Turn* T = nullptr; static inline thread_local int me = -1;
    static double hook() { auto* t = T; if (me >= 0 && t) t->point(); return Lattice::next(); }
    void point() { points++; { auto it = owner.emplace(vp_rng_engine, me).first; if (it->second != me) shared = true; } if (done[1 - me] || used >= bound) return; if (ch->choose(2) == 0) return; used++; pass(1 - me); }
    void pass(int to) { std::unique_lock<std::mutex> l(m); cur = to; cv.notify_all(); cv.wait(l, [&] { return cur == me; }); }
    void start(int i) { me = i; std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return cur == i; }); }
    void finish() { std::unique_lock<std::mutex> l(m); done[me] = true; cur = 1 - me; cv.notify_all(); me = -1; }
};
void threads(vp::Ctx& ctx, int part) {
    init(1); const int bnd = ctx.thorough ? 3 : 2, per = 2;
    ctx.bound(fmt::format("threads: every renderer, 2 scenes, two threads of {} samples each, all interleavings with up to {} preemptions at the random number draws; the image is that of the samples run one after the other", per, bnd));
    load_rassets(ctx.scratch, 1.5); film_of(3, 2); auto R = rscenes(); auto K = kinds(); std::vector<RK> mine; for (size_t i = 0; i < K.size(); i++) if ((int)i % 5 == part) mine.push_back(K[i]); RScene rs = part % 2 ? R[12] : R[5]; build_rscene(rs); auto* film = the_film(); std::map<int, std::vector<Vec3>> want; int lastk = -1; Renderer* r = nullptr;
    ctx.explore([&](vp::Chooser& ch) {
        const int ki = ch.choose(mine.size()); const auto& k = mine[ki]; auto id = [&] { return k.name + " on " + rs.name; }; ctx.trace(id()); if (lastk != ki) { r = make(k, 2, 4); lastk = ki; } ctl.n = 2 * per; Lattice::shift = 0;
        auto job = [&](int t, const scheduler::Scheduler::ProcessFunc& f, long long np) { for (int j = 0; j < per; j++) { Lattice::set(17 + 5 * t + 9 * j); f(np > 1 ? (2 * t + j) % np : 0, t * per + j, t); } };
        if (!want.count(ki)) { ctl.run = [&](const scheduler::Scheduler::ProcessFunc& f, long long np) { for (int t = 0; t < 2; t++) { std::thread th([&, t] { vp_rng_hook = &Lattice::next; job(t, f, np); }); th.join(); } }; vp_rng_hook = &Lattice::next; r->render(); want[ki] = pixels(film); }
        Turn T; T.ch = &ch; T.bound = bnd; Turn::T = &T; vp_rng_hook = &Turn::hook;
        ctl.run = [&](const scheduler::Scheduler::ProcessFunc& f, long long np) { std::thread th[2]; for (int t = 0; t < 2; t++) th[t] = std::thread([&, t] { T.start(t); job(t, f, np); T.finish(); }); for (auto& x : th) x.join(); };
        r->render(); ctl.run = nullptr; vp_rng_hook = nullptr; Turn::T = nullptr; ctx.extra_transitions += T.points; CK(T.points > 4, "draws", "only {} random numbers were drawn", T.points);
        CK(!T.shared, "engine", "two threads draw from one random number generator"); auto got = pixels(film); for (size_t i = 0; i < got.size(); i++) CK(glm::length(got[i] - want[ki][i]) <= 1e-5 * (1 + glm::length(want[ki][i])), "interleaving", "pixel {} is {}, one after the other {}", i, S(got[i]), S(want[ki][i])); ctx.state(k.name + ch.str());
    });
    ctl.run = nullptr;
}
// ------------------------------------------------------------------ seeds
void seeds(vp::Ctx& ctx) {
    init(1); ctx.bound("seeds: every renderer, 3 seeds, thread indices 0-2 in fresh threads, real random number engine: same seed and thread index, same image; other thread index, other samples");
    load_rassets(ctx.scratch, 1.5); film_of(3, 2); auto R = rscenes(); auto K = kinds(); build_rscene(R[5]); auto* film = the_film();
    ctx.explore([&](vp::Chooser& ch) {
        RK k = K[ch.choose(K.size())]; const int seed = std::vector<int>{1, 7, 4000}[ch.choose(3)]; k.p["seed"] = seed; auto id = [&] { return fmt::format("{} with seed {}", k.name, seed); }; ctx.trace(id()); auto* r = make(k, 2, 5); Lattice::off(); ctl.n = 40;
        auto go = [&](int t) { ctl.run = [&](const scheduler::Scheduler::ProcessFunc& f, long long np) { std::thread th([&] { for (long long p = 0; p < np; p++) for (int j = 0; j < 40; j++) f(p, j, t); }); th.join(); }; r->render(); ctl.run = nullptr; ctx.extra_transitions += 40; return pixels(film); };
        const auto a = go(0), b = go(0), c = go(1), d = go(2); auto same = [](auto& x, auto& y) { for (size_t i = 0; i < x.size(); i++) if (glm::length(x[i] - y[i]) > 1e-6 * (1 + glm::length(x[i]))) return false; return true; };
        CK(same(a, b), "repeat", "two renderings in fresh threads differ"); CK(!same(a, c) && !same(a, d) && !same(c, d), "threads", "two threads of different index produce the same samples"); ctx.state(id());
    });
}
struct Init { Init() { for (int i = 0; i < 9; i++) vp::scenarios().push_back({"surfaces_" + std::to_string(i), [i](vp::Ctx& c) { surfaces(c, i, 9); }, 0}); vp::scenarios().push_back({"furnace", furnace, 0}); for (int i = 0; i < 5; i++) vp::scenarios().push_back({"media_" + std::to_string(i), [i](vp::Ctx& c) { media(c, i); }, 0}); vp::scenarios().push_back({"simple", simple, 0}); for (int i = 0; i < 5; i++) vp::scenarios().push_back({"threads_" + std::to_string(i), [i](vp::Ctx& c) { threads(c, i); }, 0}); vp::scenarios().push_back({"seeds", seeds, 0}); } } init_;
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
