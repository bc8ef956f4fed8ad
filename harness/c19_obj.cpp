// C19: Wavefront OBJ files load to exactly the geometry they describe.
// Files are generated from statement lists; the oracle works on the statements, never on the text.
#include "harness/catalogue.h"
#include <lm/objloader.h>
#include <lm/model.h>
using namespace lm;
using namespace H;
namespace {
struct Idx { int p, t, n; };                                   // as written: 0 = attribute not given
struct Mtl { std::string name; int illum = 0; Vec3 Kd = Vec3(0), Ks = Vec3(0), Ke = Vec3(0); double Ni = 0, Ns = 0, an = 0; std::string map; };
struct St { enum K { V, VN, VT, F, G, USE, LIB, TXT } k; Vec3 v = Vec3(0); std::vector<Idx> f = {}; std::string s = {}; };
struct Style { std::string sep = " ", tail = "", eol = "\n", lead = ""; bool last_eol = true; };
std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.12g", x); return b; }
std::string idx(const Idx& i) { std::string s = std::to_string(i.p); if (i.t || i.n) s += "/"; if (i.t) s += std::to_string(i.t); if (i.n) s += "/" + std::to_string(i.n); return s; }
std::string line(const St& s, const Style& y) {
    std::string o = y.lead;
    switch (s.k) {
        case St::V: o += "v" + y.sep + num(s.v.x) + y.sep + num(s.v.y) + y.sep + num(s.v.z); break;
        case St::VN: o += "vn" + y.sep + num(s.v.x) + y.sep + num(s.v.y) + y.sep + num(s.v.z); break;
        case St::VT: o += "vt" + y.sep + num(s.v.x) + y.sep + num(s.v.y); break;
        case St::F: o += "f"; for (auto& i : s.f) o += y.sep + idx(i); break;
        case St::G: o += "g" + y.sep + s.s; break;
        case St::USE: o += "usemtl" + y.sep + s.s; break;
        case St::LIB: o += "mtllib" + y.sep + s.s; break;
        case St::TXT: o += s.s; break;
    }
    return o + y.tail;
}
std::string text(const std::vector<St>& p, const Style& y) { std::string o; for (size_t i = 0; i < p.size(); i++) { o += line(p[i], y); if (i + 1 < p.size() || y.last_eol) o += y.eol; } return o; }

struct Group { int material; std::vector<Idx> is; };           // 0-based, -1 = none
struct Result { bool ok = true; std::vector<Vec3> ps, ns; std::vector<Vec2> ts; std::vector<Mtl> ms; std::vector<Group> gs; };
Result oracle(const std::vector<St>& p, const std::map<std::string, std::vector<Mtl>>& libs) {
    Result r; int cur = 0; bool fresh = true; const Result bad = [] { Result b; b.ok = false; return b; }();
    auto res = [&](int i, size_t n) { return i < 0 ? (int(n) + i >= 0 ? int(n) + i : -99) : i - 1; };
    for (auto& s : p) switch (s.k) {
        case St::V: r.ps.push_back(s.v); break;
        case St::VN: r.ns.push_back(s.v); break;
        case St::VT: r.ts.push_back(Vec2(s.v)); break;
        case St::G: fresh = true; break;
        case St::USE: { int m = -1; for (size_t i = 0; i < r.ms.size(); i++) if (r.ms[i].name == s.s) m = i; if (m < 0) return bad; cur = m; fresh = true; break; }
        case St::LIB: { auto it = libs.find(s.s); if (it == libs.end()) return bad; r.ms.insert(r.ms.end(), it->second.begin(), it->second.end()); break; }
        case St::F: {
            if (s.f.size() < 3) return bad;
            std::vector<Idx> q; for (auto& i : s.f) q.push_back({res(i.p, r.ps.size()), i.t ? res(i.t, r.ts.size()) : -1, i.n ? res(i.n, r.ns.size()) : -1});
            for (auto& i : q) if ((i.t == -1) != (q[0].t == -1) || (i.n == -1) != (q[0].n == -1) || i.p == -1) return bad;
            if (fresh) { r.gs.push_back({cur, {}}); fresh = false; }
            for (size_t k = 2; k < q.size(); k++) for (auto& i : {q[0], q[k - 1], q[k]}) r.gs.back().is.push_back(i);
            break; }
        case St::TXT: break;
    }
    for (auto& g : r.gs) for (auto& i : g.is) if (i.p < 0 || i.p >= (int)r.ps.size() || i.t < -1 || i.t >= (int)r.ts.size() || i.n < -1 || i.n >= (int)r.ns.size()) return bad;
    if (r.ms.empty()) { Mtl d; d.name = "default"; d.illum = -1; d.Kd = Vec3(1); r.ms.push_back(d); }
    return r;
}
struct Got { bool ok = false; objloader::OBJSurfaceGeometry geo; std::vector<objloader::MTLMatParams> ms; std::vector<std::pair<objloader::OBJMeshFace, std::string>> gs; int order_bad = 0; };
Got load(const std::string& path) {
    Got g;
    g.ok = objloader::load(path, g.geo, [&](const objloader::OBJMeshFace& f, const objloader::MTLMatParams& m) { if (!f.empty()) g.gs.push_back({f, m.name}); return true; },
        [&](const objloader::MTLMatParams& m) { if (!g.gs.empty()) g.order_bad = 1; g.ms.push_back(m); return true; });
    return g;
}
bool eq(Vec3 a, Vec3 b, double e = 1e-9) { return glm::length(a - b) <= e * (1 + glm::length(b)); }
bool eq(double a, double b, double e = 1e-9) { return std::abs(a - b) <= e * (1 + std::abs(b)); }
// compare what the loader reported with the oracle
void compare(vp::Ctx& ctx, const Got& g, const Result& r, const std::string& txt, bool merged = false, double e = 1e-9) {
    auto why = [&](const std::string& s) { return s + "\n" + txt; };
    ctx.checkf(g.ok == r.ok, r.ok ? "rejected" : "accepted", [&] { return why(r.ok ? "a well-formed file was rejected" : "a malformed file was accepted"); });
    if (!r.ok) return;
    ctx.checkf(g.geo.ps.size() == r.ps.size() && g.geo.ns.size() == r.ns.size() && g.geo.ts.size() == r.ts.size(), "count", [&] { return why(fmt::format("{} positions, {} normals, {} texture coordinates", g.geo.ps.size(), g.geo.ns.size(), g.geo.ts.size())); });
    for (size_t i = 0; i < r.ps.size(); i++) ctx.checkf(eq(g.geo.ps[i], r.ps[i], e), "position", [&] { return why(fmt::format("position {} is {}", i, v3(g.geo.ps[i]))); });
    for (size_t i = 0; i < r.ns.size(); i++) ctx.checkf(eq(g.geo.ns[i], r.ns[i], e), "normal", [&] { return why(fmt::format("normal {} is {}", i, v3(g.geo.ns[i]))); });
    for (size_t i = 0; i < r.ts.size(); i++) ctx.checkf(eq(Vec3(g.geo.ts[i], 0), Vec3(r.ts[i], 0), e), "texcoord", [&] { return why(fmt::format("texture coordinate {} is wrong", i)); });
    ctx.checkf(g.ms.size() == r.ms.size() && !g.order_bad, "materials", [&] { return why(fmt::format("{} materials reported, expected {}", g.ms.size(), r.ms.size())); });
    for (size_t i = 0; i < r.ms.size(); i++) { auto& a = g.ms[i]; auto& b = r.ms[i];
        ctx.checkf(a.name == b.name && (merged || a.illum == b.illum) && eq(a.Kd, b.Kd, e) && eq(a.Ks, b.Ks, e) && eq(a.Ke, b.Ke, e) && a.mapKd == b.map && (merged || (eq(a.Ni, b.Ni, e) && eq(a.Ns, b.Ns, e) && eq(a.an, b.an, e))), "material",
            [&] { return why(fmt::format("material {} '{}' illum {} Kd {} Ks {} Ke {} Ni {} Ns {} an {} map '{}', expected '{}' illum {} Kd {} Ks {} Ke {} Ni {} Ns {} an {} map '{}'", i, a.name, a.illum, v3(a.Kd), v3(a.Ks), v3(a.Ke), a.Ni, a.Ns, a.an, a.mapKd, b.name, b.illum, v3(b.Kd), v3(b.Ks), v3(b.Ke), b.Ni, b.Ns, b.an, b.map)); }); }
    auto show = [](const auto& f) { std::string s; for (auto& i : f) s += fmt::format("{}/{}/{} ", i.p, i.t, i.n); return s; };
    auto same = [&](const objloader::OBJMeshFace& f, const std::vector<Idx>& is) { if (f.size() != is.size()) return false; for (size_t i = 0; i < f.size(); i++) if (f[i].p != is[i].p || f[i].t != is[i].t || f[i].n != is[i].n) return false; return true; };
    if (!merged) {
        ctx.checkf(g.gs.size() == r.gs.size(), "groups", [&] { return why(fmt::format("{} groups of faces, expected {}", g.gs.size(), r.gs.size())); });
        for (size_t i = 0; i < r.gs.size(); i++) {
            ctx.checkf(same(g.gs[i].first, r.gs[i].is), "faces", [&] { return why(fmt::format("faces of group {} are {}, expected {}", i, show(g.gs[i].first), show(r.gs[i].is))); });
            ctx.checkf(g.gs[i].second == r.ms[r.gs[i].material].name, "face-material", [&] { return why(fmt::format("group {} has material '{}', expected '{}'", i, g.gs[i].second, r.ms[r.gs[i].material].name)); });
        }
    } else {        // another partition of the faces is fine: per material the same faces in the same order
        for (auto& m : r.ms) { objloader::OBJMeshFace f; std::vector<Idx> is; for (auto& x : g.gs) if (x.second == m.name) f.insert(f.end(), x.first.begin(), x.first.end()); for (auto& x : r.gs) if (r.ms[x.material].name == m.name) is.insert(is.end(), x.is.begin(), x.is.end());
            ctx.checkf(same(f, is), "faces", [&] { return why(fmt::format("faces of material '{}' are {}, expected {}", m.name, show(f), show(is))); }); }
    }
}
// components built from the file
void check_mesh(vp::Ctx& ctx, const Mesh& m, const std::vector<Idx>& is, const Result& r, const std::string& txt) {
    auto why = [&](const std::string& s) { return s + "\n" + txt; };
    const int n = is.size() / 3;
    ctx.checkf(m.num_triangles() == n, "num-triangles", [&] { return why(fmt::format("mesh has {} triangles, expected {}", m.num_triangles(), n)); });
    int k = 0;
    auto tri = [&](int f, const Mesh::Tri& t) {
        const Mesh::Point* q[3] = {&t.p1, &t.p2, &t.p3};
        for (int j = 0; j < 3; j++) { auto& i = is[3 * f + j];
            ctx.checkf(eq(q[j]->p, r.ps[i.p]), "tri-position", [&] { return why(fmt::format("vertex {} of face {} is {}", j, f, v3(q[j]->p))); });
            if (i.n >= 0) ctx.checkf(eq(q[j]->n, r.ns[i.n]), "tri-normal", [&] { return why(fmt::format("normal {} of face {} is {}", j, f, v3(q[j]->n))); });
            if (i.t >= 0) ctx.checkf(eq(Vec3(q[j]->t, 0), Vec3(r.ts[i.t], 0)), "tri-uv", [&] { return why(fmt::format("texture coordinate {} of face {} is wrong", j, f)); }); }
    };
    m.foreach_triangle([&](int f, const Mesh::Tri& t) { ctx.check(f == k++ && f < n, "face-order", "faces are not enumerated in order"); tri(f, t); });
    ctx.check(k == n, "face-order", "not every face is enumerated");
    for (int f = 0; f < n; f++) {
        tri(f, m.triangle_at(f));
        const Idx a = is[3 * f], b = is[3 * f + 1], c = is[3 * f + 2]; const Vec3 A = r.ps[a.p], B = r.ps[b.p], C = r.ps[c.p];
        if (glm::length(glm::cross(B - A, C - A)) < 1e-9) continue;
        const Vec3 gn = glm::normalize(glm::cross(B - A, C - A));
        for (auto uv : {Vec2(0, 0), Vec2(1, 0), Vec2(0, 1), Vec2(.25, .5)}) {
            const auto s = m.surface_point(f, uv); const double w = 1 - uv.x - uv.y;
            ctx.checkf(eq(s.p, w * A + uv.x * B + uv.y * C) && eq(s.gn, gn), "surface-point", [&] { return why(fmt::format("surface point ({},{}) of face {}: p {} gn {}", uv.x, uv.y, f, v3(s.p), v3(s.gn))); });
            if (a.n >= 0) { const Vec3 sn = w * r.ns[a.n] + uv.x * r.ns[b.n] + uv.y * r.ns[c.n]; if (glm::length(sn) > 1e-9) ctx.checkf(eq(s.n, glm::normalize(sn)), "surface-normal", [&] { return why("interpolated normal " + v3(s.n)); }); }
            else ctx.checkf(eq(s.n, gn), "surface-normal", [&] { return why("normal of a face without normals is " + v3(s.n)); });
            const Vec2 st = a.t >= 0 ? w * r.ts[a.t] + uv.x * r.ts[b.t] + uv.y * r.ts[c.t] : Vec2(0);
            ctx.checkf(eq(Vec3(s.t, 0), Vec3(st, 0)), "surface-uv", [&] { return why("interpolated texture coordinate is wrong"); });
        }
    }
}
using TD = Material::TransDir;
bool near(Vec3 a, Vec3 b) { for (int i = 0; i < 3; i++) if (!(std::isnan(a[i]) && std::isnan(b[i])) && !(a[i] == b[i]) && !(std::abs(a[i] - b[i]) <= 1e-5 * (1e-3 + std::abs(b[i])))) return false; return true; }
template <class F> bool throws(F f) { try { f(); } catch (const lm::Exception& e) { return true; } return false; }
void check_components(vp::Ctx& ctx, const std::string& path, const Result& r, const std::string& txt) {
    lm::reset();
    auto* a = lm::assets();
    if (!r.ok) {
        for (auto key : {"mesh::wavefrontobj", "model::wavefrontobj"}) ctx.checkf(throws([&] { a->load_asset("m", key, {{"path", path}}); }) && !comp::get<Component>("$.assets.m"), "throw", [&] { return std::string(key) + " accepted a malformed file\n" + txt; });
        return;
    }
    auto* m = dynamic_cast<Mesh*>(a->load_asset("mesh", "mesh::wavefrontobj", {{"path", path}}));
    std::vector<Idx> all; for (auto& g : r.gs) all.insert(all.end(), g.is.begin(), g.is.end());
    check_mesh(ctx, *m, all, r, txt);
    auto* o = dynamic_cast<Model*>(a->load_asset("model", "model::wavefrontobj", {{"path", path}}));
    size_t k = 0;
    o->create_primitives([&](Component* mesh, Component* material, Component* light) {
        auto* mm = dynamic_cast<Mesh*>(mesh); ctx.check(mm && dynamic_cast<Material*>(material), "primitive", "a primitive without mesh or material\n" + txt);
        if (mm->num_triangles() == 0) { ctx.check(!light, "empty-light", "a group without faces became a light\n" + txt); return; }
        ctx.check(k < r.gs.size(), "primitive", "too many primitives\n" + txt);
        check_mesh(ctx, *mm, r.gs[k].is, r, txt);
        const Mtl& t = r.ms[r.gs[k].material];
        const std::string want = t.illum == 5 ? "material::mirror" : t.illum == 7 ? "material::glass" : "material::mixture_wavefrontobj";
        ctx.checkf(material->key() == want, "primitive-material", [&] { return "material of primitive is " + material->loc() + " (" + material->key() + "), expected " + t.name + " (" + want + ")\n" + txt; });
        ctx.checkf((light != nullptr) == (glm::compMax(t.Ke) > 0), "primitive-light", [&] { return "light of primitive with Ke " + v3(t.Ke) + (light ? "" : " missing") + "\n" + txt; });
        if (light) { auto* L = dynamic_cast<Light*>(light); const auto tr = r.gs[k].is; auto s = L->sample_position({Vec2(.3, .6), .4}, Transform(Mat4(1))); ctx.check(!!s, "light-sample", "emissive group cannot be sampled\n" + txt); const auto Le = L->eval(s->geom, s->geom.n, {}); ctx.checkf(eq(Le, t.Ke), "light-Ke", [&] { return "emission is " + v3(Le) + "\n" + txt; }); }
        if (want == "material::mixture_wavefrontobj") {
            PointGeometry g = PointGeometry::make_on_surface(Vec3(0), Vec3(0, 0, 1), Vec3(0, 0, 1), Vec2(.3, .3)); auto* M = dynamic_cast<Material*>(material);
            Vec3 Kd = t.Kd; if (!t.map.empty()) { auto* T = dynamic_cast<Texture*>(a->load_asset("tex", "texture::bitmap", {{"path", (fs::path(path).remove_filename() / t.map).string()}})); Kd = T->eval(g.t); }
            ctx.checkf(eq(M->reflectance(g), Kd), "primitive-Kd", [&] { return "reflectance is " + v3(M->reflectance(g)) + "\n" + txt; });
            auto gl = dynamic_cast<Material*>(M->underlying("glossy")); ctx.check(gl && eq(gl->reflectance(g), t.Ks), "primitive-Ks", "specular reflectance is wrong\n" + txt);
            // the shininess and anisotropy of the file as roughness of the glossy part
            const double as = std::sqrt(std::max(0., 1 - t.an * .9)), rr = 2 / (2 + t.Ns);
            auto* G = dynamic_cast<Material*>(a->load_asset("glossy", "material::glossy", {{"Ks", t.Ks}, {"ax", std::max(1e-3, rr / as)}, {"ay", std::max(1e-3, rr * as)}}));
            for (Vec3 wi : {Vec3(0, 0, 1), Vec3(.6, 0, .8)}) for (Vec3 wo : {Vec3(0, 0, 1), Vec3(-.48, .36, .8), Vec3(.6, 0, .8), Vec3(0, -.6, .8)})
                ctx.checkf(near(gl->eval(g, wi, wo, 0, TD::EL, false), G->eval(g, wi, wo, 0, TD::EL, false)), "primitive-roughness", [&] { return fmt::format("the glossy part of a material with Ns {} and aniso {} has the value {} for {}, {}, expected {}\n", t.Ns, t.an, v3(gl->eval(g, wi, wo, 0, TD::EL, false)), v3(wi), v3(wo), v3(G->eval(g, wi, wo, 0, TD::EL, false))) + txt; });
        }
        if (want == "material::glass") {
            PointGeometry g = PointGeometry::make_on_surface(Vec3(0), Vec3(0, 0, 1), Vec3(0, 0, 1), Vec2(.3, .3)); auto* M = dynamic_cast<Material*>(material); auto* G = dynamic_cast<Material*>(a->load_asset("glass", "material::glass", {{"Ni", t.Ni}}));
            for (Vec3 wi : {Vec3(.6, 0, .8), Vec3(.36, .48, -.8)}) for (int q = 0; q < 2; q++) { const double e = G->pdf_component(q, g, wi), h = M->pdf_component(q, g, wi); ctx.checkf((std::isnan(e) && std::isnan(h)) || std::abs(e - h) < 1e-6, "primitive-Ni", [&] { return fmt::format("a glass material with Ni {} selects component {} with probability {}, expected {}\n", t.Ni, q, h, e) + txt; }); }
        }
        k++;
    });
    ctx.checkf(k == r.gs.size(), "primitive", [&] { return fmt::format("{} primitives with faces, expected {}\n", k, r.gs.size()) + txt; });
    // the options of a model: specular materials replaced by black ones, or all materials by a given one
    a->load_asset("base", "material::diffuse", {{"Kd", Vec3(.3, .6, .9)}});
    for (int opt = 0; opt < 2; opt++) {
        Json pr = {{"path", path}}; if (opt) pr["base_material"] = "$.assets.base"; else pr["skip_specular_mat"] = true;
        auto* o2 = dynamic_cast<Model*>(a->load_asset("model2", "model::wavefrontobj", pr)); size_t k2 = 0;
        o2->create_primitives([&](Component* mesh, Component* material, Component* light) {
            if (dynamic_cast<Mesh*>(mesh)->num_triangles() == 0) return;
            ctx.check(k2 < r.gs.size(), "options-primitive", "too many primitives\n" + txt); const Mtl& t = r.ms[r.gs[k2].material]; auto* M = dynamic_cast<Material*>(material); ctx.check(!!M, "options-material", "a primitive without material\n" + txt);
            PointGeometry g = PointGeometry::make_on_surface(Vec3(0), Vec3(0, 0, 1), Vec3(0, 0, 1), Vec2(.3, .3)); const Vec3 wi(.6, 0, .8), wo(0, 0, 1);
            if (opt) ctx.checkf(eq(M->reflectance(g), Vec3(.3, .6, .9)) && near(M->eval(g, wi, wo, 0, TD::EL, false), Vec3(.3, .6, .9) / Pi), "options-base", [&] { return "with base_material a primitive has the reflectance " + v3(M->reflectance(g)) + "\n" + txt; });
            else if (t.illum == 5 || t.illum == 7) ctx.checkf(M->key() == "material::diffuse" && eq(M->reflectance(g), Vec3(0)), "options-skip", [&] { return "with skip_specular_mat a specular material became " + M->key() + "\n" + txt; });
            else ctx.checkf(M->key() == "material::mixture_wavefrontobj" && (!t.map.empty() || eq(M->reflectance(g), t.Kd)), "options-keep", [&] { return "with skip_specular_mat a material became " + M->key() + "\n" + txt; });
            ctx.checkf((light != nullptr) == (glm::compMax(t.Ke) > 0), "options-light", [&] { return "a light is missing or too many\n" + txt; }); k2++;
        });
        ctx.checkf(k2 == r.gs.size(), "options-primitive", [&] { return fmt::format("{} primitives with faces, expected {}\n", k2, r.gs.size()) + txt; });
    }
}
const std::vector<Vec3> PV = {Vec3(0, 0, 0), Vec3(1, 0, .5), Vec3(0, 2, -.25), Vec3(-1.5, 1e-3, 3), Vec3(2.25, 1, 1)};
const std::vector<Vec3> NV = {Vec3(0, 0, 1), Vec3(.6, 0, .8), Vec3(0, -1, 0)};
const std::vector<Vec3> TV = {Vec3(0, 0, 0), Vec3(1, .5, 0), Vec3(-.25, 2, 0), Vec3(.125, 3, 0)};   // as many of each as of no other
std::vector<St> preamble() { std::vector<St> p; for (auto& v : PV) p.push_back({St::V, v}); for (auto& v : NV) p.push_back({St::VN, v}); for (auto& v : TV) p.push_back({St::VT, v}); return p; }
std::vector<Mtl> lib1() { Mtl a, b; a.name = "A"; a.Kd = Vec3(.5, .25, .125); a.Ks = Vec3(.1, .2, .3); a.Ns = 10; b.name = "B"; b.Ke = Vec3(1, 2, 3); return {a, b}; }
std::vector<Mtl> lib2() { Mtl a, b; a.name = "C"; a.illum = 7; a.Ni = 1.5; b.name = "D.x"; b.illum = 2; b.Kd = Vec3(.25); return {a, b}; }
std::string mtl_text(const std::vector<Mtl>& ms, const std::string& eol = "\n") { std::string o; auto v = [](Vec3 c) { return num(c.x) + " " + num(c.y) + " " + num(c.z); };
    for (auto& m : ms) { o += "newmtl " + m.name + eol + "Kd " + v(m.Kd) + eol + "Ks " + v(m.Ks) + eol + "Ke " + v(m.Ke) + eol; if (m.illum) o += "illum " + std::to_string(m.illum) + eol; if (m.Ni) o += "Ni " + num(m.Ni) + eol; if (m.Ns) o += "Ns " + num(m.Ns) + eol; if (m.an) o += "aniso " + num(m.an) + eol; if (!m.map.empty()) o += "map_Kd " + m.map + eol; } return o; }
const std::vector<Style> STYLES = {{}, {"  "}, {"\t"}, {" ", " "}, {" ", "", "\r\n"}, {" ", " \t", "\r\n"}, {" ", " # comment 1 2 3"}, {" ", "", "\n", " \t"}, {" ", "", "\n", "", false}};

// every index form, sign, vertex count and layout of one face
void forms(vp::Ctx& ctx, const char* type, int part) {
    init(1);
    const bool tiny = std::string(type) != "simple"; if (tiny) objloader::init(type);
    ctx.bound(std::string("faces: all index forms (p, p/t, p//n, p/t/n) x all sign patterns x rotations of 3") + (tiny ? "" : "-6") + " vertices x 9 layouts (blanks, tabs, trailing blanks, CRLF, comments, no final newline); out-of-range, zero and mixed indices at every vertex; loader: " + type);
    ctx.explore([&](vp::Chooser& ch) {
        const int n = tiny ? 3 : 1 + ch.choose(6), form = ch.choose(4), rot = ch.choose(3), sign = ch.choose(1 << std::min(n, 3)), style = ch.choose(STYLES.size());
        const int bad = tiny ? 0 : ch.choose(n < 3 ? 1 : 8), where = bad ? ch.choose(n) : 0;
        if (!tiny && style % 2 != part) return;
        if (tiny && style == 6) return;
        auto p = preamble(); const int NP = PV.size(), NN = NV.size(), NT = TV.size();
        St f{St::F};
        for (int k = 0; k < n; k++) {
            const bool neg = sign >> (k % 3) & 1; int a = (k + rot) % NP, b = (2 * k + rot) % NT, c = (k + 2 * rot) % NN;
            Idx i{neg ? a - NP : a + 1, form & 1 ? (neg ? b - NT : b + 1) : 0, form & 2 ? (neg ? c - NN : c + 1) : 0};
            if (bad && k == where) switch (bad) {
                case 1: i.p = NP + 1; break; case 2: i.p = -NP - 1; break; case 3: i.p = 0; break;
                case 4: if (!(form & 1)) return; i.t = NT + 1; break; case 5: if (!(form & 2)) return; i.n = -NN - 1 - k; break;
                case 6: if (!(form & 2)) return; i.n = 0; break; case 7: if (!(form & 1)) return; i.t = -NT - 2; break;
            }
            f.f.push_back(i);
        }
        p.push_back(f); p.push_back({St::V, Vec3(9, 9, 9)});
        if (bad == 1) p.pop_back();
        const auto txt = text(p, STYLES[style]), path = ctx.scratch + "/f.obj";
        put_file(path, txt); const auto r = oracle(p, {});
        ctx.trace(line(f, {}) + fmt::format(" style {}", style));
        compare(ctx, load(path), r, line(f, {}), tiny);
        if (!tiny && style < 2) check_components(ctx, path, r, line(f, {}));
        ctx.state(line(f, {}));
    });
}
// statement sequences: groups, materials, libraries, interleaved vertices
void programs(vp::Ctx& ctx, const char* type, int part, int depth) {
    init(1);
    const bool tiny = std::string(type) != "simple"; if (tiny) objloader::init(type);
    ctx.bound(fmt::format("programs: all sequences of {} statements over 12 (faces by first / last vertices, quad, vertices, g, g with two names, usemtl of two libraries and unknown, second and missing mtllib, comments and unknown statements) after a preamble with and without library; loader: {}", depth, type));
    put_file(ctx.scratch + "/l1.mtl", mtl_text(lib1())); put_file(ctx.scratch + "/l2.mtl", mtl_text(lib2(), "\r\n"));
    const std::map<std::string, std::vector<Mtl>> libs = {{"l1.mtl", lib1()}, {"l2.mtl", lib2()}};
    const std::vector<St> A = {
        {St::F, {}, {{1, 1, 1}, {2, 2, 1}, {3, 3, 2}}}, {St::F, {}, {{-3, 0, 0}, {-2, 0, 0}, {-1, 0, 0}}}, {St::V, Vec3(7, 8, 9)}, {St::G, {}, {}, "grp"}, {St::USE, {}, {}, "A"}, {St::USE, {}, {}, "B"},
        {St::TXT, {}, {}, "s off"}, {St::F, {}, {{1, 0, 2}, {2, 0, 2}, {4, 0, 1}, {3, 0, 3}}}, {St::USE, {}, {}, "C"}, {St::LIB, {}, {}, "l2.mtl"}, {St::USE, {}, {}, "D.x"}, {St::LIB, {}, {}, "none.mtl"}};
    const std::vector<int> TA = {0, 1, 2, 3, 4, 5, 6};
    ctx.explore([&](vp::Chooser& ch) {
        auto p = preamble(); const bool lib = tiny || ch.flip();
        if (lib) p.insert(p.begin(), {St::LIB, {}, {}, "l1.mtl"});
        std::string d = lib ? "lib; " : "";
        for (int i = 0; i < depth; i++) { const int c = tiny ? TA[ch.choose(TA.size())] : ch.choose(A.size()); if (i == 0 && !tiny && c % 4 != part) return; p.push_back(A[c]); d += line(A[c], {}) + "; "; }
        if (tiny) p.push_back({St::F, {}, {{1, 0, 0}, {2, 0, 0}, {3, 0, 0}}});
        const auto path = ctx.scratch + "/p.obj"; put_file(path, text(p, {})); const auto r = oracle(p, libs);
        ctx.trace(d);
        compare(ctx, load(path), r, d, tiny);
        if (!tiny && (depth <= 4 || ctx.executions % 7 == 0)) check_components(ctx, path, r, d);
        ctx.state(d);
    });
}
// material libraries: every sequence of parameter statements
void materials(vp::Ctx& ctx, int depth) {
    init(1);
    ctx.bound(fmt::format("material libraries: all sequences of {} statements over 12 (newmtl, Kd, Ks, Ke, Ni, Ns, illum 2/5/7, aniso, map_Kd, comment, unknown) in 3 layouts, each material used by one face; statements before the first newmtl", depth));
    put_file(ctx.scratch + "/a.tga", tga(2, 2, 3, [](int x, int y, int k) { return 40 * x + 90 * y + k; }));
    const std::vector<std::string> names = {"m0", "m1", "m2", "m3", "m4"};
    ctx.explore([&](vp::Chooser& ch) {
        std::vector<Mtl> ms; std::string o; const int style = ch.choose(3); const std::string sep = style == 1 ? "\t" : " ", eol = style == 2 ? " \r\n" : "\n", lead = style == 1 ? "  " : "";
        Mtl junk;
        auto put = [&](const std::string& c, const std::string& v) { o += lead + c + (v.empty() ? "" : sep + v) + eol; };
        if (ch.flip()) { ms.push_back({names[0]}); put("newmtl", names[0]); }
        for (int i = 0; i < depth; i++) {
            Mtl& m = ms.empty() ? junk : ms.back();
            switch (ch.choose(12)) {
                case 0: ms.push_back({names[ms.size()]}); put("newmtl", ms.back().name); break;
                case 1: m.Kd = Vec3(.1 * (i + 1), .5, .25); put("Kd", num(m.Kd.x) + sep + ".5 2.5e-1"); break;
                case 2: m.Ks = Vec3(.3, .1 * i, .2); put("Ks", "0.3 " + num(m.Ks.y) + " .2"); break;
                case 3: m.Ke = Vec3(i ? 3 : 0, 0, 0); put("Ke", num(m.Ke.x) + " 0 0"); break;
                case 4: m.Ni = 1.25 + i; put("Ni", num(m.Ni)); break;
                case 5: m.Ns = 5 * i; put("Ns", num(m.Ns)); break;
                case 6: m.illum = 2; put("illum", "2"); break;
                case 7: m.illum = 5; put("illum", "5"); break;
                case 8: m.illum = 7; put("illum", "7"); break;
                case 9: m.an = .5; put("aniso", ".5"); break;
                case 10: m.map = "a.tga"; put("map_Kd", "a.tga"); break;
                case 11: put(i & 1 ? "# Kd 1 1 1" : "Tr", i & 1 ? "" : "0.5"); break;
            }
        }
        put_file(ctx.scratch + "/m.mtl", o);
        auto p = preamble(); p.insert(p.begin(), {St::LIB, {}, {}, "m.mtl"});
        for (size_t i = 0; i < ms.size(); i++) { p.push_back({St::USE, {}, {}, names[i]}); p.push_back({St::F, {}, {{1, 1, 1}, {2, 2, 2}, {int(i % 3) + 3, 3, 3}}}); }
        const auto path = ctx.scratch + "/m.obj"; put_file(path, text(p, {}));
        const auto r = oracle(p, {{"m.mtl", ms}}); ctx.trace(o);
        compare(ctx, load(path), r, o);
        bool glass0 = false; for (auto& m : ms) glass0 = glass0 || (m.illum == 7 && m.Ni == 0);
        if (style == 0) check_components(ctx, path, r, o);
        ctx.state(o);
    });
}
// damaged files: never a crash, and whatever is accepted refers only to existing data
void damaged(vp::Ctx& ctx, int part) {
    init(1);
    ctx.bound("damaged files: every truncation, every deletion of one byte and every replacement of one byte by each of 10 characters of an OBJ file and its MTL file; every component query on what is accepted");
    const std::string obj = "mtllib d.mtl\nv 0 0 0\nv 1 0 .5\nv 0 1 0\nv 1 1 2\nvt 0 0\nvt 1 .5\nvn 0 0 1\ng a\nusemtl A\nf 1/1/1 2/2/1 3/1/1\nusemtl B\nf -1 -2 -3 1\nf 1//1 2//1 4//1\n";
    const std::string mtl = "newmtl A\nKd 1 .5 .25\nKs .1 .2 .3\nNs 10\nnewmtl B\nKe 1 2 3\nillum 2\n";
    const std::string rep = "0-/ \n#\r7x"; 
    ctx.explore([&](vp::Chooser& ch) {
        const bool second = ch.flip(); std::string o = obj, m = mtl; std::string& s = second ? m : o;
        const int at = ch.choose(s.size() + 1), what = ch.choose(2 + rep.size() + 1);
        if (at % 4 != part) return;
        if (what == 0) s.resize(at); else { if (at == (int)s.size()) return; if (what == 1) s.erase(at, 1); else s[at] = what == 2 ? '\0' : rep[what - 3]; }
        put_file(ctx.scratch + "/d.obj", o); put_file(ctx.scratch + "/d.mtl", m);
        ctx.trace(fmt::format("{} byte {} {}", second ? "mtl" : "obj", at, what == 0 ? "cut off" : what == 1 ? "deleted" : "replaced by #" + std::to_string(what - 2)));
        lm::reset(); const auto path = ctx.scratch + "/d.obj";
        bool ok[3] = {load(path).ok, true, true};
        int k = 0;
        for (auto key : {"mesh::wavefrontobj", "model::wavefrontobj"}) {
            k++;
            try { lm::assets()->load_asset("m" + std::to_string(k), key, {{"path", path}}); } catch (const lm::Exception&) { ok[k] = false; } catch (const std::exception& e) { ctx.fail("exception", std::string("std::exception ") + e.what()); }
        }
        ctx.check(ok[0] == ok[1], "verdict", "loader and mesh disagree about the file");
        ctx.check(ok[0] || !ok[2], "verdict", "the model accepted a file the loader rejects");
        auto use = [&](Mesh* q) { for (int f = 0; f < q->num_triangles(); f++) { q->triangle_at(f); q->surface_point(f, Vec2(.2, .3)); } };
        if (ok[1]) use(comp::get<Mesh>("$.assets.m1"));
        if (ok[2]) comp::get<Model>("$.assets.m2")->create_primitives([&](Component* mesh, Component* mat, Component* light) { ctx.check(mat != nullptr, "no-material", "a primitive without material"); use(dynamic_cast<Mesh*>(mesh)); if (light) dynamic_cast<Light*>(light)->sample_position({Vec2(.2, .3), .7}, Transform(Mat4(1))); });
        ctx.counters[ok[0] ? "accepted" : "rejected"]++;
        ctx.state(s);
    });
}
// sizes: long lines and names, many vertices, many faces, missing files
void sizes(vp::Ctx& ctx) {
    init(1);
    ctx.bound("sizes: comment, name, number and face lines of 1, 100, 255, 256, 300, 4094-4097, 10000 characters; missing files and directories in place of files; empty files");
    ctx.explore([&](vp::Chooser& ch) {
        const std::vector<int> N = {1, 100, 255, 256, 300, 4094, 4095, 4096, 4097, 10000}; const int n = ch.pick(N), kind = ch.choose(8);
        ctx.trace(fmt::format("kind {} size {}", kind, n));
        std::vector<Mtl> ms = lib1(); auto p = preamble(); const auto path = ctx.scratch + "/s.obj"; std::map<std::string, std::vector<Mtl>> libs; std::string raw;
        const St tri{St::F, {}, {{1, 1, 1}, {2, 2, 2}, {3, 3, 3}}};
        system(("rm -rf " + ctx.scratch + "/*").c_str());
        switch (kind) {
            case 0: p.insert(p.begin(), {St::TXT, {}, {}, "#" + std::string(n, 'x')}); p.push_back(tri); break;
            case 1: ms[0].name = std::string(n, 'n'); libs["l.mtl"] = ms; p.insert(p.begin(), {St::LIB, {}, {}, "l.mtl"}); p.push_back({St::USE, {}, {}, ms[0].name}); p.push_back(tri); break;
            case 2: p.push_back({St::G, {}, {}, std::string(n, 'g')}); p.push_back(tri); break;
            case 3: { St f{St::F}; for (int i = 0; i < std::max(3, n / 6); i++) f.f.push_back({i % 5 + 1, i % 3 + 1, i % 3 + 1}); p.push_back(f); break; }
            case 4: for (int i = 0; i < n; i++) p.push_back({St::V, Vec3(i, -i, .5)}); p.push_back({St::F, {}, {{-1, 0, 0}, {-2, 0, 0}, {1, 0, 0}}}); break;
            case 5: if (n < 4000) { raw = "v 0" + std::string(n, '0') + "1 2 3\n"; break; } raw = "v 1" + std::string(n, ' ') + "2 3\n"; break;
            case 6: { const std::string nm = std::string(std::min(n, 200), 'f') + ".mtl"; libs[nm] = ms; p.insert(p.begin(), {St::LIB, {}, {}, nm}); p.push_back(tri); break; }
            case 7: {
                if (n == 1) { ctx.check(!load(path).ok && throws([&] { lm::assets()->load_asset("x", "mesh::wavefrontobj", {{"path", path}}); }), "missing", "a missing file was accepted"); return; }
                if (n == 100) { fs::create_directories(path); ctx.check(!load(path).ok, "directory", "a directory was accepted as a file"); return; }
                if (n == 255) { fs::create_directories(ctx.scratch + "/l.mtl"); put_file(path, "mtllib l.mtl\n" + text(preamble(), {})); ctx.check(!load(path).ok, "directory", "a directory was accepted as a material library"); return; }
                if (n == 256) { p.clear(); break; }
                return; }
        }
        for (auto& l : libs) put_file(ctx.scratch + "/" + l.first, mtl_text(l.second));
        put_file(path, raw.empty() ? text(p, {}) : raw);
        if (!raw.empty()) { auto g = load(path); ctx.check(g.ok && g.geo.ps.size() == 1 && eq(g.geo.ps[0], Vec3(1, 2, 3)), "long-number", "a vertex line of " + std::to_string(n) + " characters was not read"); return; }
        compare(ctx, load(path), oracle(p, libs), fmt::format("kind {} size {}", kind, n));
        ctx.state(fmt::format("{} {}", kind, n));
    });
}
// emissive groups without faces
void empties(vp::Ctx& ctx) {
    init(1);
    ctx.bound("empty groups: all sequences of 4 of {usemtl A, usemtl B (emissive), g, f}: scene built from the model, all lights sampled");
    put_file(ctx.scratch + "/l1.mtl", mtl_text(lib1()));
    ctx.explore([&](vp::Chooser& ch) {
        auto p = preamble(); p.insert(p.begin(), {St::LIB, {}, {}, "l1.mtl"}); std::string d;
        const std::vector<St> A = {{St::USE, {}, {}, "A"}, {St::USE, {}, {}, "B"}, {St::G, {}, {}, "x"}, {St::F, {}, {{1, 0, 0}, {2, 0, 0}, {3, 0, 0}}}};
        for (int i = 0; i < 4; i++) { const int c = ch.choose(4); p.push_back(A[c]); d += line(A[c], {}) + "; "; }
        const auto path = ctx.scratch + "/e.obj"; put_file(path, text(p, {})); ctx.trace(d);
        const auto r = oracle(p, {{"l1.mtl", lib1()}});
        check_components(ctx, path, r, d);
        lm::reset(); auto* a = lm::assets();
        a->load_asset("m", "model::wavefrontobj", {{"path", path}}); a->load_asset("acc", "accel::sahbvh", {});
        auto* sc = dynamic_cast<Scene*>(a->load_asset("s", "scene::default", {{"accel", "$.assets.acc"}}));
        sc->add_primitive({{"model", "$.assets.m"}}); sc->build();
        int want = 0; for (auto& g : r.gs) want += glm::compMax(r.ms[g.material].Ke) > 0;
        ctx.checkf(sc->num_lights() == want, "num-lights", [&] { return fmt::format("{} lights, expected {}: {}", sc->num_lights(), want, d); });
        for (int i = 0; i < want; i++) { auto q = sc->light_primitive_index_at(i); auto* L = sc->node_at(q.index).primitive.light; ctx.check(!!L->sample_position({Vec2(.5), .5}, q.global_transform), "light-sample", "cannot sample a light"); }
        ctx.state(d);
    });
}
struct Init { Init() {
    for (int i = 0; i < 2; i++) vp::scenarios().push_back({"forms_" + std::to_string(i), [i](vp::Ctx& c) { forms(c, "simple", i); }, 0});
    for (int i = 0; i < 4; i++) vp::scenarios().push_back({"programs4_" + std::to_string(i), [i](vp::Ctx& c) { programs(c, "simple", i, 4); }, 0});
    for (int i = 0; i < 4; i++) vp::scenarios().push_back({"programs5_" + std::to_string(i), [i](vp::Ctx& c) { programs(c, "simple", i, 5); }, 1});
    vp::scenarios().push_back({"materials3", [](vp::Ctx& c) { materials(c, 3); }, 0});
    vp::scenarios().push_back({"materials4", [](vp::Ctx& c) { materials(c, 4); }, 1});
    for (int i = 0; i < 4; i++) vp::scenarios().push_back({"damaged_" + std::to_string(i), [i](vp::Ctx& c) { damaged(c, i); }, 0});
    vp::scenarios().push_back({"sizes", sizes, 0});
    vp::scenarios().push_back({"empties", empties, 0});
    vp::scenarios().push_back({"tiny_forms", [](vp::Ctx& c) { forms(c, "tinyobjloader", 0); }, 0});
    vp::scenarios().push_back({"tiny_programs", [](vp::Ctx& c) { programs(c, "tinyobjloader", 0, 4); }, 0});
} } init_;
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
