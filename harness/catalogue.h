#pragma once
// One instance of (almost) every component shipped with the framework, in two parameter variants, plus a
// behavioural fingerprint: the answers of a component to a lattice of queries of its interface.
#include "harness/geom.h"
#include <lm/model.h>
#include <lm/assetgroup.h>
#include <lm/scheduler.h>
#include <thread>
namespace H {
inline void put_file(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
// 24/32 bit uncompressed TGA, bottom-up rows as given
inline std::string tga(int w, int h, int c, const std::function<unsigned char(int, int, int)>& px) {
    std::string s(18, 0); s[2] = 2; s[12] = w & 255; s[13] = w >> 8; s[14] = h & 255; s[15] = h >> 8; s[16] = 8 * c; s[17] = c == 4 ? 8 : 0;
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { s += (char)px(x, y, 2); s += (char)px(x, y, 1); s += (char)px(x, y, 0); if (c == 4) s += (char)px(x, y, 3); }
    return s;
}
inline void write_files(const std::string& d) {
    for (int v = 0; v < 2; v++) {
        auto V = std::to_string(v);
        put_file(d + "/a" + V + ".tga", tga(3, 2, 4, [v](int x, int y, int k) { return k == 3 ? 60 + 50 * x + 20 * y + 7 * v : 30 + 31 * x + 70 * y + 13 * k + 40 * v; }));
        put_file(d + "/b" + V + ".tga", tga(4, 2, 3, [v](int x, int y, int k) { return 20 + 29 * x + 50 * y + 17 * k + 30 * v; }));
        put_file(d + "/m" + V + ".obj", std::string("mtllib m") + V + ".mtl\nv 0 0 0\nv 1 0 0\nv 0 1 0\nv 1 1 " + V + "\nvt 0 0\nvt 1 0\nvt 0 1\nvn 0 0 1\n"
            "usemtl A\nf 1/1/1 2/2/1 3/3/1\nusemtl B\nf 2/2/1 4/1/1 3/3/1\nusemtl C\nf 1 3 4\n");
        put_file(d + "/m" + V + ".mtl", std::string("newmtl A\nKd .5 .25 .125\nKs .1 .2 .3\nNs 10\nmap_Kd a") + V + ".tga\nnewmtl B\nKd 0 0 0\nKe 1 2 3\nnewmtl C\nillum 7\nNi 1.5\n");
    }
}

// ------------------------------------------------------------------ the universe
struct Item { std::string name, key; Json prop; bool slow = false; };
// `at` is the locator of the group that will hold everything; v selects the parameter variant
inline std::vector<Item> universe(const std::string& at, const std::string& d, int v) {
    const auto L = [&](const std::string& n) { return at + "." + n; };
    const auto V = std::to_string(v);
    const double x = v ? 0.75 : 0.25;
    std::vector<Item> u;
    const Vec3 sh(0.1 * v, 0, 0);
    std::vector<T3> q = {{Vec3(-1, -1, 0) + sh, Vec3(1, -1, 0) + sh, Vec3(1, 1, 0) + sh}, {Vec3(-1, -1, 0) + sh, Vec3(1, 1, 0) + sh, Vec3(-1, 1, 0) + sh}};
    std::vector<T3> e = {{Vec3(-.5, -.5, 2) + sh, Vec3(-.5, .5, 2) + sh, Vec3(.5, .5, 2) + sh}};
    u.push_back({"tex_c", "texture::constant", {{"color", Vec3(x, .5, .125)}}});
    u.push_back({"tex_ca", "texture::constant", {{"color", Vec3(x, .5, .125)}, {"alpha", x}}});
    u.push_back({"tex_b", "texture::bitmap", {{"path", d + "/b" + V + ".tga"}}});
    u.push_back({"tex_ba", "texture::bitmap", {{"path", d + "/a" + V + ".tga"}, {"flip", v == 1}}});
    u.push_back({"mesh", "mesh::raw", mesh_prop(q)});
    u.push_back({"mesh_e", "mesh::raw", mesh_prop(e)});
    u.push_back({"mesh_obj", "mesh::wavefrontobj", {{"path", d + "/m" + V + ".obj"}}});
    u.push_back({"model", "model::wavefrontobj", {{"path", d + "/m" + V + ".obj"}, {"skip_specular_mat", false}}});
    u.push_back({"m_diff", "material::diffuse", {{"Kd", Vec3(x, .5, .25)}}});
    u.push_back({"m_difft", "material::diffuse", {{"mapKd", L("tex_b")}}});
    u.push_back({"m_difftc", "material::diffuse", {{"mapKd", L("tex_c")}}});
    u.push_back({"m_glossy", "material::glossy", {{"Ks", Vec3(x, .5, .25)}, {"ax", .2 + x}, {"ay", .3}}});
    u.push_back({"m_glass", "material::glass", {{"Ni", 1.2 + x}}});
    u.push_back({"m_mirror", "material::mirror", Json::object()});
    u.push_back({"m_mask", "material::mask", Json::object()});
    u.push_back({"m_proxy", "material::proxy", {{"ref", L("m_glossy")}}});
    u.push_back({"m_rr", "material::constant_weight_mixture_rr", Json::array({Json{{"material", L("m_diff")}, {"weight", x}}, Json{{"material", L("m_glossy")}, {"weight", 1 - x}}})});
    u.push_back({"m_marg", "material::constant_weight_mixture_marginalized", Json::array({Json{{"material", L("m_diff")}, {"weight", x}}, Json{{"material", L("m_glossy")}, {"weight", .25}}, Json{{"material", L("m_mirror")}, {"weight", .125}}})});
    u.push_back({"m_wf", "material::mixture_wavefrontobj", {{"Kd", Vec3(x, .5, .25)}, {"mapKd", L("tex_ba")}, {"Ks", Vec3(.25, x, .25)}, {"ax", .4}, {"ay", .2 + x}, {"no_alpha_mask", false}}});
    u.push_back({"m_wfn", "material::mixture_wavefrontobj", {{"Kd", Vec3(x, .5, .25)}, {"mapKd", ""}, {"Ks", Vec3(.25, x, .25)}, {"ax", .4}, {"ay", .2 + x}, {"no_alpha_mask", true}}});
    u.push_back({"l_area", "light::area", {{"Ke", Vec3(1 + x, 2, 3)}, {"mesh", L("mesh_e")}}});
    u.push_back({"l_point", "light::point", {{"Le", Vec3(1 + x, 2, 3)}, {"position", Vec3(0, x, 3)}}});
    u.push_back({"l_dir", "light::directional", {{"Le", Vec3(1 + x, 2, 3)}, {"direction", Vec3(x, .5, -1)}}});
    u.push_back({"l_envc", "light::envconst", {{"Le", Vec3(1 + x, 2, 3)}}});
    u.push_back({"l_env", "light::env", {{"path", d + "/b" + V + ".tga"}, {"rot", 30 + 90 * x}, {"scale", 1 + x}}});
    u.push_back({"cam", "camera::pinhole", {{"position", Vec3(0, x, 5)}, {"center", Vec3(0, 0, 0)}, {"up", Vec3(0, 1, 0)}, {"vfov", 30 + 10 * x}, {"aspect", 1.}}});
    u.push_back({"p_hg", "phase::hg", {{"g", x}}});
    u.push_back({"p_iso", "phase::isotropic", Json::object()});
    u.push_back({"v_cc", "volume::constant", {{"bound_min", Vec3(-1)}, {"bound_max", Vec3(1 + x)}, {"color", Vec3(x, .5, .25)}}});
    u.push_back({"v_cs", "volume::constant", {{"bound_min", Vec3(-1)}, {"bound_max", Vec3(1 + x)}, {"scalar", x}}});
    u.push_back({"v_chk", "volume::checker", {{"bound_min", Vec3(-1 - x)}, {"bound_max", Vec3(1)}}});
    u.push_back({"v_gau", "volume::gaussian", {{"color", Vec3(x, .5, .25)}, {"scalar", x}, {"pos", Vec3(x, 0, 0)}, {"sigma", Vec3(.5, x, .5)}}});
    u.push_back({"v_sph", "volume::sphere", {{"color", Vec3(.5, x, .25)}, {"scalar", 1 + x}, {"pos", Vec3(x, 0, 0)}, {"radius", .5 + x}}});
    u.push_back({"v_mul", "volume::multi", {{"volumes_den", {L("v_gau"), L("v_sph")}}, {"volumes_alb", {L("v_sph"), L("v_gau")}}}});
    u.push_back({"med_hom", "medium::homogeneous", {{"density", x}, {"albedo", Vec3(.5, x, .25)}, {"phase", L("p_hg")}, {"bound_min", Vec3(-2)}, {"bound_max", Vec3(2)}}});
    u.push_back({"med_het", "medium::heterogeneous", {{"volume_density", L("v_chk")}, {"volume_albedo", L("v_cc")}, {"phase", L("p_iso")}}});
    u.push_back({"med_het2", "medium::heterogeneous", {{"volume_density", L("v_mul")}, {"volume_albedo", L("v_mul")}, {"phase", L("p_hg")}}});
    u.push_back({"film", "film::bitmap", {{"w", 3 + v}, {"h", 2}}});
    u.push_back({"accel", "accel::sahbvh", Json::object()});
    u.push_back({"scene", "scene::default", {{"accel", L("accel")}}});
    u.push_back({"s_spps", "scheduler::spp::sample", {{"spp", 2 + v}, {"output", L("film")}}});
    u.push_back({"s_sppt", "scheduler::spp::time", {{"render_time", -1.}, {"output", L("film")}}});
    u.push_back({"s_spis", "scheduler::spi::sample", {{"num_samples", 3 + v}}});
    u.push_back({"s_spit", "scheduler::spi::time", {{"render_time", -1.}, {"samples_per_iter", 4 + v}}});
    const Json r = {{"scene", L("scene")}, {"output", L("film")}, {"max_verts", 3 + v}, {"seed", 7 + v}, {"scheduler", "sample"}, {"num_samples", 20}, {"spp", 2}, {"image_sample_mode", v ? "image" : "pixel"}, {"sampling_mode", v ? "nee" : "mis"}, {"rr_prob", .1 + .2 * v}, {"min_verts", 2 + v}};
    u.push_back({"r_blank", "renderer::blank", {{"color", Vec3(x, .5, .25)}, {"output", L("film")}}});
    u.push_back({"r_ray", "renderer::raycast", {{"scene", L("scene")}, {"output", L("film")}, {"bg_color", Vec3(x, 0, 1)}, {"visualize_normal", v == 1}}});
    u.push_back({"r_rayc", "renderer::raycast", {{"scene", L("scene")}, {"output", L("film")}, {"bg_color", Vec3(x, 0, 1)}, {"color", Vec3(.5, x, 0)}, {"use_constant_color", v == 1}}});
    for (auto n : {"pt", "lt", "volpt", "volpt_naive", "pt_naive_path", "pt_nee_path", "lt_nee_path", "bdpt", "bdptopt"})
        u.push_back({std::string("r_") + n, std::string("renderer::") + n, r, true});
    return u;
}
inline void populate_scene(const std::string& at, int v) {
    const auto L = [&](const std::string& n) { return at + "." + n; };
    auto* s = comp::get<Scene>(L("scene"));
    s->reset();
    s->add_primitive({{"camera", L("cam")}});
    s->add_primitive({{"mesh", L("mesh")}, {"material", v ? L("m_marg") : L("m_rr")}});
    s->add_primitive({{"mesh", L("mesh_e")}, {"material", L("m_difft")}, {"light", L("l_area")}});
    s->add_primitive({{"light", v ? L("l_env") : L("l_envc")}});
    s->add_primitive({{"light", L("l_dir")}});
    s->add_primitive({{"light", L("l_point")}});
    s->add_primitive({{"medium", v ? L("med_het2") : L("med_hom")}});
    const int ig = s->create_instance_group_node();
    s->add_child(ig, s->create_primitive_node({{"mesh", L("mesh_e")}, {"material", L("m_wf")}}));
    for (int i = 0; i < 2; i++) {
        const int g = s->create_group_node(glm::translate(Vec3(1.5 * i - .75, .25 * v, .5)) * glm::rotate(.3 + i, Vec3(0, 1, 0)));
        s->add_child(g, ig);
        s->add_child(s->root_node(), g);
    }
    const int gm = s->create_group_node(glm::translate(Vec3(0, -2, 0)));
    s->add_child_from_model(gm, L("model"));
    s->add_child(s->root_node(), gm);
    s->build();
}
// loads everything below `at`; `skip` leaves components out
inline void build_universe(const std::string& at, const std::string& d, int v, bool scene = true) {
    auto* g = comp::get<AssetGroup>(at);
    for (auto& it : universe(at, d, v)) {
        auto* p = g->load_asset(it.name, it.key, it.prop);
        if (!p) throw std::runtime_error("cannot load " + it.name);
        if (scene && it.name == "scene") populate_scene(at, v);
    }
}

// ------------------------------------------------------------------ fingerprints
struct FP {
    std::string s;
    FP& operator<<(double d) { char b[40]; if (std::isnan(d)) s += " nan"; else { snprintf(b, sizeof b, " %.13g", d); s += b; } return *this; }
    FP& operator<<(int d) { return *this << (double)d; }
    FP& operator<<(long long d) { return *this << (double)d; }
    FP& operator<<(bool d) { s += d ? " T" : " F"; return *this; }
    FP& operator<<(const Vec3& v) { return *this << v.x << v.y << v.z; }
    FP& operator<<(const Vec2& v) { return *this << v.x << v.y; }
    FP& operator<<(const std::string& v) { s += " '" + v + "'"; return *this; }
    FP& operator<<(const char* v) { s += std::string(" ") + v; return *this; }
    FP& operator<<(const Mat4& m) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) *this << m[i][j]; return *this; }
    FP& operator<<(const PointGeometry& g) {
        *this << g.degenerated << g.infinite;
        if (g.infinite) return *this << g.wo;
        *this << g.p; if (!g.degenerated) *this << g.n << g.gn; return *this; }
};
inline PointGeometry surf(Vec3 p, Vec3 n, Vec2 t = Vec2(.3, .7)) { return PointGeometry::make_on_surface(p, glm::normalize(n), glm::normalize(n), t); }
inline const std::vector<Vec3>& dirs() {
    static std::vector<Vec3> v = [] { std::vector<Vec3> r; for (auto d : {Vec3(0, 0, 1), Vec3(.3, .2, 1), Vec3(-1, .4, .5), Vec3(.7, -.6, -.4), Vec3(0.1, 0.2, -1)}) r.push_back(glm::normalize(d)); return r; }();
    return v;
}
inline const std::vector<double>& us() { static std::vector<double> v = {0.03, 0.41, 0.77}; return v; }
inline std::string lname(const Component* c, const std::string& at) { if (!c) return "null"; auto l = c->loc(); return l.rfind(at, 0) == 0 ? "@" + l.substr(at.size()) : l; }

inline std::string fingerprint(Component* c, const std::string& at) {
    FP f; f << c->key();
    if (auto* p = dynamic_cast<Texture*>(c)) {
        auto z = p->size(); f << z.w << z.h << p->has_alpha();
        for (double a : {-.3, .1, .6, 1.9}) for (double b : {.2, .8}) { f << p->eval(Vec2(a, b)); if (p->has_alpha()) f << p->eval_alpha(Vec2(a, b)); }
        for (int x = 0; x < z.w; x++) for (int y = 0; y < z.h; y++) f << p->eval_by_pixel_coords(x, y);
    }
    if (auto* p = dynamic_cast<Mesh*>(c)) {
        f << p->num_triangles();
        p->foreach_triangle([&](int i, const Mesh::Tri& t) {
            f << i; for (auto* q : {&t.p1, &t.p2, &t.p3}) f << q->p << q->n << q->t;
            auto tt = p->triangle_at(i); f << tt.p2.p;
            for (auto uv : {Vec2(.2, .3), Vec2(0, .9)}) { auto s = p->surface_point(i, uv); f << s.p << s.n << s.gn << s.t; }
        });
    }
    if (auto* p = dynamic_cast<Material*>(c)) {
        for (auto t : {Vec2(.1, .2), Vec2(.6, .8)}) {
            auto g = surf(Vec3(.1, .2, .3), Vec3(0, .1, 1), t);
            f << p->reflectance(g);
            for (auto& wi : dirs()) {
                std::set<int> comps;
                for (double u : {.01, .2, .4, .6, .8, .99}) { auto s = p->sample_component({Vec2(u, .5)}, g, wi); f << s.comp << s.weight; comps.insert(s.comp); }
                for (int k : comps) {
                    f << p->is_specular_component(k) << p->pdf_component(k, g, wi);
                    for (auto td : {Material::TransDir::LE, Material::TransDir::EL})
                        for (double a : us()) { auto s = p->sample_direction({Vec2(a, .6), Vec2(.9 - a * .8, .3)}, g, wi, k, td); f << bool(s); if (s) f << s->wo << s->weight; }
                    for (auto& wo : dirs()) for (bool ed : {false, true})
                        f << p->pdf_direction(g, wi, wo, k, ed) << p->eval(g, wi, wo, k, Material::TransDir::LE, ed) << p->eval(g, wi, wo, k, Material::TransDir::EL, ed);
                }
            }
        }
    }
    if (auto* p = dynamic_cast<Light*>(c)) {
        Transform tr(glm::translate(Vec3(.5, 0, 0)));
        f << p->is_specular() << p->is_infinite() << p->is_env();
        auto g = surf(Vec3(.1, .2, .3), Vec3(0, .1, 1));
        for (double a : us()) for (double b : us()) {
            auto s = p->sample_ray({Vec2(a, b), .4, Vec2(b, a)}, tr); f << bool(s); if (s) { f << s->geom << s->wo << s->weight; f << p->pdf_ray(s->geom, s->wo, tr, false) << p->eval(s->geom, s->wo, false) << p->is_connectable(s->geom); }
            auto t = p->sample_direct({Vec2(a, b), .4, Vec2(b, a)}, g, tr); f << bool(t); if (t) f << t->geom << t->wo << t->weight << p->pdf_direct(g, t->geom, tr, t->wo, false) << p->pdf_direct(g, t->geom, tr, t->wo, true) << p->eval(t->geom, t->wo, true);
            if (!p->is_infinite()) { auto q = p->sample_position({Vec2(a, b), .4}, tr); if (q) { f << q->geom << q->weight << p->pdf_position(q->geom, tr); auto w = p->sample_direction({Vec2(b, a)}, q->geom); if (w) f << w->wo << w->weight << p->pdf_direction(q->geom, w->wo); } }
        }
    }
    if (auto* p = dynamic_cast<Camera*>(c)) {
        f << p->view_matrix() << p->projection_matrix();
        for (double a : us()) for (double b : us()) { auto r = p->primary_ray(Vec2(a, b)); f << r.o << r.d << p->eval(r.d); auto rp = p->raster_position(r.d); if (rp) f << *rp;
            auto s = p->sample_ray({Vec2(a, b)}); f << s->geom << s->wo << s->weight << p->pdf_ray(s->geom, s->wo); }
        auto s = p->sample_direct({Vec2(.5)}, surf(Vec3(.1, .2, .3), Vec3(0, .1, 1))); if (s) f << s->wo << s->weight;
    }
    if (auto* p = dynamic_cast<Phase*>(c)) {
        auto g = PointGeometry::make_degenerated(Vec3(.1));
        for (auto& wi : dirs()) { for (auto& wo : dirs()) f << p->pdf_direction(g, wi, wo) << p->eval(g, wi, wo); for (double a : us()) { auto s = p->sample_direction({Vec2(a, .3)}, g, wi); f << s->wo << s->weight; } }
    }
    if (auto* p = dynamic_cast<Volume*>(c)) {
        auto b = p->bound(); f << b.min << b.max << p->has_scalar() << p->has_color();
        if (p->has_scalar()) f << p->max_scalar();
        for (auto q : {Vec3(.1, .2, .3), Vec3(-.4, .3, .1), Vec3(.7, .1, -.2)}) { if (p->has_scalar()) f << p->eval_scalar(q); if (p->has_color()) f << p->eval_color(q); }
    }
    if (auto* p = dynamic_cast<Medium*>(c)) {
        f << p->is_emitter() << lname(p->phase(), at);
        if (p->phase()) f << p->phase()->pdf_direction(PointGeometry::make_degenerated(Vec3(.1)), dirs()[0], dirs()[1]);
        for (int seed = 1; seed < 6; seed++) { Rng r(seed); Ray ray{Vec3(-3, .1, .2), glm::normalize(Vec3(1, .05, .1))}; auto s = p->sample_distance(r, ray, 0, 20); f << bool(s); if (s) f << s->p << s->weight << s->medium; f << p->eval_transmittance(r, ray, 0, 4); }
    }
    if (auto* p = dynamic_cast<Film*>(c)) { auto b = p->buffer(); f << b.w << b.h; for (int i = 0; i < b.w * b.h * 3; i++) f << b.data[i]; }
    if (auto* p = dynamic_cast<Accel*>(c)) { }
    if (auto* p = dynamic_cast<Model*>(c)) {
        p->create_primitives([&](Component* a, Component* b, Component* l) { f << lname(a, at) << lname(b, at) << lname(l, at); });
    }
    if (auto* p = dynamic_cast<Scene*>(c)) {
        f << p->num_nodes() << p->num_lights() << p->camera_node() << p->env_light_node() << p->medium_node() << lname(p->accel(), at);
        for (int i = 0; i < p->num_nodes(); i++) {
            auto& n = p->node_at(i); f << (int)n.type << n.index;
            if (n.type == SceneNodeType::Primitive) f << lname(n.primitive.mesh, at) << lname(n.primitive.material, at) << lname(n.primitive.light, at) << lname(n.primitive.camera, at) << lname(n.primitive.medium, at);
            else { f << n.group.instanced; if (n.group.local_transform) f << *n.group.local_transform; for (int k : n.group.children) f << k; }
        }
        p->traverse_primitive_nodes([&](const SceneNode& n, Mat4 m) { f << n.index << m; });
        for (int i = 0; i < p->num_lights(); i++) { auto l = p->light_primitive_index_at(i); f << l.index << l.global_transform.M << p->light_index_at(l.index) << p->pdf_light_selection(i); }
        if (p->num_lights() > 0) for (double u : us()) { auto s = p->sample_light_selection(u); f << s.light_index << s.p_sel; }
        if (p->accel() && p->num_nodes() > 1)
            for (double x : {-1.1, -.4, .13, .8}) for (double y : {-2.2, -.3, .45}) { auto h = p->intersect({Vec3(x, y, 4), glm::normalize(Vec3(.03, .02, -1))}); f << bool(h); if (h) f << h->primitive << h->geom; }
    }
    if (auto* p = dynamic_cast<scheduler::Scheduler*>(c)) {
        long long n = p->run([&](long long px, long long s, int th) { f << px << s << th; }); f << n;
    }
    if (auto* p = dynamic_cast<Renderer*>(c)) {
        Json r; std::string err;
        std::thread th([&] { try { parallel::init("openmp", {{"num_threads", 1}}); r = p->render(); } catch (const std::exception& e) { err = e.what(); } });
        th.join();
        f << err;
        if (r.is_object() && r.find("processed") != r.end()) f << r["processed"].get<double>();
        if (auto* fl = comp::get<Film>(at + ".film")) { auto b = fl->buffer(); for (int i = 0; i < b.w * b.h * 3; i++) f << b.data[i]; fl->clear(); }
    }
    return f.s;
}
// all components owned below (and including) `root`, by locator relative to it
inline std::vector<std::pair<std::string, Component*>> owned(Component* root) {
    std::vector<std::pair<std::string, Component*>> r;
    std::function<void(Component*&, bool)> vis = [&](Component*& c, bool weak) { if (!c || weak) return; r.push_back({c->loc(), c}); c->foreach_underlying(vis); };
    Component* t = root; vis(t, false);
    return r;
}
}
