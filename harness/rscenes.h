#pragma once
// Small scenes covering every light and material class, for the light transport checks.
#include "harness/catalogue.h"
namespace H {
struct RScene {
    std::string name, floor, wall, object; std::vector<std::string> lights;
    bool smooth = false;            // interpolated shading normals on the floor
    bool refr = false;              // refraction: contributions depend on the transport direction
    bool has(const std::string& l) const { return std::find(lights.begin(), lights.end(), l) != lights.end(); }
};
inline std::vector<RScene> rscenes() {
    return {
        {"diffuse, area light", "d1", "d2", "d3", {"a"}},
        {"diffuse, point light", "d1", "d2", "d3", {"p"}},
        {"diffuse, directional light", "d1", "d2", "d3", {"d"}},
        {"diffuse, environment map", "d1", "d2", "d3", {"e"}},
        {"diffuse, constant environment", "d1", "d2", "d3", {"c"}},
        {"diffuse, area + point + constant environment", "d1", "d2", "d3", {"a", "p", "c"}},
        {"diffuse, two area lights, one transformed", "d1", "d2", "d3", {"a", "t"}},
        {"glossy floor, area light", "g", "d2", "d3", {"a"}},
        {"mirror wall, area light", "d1", "m", "d3", {"a"}},
        {"mirror wall, directional light", "d1", "m", "d3", {"d"}},
        {"glass object, area light", "d1", "d2", "gl", {"a"}, false, true},
        {"glass object, constant environment", "d1", "d2", "gl", {"c"}, false, true},
        {"mixture (roulette) floor, area + environment", "rr", "d2", "d3", {"a", "c"}},
        {"mixture (marginalised) floor, area light", "mg", "d2", "d3", {"a"}},
        {"wavefront mixture with mask, area light", "wf", "d2", "wm", {"a"}},
        {"smooth normals, area light", "d1", "d2", "d3", {"a"}, true},
        {"smooth normals, glossy, point + environment", "g", "d2", "d3", {"p", "e"}, true},
        {"textured floor, proxy wall, directional + area", "tx", "px", "d3", {"d", "a"}},
    };
}
inline std::vector<T3> quad(Vec3 a, Vec3 b, Vec3 c, Vec3 d) { return {{a, b, c}, {a, c, d}}; }
inline void load_rassets(const std::string& dir, double aspect = 1.25) {
    auto* a = lm::assets();
    put_file(dir + "/e.tga", tga(4, 3, 3, [](int x, int y, int k) { return 60 + 40 * x + 11 * y + 5 * k; }));
    put_file(dir + "/t.tga", tga(3, 2, 3, [](int x, int y, int k) { return 90 + 40 * x + 31 * y + 15 * k; }));
    put_file(dir + "/m.tga", tga(2, 2, 4, [](int x, int y, int k) { return k == 3 ? 90 + 40 * x + 61 * y : 120 + 40 * x + 31 * y + 15 * k; }));
    a->load_asset("cam", "camera::pinhole", {{"position", Vec3(.3, 2, 6)}, {"center", Vec3(0, 1, 0)}, {"up", Vec3(0, 1, 0)}, {"vfov", 45.}, {"aspect", aspect}});
    a->load_asset("d1", "material::diffuse", {{"Kd", Vec3(.8, .6, .4)}}); a->load_asset("d2", "material::diffuse", {{"Kd", Vec3(.5, .7, .3)}}); a->load_asset("d3", "material::diffuse", {{"Kd", Vec3(.3, .4, .9)}});
    a->load_asset("g", "material::glossy", {{"Ks", Vec3(.8, .6, .5)}, {"ax", .5}, {"ay", .7}}); a->load_asset("m", "material::mirror", {}); a->load_asset("gl", "material::glass", {{"Ni", 1.5}}); a->load_asset("mk", "material::mask", {});
    a->load_asset("tx0", "texture::bitmap", {{"path", dir + "/t.tga"}}); a->load_asset("tx", "material::diffuse", {{"mapKd", "$.assets.tx0"}}); a->load_asset("px", "material::proxy", {{"ref", "$.assets.d2"}});
    a->load_asset("rr", "material::constant_weight_mixture_rr", Json::array({Json{{"material", "$.assets.d1"}, {"weight", .5}}, Json{{"material", "$.assets.g"}, {"weight", .3}}, Json{{"material", "$.assets.m"}, {"weight", .2}}}));
    a->load_asset("mg", "material::constant_weight_mixture_marginalized", Json::array({Json{{"material", "$.assets.d1"}, {"weight", .6}}, Json{{"material", "$.assets.g"}, {"weight", .4}}}));
    a->load_asset("txm", "texture::bitmap", {{"path", dir + "/m.tga"}});
    a->load_asset("wf", "material::mixture_wavefrontobj", {{"Kd", Vec3(.6, .5, .4)}, {"mapKd", ""}, {"Ks", Vec3(.3, .4, .3)}, {"ax", .4}, {"ay", .6}, {"no_alpha_mask", true}});
    a->load_asset("wm", "material::mixture_wavefrontobj", {{"Kd", Vec3(.6, .5, .4)}, {"mapKd", "$.assets.txm"}, {"Ks", Vec3(.3, .4, .3)}, {"ax", .4}, {"ay", .6}, {"no_alpha_mask", false}});
    auto fl = mesh_prop(quad(Vec3(-2.5, 0, 2.5), Vec3(2.5, 0, 2.5), Vec3(2.5, 0, -2), Vec3(-2.5, 0, -2)));
    a->load_asset("floor", "mesh::raw", fl);
    { auto f = fl; auto& ns = f["ns"]; for (size_t i = 0; i < ns.size(); i += 3) { Vec3 p(f["ps"][i].get<double>(), f["ps"][i + 1].get<double>(), f["ps"][i + 2].get<double>()); Vec3 n = glm::normalize(Vec3(-.3 + .25 * p.x / 2.5, 1, .35 + .2 * p.z / 2.5)); for (int k = 0; k < 3; k++) ns[i + k] = n[k]; } a->load_asset("sfloor", "mesh::raw", f); }
    a->load_asset("wall", "mesh::raw", mesh_prop(quad(Vec3(-2.5, 0, -2), Vec3(2.5, 0, -2), Vec3(2.5, 4, -2), Vec3(-2.5, 4, -2))));
    a->load_asset("obj", "mesh::raw", mesh_prop(quad(Vec3(-1.6, .4, .3), Vec3(.1, .3, 1.2), Vec3(.1, 1.4, .9), Vec3(-1.6, 1.5, -.1))));
    a->load_asset("lm", "mesh::raw", mesh_prop(quad(Vec3(-1.2, 3.6, -1), Vec3(1.2, 3.6, -1), Vec3(1.2, 3.6, 1.4), Vec3(-1.2, 3.6, 1.4))));
    a->load_asset("lt", "mesh::raw", mesh_prop(quad(Vec3(-.5, -.5, 0), Vec3(.5, -.5, 0), Vec3(.5, .5, 0), Vec3(-.5, .5, 0))));
    a->load_asset("la", "light::area", {{"Ke", Vec3(3, 2, 1)}, {"mesh", "$.assets.lm"}}); a->load_asset("ltt", "light::area", {{"Ke", Vec3(1, 2, 4)}, {"mesh", "$.assets.lt"}});
    a->load_asset("lp", "light::point", {{"Le", Vec3(5, 6, 7)}, {"position", Vec3(1, 2.8, 1)}}); a->load_asset("ld", "light::directional", {{"Le", Vec3(1, 2, 3)}, {"direction", Vec3(.3, -1, -.4)}}); a->load_asset("le", "light::env", {{"path", dir + "/e.tga"}, {"rot", 40.}, {"scale", 2.}}); a->load_asset("lc", "light::envconst", {{"Le", Vec3(1, .8, .6)}});
}
inline Scene* build_rscene(const RScene& r) {
    auto* a = lm::assets(); a->load_asset("ac", "accel::sahbvh", {});
    auto* s = dynamic_cast<Scene*>(a->load_asset("sc", "scene::default", {{"accel", "$.assets.ac"}})); auto L = [](const std::string& n) { return "$.assets." + n; };
    s->add_primitive({{"camera", L("cam")}});
    s->add_primitive({{"mesh", L(r.smooth ? "sfloor" : "floor")}, {"material", L(r.floor)}}); s->add_primitive({{"mesh", L("wall")}, {"material", L(r.wall)}}); s->add_primitive({{"mesh", L("obj")}, {"material", L(r.object)}});
    for (auto& l : r.lights) {
        if (l == "a") s->add_primitive({{"mesh", L("lm")}, {"material", L("d2")}, {"light", L("la")}});
        else if (l == "t") { const int g = s->create_group_node(glm::translate(Vec3(2.2, 1.6, .5)) * glm::rotate(-Pi / 2 + .3, Vec3(0, 1, 0)) * glm::scale(Vec3(2, 1.5, .5))); s->add_child(g, s->create_primitive_node({{"mesh", L("lt")}, {"material", L("d1")}, {"light", L("ltt")}})); s->add_child(s->root_node(), g); }
        else s->add_primitive({{"light", L("l" + l)}});
    }
    s->build(); return s;
}
}
