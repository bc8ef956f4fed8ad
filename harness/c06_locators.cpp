// C06: every component is reachable by exactly its own locator.
// The tree holds one instance of every shipped component; the expected ownership and references are written down
// here independently of the traversal functions of the code.
#include "harness/catalogue.h"
using namespace lm;
using namespace H;
namespace {
struct Node { std::string key; std::multiset<std::string> weak; };
using Tree = std::map<std::string, Node>;          // locator -> what must be there

void refs_in(const Json& j, std::multiset<std::string>& out) {
    if (j.is_string()) { auto s = j.get<std::string>(); if (s.rfind("$.", 0) == 0) out.insert(s); }
    else if (j.is_structured()) for (auto& k : j) refs_in(k, out);
}
void write_extra(const std::string& d) {
    // names which are no valid path elements, coincide with each other or with generated names
    mkdir((d + "/sub").c_str(), 0777);
    put_file(d + "/sub/a0.tga", tga(1, 1, 3, [](int, int, int k) { return 200 + k; }));
    put_file(d + "/t.x.tga", tga(1, 1, 3, [](int, int, int k) { return 100 + k; }));
    put_file(d + "/n.mtl", "newmtl A.001\nKd 1 0 0\nmap_Kd a0.tga\nnewmtl A_001\nKd 0 1 0\nmap_Kd sub/a0.tga\nnewmtl mesh_8\nKd 0 0 1\nKe 1 1 1\nmap_Kd t.x.tga\nnewmtl texture_q\nKd .5 0 0\nmap_Kd a0.tga\n");
    put_file(d + "/n.obj", "mtllib n.mtl\nv 0 0 0\nv 1 0 0\nv 0 1 0\nusemtl A.001\nf 1 2 3\nusemtl A_001\nf 2 1 3\nusemtl mesh_8\nf 1 3 2\nusemtl texture_q\nf 3 2 1\n");
}
void expect_universe(Tree& t, const std::string& at, const std::string& d, int v) {
    auto L = [&](const std::string& n) { return at + "." + n; };
    const auto u = universe(at, d, v);
    for (auto& it : u) { auto& n = t[L(it.name)]; n.key = it.key; refs_in(it.prop, n.weak); }
    for (auto& it : u) if (it.key.rfind("renderer::", 0) == 0 && it.key != "renderer::blank") {
        std::string k;
        const auto l = L(it.name) + ".scheduler";
        Component* c = comp::get<Component>(l);     // which of the two families a renderer uses is its own business
        k = c ? c->key() : "?";
        auto& n = t[l]; n.key = k; if (k.rfind("scheduler::spp", 0) == 0) n.weak.insert(L("film"));
    }
    t[L("l_env.envmap")].key = "texture::bitmap";
    for (auto m : {"m_wf", "m_wfn"}) {
        t[L(m) + ".diffuse"].key = "material::diffuse"; t[L(m) + ".glossy"].key = "material::glossy";
        t[L(m)].weak.clear();
        if (m == std::string("m_wf")) { t[L("m_wf.diffuse")].weak.insert(L("tex_ba")); t[L("m_wf")].weak.insert(L("tex_ba")); }
    }
    // model: textures, materials, then meshes with lights, in file order
    const auto M = L("model") + ".";
    const auto tex = M + "texture_a" + std::to_string(v);
    t[tex].key = "texture::bitmap";
    t[M + "A"] = {"material::mixture_wavefrontobj", {tex}}; t[M + "A.diffuse"] = {"material::diffuse", {tex}}; t[M + "A.glossy"].key = "material::glossy";
    t[M + "B"].key = "material::mixture_wavefrontobj"; t[M + "B.diffuse"].key = "material::diffuse"; t[M + "B.glossy"].key = "material::glossy";
    t[M + "C"].key = "material::glass";
    t[M + "mesh_4"] = {"mesh::wavefrontobj_ref", {L("model")}};
    t[M + "mesh_5"] = {"mesh::wavefrontobj_ref", {L("model")}};
    t[M + "mesh_5_light"] = {"light::area", {M + "mesh_5"}};
    t[M + "mesh_7"] = {"mesh::wavefrontobj_ref", {L("model")}};
    // the scene refers to everything its primitives use
    auto& s = t[L("scene")].weak; s = {L("accel")};
    std::vector<std::string> p = {"cam", "mesh", v ? "m_marg" : "m_rr", "mesh_e", "m_difft", "l_area", v ? "l_env" : "l_envc", "l_dir", "l_point", v ? "med_het2" : "med_hom", "mesh_e", "m_wf",
        "model.mesh_4", "model.A", "model.mesh_5", "model.B", "model.mesh_5_light", "model.mesh_7", "model.C"};
    for (auto& n : p) s.insert(L(n));
}
std::string show(const std::multiset<std::string>& s) { std::string r = "{"; for (auto& x : s) r += x + " "; return r + "}"; }

// compares the tree below `at` with the expectation; weak references are compared as sets
void compare_tree(vp::Ctx& ctx, const Tree& t, const std::string& at) {
    // (1) by locator
    for (auto& [l, n] : t) {
        auto* c = comp::get<Component>(l);
        ctx.checkf(c != nullptr, "unreachable:" + l, [&] { return "no component under locator " + l; });
        if (!c) continue;
        ctx.checkf(c->loc() == l, "wrong-loc:" + l, [&] { return "the component under " + l + " says its locator is '" + c->loc() + "'"; });
        ctx.checkf(c->key() == n.key, "wrong-key:" + l, [&] { return "the component under " + l + " is a " + c->key() + ", expected " + n.key; });
        ctx.checkf(comp::get<Component>(c->parent_loc()) && comp::get<Component>(c->parent_loc())->underlying(c->name()) == c, "parent:" + l, [&] { return "the parent of " + l + " does not return it by its name"; });
        std::set<std::string> weak, own, xown, xweak(n.weak.begin(), n.weak.end());
        c->foreach_underlying([&](Component*& k, bool w) {
            if (!k) return;
            (w ? weak : own).insert(k->loc());
            auto* q = comp::get<Component>(k->loc());
            ctx.checkf(q == k, "other-instance:" + l, [&] { return l + " visits " + k->loc() + ", but that locator designates another instance"; });
        });
        for (auto it = t.upper_bound(l + "."); it != t.end() && it->first.rfind(l + ".", 0) == 0; ++it) if (it->first.find('.', l.size() + 1) == std::string::npos) xown.insert(it->first);
        auto str = [](const std::set<std::string>& s) { std::string r; for (auto& x : s) r += " " + x; return r; };
        ctx.checkf(own == xown, "owned:" + l, [&] { return l + " visits as owned:" + str(own) + "; expected:" + str(xown); });
        ctx.checkf(weak == xweak, "weak:" + l, [&] { return l + " visits as weak:" + str(weak) + "; expected:" + str(xweak); });
    }
    // (2) by traversal: nothing else, nothing twice
    std::map<std::string, int> seen;
    for (auto& [l, c] : owned(comp::get<Component>(at))) {
        ctx.checkf(++seen[l] == 1, "twice:" + l, [&] { return "two owned components share the locator " + l; });
        ctx.checkf(l == at || t.count(l), "unexpected:" + l, [&] { return "unexpected component " + l; });
        ctx.checkf(comp::get<Component>(l) == c, "self:" + l, [&] { return "querying " + l + " does not return the component owned under it"; });
    }
}
// (3) as printed for the user: every component once, below its owner, with its key, and its references below it
void compare_printed(vp::Ctx& ctx, const Tree& t, bool weak) {
    std::stringstream ss; auto* old = std::cout.rdbuf(ss.rdbuf());
    log::init("default", {{"color", false}});
    try { debug::print_asset_tree(weak); } catch (...) { std::cout.rdbuf(old); throw; }
    std::cout.rdbuf(old); log::init("default"); log::set_severity(1000);
    std::vector<std::string> path; std::map<std::string, std::string> got; std::map<std::string, std::set<std::string>> refs; std::string line;
    while (std::getline(ss, line)) {
        auto h = line.find("] "); if (h == std::string::npos) continue;
        line = line.substr(h + 2); size_t ind = 0;
        if (line.compare(0, 2, "..") == 0) { ind = line.find(' '); if (ind == std::string::npos) continue; line = line.substr(ind + 1); ind /= 2; }
        if (line.rfind("-> ", 0) == 0) { path.resize(std::min(path.size(), ind)); refs[path.empty() ? "" : path.back()].insert(line.substr(3)); continue; }
        auto k = line.find(" ["); std::string id = line.substr(0, k), key = k == std::string::npos ? "" : line.substr(k + 2, line.size() - k - 3);
        if (ind == 0) { path = {id}; continue; }
        ctx.checkf(ind <= path.size(), "printed-depth", [&] { return "line '" + line + "' is indented by " + std::to_string(ind) + " below depth " + std::to_string(path.size()); });
        path.resize(std::min(path.size(), ind)); const auto loc = (path.empty() ? "" : path.back()) + id; path.push_back(loc);
        ctx.checkf(got.emplace(loc, key).second, "printed-twice:" + loc, [&] { return loc + " is printed twice"; });
    }
    for (auto& [l, n] : t) { ctx.checkf(got.count(l) && got[l] == n.key, "printed:" + l, [&] { return "component " + l + " [" + n.key + "] is " + (got.count(l) ? "printed as " + got[l] : std::string("missing in the printed tree")); });
        std::set<std::string> w; if (weak) w.insert(n.weak.begin(), n.weak.end());
        ctx.checkf(refs[l] == w, "printed-references:" + l, [&] { return "references of " + l + " are not printed below it"; }); }
    for (auto& [l, k] : got) ctx.checkf(t.count(l), "printed-unknown:" + l, [&] { return "the printed tree contains " + l + " [" + k + "]"; });
}
void trees(vp::Ctx& ctx, int v) {
    init(1);
    ctx.bound("one instance of every shipped component, parameter variants 0/1; at the root, in a group, in a group of a group; fresh, every asset replaced, state saved and restored, group saved and restored under another name");
    write_files(ctx.scratch);
    ctx.explore([&](vp::Chooser& ch) {
        const int depth = ch.choose(3), hist = ch.choose(4);
        ctx.trace("variant " + std::to_string(v) + " depth " + std::to_string(depth) + " history " + std::to_string(hist));
        lm::reset();
        std::string at = "$.assets"; Tree t;
        AssetGroup* g = lm::assets();
        for (int i = 0; i < depth; i++) { auto n = "g" + std::to_string(i); g = dynamic_cast<AssetGroup*>(g->load_asset(n, "asset_group::default", {})); at += "." + n; t[at].key = "asset_group::default"; }
        build_universe(at, ctx.scratch, v);
        if (hist == 1) for (auto& it : universe(at, ctx.scratch, v)) if (it.name != "scene") comp::get<AssetGroup>(at)->load_asset(it.name, it.key, it.prop);
        if (hist == 2) { auto f = ctx.scratch + "/s"; lm::save_state_to_file(f); lm::reset(); lm::load_state_from_file(f); }
        if (hist == 3) {
            if (!depth) return;
            auto f = ctx.scratch + "/s2";
            { std::ofstream os(f, std::ios::binary); serial::save_comp_owned(os, comp::get<Component>("$.assets.g0"), "$.assets.g0"); }
            lm::reset();
            lm::assets()->load_serialized("zz", f);
            t.clear(); at = "$.assets.zz" + at.substr(std::string("$.assets.g0").size());
            t["$.assets.zz"].key = "asset_group::default"; if (depth == 2) t["$.assets.zz.g1"].key = "asset_group::default";
        }
        expect_universe(t, at, ctx.scratch, v);
        // after a replacement the scene keeps the primitives, which follow the new instances, but the parts of a replaced model are new
        if (hist == 1) { }
        compare_tree(ctx, t, "$.assets");
        for (bool weak : {false, true}) compare_printed(ctx, t, weak);
        ctx.extra_transitions += t.size();
        ctx.state(at + std::to_string(hist) + std::to_string(v));
        lm::reset();
    });
}
// files whose names need care
void names(vp::Ctx& ctx) {
    init(1);
    ctx.bound("OBJ/MTL names containing dots, coinciding with each other, with generated names, and textures of the same file name in different directories; reloading a saved state");
    write_files(ctx.scratch); write_extra(ctx.scratch);
    ctx.explore([&](vp::Chooser& ch) {
        const bool restore = ch.flip(), base = ch.flip();
        lm::reset();
        lm::assets()->load_asset("bm", "material::diffuse", {{"Kd", Vec3(1)}});
        Json p = {{"path", ctx.scratch + "/n.obj"}}; if (base) p["base_material"] = "$.assets.bm";
        lm::assets()->load_asset("m", "model::wavefrontobj", p);
        lm::assets()->load_asset("acc", "accel::sahbvh", {});
        auto* s = dynamic_cast<Scene*>(lm::assets()->load_asset("s", "scene::default", {{"accel", "$.assets.acc"}}));
        s->add_child_from_model(s->root_node(), "$.assets.m");
        if (restore) { auto f = ctx.scratch + "/s3"; lm::save_state_to_file(f); lm::reset(); lm::load_state_from_file(f); }
        std::set<std::string> locs;
        for (auto& [l, c] : owned(comp::get<Component>("$.assets"))) {
            ctx.checkf(locs.insert(l).second, "twice:" + l, [&] { return "two components share the locator " + l; });
            ctx.checkf(comp::get<Component>(l) == c, "self:" + l, [&] { return "querying " + l + " does not return the component owned under it"; });
            const auto nm = l; const auto* cc = c;
            c->foreach_underlying([&](Component*& k, bool) { if (k) ctx.checkf(comp::get<Component>(k->loc()) == k, "ref:" + nm, [&] { return nm + " visits " + k->loc() + ", which designates another component"; }); });
            (void)cc;
        }
        std::vector<Vec3> want = base ? std::vector<Vec3>(4, Vec3(1)) : std::vector<Vec3>();
        int k = 0;
        comp::get<Model>("$.assets.m")->create_primitives([&](Component* mesh, Component* mat, Component* light) {
            ctx.checkf(mesh && dynamic_cast<Mesh*>(mesh) && mat && dynamic_cast<Material*>(mat), "prim", [&] { return "primitive " + std::to_string(k) + " lacks its mesh or material"; });
            ctx.checkf((light != nullptr) == (k == 2), "light", [&] { return "primitive " + std::to_string(k) + (light ? " has a light" : " has no light"); });
            if (!base) {
                // the texture decides the diffuse reflectance: a0.tga, sub/a0.tga, t.x.tga, a0.tga
                auto* m = dynamic_cast<Material*>(comp::get<Component>(mat->loc() + ".diffuse"));
                if (m) {
                    auto g = surf(Vec3(0), Vec3(0, 0, 1), Vec2(.1, .1)); auto c = m->reflectance(g);
                    auto* t = comp::get<Texture>("$.assets.m." + std::string("texture_a0")); (void)t;
                    want.push_back(c);
                } else ctx.record("diffuse", "no diffuse part of material " + mat->loc());
            }
            k++;
        });
        ctx.check(k == 4, "groups", "four primitives expected");
        if (!base && want.size() == 4) {
            auto t = [&](const std::string& f) { auto c = comp::create<Texture>("texture::bitmap", "", {{"path", ctx.scratch + "/" + f}}); return c->eval(Vec2(.1, .1)); };
            const Vec3 x[] = {t("a0.tga"), t("sub/a0.tga"), t("t.x.tga"), t("a0.tga")};
            for (int i = 0; i < 4; i++) ctx.checkf(glm::length(want[i] - x[i]) < 1e-6, "texture", [&] { return "primitive " + std::to_string(i) + " does not carry the texture of its material"; });
        }
        ctx.state(std::string(restore ? "r" : "f") + (base ? "b" : "-"));
        lm::reset();
    });
}
// every string of path elements: a component or nothing
void strings(vp::Ctx& ctx, int depth) {
    init(1);
    ctx.bound("all locator strings of up to " + std::to_string(depth + 1) + " path elements over: all names occurring in the tree, '$', empty, unknown, numeric, blank and control characters; typed queries for every interface");
    write_files(ctx.scratch);
    lm::reset();
    auto* g = dynamic_cast<AssetGroup*>(lm::assets()->load_asset("g", "asset_group::default", {}));
    build_universe("$.assets", ctx.scratch, 0);
    g->load_asset("m_diff", "material::diffuse", {{"Kd", Vec3(.5)}});
    g->load_asset("g", "asset_group::default", {});
    std::map<std::string, Component*> all; std::map<Component*, std::set<Component*>> weak; std::set<std::string> nm = {"$", "assets", "", "nope", "0", " ", "-1", "$.assets ", "\t", "assets\n"};
    auto* root = comp::get<Component>("$");
    for (auto& [l, c] : owned(root)) { all[l] = c; auto i = l.rfind('.'); if (i != std::string::npos) nm.insert(l.substr(i + 1)); c->foreach_underlying([&weak, c = c](Component*& k, bool w) { if (k && w) weak[c].insert(k); }); }
    nm.insert("mapKd"); nm.insert("ref"); nm.insert("scene"); nm.insert("envmap");
    std::vector<std::string> names(nm.begin(), nm.end());
    const std::vector<std::string> first = {"$", "assets", "", "$$", " $", "$ ", "nope"}, second = {"assets", "$", "", "g", "nope", "asset", "assets ", "Assets"};
    auto query = [&](const std::string& s) {
        Component* p = nullptr;
        try { p = comp::get<Component>(s); } catch (const std::exception& e) { ctx.record("throws", "get('" + s + "') throws " + e.what()); return; }
        ctx.extra_transitions++;
        auto it = all.find(s);
        if (it != all.end()) { ctx.checkf(p == it->second, "wrong", [&] { return "get('" + s + "') does not return the component of this locator"; }); return; }
        if (!p) return;
        // no component has this locator: the only other thing it may name is a reference held by the component before the last dot
        auto i = s.rfind('.'); auto par = i == std::string::npos ? all.end() : all.find(s.substr(0, i));
        ctx.checkf(par != all.end() && weak[par->second].count(p), "phantom", [&] { return "get('" + s + "') returns " + p->loc() + ", although no component is called so"; });
    };
    ctx.explore([&](vp::Chooser& ch) {
        const auto a = first[ch.choose(first.size())];
        const int k = ch.choose(second.size() + 1);
        std::string s = a; ctx.trace("prefix '" + a + "'");
        if (k == 0) { query(s); ctx.state(s); return; }
        s += "." + second[k - 1]; ctx.trace(second[k - 1]);
        ctx.state(s);
        query(s); query(s + "."); query("." + s);
        std::function<void(const std::string&, int)> rec = [&](const std::string& pre, int d) { for (auto& n : names) { query(pre + "." + n); if (d > 1) rec(pre + "." + n, d - 1); } };
        rec(s, depth - 1);
        if (k == 1 && a == "$") {
            // typed queries
            for (auto& [l, c] : all) {
                auto typed = [&](auto* t, const char* what) { using T = std::remove_pointer_t<decltype(t)>; ctx.extra_transitions++; ctx.checkf(comp::get<T>(l) == dynamic_cast<T*>(c), "typed", [&] { return "typed query of " + l + " for " + what + " is wrong"; }); };
                typed((Mesh*)0, "Mesh"); typed((Material*)0, "Material"); typed((Light*)0, "Light"); typed((Camera*)0, "Camera"); typed((Texture*)0, "Texture"); typed((Film*)0, "Film"); typed((Scene*)0, "Scene"); typed((Accel*)0, "Accel");
                typed((Medium*)0, "Medium"); typed((Phase*)0, "Phase"); typed((Volume*)0, "Volume"); typed((Renderer*)0, "Renderer"); typed((Model*)0, "Model"); typed((AssetGroup*)0, "AssetGroup"); typed((scheduler::Scheduler*)0, "Scheduler");
            }
        }
    });
    lm::reset();
}
SCENARIO("tree_v0") { trees(ctx, 0); }
SCENARIO("tree_v1") { trees(ctx, 1); }
SCENARIO("names") { names(ctx); }
SCENARIO("strings") { strings(ctx, 3); }
SCENARIO_T("strings_deep") { strings(ctx, 4); }
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
