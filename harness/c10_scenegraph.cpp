// C10: the scene graph is flattened with the right transforms, lights and indices.
// Explicit enumeration of all histories of node-creating and linking operations, executed on the real scene and compared with a
// reference graph after every build.
#include "harness/catalogue.h"
#include <lm/loggercontext.h>
#include <lm/accel.h>
using namespace lm;
using namespace H;
namespace {
int g_errors = 0;
struct CountLogger final : public log::LoggerContext {
    void construct(const Json&) override {}
    void log(log::LogLevel level, int, const char*, int, const char*) override { if (level == log::LogLevel::Err) g_errors++; }
    void update_indentation(int) override {}
    void set_severity(int) override {}
};
struct NoAccel final : public Accel {
    int builds = 0;
    void construct(const Json&) override {}
    void build(const Scene&) override { builds++; }
    std::optional<Hit> intersect(Ray, Float, Float) const override { return {}; }
};
struct SpyLight final : public Light {
    bool env = false; int nbound = 0; Bound b;
    void construct(const Json& p) override { env = json::value(p, "env", false); }
    void set_scene_bound(const Bound& bb) override { nbound++; b = bb; }
    std::optional<RaySample> sample_ray(const RaySampleU&, const Transform&) const override { return {}; }
    Float pdf_ray(const PointGeometry&, Vec3, const Transform&, bool) const override { return 0; }
    std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const PointGeometry&) const override { return {}; }
    Float pdf_direction(const PointGeometry&, Vec3) const override { return 0; }
    std::optional<PositionSample> sample_position(const PositionSampleU&, const Transform&) const override { return {}; }
    Float pdf_position(const PointGeometry&, const Transform&) const override { return 0; }
    std::optional<RaySample> sample_direct(const RaySampleU&, const PointGeometry&, const Transform&) const override { return {}; }
    Float pdf_direct(const PointGeometry&, const PointGeometry&, const Transform&, Vec3, bool) const override { return 0; }
    bool is_specular() const override { return false; }
    bool is_infinite() const override { return env; }
    bool is_env() const override { return env; }
    bool is_connectable(const PointGeometry&) const override { return true; }
    Vec3 eval(const PointGeometry&, Vec3, bool) const override { return {}; }
};
// a model with a scene graph of its own: group(T1){ geom, group(T2){ camera, geom+light } }
struct GraphModel final : public Model {
    void construct(const Json&) override {}
    void create_primitives(const CreatePrimitiveFunc&) const override {}
    void foreach_node(const VisitNodeFuncType& f) const override;
};
LM_COMP_REG_IMPL(GraphModel, "model::vt");
LM_COMP_REG_IMPL(CountLogger, "logger::vt");
LM_COMP_REG_IMPL(NoAccel, "accel::vt");
LM_COMP_REG_IMPL(SpyLight, "light::vt");

const char* A = "$.assets.";
Json L(const std::vector<std::pair<std::string, std::string>>& m) { Json j = Json::object(); for (auto& [k, v] : m) j[k] = A + v; return j; }
const Mat4& T(int i) {
    static const Mat4 t[3] = {Mat4(1), glm::translate(Vec3(1, 2, 3)), glm::rotate(1.0, glm::normalize(Vec3(1, 2, -1))) * glm::scale(Vec3(2, 1, .5))};
    return t[i];
}
void GraphModel::foreach_node(const VisitNodeFuncType& f) const {
    auto* mat = comp::get<Material>("$.assets.mat");
    auto g0 = SceneNode::make_group(0, false, T(1)); g0.group.children = {1, 2}; f(g0);
    f(SceneNode::make_primitive(1, comp::get<Mesh>("$.assets.mesh"), mat, nullptr, nullptr, nullptr));
    auto g2 = SceneNode::make_group(2, false, T(2)); g2.group.children = {3, 4}; f(g2);
    f(SceneNode::make_primitive(3, nullptr, nullptr, nullptr, comp::get<Camera>("$.assets.cam"), nullptr));
    f(SceneNode::make_primitive(4, comp::get<Mesh>("$.assets.mesh2"), mat, comp::get<Light>("$.assets.light"), nullptr, nullptr));
}
// reference graph
struct N { bool group; int tr = 0; bool inst = false; std::string mesh, mat, light, cam, med; std::vector<int> ch; };
struct Ref {
    std::vector<N> n; int cam = -1, env = -1, med = -1;
    void reset() { n.clear(); n.push_back({true}); cam = env = med = -1; }
    bool reach(int a, int b) { if (a == b) return true; for (int c : n[a].ch) if (reach(c, b)) return true; return false; }
    bool ok_child(int p, int c) { return p >= 0 && p < (int)n.size() && n[p].group && c >= 0 && c < (int)n.size() && !reach(c, p); }
    int prim(const N& x) { int i = (int)n.size(); n.push_back(x); if (!x.cam.empty()) cam = i; if (x.light == "env") env = i; if (!x.med.empty()) med = i; return i; }
};
std::string mstr(const Mat4& m) { std::string s; char b[32]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { double v = m[i][j]; if (std::abs(v) < 1e-9) v = 0; snprintf(b, 32, "%.7g,", v); s += b; } return s; }
std::string cname(Component* c) { return c ? c->loc().substr(strlen(A)) : ""; }

struct World {
    vp::Ctx& ctx; Ref md; Scene* s; bool built = false;
    World(vp::Ctx& c) : ctx(c) {
        s = lm::load<Scene>("scene", "scene::default", {{"accel", "$.assets.acc"}}); md.reset();
    }
    // run f, which must report an error (throw or log) iff !ok
    template <typename F> bool attempt(bool ok, const std::string& what, F&& f) {
        g_errors = 0; bool threw = false; std::string msg;
        try { f(); } catch (const std::exception& e) { threw = true; msg = e.what(); }
        const bool err = threw || g_errors > 0;
        ctx.checkf(err == !ok, ok ? "rejected:" + what : "accepted:" + what, [&] { return ok ? "valid operation reported an error: " + msg : "invalid operation was not reported as an error"; });
        return !err;
    }
    static const std::vector<std::pair<std::string, N>>& prims() {
        static const std::vector<std::pair<std::string, N>> v = {
            {"geom", N{false, 0, false, "mesh", "mat"}}, {"geomlight", N{false, 0, false, "mesh2", "mat", "light"}}, {"light", N{false, 0, false, "", "", "light2"}},
            {"camera", N{false, 0, false, "", "", "", "cam"}}, {"env", N{false, 0, false, "", "", "env"}}, {"medium", N{false, 0, false, "", "", "", "", "med"}}};
        return v;
    }
    static const std::vector<std::pair<std::string, Json>>& bad() {
        static const std::vector<std::pair<std::string, Json>> v = {
            {"empty", Json::object()}, {"meshonly", L({{"mesh", "mesh"}})}, {"matonly", L({{"material", "mat"}})}, {"camlight", L({{"camera", "cam"}, {"light", "light"}})}, {"missing", L({{"mesh", "nope"}, {"material", "mat"}})},
            {"camenv", L({{"camera", "cam"}, {"light", "env"}})}, {"wrongtype", L({{"mesh", "mat"}, {"material", "mesh"}})}, {"meshenv", L({{"mesh", "mesh"}, {"light", "env"}})}, {"matmed", L({{"material", "mat"}, {"medium", "med"}})}, {"meshcam", L({{"mesh", "mesh"}, {"camera", "cam"}})}};
        return v;
    }
    static Json prop(const N& x) { Json j = Json::object(); auto put = [&](const char* k, const std::string& v) { if (!v.empty()) j[k] = A + v; }; put("mesh", x.mesh); put("material", x.mat); put("light", x.light); put("camera", x.cam); put("medium", x.med); return j; }
    void prim(int k) {
        auto& [nm, x] = prims()[k]; const bool ok = !(x.light == "env" && md.env >= 0); int r = -1;
        if (attempt(ok, "prim-" + nm, [&, &x = x] { r = s->create_primitive_node(prop(x)); })) { int e = md.prim(x); ctx.check(r == e, "index", "create_primitive_node returned " + std::to_string(r)); }
    }
    void badprim(int k) { attempt(false, "prim-" + bad()[k].first, [&] { s->create_primitive_node(bad()[k].second); }); }
    void group(int t) { int r = s->create_group_node(T(t)); md.n.push_back({true, t}); ctx.check(r == (int)md.n.size() - 1, "index", "group index"); }
    void inst() { int r = s->create_instance_group_node(); md.n.push_back({true, 0, true}); ctx.check(r == (int)md.n.size() - 1, "index", "instance group index"); }
    void link(int p, int c) { const bool ok = md.ok_child(p, c); attempt(ok, "link", [&] { s->add_child(p, c); }); if (ok) md.n[p].ch.push_back(c); }
    void add(int t, int k) {   // add_transformed_primitive
        auto& [nm, x] = prims()[k]; const bool ok = !(x.light == "env" && md.env >= 0);
        attempt(ok, "add-" + nm, [&, &x = x] { if (t) s->add_transformed_primitive(T(t), prop(x)); else s->add_primitive(prop(x)); });
        // a failed addition may leave an unlinked group behind, which is not part of the graph
        md.n.push_back({true, t}); const int g = (int)md.n.size() - 1;
        if (!ok) { if (s->num_nodes() == g) md.n.pop_back(); return; }
        const int p = md.prim(x); md.n[g].ch.push_back(p); md.n[0].ch.push_back(g);
    }
    void model(int p) {
        const bool ok = p >= 0 && p < (int)md.n.size() && md.n[p].group; const int before = s->num_nodes();
        attempt(ok, "model", [&] { s->add_child_from_model(p, std::string(A) + "model"); });
        if (!ok) { for (int i = before; i < s->num_nodes(); i++) orphan(i); return; }
        for (int k = 0; k < 3; k++) {
            const std::string m = "model.mesh_"; N x{false}; int i = (int)md.n.size();
            ctx.check(i < s->num_nodes() && s->node_at(i).type == SceneNodeType::Primitive, "model-nodes", "model primitives are missing");
            auto& q = s->node_at(i).primitive;
            x.mesh = cname(q.mesh); x.mat = cname(q.material); x.light = cname(q.light);
            ctx.check(q.mesh && q.material && !q.camera && !q.medium && bool(q.light) == (k == 1), "model-prim", "primitive " + std::to_string(k) + " of the model has the wrong parts");
            ctx.check(x.mat == std::string("model.") + "ABC"[k], "model-mat", "primitive of the model has material " + x.mat);
            md.n.push_back(x); md.n[p].ch.push_back(i);
        }
    }
    void groupmodel(bool link_it) {
        const int o = (int)md.n.size(); int r = -1;
        attempt(true, "groupmodel", [&] { r = s->create_group_from_model(std::string(A) + "gmodel"); });
        ctx.check(r == o, "groupmodel-index", "create_group_from_model returned " + std::to_string(r) + ", expected " + std::to_string(o));
        md.n.push_back({true, 1}); md.prim(prims()[0].second); md.n.push_back({true, 2}); md.prim(prims()[3].second); md.prim(prims()[1].second);
        md.n[o].ch = {o + 1, o + 2}; md.n[o + 2].ch = {o + 3, o + 4};
        if (link_it) link(0, r);
    }
    void badmodel() { int r = 0; attempt(false, "badmodel", [&] { r = s->create_group_from_model(std::string(A) + "mat"); }); ctx.check(r <= 0, "badmodel-index", "creating a group from something that is no model returned a node"); }
    void orphan(int i) { auto& q = s->node_at(i); N x{q.type == SceneNodeType::Group}; if (!x.group) { x.mesh = cname(q.primitive.mesh); x.mat = cname(q.primitive.material); x.light = cname(q.primitive.light); } md.n.push_back(x); }
    void reset() { s->reset(); md.reset(); built = false; }
    void build() { s->build(); built = true; check_build(); }
    void check_graph() {
        ctx.check(s->root_node() == 0 && s->num_nodes() == (int)md.n.size(), "num-nodes", "scene has " + std::to_string(s->num_nodes()) + " nodes, expected " + std::to_string(md.n.size()));
        for (int i = 0; i < (int)md.n.size(); i++) {
            const auto& a = s->node_at(i); const auto& b = md.n[i]; int seen = 0;
            s->visit_node(i, [&](const SceneNode& q) { seen += &q == &a; });
            bool ok = a.index == i && seen == 1 && (a.type == SceneNodeType::Group) == b.group;
            if (ok && b.group) ok = a.group.children == b.ch && a.group.instanced == b.inst && mstr(a.group.local_transform ? *a.group.local_transform : Mat4(1)) == mstr(T(b.tr));
            if (ok && !b.group) ok = cname(a.primitive.mesh) == b.mesh && cname(a.primitive.material) == b.mat && cname(a.primitive.light) == b.light && cname(a.primitive.camera) == b.cam && cname(a.primitive.medium) == b.med;
            ctx.checkf(ok, "node", [&] { return "node " + std::to_string(i) + " is not the node that was created"; });
        }
        ctx.check(s->camera_node() == md.cam, "camera-node", "camera node is " + std::to_string(s->camera_node()) + ", expected " + std::to_string(md.cam));
        ctx.check(s->env_light_node() == md.env, "env-node", "environment light node is " + std::to_string(s->env_light_node()) + ", expected " + std::to_string(md.env));
        ctx.check(s->medium_node() == md.med, "medium-node", "medium node is " + std::to_string(s->medium_node()) + ", expected " + std::to_string(md.med));
        if (md.cam >= 0) ctx.check(s->camera() == comp::get<Camera>("$.assets.cam"), "camera", "camera() is not the camera");
        std::vector<std::string> want, got;
        flatten(0, Mat4(1), [&](int i, const Mat4& m) { want.push_back(std::to_string(i) + ":" + mstr(m)); });
        s->traverse_primitive_nodes([&](const SceneNode& n, Mat4 m) { if (n.type == SceneNodeType::Primitive) got.push_back(std::to_string(n.index) + ":" + mstr(m)); });
        std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
        ctx.checkf(want == got, "traverse", [&] { std::string m = "traversal reports " + std::to_string(got.size()) + " primitives, expected " + std::to_string(want.size()); for (auto& g : got) if (!std::count(want.begin(), want.end(), g)) { m += "; unexpected " + g; break; } return m; });
        auto req = [&](bool ok, const char* what, const std::function<void()>& f) { bool t = false; try { f(); } catch (const std::exception&) { t = true; } ctx.check(t != ok, std::string("require-") + what, std::string("require_") + what + (ok ? " threw" : " did not throw")); };
        const bool hp = md.n.size() > 1, hc = md.cam >= 0, hl = built && s->num_lights() > 0;
        req(hp, "primitive", [&] { s->require_primitive(); }); req(hc, "camera", [&] { s->require_camera(); });
        if (built) { req(hl, "light", [&] { s->require_light(); }); req(hp && hc && hl, "renderable", [&] { s->require_renderable(); }); }
        std::string st; for (auto& x : md.n) { st += x.group ? 'g' : 'p'; st += x.mesh + x.light + x.cam + x.med + std::to_string(x.tr); for (int c : x.ch) st += "," + std::to_string(c); st += ';'; }
        ctx.state(st);
    }
    void flatten(int i, const Mat4& m, const std::function<void(int, const Mat4&)>& f) { if (!md.n[i].group) { f(i, m); return; } for (int c : md.n[i].ch) flatten(c, m * T(md.n[i].tr), f); }
    void check_build() {
        std::vector<std::string> want, got; Bound b; bool tri = false; std::set<std::string> lights;
        flatten(0, Mat4(1), [&](int i, const Mat4& m) {
            if (!md.n[i].light.empty()) { want.push_back(std::to_string(i) + ":" + mstr(m)); lights.insert(md.n[i].light); }
            if (!md.n[i].mesh.empty()) comp::get<Mesh>(A + md.n[i].mesh)->foreach_triangle([&](int, const Mesh::Tri& t) { for (auto* p : {&t.p1, &t.p2, &t.p3}) { b = merge(b, Vec3(m * Vec4(p->p, 1))); tri = true; } });
        });
        const int n = s->num_lights();
        for (int i = 0; i < n; i++) {
            auto l = s->light_primitive_index_at(i); got.push_back(std::to_string(l.index) + ":" + mstr(l.global_transform.M));
            const int k = s->light_index_at(l.index);
            ctx.check(k >= 0 && k < n && s->light_primitive_index_at(k).index == l.index, "light-index", "light_index_at does not lead back to the node");
            ctx.check(std::abs(s->pdf_light_selection(i) * n - 1) < 1e-12, "pdf-light", "selection probability is not uniform");
        }
        std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
        ctx.checkf(want == got, "lights", [&] { return "scene has " + std::to_string(got.size()) + " lights, expected " + std::to_string(want.size()) + (got.empty() ? "" : ", first " + got[0]) + (want.empty() ? "" : " vs " + want[0]); });
        if (n > 0) {
            std::vector<int> cnt(n, 0); const int K = 8;
            for (int k = 0; k < K * n; k++) { auto r = s->sample_light_selection((k + .5) / (K * n)); ctx.check(r.light_index >= 0 && r.light_index < n && std::abs(r.p_sel * n - 1) < 1e-12 && r.p_sel == s->pdf_light_selection(r.light_index), "sel", "light selection out of range or with wrong probability"); cnt[r.light_index]++; }
            for (int c : cnt) ctx.check(c == K, "sel-uniform", "light selection is not uniform");
            for (double u : {0.0, std::nextafter(1.0, 0.0), 1.0}) { auto r = s->sample_light_selection(u); ctx.check(r.light_index >= 0 && r.light_index < n, "sel-edge", "light selection out of range at the border"); }
        }
        for (auto& l : lights) if (auto* sp = dynamic_cast<SpyLight*>(comp::get<Component>(A + l))) {
            ctx.check(sp->nbound > 0, "bound-unset", "light did not receive the scene bound");
            if (tri) ctx.check(glm::length(sp->b.min - b.min) < 1e-9 && glm::length(sp->b.max - b.max) < 1e-9, "bound", "light received a wrong scene bound");
        }
        // classification of interactions
        for (int i = 0; i < (int)md.n.size(); i++) if (!md.n[i].group) {
            auto sp = SceneInteraction::make_surface_interaction(i, surf(Vec3(0), Vec3(0, 0, 1)));
            ctx.check(s->is_light(sp) == !md.n[i].light.empty(), "is-light", "is_light is wrong");
            if (md.cam >= 0) ctx.check(s->is_camera(sp) == (i == md.cam), "is-camera", "is_camera is wrong");
        }
    }
};
void setup(vp::Ctx& ctx, bool real_accel) {
    H::init(1); write_files(ctx.scratch);
    lm::load<Mesh>("mesh", "mesh::raw", mesh_prop({{Vec3(0, 0, 0), Vec3(1, 0, 0), Vec3(0, 1, 0)}, {Vec3(0, 0, 1), Vec3(0, 2, 0), Vec3(0, 0, -1)}}));
    lm::load<Mesh>("mesh2", "mesh::raw", mesh_prop({{Vec3(0, 0, 2), Vec3(1, 0, 3), Vec3(0, 1, 2)}}));
    lm::load<Material>("mat", "material::diffuse", {{"Kd", Vec3(.5)}});
    for (auto n : {"light", "light2"}) lm::load<Light>(n, "light::vt", Json::object());
    lm::load<Light>("env", "light::vt", {{"env", true}});
    lm::load<Camera>("cam", "camera::pinhole", {{"position", Vec3(0, 0, 5)}, {"center", Vec3(0)}, {"up", Vec3(0, 1, 0)}, {"vfov", 30.}, {"aspect", 1.}});
    lm::load<Phase>("ph", "phase::isotropic", Json::object());
    lm::load<Medium>("med", "medium::homogeneous", {{"density", .5}, {"albedo", Vec3(.5)}, {"phase", "$.assets.ph"}});
    lm::load<Model>("model", "model::wavefrontobj", {{"path", ctx.scratch + "/m0.obj"}});
    lm::load<Model>("gmodel", "model::vt", Json::object());
    lm::load<Accel>("acc", real_accel ? "accel::sahbvh" : "accel::vt", Json::object());
    log::init("vt", Json::object());
}
// all histories of arbitrary operations
void histories(vp::Ctx& ctx, int depth, int part, int parts) {
    setup(ctx, false);
    ctx.bound("all operation histories of length " + std::to_string(depth) + " (6 primitive kinds, 10 invalid ones, groups with 2 transforms, instance groups, every link incl. out-of-range, models, add_primitive, reset, build)");
    ctx.explore([&](vp::Chooser& ch) {
        World w(ctx); std::string tr;
        auto say = [&](const std::string& x) { tr += x + "; "; ctx.trace(tr); };
        for (int d = 0; d < depth; d++) {
            const int NP = (int)World::prims().size(), NB = (int)World::bad().size(), n = (int)w.md.n.size();
            const int links = (n + 2) * (n + 2);
            const int total = NP + NB + 3 + links + 2 * NP + 2 + 2 + 3;
            int i;
            if (d == 0) { std::vector<int> mine; for (int k = 0; k < total; k++) if (k % parts == part) mine.push_back(k); if (mine.empty()) return; i = ch.pick(mine); } else i = ch.choose(total);
            if (i < NP) { say("prim " + World::prims()[i].first); w.prim(i); }
            else if ((i -= NP) < NB) { say("bad " + World::bad()[i].first); w.badprim(i); }
            else if ((i -= NB) < 3) { say(i < 2 ? "group T" + std::to_string(i + 1) : "instgroup"); if (i < 2) w.group(i + 1); else w.inst(); }
            else if ((i -= 3) < links) { int p = i / (n + 2) - 1, c = i % (n + 2) - 1; say("link " + std::to_string(p) + "<-" + std::to_string(c)); w.link(p, c); }
            else if ((i -= links) < 2 * NP) { say("add T" + std::to_string(i / NP) + " " + World::prims()[i % NP].first); w.add(i / NP, i % NP); }
            else if ((i -= 2 * NP) < 2) { int p = i == 0 ? n - 1 : n; say("model under " + std::to_string(p)); w.model(p); }
            else if (i - 2 >= 2) { i -= 4; say(i < 2 ? "group from model" + std::string(i ? " linked" : "") : "group from no model"); if (i < 2) w.groupmodel(i == 1); else w.badmodel(); }
            else if (i - 2 == 0) { say("reset"); w.reset(); }
            else { say("build"); w.build(); }
        }
        w.check_graph();
        w.build();
        w.check_graph();
    });
}
// fixed set of nodes, all sequences of links between them
void links(vp::Ctx& ctx, int count, bool inner_build, int part, int parts) {
    setup(ctx, false);
    ctx.bound("all sequences of " + std::to_string(count) + " links over root, two groups with non-commuting transforms, an instance group, a light-carrying mesh, a light and a camera");
    ctx.explore([&](vp::Chooser& ch) {
        World w(ctx); std::string tr;
        w.group(1); w.group(2); w.inst(); w.prim(1); w.prim(2);
        for (int k = 0; k < count; k++) {
            const int n = (int)w.md.n.size();
            int v; if (k == 0) { std::vector<int> mine; for (int q = 0; q < 4 * n; q++) if (q % parts == part) mine.push_back(q); v = ch.pick(mine); } else v = ch.choose(4 * n);
            const int p = v / n, c = v % n; tr += std::to_string(p) + "<-" + std::to_string(c) + " "; ctx.trace(tr);
            w.link(p, c);
            if (inner_build && k + 1 < count) { w.s->build(); w.built = true; }
        }
        w.check_graph(); w.build();
    });
}
struct R { R() {
    for (int p = 0; p < 2; p++) vp::scenarios().push_back({"histories2_" + std::to_string(p), [=](vp::Ctx& c) { histories(c, 2, p, 2); }, 0});
    for (int p = 0; p < 8; p++) vp::scenarios().push_back({"histories3_" + std::to_string(p), [=](vp::Ctx& c) { histories(c, 3, p, 8); }, 0});
    for (int p = 0; p < 16; p++) vp::scenarios().push_back({"histories4_" + std::to_string(p), [=](vp::Ctx& c) { histories(c, 4, p, 16); }, 1});
    for (int p = 0; p < 4; p++) vp::scenarios().push_back({"links3_" + std::to_string(p), [=](vp::Ctx& c) { links(c, 3, false, p, 4); }, 0});
    for (int p = 0; p < 8; p++) vp::scenarios().push_back({"links4_" + std::to_string(p), [=](vp::Ctx& c) { links(c, 4, true, p, 8); }, 0});
    for (int p = 0; p < 16; p++) vp::scenarios().push_back({"links5_" + std::to_string(p), [=](vp::Ctx& c) { links(c, 5, false, p, 16); }, 1});
} } r_;
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
