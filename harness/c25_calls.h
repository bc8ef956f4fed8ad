// C25, second half: calls across the boundary.
//  implemented: an interface implemented in Python; every method is called from C++ with two argument sets, and answers, raises, or is missing
//  bound:       every function / method exposed to Python gives what the C++ call gives
#include <lm/loggercontext.h>
#include <lm/progresscontext.h>
namespace calls {
using pyh::host;
// what a C++ value looks like to Python, spelled out from its numbers
py::object E(const py::object& o) { return o; }
py::object E(double v) { return py::float_(v); }
py::object E(int v) { return py::int_(v); }
py::object E(long long v) { return py::int_(v); }
py::object E(bool v) { return py::bool_(v); }
py::object E(const char* v) { return py::str(v); }
py::object E(const std::string& v) { return py::str(v); }
template <int N> py::object EV(const Float* p) { py::list l; l.append("arr"); for (int i = 0; i < N; i++) l.append(py::float_(double(p[i]))); return std::move(l); }
py::object E(const Vec2& v) { return EV<2>(&v.x); }
py::object E(const Vec3& v) { return EV<3>(&v.x); }
py::object E(const Vec4& v) { return EV<4>(&v.x); }
py::object E(const Mat4& m) { py::list l; l.append("arr"); for (int r = 0; r < 4; r++) { py::list q; for (int c = 0; c < 4; c++) q.append(py::float_(double(m[c][r]))); l.append(q); } return std::move(l); }
py::object E(const Ray& r) { py::list l; l.append("Ray"); l.append(E(r.o)); l.append(E(r.d)); return std::move(l); }
py::object E(const PointGeometry& g) { py::list l; l.append("geom"); l.append(py::bool_(g.degenerated)); l.append(py::bool_(g.infinite)); if (g.infinite) l.append(E(g.wo)); else l.append(E(g.p)); if (!g.infinite && !g.degenerated) { for (auto* v : {&g.n, &g.gn, &g.u, &g.v}) l.append(E(*v)); l.append(E(g.t)); } return std::move(l); }
py::object E(const SceneInteraction& s) { py::list l; l.append("si"); l.append(int(s.type)); l.append(s.primitive); l.append(E(s.geom)); return std::move(l); }
py::object E(const Mesh::Point& q) { py::list l; l.append(E(q.p)); l.append(E(q.n)); l.append(E(q.t)); return std::move(l); }
py::object E(const Mesh::Tri& t) { py::list l; l.append("tri"); l.append(E(t.p1)); l.append(E(t.p2)); l.append(E(t.p3)); return std::move(l); }
py::object E(const Mesh::InterpolatedPoint& q) { py::list l; l.append("ip"); l.append(E(q.p)); l.append(E(q.n)); l.append(E(q.gn)); l.append(E(q.t)); return std::move(l); }
py::object E(const Accel::Hit& h) { py::list l; l.append("hit"); l.append(E(double(h.t))); l.append(E(h.uv)); l.append(h.primitive); l.append(h.face); return std::move(l); }
py::object E(const Component* c) { if (!c) return py::none(); py::list l; l.append("comp"); l.append(c->loc()); return std::move(l); }
py::object E(const SceneNode& n) { py::list l; l.append("node"); l.append(n.index); l.append(n.type == SceneNodeType::Primitive); return std::move(l); }
py::object E(const Json& j) { py::list l; l.append("json"); l.append(py::str(j.dump())); return std::move(l); }
template <typename T> py::object E(const std::optional<T>& o) { return o ? E(*o) : py::none(); }
const char* ENC = R"(
import json
def enc(x):
    if isinstance(x, np.ndarray): return ['arr'] + [[float(v) for v in r] if x.ndim == 2 else float(r) for r in x]
    if isinstance(x, lm.Ray): return ['Ray', enc(x.o), enc(x.d)]
    if isinstance(x, lm.PointGeometry): return ['geom', x.degenerated, x.infinite, enc(x.wo if x.infinite else x.p)] + ([] if x.infinite or x.degenerated else [enc(x.n), enc(x.gn), enc(x.u), enc(x.v), enc(x.t)])
    if isinstance(x, lm.SceneInteraction): return ['si', int(x.type), x.primitive, enc(x.geom)]
    if isinstance(x, lm.Mesh_Point): return [enc(x.p), enc(x.n), enc(x.t)]
    if isinstance(x, lm.Mesh_Tri): return ['tri', enc(x.p1), enc(x.p2), enc(x.p3)]
    if isinstance(x, lm.Mesh_InterpolatedPoint): return ['ip', enc(x.p), enc(x.n), enc(x.gn), enc(x.t)]
    if isinstance(x, lm.Accel_Hit): return ['hit', x.t, enc(x.uv), x.primitive, x.face]
    if isinstance(x, lm.Component): return ['comp', x.loc()]
    if isinstance(x, lm.SceneNode): return ['node', x.index, x.type == lm.SceneNodeType.Primitive]
    if isinstance(x, dict): return ['json', json.dumps(x, separators=(',', ':'), sort_keys=True)]
    if isinstance(x, (lm.log.LogLevel, lm.progress.ProgressMode)): return ['enum', x.name]
    if isinstance(x, lm.Rng): return 'rng'
    if callable(x): return 'func'
    return x
calls = []
mode = 'answer'
ret = None
act = None
def method(name):
    def f(self, *a):
        calls.append([name, [enc(x) for x in a]])
        if mode == 'raise': raise ValueError('from python ' + name)
        if act is not None: act(*a)
        return ret
    f.__name__ = name
    return f
def implement(base, key, names, init=None):
    d = {n: method(n) for n in names}
    cls = type('Rec_' + base.__name__, (base,), d)
    base.reg(cls, 'rec::' + key)
    cls0 = type('Empty_' + base.__name__, (base,), {})
    base.reg(cls0, 'empty::' + key)
)";
struct Case {
    Component* c; int k; py::list want; std::string why;
    template <typename... T> void args(const T&... a) { want = py::list(); (want.append(E(a)), ...); }
    template <typename T> T* as() { return dynamic_cast<T*>(c); }
    bool is(const py::object& got, const py::object& expect) { if (got.equal(expect)) return true; why = "C++ receives " + pyh::repr(got) + ", Python returned " + pyh::repr(expect); return false; }
};
struct Method { const char* iface; const char* key; const char* name; const char* ret; std::function<bool(Case&)> call; };
Vec3 W(int k, int i) { return Vec3(Float(0.25 + k + 10 * i), Float(-1.5 - 2 * k + i), Float(3.125 * (k + 1) - 7 * i)); }
Vec2 W2(int k, int i) { return Vec2(Float(0.125 + k + i), Float(0.75 - 3 * k - i)); }
PointGeometry G(int k, int i) {
    if (k == 1 && i == 1) return PointGeometry::make_degenerated(W(k, 4));
    auto g = PointGeometry::make_on_surface(W(k, i), glm::normalize(W(k, i + 1)), glm::normalize(W(k, i + 2)), W2(k, i));
    g.wo = W(k, i + 3); return g;
}
Ray R(int k) { return Ray{W(k, 1), glm::normalize(W(k, 2))}; }
const std::vector<Method>& methods() {
    static std::vector<Method> v;
    if (!v.empty()) return v;
    auto add = [&](const char* i, const char* k, const char* n, const char* r, std::function<bool(Case&)> f) { v.push_back({i, k, n, r, f}); };
    using C = Case&;
    // volume
    add("lm.Volume", "volume", "has_scalar", "K == 0", [](C c) { c.args(); return c.as<Volume>()->has_scalar() == (c.k == 0); });
    add("lm.Volume", "volume", "max_scalar", "3.5 + K", [](C c) { c.args(); return c.is(E(double(c.as<Volume>()->max_scalar())), E(3.5 + c.k)); });
    add("lm.Volume", "volume", "eval_scalar", "-2.25 - K", [](C c) { c.args(W(c.k, 0)); return c.is(E(double(c.as<Volume>()->eval_scalar(W(c.k, 0)))), E(-2.25 - c.k)); });
    add("lm.Volume", "volume", "has_color", "K == 1", [](C c) { c.args(); return c.as<Volume>()->has_color() == (c.k == 1); });
    add("lm.Volume", "volume", "eval_color", "arr(1, 2 + K, -3)", [](C c) { c.args(W(c.k, 3)); return c.is(E(c.as<Volume>()->eval_color(W(c.k, 3))), E(Vec3(1, 2 + c.k, -3))); });
    // phase
    add("lm.Phase", "phase", "pdf_direction", "0.5 + K", [](C c) { c.args(G(c.k, 0), W(c.k, 1), W(c.k, 2)); return c.is(E(double(c.as<Phase>()->pdf_direction(G(c.k, 0), W(c.k, 1), W(c.k, 2)))), E(0.5 + c.k)); });
    add("lm.Phase", "phase", "eval", "arr(4, 5 + K, 6)", [](C c) { c.args(G(c.k, 0), W(c.k, 1), W(c.k, 2)); return c.is(E(c.as<Phase>()->eval(G(c.k, 0), W(c.k, 1), W(c.k, 2))), E(Vec3(4, 5 + c.k, 6))); });
    // medium
    add("lm.Medium", "medium", "sample_distance", "mds(K)", [](C c) {
        Rng rng(5 + c.k), ref(5 + c.k); host().run("def act(rng, *a): drawn.append(rng.u())\ndrawn = []");
        c.args("rng", R(c.k), 0.5, 7.0 + c.k); auto s = c.as<Medium>()->sample_distance(rng, R(c.k), 0.5, Float(7.0 + c.k));
        double d0 = ref.u(), d1 = ref.u(), mine = rng.u(); double theirs = py::list(host()["drawn"])[0].cast<double>();
        if (theirs != d0) { c.why = "the random number drawn by the Python code is not the generator's next number"; return false; }
        if (mine != d1) { c.why = "the random number drawn by the Python code is drawn a second time by the caller: the generator was copied"; return false; }
        return s && c.is(E(s->p), E(Vec3(1, 2, 3 + c.k))) && c.is(E(s->weight), E(Vec3(4 + c.k, 5, 6))) && s->medium == (c.k == 1); });
    add("lm.Medium", "medium", "eval_transmittance", "arr(7, 8, 9 + K)", [](C c) {
        Rng rng(5 + c.k), ref(5 + c.k); host().run("def act(rng, *a): drawn.append(rng.u())\ndrawn = []");
        c.args("rng", R(c.k), 0.25, 3.0 + c.k); auto s = c.as<Medium>()->eval_transmittance(rng, R(c.k), 0.25, Float(3.0 + c.k));
        ref.u(); if (rng.u() != ref.u()) { c.why = "the caller's generator is not the one the Python code drew from"; return false; }
        return c.is(E(s), E(Vec3(7, 8, 9 + c.k))); });
    add("lm.Medium", "medium", "is_emitter", "K == 1", [](C c) { c.args(); return c.as<Medium>()->is_emitter() == (c.k == 1); });
    add("lm.Medium", "medium", "phase", "phase0 if K else None", [](C c) { c.args(); return c.as<Medium>()->phase() == (c.k ? comp::get<Phase>("$.assets.phase0") : nullptr); });
    // material
    add("lm.Material", "material", "pdf_component", "0.25 + K", [](C c) { c.args(2 + c.k, G(c.k, 0), W(c.k, 1)); return c.is(E(double(c.as<Material>()->pdf_component(2 + c.k, G(c.k, 0), W(c.k, 1)))), E(0.25 + c.k)); });
    add("lm.Material", "material", "pdf_direction", "0.75 + K", [](C c) { c.args(G(c.k, 0), W(c.k, 1), W(c.k, 2), 3 - c.k, c.k == 1); return c.is(E(double(c.as<Material>()->pdf_direction(G(c.k, 0), W(c.k, 1), W(c.k, 2), 3 - c.k, c.k == 1))), E(0.75 + c.k)); });
    add("lm.Material", "material", "is_specular_component", "K == 1", [](C c) { c.args(4 + c.k); return c.as<Material>()->is_specular_component(4 + c.k) == (c.k == 1); });
    add("lm.Material", "material", "reflectance", "arr(0.5, K, 1)", [](C c) { c.args(G(c.k, 0)); return c.is(E(c.as<Material>()->reflectance(G(c.k, 0))), E(Vec3(0.5, c.k, 1))); });
    // light
    add("lm.Light", "light", "pdf_direction", "1.5 + K", [](C c) { c.args(G(c.k, 0), W(c.k, 2)); return c.is(E(double(c.as<Light>()->pdf_direction(G(c.k, 0), W(c.k, 2)))), E(1.5 + c.k)); });
    add("lm.Light", "light", "is_specular", "K == 1", [](C c) { c.args(); return c.as<Light>()->is_specular() == (c.k == 1); });
    add("lm.Light", "light", "is_infinite", "K == 0", [](C c) { c.args(); return c.as<Light>()->is_infinite() == (c.k == 0); });
    add("lm.Light", "light", "is_connectable", "K == 1", [](C c) { c.args(G(c.k, 1)); return c.as<Light>()->is_connectable(G(c.k, 1)) == (c.k == 1); });
    add("lm.Light", "light", "eval", "arr(9, K, 7)", [](C c) { c.args(G(c.k, 0), W(c.k, 1), c.k == 0); return c.is(E(c.as<Light>()->eval(G(c.k, 0), W(c.k, 1), c.k == 0)), E(Vec3(9, c.k, 7))); });
    // camera
    add("lm.Camera", "camera", "set_aspect_ratio", "None", [](C c) { c.args(1.25 + c.k); c.as<Camera>()->set_aspect_ratio(Float(1.25 + c.k)); return true; });
    for (int which = 0; which < 2; which++) add("lm.Camera", "camera", which ? "projection_matrix" : "view_matrix", "np.arange(16, dtype=FT).reshape(4, 4) + K", [which](C c) {
        c.args(); Mat4 m = which ? c.as<Camera>()->projection_matrix() : c.as<Camera>()->view_matrix(); Mat4 e; for (int r = 0; r < 4; r++) for (int q = 0; q < 4; q++) e[q][r] = Float(r * 4 + q + c.k); return c.is(E(m), E(e)); });
    add("lm.Camera", "camera", "primary_ray", "ray(K)", [](C c) { c.args(W2(c.k, 0)); return c.is(E(c.as<Camera>()->primary_ray(W2(c.k, 0))), E(Ray{Vec3(1, 2, 3 + c.k), Vec3(0, 1, 0)})); });
    add("lm.Camera", "camera", "pdf_ray", "2.5 + K", [](C c) { c.args(G(c.k, 1), W(c.k, 2)); return c.is(E(double(c.as<Camera>()->pdf_ray(G(c.k, 1), W(c.k, 2)))), E(2.5 + c.k)); });
    add("lm.Camera", "camera", "pdf_direction", "3.5 + K", [](C c) { c.args(G(c.k, 1), W(c.k, 3)); return c.is(E(double(c.as<Camera>()->pdf_direction(G(c.k, 1), W(c.k, 3)))), E(3.5 + c.k)); });
    add("lm.Camera", "camera", "pdf_position", "4.5 + K", [](C c) { c.args(G(c.k, 1)); return c.is(E(double(c.as<Camera>()->pdf_position(G(c.k, 1)))), E(4.5 + c.k)); });
    add("lm.Camera", "camera", "pdf_direct", "5.5 + K", [](C c) { c.args(G(c.k, 0), G(c.k, 1), W(c.k, 3)); return c.is(E(double(c.as<Camera>()->pdf_direct(G(c.k, 0), G(c.k, 1), W(c.k, 3)))), E(5.5 + c.k)); });
    add("lm.Camera", "camera", "raster_position", "arr(0.5, 0.25) if K else None", [](C c) { c.args(W(c.k, 3)); return c.is(E(c.as<Camera>()->raster_position(W(c.k, 3))), c.k ? E(Vec2(0.5, 0.25)) : py::none()); });
    add("lm.Camera", "camera", "is_connectable", "K == 1", [](C c) { c.args(G(c.k, 0)); return c.as<Camera>()->is_connectable(G(c.k, 0)) == (c.k == 1); });
    add("lm.Camera", "camera", "eval", "arr(3, 2, K)", [](C c) { c.args(W(c.k, 0)); return c.is(E(c.as<Camera>()->eval(W(c.k, 0))), E(Vec3(3, 2, c.k))); });
    // texture
    add("lm.Texture", "texture", "size", "tex0.size()", [](C c) { c.args(); auto s = c.as<Texture>()->size(), r = comp::get<Texture>("$.assets.tex0")->size(); return s.w == r.w && s.h == r.h; });
    add("lm.Texture", "texture", "eval", "arr(6, K, 4)", [](C c) { c.args(W2(c.k, 0)); return c.is(E(c.as<Texture>()->eval(W2(c.k, 0))), E(Vec3(6, c.k, 4))); });
    add("lm.Texture", "texture", "eval_by_pixel_coords", "arr(K, 8, 4)", [](C c) { c.args(3 + c.k, 11); return c.is(E(c.as<Texture>()->eval_by_pixel_coords(3 + c.k, 11)), E(Vec3(c.k, 8, 4))); });
    // mesh
    add("lm.Mesh", "mesh", "num_triangles", "17 + K", [](C c) { c.args(); return c.as<Mesh>()->num_triangles() == 17 + c.k; });
    add("lm.Mesh", "mesh", "triangle_at", "mesh0.triangle_at(K)", [](C c) { c.args(5 + c.k); return c.is(E(c.as<Mesh>()->triangle_at(5 + c.k)), E(comp::get<Mesh>("$.assets.mesh0")->triangle_at(c.k))); });
    add("lm.Mesh", "mesh", "surface_point", "mesh0.surface_point(K, arr(0.25, 0.5))", [](C c) { c.args(6 + c.k, W2(c.k, 0)); return c.is(E(c.as<Mesh>()->surface_point(6 + c.k, W2(c.k, 0))), E(comp::get<Mesh>("$.assets.mesh0")->surface_point(c.k, Vec2(0.25, 0.5)))); });
    add("lm.Mesh", "mesh", "foreach_triangle", "None", [](C c) {
        host().run("def act(f):\n    for i in range(2): f(i + 3*K, mesh0.triangle_at(i))\n"); c.args("func"); py::list got, exp;
        c.as<Mesh>()->foreach_triangle([&](int face, const Mesh::Tri& t) { got.append(face); got.append(E(t)); });
        for (int i = 0; i < 2; i++) { exp.append(i + 3 * c.k); exp.append(E(comp::get<Mesh>("$.assets.mesh0")->triangle_at(i))); } return c.is(got, exp); });
    // film
    add("lm.Film", "film", "size", "film0.size()", [](C c) { c.args(); auto s = c.as<Film>()->size(); return s.w == 3 && s.h == 2; });
    add("lm.Film", "film", "num_pixels", "5000000000 + K", [](C c) { c.args(); return c.as<Film>()->num_pixels() == 5000000000ll + c.k; });
    add("lm.Film", "film", "set_pixel", "None", [](C c) { c.args(1 + c.k, 4, W(c.k, 0)); c.as<Film>()->set_pixel(1 + c.k, 4, W(c.k, 0)); return true; });
    add("lm.Film", "film", "splat_pixel", "None", [](C c) { c.args(2, 5 + c.k, W(c.k, 1)); c.as<Film>()->splat_pixel(2, 5 + c.k, W(c.k, 1)); return true; });
    add("lm.Film", "film", "save", "K == 1", [](C c) { c.args("some/path" + std::to_string(c.k)); return c.as<Film>()->save("some/path" + std::to_string(c.k)) == (c.k == 1); });
    add("lm.Film", "film", "buffer", "film0.buffer()", [](C c) { c.args(); auto b = c.as<Film>()->buffer(); return b.w == 3 && b.h == 2 && b.data; });
    add("lm.Film", "film", "accum", "None", [](C c) { auto* f = comp::get<Film>("$.assets.film0"); c.args((const Component*)f); c.as<Film>()->accum(f); return true; });
    add("lm.Film", "film", "rescale", "None", [](C c) { c.args(0.125 + c.k); c.as<Film>()->rescale(Float(0.125 + c.k)); return true; });
    add("lm.Film", "film", "clear", "None", [](C c) { c.args(); c.as<Film>()->clear(); return true; });
    add("lm.Film", "film", "update_pixel", "None", [](C c) {
        host().run("def act(x, y, f): drawn.append(enc(f(arr(1, 2, 3 + K))))\ndrawn = []"); c.args(7 + c.k, 8, "func"); Vec3 seen(0);
        c.as<Film>()->update_pixel(7 + c.k, 8, [&](Vec3 v) { seen = v; return v * Float(2); });
        py::list e; e.append(E(Vec3(2, 4, 6 + 2 * c.k))); return c.is(E(seen), E(Vec3(1, 2, 3 + c.k))) && c.is(host()["drawn"], e); });
    // accel
    add("lm.Accel", "accel", "intersect", "accel0.intersect(lm.Ray(arr(0.25, 0.25, 1), arr(0, 0, -1)), 0.0, 100.0) if K else None", [](C c) {
        c.args(R(c.k), 0.5 + c.k, 20.0 + c.k); return c.is(E(c.as<Accel>()->intersect(R(c.k), Float(0.5 + c.k), Float(20.0 + c.k))), E(c.k ? comp::get<Accel>("$.assets.accel0")->intersect(Ray{Vec3(0.25, 0.25, 1), Vec3(0, 0, -1)}, 0, 100) : std::optional<Accel::Hit>{})); });
    add("lm.Accel", "accel", "build", "None", [](C c) { auto* s = comp::get<Scene>(c.k ? "$.assets.scene0" : "$.assets.scene2"); c.args((const Component*)s); c.as<Accel>()->build(*s); return true; });
    // renderer
    add("lm.Renderer", "renderer", "render", "{'a': [1, K, None], 'n': 5000000000}", [](C c) { c.args(); auto j = c.as<Renderer>()->render(); return c.is(E(j), E(Json{{"a", Json::array({1, c.k, nullptr})}, {"n", 5000000000ll}})); });
    // model
    add("lm.Model", "model", "create_primitives", "None", [](C c) {
        host().run("def act(f):\n    f(mesh0, mat0, None)\n    f(mesh0, None, light0)\n"); c.args("func"); py::list got, exp;
        c.as<Model>()->create_primitives([&](Component* a, Component* b, Component* d) { got.append(E(a)); got.append(E(b)); got.append(E(d)); });
        auto g = [](const char* n) { return E((const Component*)comp::get<Component>(n)); };
        exp.append(g("$.assets.mesh0")); exp.append(g("$.assets.mat0")); exp.append(py::none()); exp.append(g("$.assets.mesh0")); exp.append(py::none()); exp.append(g("$.assets.light0")); return c.is(got, exp); });
    add("lm.Model", "model", "foreach_node", "None", [](C c) {
        host().run("def act(f):\n    f(scene0.node_at(K))\n"); c.args("func"); py::list got, exp;
        c.as<Model>()->foreach_node([&](const SceneNode& n) { got.append(E(n)); }); exp.append(E(comp::get<Scene>("$.assets.scene0")->node_at(c.k))); return c.is(got, exp); });
    // scene
    const char* S = "lm.Scene"; const char* s = "scene";
    add(S, s, "reset", "None", [](C c) { c.args(); c.as<Scene>()->reset(); return true; });
    add(S, s, "build", "None", [](C c) { c.args(); c.as<Scene>()->build(); return true; });
    add(S, s, "root_node", "3 + K", [](C c) { c.args(); return c.as<Scene>()->root_node() == 3 + c.k; });
    add(S, s, "create_primitive_node", "4 + K", [](C c) { Json j = c.k ? Json{{"mesh", "$.assets.mesh0"}, {"w", {1, 2.5}}} : Json::object(); c.args(j); return c.as<Scene>()->create_primitive_node(j) == 4 + c.k; });
    add(S, s, "create_group_node", "5 + K", [](C c) { Mat4 m(1); m[1][0] = Float(3 + c.k); m[3][2] = 7; c.args(m); return c.as<Scene>()->create_group_node(m) == 5 + c.k; });
    add(S, s, "create_instance_group_node", "6 + K", [](C c) { c.args(); return c.as<Scene>()->create_instance_group_node() == 6 + c.k; });
    add(S, s, "add_child", "None", [](C c) { c.args(1 + c.k, 9); c.as<Scene>()->add_child(1 + c.k, 9); return true; });
    add(S, s, "add_child_from_model", "None", [](C c) { c.args(2 + c.k, "$.m"); c.as<Scene>()->add_child_from_model(2 + c.k, "$.m"); return true; });
    add(S, s, "create_group_from_model", "7 + K", [](C c) { c.args("$.n" + std::to_string(c.k)); return c.as<Scene>()->create_group_from_model("$.n" + std::to_string(c.k)) == 7 + c.k; });
    add(S, s, "num_nodes", "8 + K", [](C c) { c.args(); return c.as<Scene>()->num_nodes() == 8 + c.k; });
    add(S, s, "num_lights", "9 + K", [](C c) { c.args(); return c.as<Scene>()->num_lights() == 9 + c.k; });
    add(S, s, "camera_node", "10 + K", [](C c) { c.args(); return c.as<Scene>()->camera_node() == 10 + c.k; });
    add(S, s, "medium_node", "11 + K", [](C c) { c.args(); return c.as<Scene>()->medium_node() == 11 + c.k; });
    add(S, s, "env_light_node", "12 + K", [](C c) { c.args(); return c.as<Scene>()->env_light_node() == 12 + c.k; });
    add(S, s, "accel", "accel0 if K else None", [](C c) { c.args(); return c.as<Scene>()->accel() == (c.k ? comp::get<Accel>("$.assets.accel0") : nullptr); });
    add(S, s, "set_accel", "None", [](C c) { c.args("$.a" + std::to_string(c.k)); c.as<Scene>()->set_accel("$.a" + std::to_string(c.k)); return true; });
    add(S, s, "intersect", "si(K)", [](C c) { c.args(R(c.k), 0.5, 9.0 + c.k); auto r = c.as<Scene>()->intersect(R(c.k), 0.5, Float(9.0 + c.k)); return c.k ? !r : r && r->primitive == 23 && c.is(E(r->geom.p), E(Vec3(1, 2, 3))); });
    add(S, s, "is_light", "K == 1", [](C c) { auto i = SceneInteraction::make_surface_interaction(5 + c.k, G(c.k, 0)); c.args(i); return c.as<Scene>()->is_light(i) == (c.k == 1); });
    add(S, s, "is_camera", "K == 0", [](C c) { auto i = SceneInteraction::make_camera_endpoint(6 + c.k, G(c.k, 1)); c.args(i); return c.as<Scene>()->is_camera(i) == (c.k == 0); });
    add(S, s, "pdf_light_selection", "0.5 + K", [](C c) { c.args(3 + c.k); return c.is(E(double(c.as<Scene>()->pdf_light_selection(3 + c.k))), E(0.5 + c.k)); });
    add(S, s, "light_index_at", "13 + K", [](C c) { c.args(4 + c.k); return c.as<Scene>()->light_index_at(4 + c.k) == 13 + c.k; });
    add(S, s, "traverse_primitive_nodes", "None", [](C c) {
        host().run("def act(f): f(scene0.node_at(K), lm.translate(arr(1, 2, 3)))"); c.args("func"); py::list got, exp;
        c.as<Scene>()->traverse_primitive_nodes([&](const SceneNode& n, Mat4 m) { got.append(E(n)); got.append(E(m)); }); exp.append(E(comp::get<Scene>("$.assets.scene0")->node_at(c.k))); exp.append(E(glm::translate(Vec3(1, 2, 3)))); return c.is(got, exp); });
    add(S, s, "visit_node", "None", [](C c) {
        host().run("def act(i, f): f(scene0.node_at(i))"); c.args(c.k, "func"); py::list got, exp;
        c.as<Scene>()->visit_node(c.k, [&](const SceneNode& n) { got.append(E(n)); }); exp.append(E(comp::get<Scene>("$.assets.scene0")->node_at(c.k))); return c.is(got, exp); });
    // logger, progress, asset group
    add("lm.log.LoggerContext", "logger", "log", "None", [](C c) { py::list en; en.append("enum"); en.append(c.k ? "Warn" : "Debug"); c.args(py::object(en), 12 + c.k, "file.cpp", 33, "message"); c.as<log::LoggerContext>()->log(c.k ? log::LogLevel::Warn : log::LogLevel::Debug, 12 + c.k, "file.cpp", 33, "message"); return true; });
    add("lm.log.LoggerContext", "logger", "update_indentation", "None", [](C c) { c.args(2 * c.k - 1); c.as<log::LoggerContext>()->update_indentation(2 * c.k - 1); return true; });
    add("lm.log.LoggerContext", "logger", "set_severity", "None", [](C c) { c.args(20 + c.k); c.as<log::LoggerContext>()->set_severity(20 + c.k); return true; });
    add("lm.progress.ProgressContext", "progress", "start", "None", [](C c) { py::list en; en.append("enum"); en.append(c.k ? "Time" : "Samples"); c.args(py::object(en), 5000000000ll + c.k, 1.5 + c.k); c.as<progress::ProgressContext>()->start(c.k ? progress::ProgressMode::Time : progress::ProgressMode::Samples, 5000000000ll + c.k, 1.5 + c.k); return true; });
    add("lm.progress.ProgressContext", "progress", "update", "None", [](C c) { c.args(6000000000ll + c.k); c.as<progress::ProgressContext>()->update(6000000000ll + c.k); return true; });
    add("lm.progress.ProgressContext", "progress", "update_time", "None", [](C c) { c.args(2.5 + c.k); c.as<progress::ProgressContext>()->update_time(Float(2.5 + c.k)); return true; });
    add("lm.progress.ProgressContext", "progress", "end", "None", [](C c) { c.args(); c.as<progress::ProgressContext>()->end(); return true; });
    add("lm.AssetGroup", "asset_group", "load_asset", "mat0 if K else None", [](C c) { Json j{{"p", c.k}}; c.args("nm", "mat::x", j); return c.as<AssetGroup>()->load_asset("nm", "mat::x", j) == (c.k ? comp::get<Component>("$.assets.mat0") : nullptr); });
    add("lm.AssetGroup", "asset_group", "load_serialized", "mat0 if K else None", [](C c) { c.args("nm", "p/q"); return c.as<AssetGroup>()->load_serialized("nm", "p/q") == (c.k ? comp::get<Component>("$.assets.mat0") : nullptr); });
    return v;
}
void world() {
    auto& h = host();
    h.run("lm.init()\nlm.log.set_severity(1000)\n"
        "film0 = lm.load_film('film0', 'bitmap', w=3, h=2)\nmat0 = lm.load_material('mat0', 'diffuse', Kd=[0.5, 0.25, 0.125])\nphase0 = lm.load_phase('phase0', 'hg', g=0.5)\n"
        "tex0 = lm.load_texture('tex0', 'constant', color=[0.5, 0.25, 1])\n"
        "mesh0 = lm.load_mesh('mesh0', 'raw', {'ps': [0,0,0, 1,0,0, 0,1,0, 1,1,0.5], 'ns': [0,0,1, 0,0,1, 0.6,0,0.8, 0,0.6,0.8], 'ts': [0,0, 1,0, 0,1, 1,1], 'fs': {'p': [0,1,2, 1,3,2], 't': [0,1,2, 1,3,2], 'n': [0,1,2, 1,3,2]}})\n"
        "light0 = lm.load_light('light0', 'area', Ke=[1, 2, 3], mesh=mesh0)\ncam0 = lm.load_camera('cam0', 'pinhole', position=[0.2, 0.3, 4], center=[0.1, 0.2, 0], up=[0, 1, 0], vfov=40, aspect=1.5)\n"
        "env0 = lm.load_light('env0', 'envconst', Le=[1, 1, 2])\nvol0 = lm.load_volume('vol0', 'gaussian', scalar=0.5, color=[1, 0.5, 0.25], pos=[0.1, 0.2, 0.3], sigma=[0.5, 0.5, 0.5], bound_min=[-1, -1, -1], bound_max=[1, 1, 1]) if False else lm.load_volume('vol0', 'constant', scalar=0.5, color=[1, 0.5, 0.25])\n"
        "med0 = lm.load_medium('med0', 'homogeneous', density=0.5, albedo=[0.5, 0.25, 1], phase=phase0) if False else None\n"
        "accel0 = lm.load_accel('accel0', 'sahbvh')\nscene0 = lm.load_scene('scene0', 'default', accel=accel0)\nscene1 = lm.load_scene('scene1', 'default', accel=accel0)\n"
        "scene0.add_primitive(mesh=mesh0, material=mat0, light=light0)\nscene0.add_primitive(camera=cam0)\nscene0.add_primitive(light=env0)\nscene0.build()\n");
    lm::load<Scene>("scene2", "scene::default", {{"accel", "$.assets.accel0"}});
    h.run(ENC);
    h.run("def mds(k):\n    d = lm.Medium_DistanceSample()\n    d.p = arr(1, 2, 3 + k)\n    d.weight = arr(4 + k, 5, 6)\n    d.medium = k == 1\n    return d\n"
          "def ray(k): return lm.Ray(arr(1, 2, 3 + k), arr(0, 1, 0))\n"
          "def si(k):\n    if k: return None\n    s = lm.SceneInteraction()\n    s.primitive = 23\n    g = lm.PointGeometry()\n    g.p = arr(1, 2, 3)\n    s.geom = g\n    return s\n");
}
void implemented(vp::Ctx& ctx) {
    world();
    auto& M = methods(); auto& h = host();
    std::map<std::string, std::pair<std::string, std::vector<std::string>>> by;
    for (auto& m : M) { by[m.key].first = m.iface; by[m.key].second.push_back(m.name); }
    for (auto& [key, p] : by) { std::string l; for (auto& n : p.second) l += "'" + n + "',"; h.run("implement(" + p.first + ", '" + key + "', [" + l + "])"); }
    ctx.bound("every overridable method of 15 interfaces whose types Python knows (" + std::to_string(M.size()) + "), two argument sets, implementation that answers / raises / is missing");
    ctx.explore([&](vp::Chooser& ch) {
        auto& m = M[ch.choose((int)M.size())]; int k = ch.choose(2), mode = ch.choose(3);   // 0 answer, 1 raise, 2 missing
        static const char* names[] = {"answers", "raises", "is missing"};
        ctx.trace(std::string(m.iface) + "." + m.name + " set " + std::to_string(k) + " " + names[mode]); ctx.state(ctx.note);
        auto& h = host();
        h.run("K = " + std::to_string(k) + "\ncalls.clear()\nact = None\nmode = '" + std::string(mode == 1 ? "raise" : "answer") + "'\nret = " + m.ret);
        auto c = comp::create<Component>(std::string(mode == 2 ? "empty::" : "rec::") + m.key, "$.made", Json::object());
        ctx.check(bool(c), "not-created", "a component implemented in Python is not created");
        Case cs{c.get(), k}; bool ok = false; std::string raised; bool missing_default = std::string(m.name) == "eval_scalar" || std::string(m.name) == "eval_color";
        try { ok = m.call(cs); }
        catch (py::error_already_set& e) { raised = "python:" + std::string(e.matches(PyExc_ValueError) ? "ValueError" : "other") + ":" + e.what(); }
        catch (const std::exception& e) { raised = std::string("c++:") + e.what(); }
        auto id = std::string(m.iface) + "." + m.name;
        if (mode == 0) {
            ctx.checkf(raised.empty(), "refused:" + id, [&] { return id + " implemented in Python cannot be called: " + raised; });
            py::list one; one.append(m.name); one.append(cs.want); py::list exp; exp.append(one);
            ctx.checkf(h["calls"].equal(exp), "dispatch:" + id, [&] { return id + " called with " + pyh::repr(cs.want) + ": Python sees " + pyh::repr(h["calls"]); });
            ctx.checkf(ok, "result:" + id, [&] { return id + " returned " + m.ret + " (K=" + std::to_string(k) + ") from Python: " + (cs.why.empty() ? "C++ receives another value" : cs.why); });
        } else if (mode == 1) ctx.checkf(raised.rfind("python:ValueError", 0) == 0, "exception:" + id, [&] { return id + ": the ValueError raised in Python does not reach the caller (" + raised + ")"; });
        else if (!missing_default) ctx.checkf(!raised.empty(), "missing:" + id, [&] { return id + " is not implemented in Python, but calling it succeeds"; });
    });
}
// ---- Python calls C++ -----------------------------------------------------------------------------------------------------------
struct Bound_ { std::string expr; std::function<py::object()> want; double tol = 0; };
void bound(vp::Ctx& ctx) {
    world();
    std::vector<Bound_> v;
    auto add = [&](const std::string& e, std::function<py::object()> f) { v.push_back({e, f}); };
    auto cam = comp::get<Camera>("$.assets.cam0"); auto mesh = comp::get<Mesh>("$.assets.mesh0"); auto sc = comp::get<Scene>("$.assets.scene0"); auto mat = comp::get<Material>("$.assets.mat0");
    auto lig = comp::get<Light>("$.assets.light0"); auto ph = comp::get<Phase>("$.assets.phase0"); auto tex = comp::get<Texture>("$.assets.tex0"); auto vol = comp::get<Volume>("$.assets.vol0"); auto acc = comp::get<Accel>("$.assets.accel0");
    auto av = [](Vec3 x) { return "arr(" + pyh::num(x.x) + "," + pyh::num(x.y) + "," + pyh::num(x.z) + ")"; };
    auto a2 = [](Vec2 x) { return "arr(" + pyh::num(x.x) + "," + pyh::num(x.y) + ")"; };
    host().run("def geom(p, n, gn, t): return lm.PointGeometry.make_on_surface(p, n, gn, t)");
    const std::vector<Vec3> ds = {{0, 0, 1}, glm::normalize(Vec3(1, 2, 3)), glm::normalize(Vec3(-1, 0.5, -0.25)), {1, 0, 0}};
    const std::vector<Vec2> rps = {{0.5, 0.5}, {0.1, 0.8}, {0, 1}};
    for (auto& d : ds) for (auto& e : ds) {
        add("lm.math.reflection(" + av(d) + "," + av(e) + ")", [=] { return E(math::reflection(d, e)); });
        add("lm.math.refraction(" + av(d) + "," + av(e) + ",0.75).wt", [=] { return E(math::refraction(d, e, 0.75).wt); });
        add("lm.math.refraction(" + av(d) + "," + av(e) + ",1.5).total", [=] { return E(bool(math::refraction(d, e, 1.5).total)); });
        auto g1 = PointGeometry::make_on_surface(d * Float(2), e, d, Vec2(0.25, 0.75)), g2 = PointGeometry::make_on_surface(e * Float(3) + Vec3(0.1, 0, 0), d);
        std::string s1 = "geom(" + av(d * Float(2)) + "," + av(e) + "," + av(d) + ",arr(0.25,0.75))", s2 = "lm.PointGeometry.make_on_surface(" + av(e * Float(3) + Vec3(0.1, 0, 0)) + "," + av(d) + "," + av(d) + ")";
        auto g3 = PointGeometry::make_on_surface(e * Float(3) + Vec3(0.1, 0, 0), d, d);
        add(s1, [=] { return E(g1); }); add(s2, [=] { return E(g3); });
        add("lm.surface.geometry_term(" + s1 + "," + s2 + ")", [=] { return E(double(surface::geometry_term(g1, g3))); });
        add(s1 + ".opposite(" + av(d) + "," + av(e) + ")", [=] { return E(bool(g1.opposite(d, e))); });
        add("mat0.pdf_direction(" + s1 + "," + av(e) + "," + av(d) + ", 0, False)", [=] { return E(double(mat->pdf_direction(g1, e, d, 0, false))); });
        add("light0.eval(" + s1 + "," + av(d) + ", False)", [=] { return E(lig->eval(g1, d, false)); });
        add("light0.pdf_direction(" + s1 + "," + av(d) + ")", [=] { return E(double(lig->pdf_direction(g1, d))); });
        add("phase0.eval(" + s1 + "," + av(d) + "," + av(e) + ")", [=] { return E(ph->eval(g1, d, e)); });
        add("phase0.pdf_direction(" + s1 + "," + av(e) + "," + av(d) + ")", [=] { return E(double(ph->pdf_direction(g1, e, d))); });
        add("cam0.pdf_direct(" + s1 + ", lm.PointGeometry.make_degenerated(arr(0.2,0.3,4)), " + av(d) + ")", [=] { return E(double(cam->pdf_direct(g1, PointGeometry::make_degenerated(Vec3(0.2, 0.3, 4)), d))); });
        Vec3 o = d * Float(2) + Vec3(0.3, 0.3, 0); Vec3 w = glm::normalize(Vec3(0.31, 0.27, 0) - o);
        add("scene0.intersect(lm.Ray(" + av(o) + "," + av(w) + "))", [=] { return E(sc->intersect(Ray{o, w})); });
        add("scene0.intersect(ray=lm.Ray(" + av(o) + "," + av(w) + "), tmin=0.1, tmax=1.5)", [=] { return E(sc->intersect(Ray{o, w}, 0.1, 1.5)); });
        add("scene0.intersect(lm.Ray(" + av(o) + "," + av(w) + "), 2.5)", [=] { return E(sc->intersect(Ray{o, w}, 2.5)); });
        add("accel0.intersect(lm.Ray(" + av(o) + "," + av(w) + "), 0.0, 50.0)", [=] { return E(acc->intersect(Ray{o, w}, 0, 50)); });
        add("lm.rotate(0.7, " + av(d) + ")", [=] { return E(glm::rotate(Float(0.7), d)); });
        add("lm.translate(" + av(d) + ")", [=] { return E(glm::translate(d)); });
        add("lm.scale(" + av(e) + ")", [=] { return E(glm::scale(e)); });
    }
    for (auto& d : ds) {
        add("cam0.eval(" + av(-d) + ")", [=] { return E(cam->eval(-d)); });
        add("cam0.raster_position(" + av(-d) + ")", [=] { return E(cam->raster_position(-d)); });
        add("cam0.pdf_direction(lm.PointGeometry.make_degenerated(arr(0.2,0.3,4)), " + av(-d) + ")", [=] { return E(double(cam->pdf_direction(PointGeometry::make_degenerated(Vec3(0.2, 0.3, 4)), -d))); });
        add("lm.PointGeometry.make_infinite(" + av(d) + ").wo", [=] { return E(PointGeometry::make_infinite(d).wo); });
        add("lm.PointGeometry.make_infinite(" + av(d) + ", arr(1,2,3)).p", [=] { return E(PointGeometry::make_infinite(d, Vec3(1, 2, 3)).p); });
        add("lm.PointGeometry.make_degenerated(" + av(d) + ").p", [=] { return E(d); });
        add("[enc(x) for x in lm.math.orthonormal_basis(" + av(d) + ")]", [=] { auto [u, w] = math::orthonormal_basis(d); py::list l; l.append(E(u)); l.append(E(w)); return py::object(l); });
        add("vol0.eval_scalar(" + av(d) + ")", [=] { return E(double(vol->eval_scalar(d))); });
        add("vol0.eval_color(" + av(d) + ")", [=] { return E(vol->eval_color(d)); });
        auto g = PointGeometry::make_on_surface(d, d); std::string s = "geom(" + av(d) + "," + av(d) + "," + av(d) + ",arr(0.5,0.25))";
        add("mat0.reflectance(" + s + ")", [=] { return E(mat->reflectance(g)); });
        add("light0.is_connectable(" + s + ")", [=] { return E(lig->is_connectable(g)); });
        for (auto& e : ds) { auto p1 = d * Float(1.5) + Vec3(0.3, 0.3, 0), p2 = Vec3(0.31, 0.29, 0) - e * Float(1.25);
            add("scene0.visible(csp(" + av(p1) + "), csp(" + av(p2) + "))", [=] { auto mk = [&](Vec3 p) { SceneInteraction s; s.primitive = 1; s.geom = PointGeometry::make_degenerated(p); return s; }; return E(sc->visible(mk(p1), mk(p2))); }); }
    }
    host().run("def csp(p):\n    s = lm.SceneInteraction()\n    s.primitive = 1\n    s.geom = lm.PointGeometry.make_degenerated(p)\n    return s\n"
               "def trav(s):\n    r = []\n    s.traverse_primitive_nodes(lambda n, m: r.append([enc(n), enc(m)]))\n    return r\n"
               "def tris(m):\n    r = []\n    m.foreach_triangle(lambda f, t: r.append([f, enc(t)]))\n    return r\n"
               "def vis(s, i):\n    r = []\n    s.visit_node(i, lambda n: r.append(enc(n)))\n    return r\n"
               "def rngs(seed, n):\n    r = lm.Rng(seed)\n    return [r.u() for i in range(n)]\n"
               "def each(n):\n    r = []\n    lm.parallel.foreach(n, lambda i, t: r.append(i))\n    return sorted(r)\n"
               "def regd():\n    r = []\n    lm.comp.foreach_registered(r.append)\n    return sorted(r)\n"
               "def polled(v):\n    r = []\n    lm.debug.reg_on_poll(lambda x: r.append(x))\n    lm.debug.poll(v)\n    lm.debug.reg_on_poll(None)\n    return enc(r[0]) if len(r) == 1 else r\n");
    for (auto& rp : rps) {
        add("cam0.primary_ray(" + a2(rp) + ")", [=] { return E(cam->primary_ray(rp)); });
        add("tex0.eval(" + a2(rp) + ")", [=] { return E(tex->eval(rp)); });
        add("lm.math.sample_cosine_weighted(" + a2(rp) + ")", [=] { return E(math::sample_cosine_weighted(rp)); });
        for (int f = 0; f < 2; f++) add("mesh0.surface_point(" + std::to_string(f) + "," + a2(rp * Float(0.5)) + ")", [=] { return E(mesh->surface_point(f, rp * Float(0.5))); });
    }
    for (int f = 0; f < 2; f++) add("mesh0.triangle_at(" + std::to_string(f) + ")", [=] { return E(mesh->triangle_at(f)); });
    add("mesh0.num_triangles()", [=] { return E(mesh->num_triangles()); });
    add("tris(mesh0)", [=] { py::list l; mesh->foreach_triangle([&](int f, const Mesh::Tri& t) { py::list q; q.append(f); q.append(E(t)); l.append(q); }); return py::object(l); });
    add("cam0.view_matrix()", [=] { return E(cam->view_matrix()); }); add("cam0.projection_matrix()", [=] { return E(cam->projection_matrix()); });
    add("lm.identity()", [] { return E(Mat4(1)); }); add("lm.rad(90.0)", [] { return E(double(glm::radians(Float(90)))); }); add("lm.v3(1.0, 2.0, 3.0)", [] { return E(Vec3(1, 2, 3)); });
    add("lm.math.safe_sqrt(-1.0)", [] { return E(0.0); }); add("lm.math.safe_sqrt(2.0)", [] { return E(double(math::safe_sqrt(2))); }); add("lm.math.sq(3.0)", [] { return E(9.0); }); add("lm.math.balance_heuristic(0.25, 0.5)", [] { return E(double(math::balance_heuristic(Float(0.25), Float(0.5)))); });
    for (auto [n, v] : std::vector<std::pair<std::string, int>>{
        {"lm.SceneInteractionType, 'None'", int(SceneInteraction::None)}, {"lm.SceneInteractionType, 'CameraEndpoint'", int(SceneInteraction::CameraEndpoint)}, {"lm.SceneInteractionType, 'LightEndpoint'", int(SceneInteraction::LightEndpoint)},
        {"lm.SceneInteractionType, 'SurfaceInteraction'", int(SceneInteraction::SurfaceInteraction)}, {"lm.SceneInteractionType, 'MediumInteraction'", int(SceneInteraction::MediumInteraction)}, {"lm.SceneInteractionType, 'Endpoint'", int(SceneInteraction::Endpoint)}, {"lm.SceneInteractionType, 'Midpoint'", int(SceneInteraction::Midpoint)},
        {"lm, 'MediumInteraction'", int(SceneInteraction::MediumInteraction)}, {"lm, 'SurfaceInteraction'", int(SceneInteraction::SurfaceInteraction)}, {"lm.SceneNodeType, 'Primitive'", int(SceneNodeType::Primitive)}, {"lm.SceneNodeType, 'Group'", int(SceneNodeType::Group)},
        {"lm.log.LogLevel, 'Debug'", int(log::LogLevel::Debug)}, {"lm.log.LogLevel, 'Info'", int(log::LogLevel::Info)}, {"lm.log.LogLevel, 'Warn'", int(log::LogLevel::Warn)}, {"lm.log.LogLevel, 'Err'", int(log::LogLevel::Err)}, {"lm.log.LogLevel, 'Progress'", int(log::LogLevel::Progress)}, {"lm.log.LogLevel, 'ProgressEnd'", int(log::LogLevel::ProgressEnd)},
        {"lm.progress.ProgressMode, 'Samples'", int(progress::ProgressMode::Samples)}, {"lm.progress.ProgressMode, 'Time'", int(progress::ProgressMode::Time)}}) add("int(getattr(" + n + "))", [v = v] { return E(v); });
    add("lm.Inf", [] { return E(double(Inf)); }); add("lm.Eps", [] { return E(double(Eps)); }); add("lm.Pi", [] { return E(double(Pi)); });
    add("scene0.num_nodes()", [=] { return E(sc->num_nodes()); }); add("scene0.num_lights()", [=] { return E(sc->num_lights()); }); add("scene0.camera_node()", [=] { return E(sc->camera_node()); }); add("scene0.env_light_node()", [=] { return E(sc->env_light_node()); }); add("scene0.medium_node()", [=] { return E(sc->medium_node()); }); add("scene0.root_node()", [=] { return E(sc->root_node()); });
    add("trav(scene0)", [=] { py::list l; sc->traverse_primitive_nodes([&](const SceneNode& n, Mat4 m) { py::list q; q.append(E(n)); q.append(E(m)); l.append(q); }); return py::object(l); });
    for (int i = 0; i < sc->num_nodes(); i++) {
        auto si = std::to_string(i); const auto& n = sc->node_at(i);
        add("vis(scene0, " + si + ")", [=] { py::list l; l.append(E(sc->node_at(i))); return py::object(l); });
        add("scene0.node_at(" + si + ")", [=] { return E(sc->node_at(i)); });
        if (n.type == SceneNodeType::Primitive) for (auto [nm, c] : std::vector<std::pair<std::string, Component*>>{{"mesh", n.primitive.mesh}, {"material", n.primitive.material}, {"light", n.primitive.light}, {"camera", n.primitive.camera}, {"medium", n.primitive.medium}}) add("scene0.node_at(" + si + ").primitive." + nm, [c = c] { return E((const Component*)c); });
        else { add("scene0.node_at(" + si + ").group.children", [=] { return py::object(py::cast(sc->node_at(i).group.children)); }); add("scene0.node_at(" + si + ").group.local_transform", [=] { return E(sc->node_at(i).group.local_transform); }); add("scene0.node_at(" + si + ").group.instanced", [=] { return E(sc->node_at(i).group.instanced); }); }
    }
    add("scene0.camera()", [=] { return E((const Component*)sc->camera()); }); add("scene0.accel()", [=] { return E((const Component*)sc->accel()); });
    add("scene0.pdf_light_selection(0)", [=] { return E(double(sc->pdf_light_selection(0))); });
    add("mat0.is_specular_component(0)", [=] { return E(mat->is_specular_component(0)); }); add("light0.is_infinite()", [=] { return E(lig->is_infinite()); }); add("env0.is_infinite()", [=] { return E(comp::get<Light>("$.assets.env0")->is_infinite()); });
    add("vol0.has_scalar()", [=] { return E(vol->has_scalar()); }); add("vol0.has_color()", [=] { return E(vol->has_color()); }); add("vol0.max_scalar()", [=] { return E(double(vol->max_scalar())); });
    for (const char* n : {"film0", "mat0", "scene0", "cam0", "mesh0", "light0"}) {
        std::string s = n, loc = "$.assets." + s; auto* c = comp::get<Component>(loc);
        add(s + ".key()", [=] { return E(c->key()); }); add(s + ".loc()", [=] { return E(loc); }); add(s + ".make_loc('x')", [=] { return E(c->make_loc("x")); }); add(s + ".parentLoc()", [=] { return E(c->parent_loc()); });
        add("lm.get('" + loc + "')", [=] { return E((const Component*)c); }); add("lm.comp.get('" + loc + "')", [=] { return E((const Component*)c); }); add("lm.Component.cast(" + s + ")", [=] { return E((const Component*)c); });
    }
    // typed access: an asset of another interface is None
    for (const char* i : {"mesh", "texture", "material", "camera", "light", "phase", "volume", "film", "accel", "scene"}) for (const char* n : {"film0", "mat0", "scene0", "cam0", "mesh0", "light0", "tex0", "accel0", "vol0", "phase0", "nope"}) {
        std::string is = i, ns = n; bool match = ns.substr(0, 3) == is.substr(0, 3) && ns != "nope";
        add("lm.get_" + is + "('$.assets." + ns + "')", [=] { return match ? E((const Component*)comp::get<Component>("$.assets." + ns)) : py::object(py::none()); });
    }
    add("lm.Film.cast(lm.get('$.assets.mat0'))", [] { return py::object(py::none()); }); add("lm.Material.cast(lm.get('$.assets.mat0'))", [=] { return E((const Component*)mat); });
    add("lm.assets()", [] { py::list l; l.append("comp"); l.append("$.assets"); return py::object(l); });
    add("lm.assets().underlying('mat0')", [=] { return E((const Component*)mat); });
    for (int sd : {0, 1, 42}) add("rngs(" + std::to_string(sd) + ", 4)", [=] { Rng r(sd); py::list l; for (int i = 0; i < 4; i++) l.append(py::float_(double(r.u()))); return py::object(l); });
    for (int n : {0, 1, 7, 40}) add("each(" + std::to_string(n) + ")", [=] { py::list l; for (int i = 0; i < n; i++) l.append(i); return py::object(l); });
    add("lm.parallel.num_threads()", [] { return E(parallel::num_threads()); });
    add("regd()", [] { std::vector<std::string> v; comp::foreach_registered([&](const std::string& n) { v.push_back(n); }); std::sort(v.begin(), v.end()); return py::object(py::cast(v)); });
    add("polled({'a': [1, 2.5, 'x', None, True]})", [] { return E(Json{{"a", {1, 2.5, "x", nullptr, true}}}); });
    add("raised(lambda: lm.load_film('zz', 'bitmap', {}))", [] { return py::object(py::str("Exception")); });
    add("raised(lambda: scene0.add_primitive(mesh='$.assets.nope'))", [] { return py::object(py::str("Exception")); });
    add("raised(lambda: scene1.require_renderable())", [] { return py::object(py::str("Exception")); });
    add("raised(lambda: lm.parallel.foreach(3, lambda i, t: 1 // 0))", [] { return py::object(py::str("ZeroDivisionError")); });
    add("raised(lambda: mesh0.foreach_triangle(lambda f, t: 1 // 0))", [] { return py::object(py::str("ZeroDivisionError")); });
    add("raised(lambda: scene0.intersect(lm.Ray(), 'x'))", [] { return py::object(py::str("TypeError")); });
    add("raised(lambda: film0.set_pixel(0, 0, arr(1, 2)))", [] { return py::object(py::str("TypeError")); });
    add("raised(lambda: lm.translate(np.zeros((3, 3), FT)))", [] { return py::object(py::str("TypeError")); });
    host().run("def raised(f):\n    try:\n        f()\n    except BaseException as e:\n        return type(e).__name__\n    return 'nothing'\n");
    ctx.bound("every function and method exposed to Python whose types Python knows, on shipped components: " + std::to_string(v.size()) + " calls");
    ctx.explore([&](vp::Chooser& ch) {
        auto& b = v[ch.choose((int)v.size())]; ctx.trace(b.expr); ctx.state(b.expr);
        std::string err; py::object got, want = b.want();
        try { got = host().eval("enc(" + b.expr + ")"); } catch (const std::exception& e) { err = e.what(); }
        ctx.checkf(err.empty(), "call-refused", [&] { return b.expr + " fails: " + err; });
        ctx.checkf(got.equal(want), "call-result", [&] { return b.expr + " gives " + pyh::repr(got) + " in Python, " + pyh::repr(want) + " in C++"; });
    });
}
}
SCENARIO("implemented_in_python") { calls::implemented(ctx); }
SCENARIO("called_from_python") { calls::bound(ctx); }
