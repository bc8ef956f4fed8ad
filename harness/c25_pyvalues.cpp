// C25: values and calls cross the Python boundary unchanged.
#include "harness/pyhost.h"
#include <cmath>
#include <functional>
using namespace lm;
using pyh::host; namespace py = pybind11;

namespace {
// ---- documents ----------------------------------------------------------------------------------------------------------------
struct Doc { std::string py; Json js; std::string back; };   // Python literal, the document it denotes, the literal that comes back
bool eq(const Json& a, const Json& b) {
    if (a.is_number_float() || b.is_number_float()) {
        if (!a.is_number_float() || !b.is_number_float()) return false;
        double x = a.get<double>(), y = b.get<double>();
        return (std::isnan(x) && std::isnan(y)) || (x == y && std::signbit(x) == std::signbit(y));
    }
    if (a.is_number_integer() || b.is_number_integer()) return a.is_number_integer() && b.is_number_integer() && a == b && a.dump() == b.dump();
    if (a.type() != b.type()) return false;
    if (a.is_array()) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!eq(a[i], b[i])) return false; return true; }
    if (a.is_object()) { if (a.size() != b.size()) return false; for (auto it = a.begin(); it != a.end(); ++it) if (!b.count(it.key()) || !eq(it.value(), b[it.key()])) return false; return true; }
    return a == b;
}
const std::vector<Doc>& leaves() {
    static const std::vector<Doc> v = {
        {"None", nullptr, ""}, {"True", true, ""}, {"False", false, ""},
        {"0", 0, ""}, {"1", 1, ""}, {"-1", -1, ""}, {"42", 42, ""}, {"2147483647", 2147483647, ""}, {"-2147483648", -2147483648ll, ""},
        {"2147483648", 2147483648ll, ""}, {"-2147483649", -2147483649ll, ""}, {"4294967295", 4294967295ll, ""}, {"4294967296", 4294967296ll, ""}, {"9007199254740993", 9007199254740993ll, ""},
        {"9223372036854775807", std::numeric_limits<long long>::max(), ""}, {"-9223372036854775808", std::numeric_limits<long long>::min(), ""},
        {"0.0", 0.0, ""}, {"-0.0", -0.0, ""}, {"1.0", 1.0, ""}, {"0.1", 0.1, ""}, {"-2.5", -2.5, ""}, {"16777217.0", 16777217.0, ""}, {"1e308", 1e308, ""}, {"5e-324", 5e-324, ""},
        {"float('inf')", INFINITY, ""}, {"-float('inf')", -INFINITY, ""}, {"float('nan')", NAN, ""},
        {"''", "", ""}, {"'a'", "a", ""}, {"'1'", "1", ""}, {"'None'", "None", ""}, {"'$.assets.x'", "$.assets.x", ""}, {"'\\u00e9\\u2603\\U0001F600'", "\xc3\xa9\xe2\x98\x83\xf0\x9f\x98\x80", ""},
        {"'a\\x00b'", std::string("a\0b", 3), ""}, {"'line\\nbreak \\\\ \"quote\"'", "line\nbreak \\ \"quote\"", ""},
        {"[]", Json::array(), ""}, {"()", Json::array(), "[]"}, {"{}", Json::object(), ""},
        {"np.float64(0.25)", 0.25, "0.25"}, {"range(3)", Json::array({0, 1, 2}), "[0,1,2]"},
    };
    return v;
}
const std::vector<int>& few() { static const std::vector<int> v = {0, 9, 19, 32, 37}; return v; }
// all documents with at most `depth` levels of nesting and `width` entries
Doc gen(vp::Chooser& ch, int depth, int width, bool all) {
    int kind = depth > 0 ? ch.choose(4) : 0;
    if (kind == 0) { const auto& L = leaves(); Doc d = all ? L[ch.choose((int)L.size())] : L[few()[ch.choose((int)few().size())]]; if (d.back.empty()) d.back = d.py; return d; }
    int n = 1 + ch.choose(width);
    if (kind == 3) {
        static const char* keys[] = {"a", "", "b.c"};
        Doc d{"{", Json::object(), "{"};
        for (int i = 0; i < n; i++) { auto c = gen(ch, depth - 1, width, all && n == 1); d.py += (i ? ",'" : "'") + std::string(keys[i]) + "':" + c.py; d.back += (i ? ",'" : "'") + std::string(keys[i]) + "':" + c.back; d.js[keys[i]] = c.js; }
        d.py += "}"; d.back += "}"; return d;
    }
    Doc d{kind == 1 ? "[" : "(", Json::array(), "["};
    for (int i = 0; i < n; i++) { auto c = gen(ch, depth - 1, width, all && n == 1); d.py += c.py + ","; d.back += c.back + ","; d.js.push_back(c.js); }
    d.py += kind == 1 ? "]" : ")"; d.back += "]"; return d;
}
void both_ways(vp::Ctx& ctx, const Doc& d) {
    ctx.trace(d.py);
    auto& h = host();
    auto o = h.eval(d.py);
    Json got;
    std::string err;
    try { got = o.cast<Json>(); } catch (const std::exception& e) { err = e.what(); }
    ctx.checkf(err.empty(), "json-rejected", [&] { return "the Python value " + d.py + " is not accepted as a property: " + err; });
    ctx.checkf(eq(got, d.js), "json-to-cpp", [&] { return "the Python value " + d.py + " arrives as " + got.dump() + " instead of " + d.js.dump(); });
    py::object back;
    try { back = py::cast(d.js); } catch (const std::exception& e) { err = e.what(); }
    ctx.checkf(err.empty(), "json-not-returned", [&] { return "the document " + d.js.dump() + " cannot be returned to Python: " + err; });
    ctx.checkf(h["same"](back, h.eval(d.back)).cast<bool>(), "json-to-python", [&] { return "the document " + d.js.dump() + " arrives in Python as " + pyh::repr(back); });
}
}
SCENARIO("documents_flat") { ctx.explore([&](vp::Chooser& ch) { both_ways(ctx, gen(ch, 1, 2, true)); }); }
SCENARIO("documents_nested") { ctx.explore([&](vp::Chooser& ch) { both_ways(ctx, gen(ch, 2, 2, false)); }); }
SCENARIO_T("documents_wide") { ctx.explore([&](vp::Chooser& ch) { both_ways(ctx, gen(ch, 1, 3, true)); }); }
SCENARIO_T("documents_deep") { ctx.explore([&](vp::Chooser& ch) { both_ways(ctx, gen(ch, 3, 1, true)); }); }
SCENARIO("documents_unsigned") {
    ctx.explore([&](vp::Chooser& ch) {
        static const std::vector<std::pair<Json, std::string>> v = {{0u, "0"}, {7u, "7"}, {4294967295u, "4294967295"}, {9223372036854775808ull, "9223372036854775808"}, {18446744073709551615ull, "18446744073709551615"}};
        auto& [j, s] = v[ch.choose((int)v.size())]; bool nest = ch.flip();
        ctx.trace(s + (nest ? " nested" : ""));
        auto o = py::cast(nest ? Json::array({j}) : j);
        ctx.checkf(host()["same"](o, host().eval(nest ? "[" + s + "]" : s)).cast<bool>(), "json-to-python", [&] { return "the document " + j.dump() + " arrives in Python as " + pyh::repr(o); });
    });
}
// what is not a document is refused with an exception, wherever it occurs
SCENARIO("not_documents") {
    static const char* bad[] = {"object()", "{1,2}", "1j", "{1: 2}", "{None: 1}", "{('a',): 1}", "2**64", "-2**63-1", "10**30", "lambda: 0", "int", "lm", "lm.Ray()", "lm.PointGeometry()", "lm.Rng(1)", "lm.LogLevelProbe", "iter([1])", "np.array(1.5)", "Plain()", "lm.Film"};
    static const char* ctxs[] = {"%s", "[%s]", "[1, %s]", "{'a': %s}", "{'a': [%s], 'b': 1}", "(%s,)"};
    host().run("class Plain:\n    x = 1\nlm.LogLevelProbe = lm.SceneNodeType.Group\n");
    ctx.explore([&](vp::Chooser& ch) {
        const char* b = bad[ch.choose(20)]; const char* c = ctxs[ch.choose(6)]; int via = ch.choose(2);
        char t[128]; snprintf(t, sizeof t, c, b);
        ctx.trace(std::string(t) + (via ? " via load" : " cast"));
        bool threw = false; Json got;
        try {
            if (via == 0) got = host().eval(t).cast<Json>();
            else { host().run(std::string("lm.debug.poll(") + t + ")"); got = "accepted"; }
        }
        catch (const py::error_already_set& e) { threw = true; }
        catch (const std::exception& e) { threw = true; }
        ctx.checkf(threw, "not-a-document", [&] { return std::string(t) + " is no JSON document, but is accepted as " + got.dump(-1, ' ', false, Json::error_handler_t::replace); });
    });
}
// components stand for their locators
SCENARIO("components_as_documents") {
    auto& h = host();
    h.run("lm.init('user::default', {}) if False else lm.init()\nlm.log.set_severity(1000)\n"
          "class PyTex(lm.Texture):\n    def construct(self, prop): self.p = prop\nlm.Texture.reg(PyTex, 'texture::vtpy')\n"
          "made = {'film': lm.load_film('f', 'bitmap', {'w': 2, 'h': 2}), 'mat': lm.load_material('m', 'diffuse', {'Kd': [1,1,1]}), 'grp': lm.load_asset_group('g', 'default', {}), 'pytex': lm.load_texture('t', 'vtpy', {})}\n"
          "made['inner'] = made['grp'].load_material('m', 'diffuse', {'Kd': [1,1,1]})\n"
          "made['generic'] = lm.get('$.assets.m')\nmade['assets'] = lm.assets()\n");
    static const std::vector<std::pair<const char*, const char*>> v = {{"film", "$.assets.f"}, {"mat", "$.assets.m"}, {"grp", "$.assets.g"}, {"pytex", "$.assets.t"}, {"inner", "$.assets.g.m"}, {"generic", "$.assets.m"}, {"assets", "$.assets"}};
    ctx.explore([&](vp::Chooser& ch) {
        auto& [n, loc] = v[ch.choose((int)v.size())]; int c = ch.choose(3);
        std::string e = std::string("made['") + n + "']"; Json want = loc;
        if (c == 1) { e = "{'k': " + e + "}"; want = Json{{"k", loc}}; }
        if (c == 2) { e = "[0, " + e + "]"; want = Json::array({0, loc}); }
        ctx.trace(e);
        std::string err; Json got;
        try { got = host().eval(e).cast<Json>(); } catch (const std::exception& x) { err = x.what(); }
        ctx.checkf(err.empty() && eq(got, want), "component-locator", [&] { return "component " + e + " arrives as " + got.dump() + " " + err + " instead of " + want.dump(); });
    });
}
// the same through the public functions: positional and keyword properties of a component implemented in Python
SCENARIO("properties") {
    auto& h = host();
    h.run("lm.init()\nlm.log.set_severity(1000)\nseen = []\n"
          "class PyTex(lm.Texture):\n    def construct(self, prop):\n        seen.append(prop)\nlm.Texture.reg(PyTex, 'texture::vtpy')\n"
          "class PyRend(lm.Renderer):\n    def construct(self, prop): self.p = prop\n    def render(self): return self.p\nlm.Renderer.reg(PyRend, 'renderer::vtpy')\ng = lm.load_asset_group('grp', 'default', {})\n");
    ctx.explore([&](vp::Chooser& ch) {
        int via = ch.choose(7);
        auto a = gen(ch, 1, 1, true);
        ctx.trace(std::to_string(via) + " " + a.py);
        auto& h = host();
        static const char* how[] = {"lm.load('x', 'texture::vtpy', {'k': %s, 'z': 1})", "lm.load_texture('x', 'vtpy', {'k': %s, 'z': 1})", "lm.load_texture('x', 'vtpy', k=%s, z=1)",
            "g.load_texture('x', 'vtpy', {'k': %s, 'z': 1})", "g.load_texture('x', 'vtpy', k=%s, z=1)", "lm.Texture.create('texture::vtpy', '$.none', {'k': %s, 'z': 1})", "seen.append(lm.load_renderer('r', 'vtpy', k=%s, z=1).render())"};
        char code[512]; snprintf(code, sizeof code, how[via], a.py.c_str());
        std::string err;
        h.run("seen.clear()");
        try { h.run(code); } catch (const std::exception& e) { err = e.what(); }
        ctx.checkf(err.empty(), "properties-refused", [&] { return std::string(code) + " fails: " + err; });
        ctx.checkf(h["same"](h["seen"], h.eval("[{'k': " + a.back + ", 'z': 1}]")).cast<bool>(), "properties", [&] { return std::string(code) + ": the component sees " + pyh::repr(h["seen"]); });
    });
}
// ---- vectors and matrices -------------------------------------------------------------------------------------------------------
namespace {
template <typename V, int N> bool to_vec(py::object o, std::vector<double>& out) { try { V v = o.cast<V>(); for (int i = 0; i < N; i++) out.push_back(v[i]); return true; } catch (const std::exception&) { return false; } }
template <typename M, int N> bool to_mat(py::object o, std::vector<double>& out) { try { M v = o.cast<M>(); for (int r = 0; r < N; r++) for (int c = 0; c < N; c++) out.push_back(v[c][r]); return true; } catch (const std::exception&) { return false; } }
std::string join(const std::vector<double>& v) { std::string s; for (double d : v) s += pyh::num(d) + " "; return s; }
const char* PRE = R"(
vals = [1.5, -2.25, 1e-3, 4096.125, 0.0, -7.0, 3.0, 11.5, 0.1, 2.0, -1.0, 0.3, 8.0, 9.5, -6.125, 5.0, 12.0, 13.0, 14.0, 15.0, 21.0, 22.0, 23.0, 24.0, 25.0]
def heap(a):
    # exactly as many bytes as the array has, so that reading beyond it is noticed
    return a
def make1(n, dt, layout):
    v = [dt(x) for x in vals[:n]]
    if layout == 0: return np.array(v, dtype=dt)
    if layout == 1:
        b = np.full(2 * n + 1, dt(77)); b[0:2*n:2] = v; return b[0:2*n:2]
    if layout == 2:
        return np.array(v[::-1], dtype=dt)[::-1]
    if layout == 3:
        b = np.full((n, 3), dt(77)); b[:, 1] = v; return b[:, 1]
    if layout == 4:
        b = np.full(n + 2, dt(77)); b[2:] = v; return b[2:]
    if layout == 5: return np.broadcast_to(dt(vals[0]), (n,))
    if layout == 6:
        a = np.array(v, dtype=dt); a.flags.writeable = False; return a
    if layout == 7: return np.array(v, dtype=np.dtype(dt).newbyteorder('>')) if np.dtype(dt).itemsize > 1 else np.array(v, dtype=dt)
def make2(r, c, dt, layout):
    v = np.array([dt(x) for x in vals[:r*c]], dtype=dt).reshape(r, c) if r*c else np.zeros((r, c), dt)
    if layout == 0: return v.copy()
    if layout == 1: return np.asfortranarray(v)
    if layout == 2: return np.ascontiguousarray(v.T).T
    if layout == 3:
        b = np.full((2*r + 1, 2*c + 1), dt(77)); b[0:2*r:2, 0:2*c:2] = v; return b[0:2*r:2, 0:2*c:2]
    if layout == 4: return np.ascontiguousarray(v[::-1, ::-1])[::-1, ::-1]
    if layout == 5:
        b = np.full((r + 1, c + 2), dt(77)); b[1:, 2:] = v; return b[1:, 2:]
    if layout == 6: return np.broadcast_to(dt(vals[0]), (r, c))
    if layout == 7:
        a = v.copy(); a.flags.writeable = False; return a
def flat(a): return [float(x) for x in np.asarray(a).astype(np.float64).reshape(-1)]
)";
const char* DT[] = {"np.float64", "np.float32", "np.int32", "np.int64", "np.bool_", "np.complex128"};
}
// Every element type x length x memory layout: an array of the library's element type and the right length arrives with its values;
// a wrong length or number of dimensions is refused; whatever else is accepted has the right values.
SCENARIO("vectors") {
    host().run(PRE);
    ctx.explore([&](vp::Chooser& ch) {
        int N = 2 + ch.choose(3), n = ch.choose(7), dt = ch.choose(6), layout = ch.choose(8);
        char e[96]; snprintf(e, sizeof e, "make1(%d, %s, %d)", n, DT[dt], layout);
        ctx.trace("Vec" + std::to_string(N) + " from " + e);
        auto o = host().eval(e); std::vector<double> got;
        bool ok = N == 2 ? to_vec<Vec2, 2>(o, got) : N == 3 ? to_vec<Vec3, 3>(o, got) : to_vec<Vec4, 4>(o, got);
        bool native = dt == (sizeof(Float) == 8 ? 0 : 1) && layout != 7;
        if (n != N) { ctx.checkf(!ok, "vector-length", [&] { return std::string("an array of ") + std::to_string(n) + " elements (" + e + ") is accepted as a vector of " + std::to_string(N); }); return; }
        if (native) ctx.checkf(ok, "vector-refused", [&] { return std::string("the array ") + e + " is refused as a vector of " + std::to_string(N); });
        if (ok && dt != 5) { auto want = host()["flat"](o).cast<std::vector<double>>(); for (auto& w : want) w = Float(w);
            ctx.checkf(got == want, "vector-values", [&] { return std::string("the array ") + e + " = " + join(want) + " arrives as " + join(got); }); }
    });
}
SCENARIO("matrices") {
    host().run(PRE);
    ctx.explore([&](vp::Chooser& ch) {
        int N = 3 + ch.choose(2), r = 2 + ch.choose(4), c = 2 + ch.choose(4), dt = ch.choose(3), layout = ch.choose(8);
        char e[96]; snprintf(e, sizeof e, "make2(%d, %d, %s, %d)", r, c, DT[dt], layout);
        ctx.trace("Mat" + std::to_string(N) + " from " + e);
        auto o = host().eval(e); std::vector<double> got;
        bool ok = N == 3 ? to_mat<Mat3, 3>(o, got) : to_mat<Mat4, 4>(o, got);
        bool native = dt == (sizeof(Float) == 8 ? 0 : 1);
        if (r != N || c != N) { ctx.checkf(!ok, "matrix-shape", [&] { return std::string("an array of shape ") + std::to_string(r) + "x" + std::to_string(c) + " is accepted as a " + std::to_string(N) + "x" + std::to_string(N) + " matrix"; }); return; }
        if (native) ctx.checkf(ok, "matrix-refused", [&] { return std::string("the array ") + e + " is refused as a matrix"; });
        if (ok) { auto want = host()["flat"](o).cast<std::vector<double>>(); for (auto& w : want) w = Float(w);
            ctx.checkf(got == want, "matrix-values", [&] { return std::string("the array ") + e + " = " + join(want) + " arrives as " + join(got); }); }
    });
}
SCENARIO("not_vectors") {
    host().run(PRE);
    static const char* bad[] = {"1", "1.5", "'abc'", "None", "object()", "np.zeros((3,3), FT)", "np.zeros((1,3), FT)", "np.zeros((3,1), FT)", "np.zeros((), FT)", "np.zeros((3,3,3), FT)", "np.zeros((4,4,1), FT)", "np.zeros((9,), FT)", "np.zeros((16,), FT)", "np.zeros((0,0), FT)", "np.array(['a','b','c'])", "np.array([None, None, None])", "{'x': 1}", "b'abc'"};
    ctx.explore([&](vp::Chooser& ch) {
        const char* b = bad[ch.choose(18)]; int t = ch.choose(5);
        ctx.trace(std::string(b) + " as " + std::to_string(t));
        std::vector<double> got; auto o = host().eval(b);
        bool ok = t == 0 ? to_vec<Vec2, 2>(o, got) : t == 1 ? to_vec<Vec3, 3>(o, got) : t == 2 ? to_vec<Vec4, 4>(o, got) : t == 3 ? to_mat<Mat3, 3>(o, got) : to_mat<Mat4, 4>(o, got);
        if (t == 3 && std::string(b) == "np.zeros((3,3), FT)") { ctx.check(ok, "matrix-refused", "a 3x3 array is refused as a matrix"); return; }
        ctx.checkf(!ok, "not-a-vector", [&] { return std::string(b) + " is accepted as a " + (t < 3 ? "vector of " + std::to_string(t + 2) : "matrix of " + std::to_string(t)); });
    });
}
namespace {
template <typename T> void returned(vp::Ctx& ctx, const T& v, const std::vector<double>& want, std::vector<int> shape, const std::string& what, int after) {
    auto& h = host();
    py::object o; { T* tmp = new T(v); o = py::cast(*tmp); *tmp = T(Float(99)); delete tmp; }
    if (after == 1) { auto o2 = py::cast(v); o2.attr("fill")(7); }
    if (after == 2) { auto o2 = o; o = o.attr("copy")(); o2 = py::none(); h.run("gc.collect()"); }
    if (after == 3) { o = o.attr("T").attr("T"); h.run("gc.collect()"); }
    ctx.checkf(py::object(o.attr("dtype")).equal(h.eval("np.dtype(FT)")), "returned-type", [&] { return what + " arrives with element type " + pyh::repr(o.attr("dtype")); });
    ctx.checkf(py::list(o.attr("shape")).cast<std::vector<int>>() == shape, "returned-shape", [&] { return what + " arrives with shape " + pyh::repr(o.attr("shape")); });
    auto got = py::list(o.attr("reshape")(-1).attr("tolist")()).cast<std::vector<double>>();
    ctx.checkf(got == want, "returned-values", [&] { return what + " arrives as " + join(got) + " instead of " + join(want); });
    // elementwise access must agree as well (strides)
    if (shape.size() == 2) for (int r = 0; r < shape[0]; r++) for (int c = 0; c < shape[1]; c++) ctx.checkf(o[py::make_tuple(r, c)].cast<double>() == want[r * shape[1] + c], "returned-values", [&] { return what + ": element " + std::to_string(r) + "," + std::to_string(c); });
    // and it can be passed on again
    T again = o.template cast<T>(); ctx.checkf(again == v, "returned-again", [&] { return what + " passed back to C++ is another value"; });
}
}
SCENARIO("returned_arrays") {
    ctx.explore([&](vp::Chooser& ch) {
        int t = ch.choose(5), k = ch.choose(4), after = ch.choose(4);
        static const double base[4][16] = {{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}, {0.5, -1.25, 1e-3, 1e20, -0.0, 3, 5, 8, 2.5, 7, 1, 6, 9, 4, 0, -1}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {-1, 1, -2, 2, -3, 3, -4, 4, -5, 5, -6, 6, -7, 7, -8, 8}};
        std::vector<double> w; auto B = [&](int n) { w.clear(); for (int i = 0; i < n; i++) w.push_back(Float(base[k][i])); };
        ctx.trace(std::to_string(t) + " " + std::to_string(k) + " " + std::to_string(after));
        if (t == 0) { B(2); returned(ctx, Vec2(w[0], w[1]), w, {2}, "a vector of 2", after); }
        if (t == 1) { B(3); returned(ctx, Vec3(w[0], w[1], w[2]), w, {3}, "a vector of 3", after); }
        if (t == 2) { B(4); returned(ctx, Vec4(w[0], w[1], w[2], w[3]), w, {4}, "a vector of 4", after); }
        if (t == 3) { B(9); Mat3 m; for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) m[c][r] = w[r * 3 + c]; returned(ctx, m, w, {3, 3}, "a 3x3 matrix", after); }
        if (t == 4) { B(16); Mat4 m; for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) m[c][r] = w[r * 4 + c]; returned(ctx, m, w, {4, 4}, "a 4x4 matrix", after); }
    });
}
// ---- film buffer ------------------------------------------------------------------------------------------------------------------
SCENARIO("film_buffer") {
    host().run("lm.init()\nlm.log.set_severity(1000)");
    ctx.explore([&](vp::Chooser& ch) {
        int w = 1 + ch.choose(4), h = 1 + ch.choose(4), how = ch.choose(3);
        ctx.trace(std::to_string(w) + "x" + std::to_string(h) + " " + std::to_string(how));
        char code[512];
        snprintf(code, sizeof code, "film = lm.load_film('f', 'bitmap', w=%d, h=%d)\nbad = ''\n", w, h);
        auto& P = host(); P.run(code);
        P.run("s = film.size()\n"
              "if (s.w, s.h) != (" + std::to_string(w) + "," + std::to_string(h) + ") or film.num_pixels() != s.w*s.h or abs(film.aspect() - s.w/s.h) > 1e-6: bad = 'size'\n");
        ctx.checkf(P.get<std::string>("bad").empty(), "film-shape", [&] { return "film " + std::to_string(w) + "x" + std::to_string(h) + ": " + P.get<std::string>("bad"); });
        auto* film = comp::get<Film>("$.assets.f");
        if (how == 0) P.run("for y in range(s.h):\n    for x in range(s.w): film.set_pixel(x, y, arr(x + 10*y, 100 + x - y, -x - 0.5*y))\n");
        else for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { Vec3 v(Float(x + 10 * y), Float(100 + x - y), Float(-x - 0.5 * y)); if (how == 1) film->set_pixel(x, y, v); else film->splat_pixel(x, y, v); }
        P.run("view = np.array(film.buffer(), copy=False)\nif view.shape != (s.h, s.w, 3) or view.dtype != FT: bad = 'shape %s %s' % (view.shape, view.dtype)\n");
        ctx.checkf(P.get<std::string>("bad").empty(), "film-shape", [&] { return "film " + std::to_string(w) + "x" + std::to_string(h) + ": " + P.get<std::string>("bad"); });
        P.run("for y in range(s.h):\n    for x in range(s.w):\n        if list(view[y, x]) != [x + 10*y, 100 + x - y, -x - 0.5*y]: bad = 'pixel %d,%d is %s' % (x, y, view[y, x])\n");
        ctx.checkf(P.get<std::string>("bad").empty(), "film-pixels", [&] { return "film " + std::to_string(w) + "x" + std::to_string(h) + " seen from Python: " + P.get<std::string>("bad"); });
        // a later view shows the later content
        P.run("film.set_pixel(0, 0, arr(-7, 8, 9))"); film->rescale(2);
        P.run("view2 = np.array(film.buffer(), copy=False)\nif view2.shape != (s.h, s.w, 3) or list(view2[0, 0]) != [-14, 16, 18] or list(view2[s.h-1, s.w-1]) != ([-14, 16, 18] if s.w*s.h == 1 else [2*((s.w-1) + 10*(s.h-1)), 2*(100 + s.w - s.h), 2*(-(s.w-1) - 0.5*(s.h-1))]): bad = 'pixels %s' % view2\ndel view2");
        ctx.checkf(P.get<std::string>("bad").empty(), "film-later", [&] { return "film " + std::to_string(w) + "x" + std::to_string(h) + " changed and seen again from Python: " + P.get<std::string>("bad"); });
        P.run("del view\ndel film\ngc.collect()");
    });
}
#include "harness/c25_calls.h"
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
