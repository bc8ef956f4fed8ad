// C18: typed JSON access returns the given value or raises an error.
// Exhaustive product of document values, requested types and keys, against a reference conversion.
#include "harness/catalogue.h"
using namespace lm;
namespace {
std::string g(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
template <int N, typename V> std::string vs(const V& v) { std::string s; for (int i = 0; i < N; i++) s += g(v[i]) + ","; return s; }
template <int C, int R, typename V> std::string ms(const V& v) { std::string s; for (int i = 0; i < C; i++) for (int j = 0; j < R; j++) s += g(v[i][j]) + ","; return s; }
const std::vector<Json>& scalars() {
    static const std::vector<Json> v = {nullptr, true, false, 0, 1, -7, 3000000000u, 9007199254740993ll, 1.5, -0.25, 1e300, "", "x", "$.assets.mat", "$.assets.nope", Json::array(), Json::object(), Json::array({1}), Json{{"a", 1}}};
    return v;
}
enum R { VALUE, THROW };
// what the access must do: a value (as text) or an exception; `inv` additionally demands the library's InvalidArgument
struct Exp { R r; std::string v; bool inv = false; };
struct Got { R r; std::string v; bool lmex = false; bool inv = false; };
template <typename F> Got run(F&& f) {
    try { return {VALUE, f()}; }
    catch (const lm::Exception& e) { return {THROW, e.what(), true, std::string(e.what()).find("InvalidArgum") != std::string::npos}; }
    catch (const std::exception& e) { return {THROW, e.what()}; }
}
void cmp(vp::Ctx& ctx, const std::string& what, const Exp& e, const Got& o) {
    ctx.checkf(e.r == o.r, what + (e.r == THROW ? ":accepted" : ":rejected"), [&] { return what + (e.r == THROW ? " returned '" + o.v + "' instead of raising an error" : " raised '" + o.v + "' instead of returning '" + e.v + "'"); });
    if (e.r == VALUE) ctx.checkf(e.v == o.v, what + ":value", [&] { return what + " returned '" + o.v + "' instead of '" + e.v + "'"; });
    if (e.r == THROW && e.inv) ctx.checkf(o.inv, what + ":kind", [&] { return what + " raised '" + o.v + "', not an invalid-argument error"; });
}
// reference conversions -----------------------------------------------------------------------------------------------------------
bool numeric(const Json& j) { return j.is_number() || j.is_boolean(); }
Exp ref_double(const Json& j) { if (!j.is_number()) return {THROW, ""}; return {VALUE, g(j.get<double>())}; }
Exp ref_bool(const Json& j) { if (!j.is_boolean()) return {THROW, ""}; return {VALUE, j.get<bool>() ? "1" : "0"}; }
Exp ref_string(const Json& j) { if (!j.is_string()) return {THROW, ""}; return {VALUE, *j.get_ptr<const std::string*>()}; }
Exp ref_ll(const Json& j) { if (!numeric(j)) return {THROW, ""}; if (j.is_boolean()) return {VALUE, j.get<bool>() ? "1" : "0"}; if (j.is_number_float()) { double d = j.get<double>(); if (std::abs(d) > 1e18) return {VALUE, "*"}; return {VALUE, std::to_string((long long)d)}; } return {VALUE, std::to_string(j.get<long long>())}; }
Exp ref_vec(const Json& j, int n) {
    if (!j.is_array() || (int)j.size() != n) return {THROW, "", true};
    std::string s; for (auto& e : j) { if (!e.is_number()) return {THROW, ""}; s += ref_double(e).v + ","; }
    return {VALUE, s};
}
template <typename T> std::string str(const T& v);
template <> std::string str(const double& v) { return g(v); }
template <> std::string str(const bool& v) { return v ? "1" : "0"; }
template <> std::string str(const std::string& v) { return v; }
template <> std::string str(const long long& v) { return std::to_string(v); }
template <> std::string str(const Vec2& v) { return vs<2>(v); }
template <> std::string str(const Vec3& v) { return vs<3>(v); }
template <> std::string str(const Vec4& v) { return vs<4>(v); }
template <> std::string str(const Mat3& v) { return ms<3, 3>(v); }
template <> std::string str(const Mat4& v) { return ms<4, 4>(v); }
// the three access functions for one type: present / absent / null document
template <typename T> void access(vp::Ctx& ctx, const std::string& type, const Json& v, Exp e, const T& def) {
    ctx.trace(type + " from " + v.dump());
    Json doc = Json::object(); doc["k"] = v; doc["other"] = 3;
    const bool any = e.v == "*" && e.r == VALUE;
    auto c = [&](const std::string& what, const Exp& ex, const Got& o) { if (any && ex.r == VALUE) { ctx.check(o.r == VALUE, what, "raised"); return; } cmp(ctx, what, ex, o); };
    c("value<" + type + ">", e, run([&] { return str<T>(json::value<T>(doc, "k")); }));
    c("value<" + type + ">(default)", e, run([&] { return str<T>(json::value<T>(doc, "k", T(def))); }));
    c("value_or_none<" + type + ">", e, run([&] { auto o = json::value_or_none<T>(doc, "k"); return o ? str<T>(*o) : std::string("none"); }));
    const Json docs[3] = {Json{{"other", v}}, Json(nullptr), Json::object()};
    for (auto& d : docs) {
        cmp(ctx, "value<" + type + "> of a missing key", {THROW, "", true}, run([&] { return str<T>(json::value<T>(d, "k")); }));
        cmp(ctx, "value<" + type + ">(default) of a missing key", {VALUE, str<T>(def)}, run([&] { return str<T>(json::value<T>(d, "k", T(def))); }));
        cmp(ctx, "value_or_none<" + type + "> of a missing key", {VALUE, "none"}, run([&] { auto o = json::value_or_none<T>(d, "k"); return o ? str<T>(*o) : std::string("none"); }));
    }
}
SCENARIO("scalars") {
    ctx.bound("every scalar document value x requested type x (present, absent, null document) x (required, default, optional)");
    H::init();
    ctx.explore([&](vp::Chooser& c) {
        auto& j = c.pick(scalars());
        switch (c.choose(4)) {
        case 0: access<double>(ctx, "double", j, ref_double(j), 42.5); break;
        case 1: access<bool>(ctx, "bool", j, ref_bool(j), true); break;
        case 2: access<std::string>(ctx, "string", j, ref_string(j), "def"); break;
        case 3: access<long long>(ctx, "integer", j, ref_ll(j), -3); break;
        }
    });
}
// vectors: every length 0..n+1, every element drawn from a small set of valid and invalid elements
template <typename T> void vectors(vp::Ctx& ctx, const std::string& type, int n, const std::vector<Json>& el) {
    ctx.bound(type + ": every array of 0.." + std::to_string(n + 1) + " elements over " + std::to_string(el.size()) + " element values, and every scalar");
    H::init();
    ctx.explore([&](vp::Chooser& c) {
        Json j;
        if (c.flip()) { j = c.pick(scalars()); } else { j = Json::array(); int k = c.choose(n + 2); for (int i = 0; i < k; i++) j.push_back(c.pick(el)); }
        access<T>(ctx, type, j, ref_vec(j, n), T(2));
    });
}
SCENARIO("vec2") { vectors<Vec2>(ctx, "Vec2", 2, {1, -2.5, true, nullptr, "1", Json::array(), 1e300, 16777217}); }
SCENARIO("vec3") { vectors<Vec3>(ctx, "Vec3", 3, {1, -2.5, nullptr, "1", Json::array({1}), 16777217}); }
SCENARIO("vec4") { vectors<Vec4>(ctx, "Vec4", 4, {1, -2.5, nullptr, "1"}); }
// matrices: right size with one element replaced by each invalid value, and every wrong size
template <typename T, int N> void matrices(vp::Ctx& ctx, const std::string& type) {
    ctx.bound(type + ": distinct elements; every element position replaced by every scalar; every length 0.." + std::to_string(N * N + 2) + "; nested rows");
    H::init();
    ctx.explore([&](vp::Chooser& c) {
        Json j = Json::array(); int kind = c.choose(3);
        if (kind == 0) { int len = c.choose(N * N + 3); for (int i = 0; i < len; i++) j.push_back(i + .5); }
        else if (kind == 1) { for (int i = 0; i < N * N; i++) j.push_back(i + .5); int p = c.choose(N * N); j[p] = c.pick(scalars()); }
        else { for (int i = 0; i < N; i++) { Json r = Json::array(); for (int k = 0; k < N; k++) r.push_back(i); j.push_back(r); } if (c.flip()) j = c.pick(scalars()); }
        access<T>(ctx, type, j, ref_vec(j, N * N), T(1));
    });
}
SCENARIO("mat3") { matrices<Mat3, 3>(ctx, "Mat3"); }
SCENARIO("mat4") { matrices<Mat4, 4>(ctx, "Mat4"); }
// all shapes of matrices
template <int C, int R> void shape(vp::Ctx& ctx, vp::Chooser& ch) {
    using M = glm::mat<C, R, Float>; const int n = C * R;
    int len = ch.choose(n + 2); double k = ch.choose(2);
    ctx.trace(std::to_string(C) + "x" + std::to_string(R) + " from " + std::to_string(len) + " elements");
    Json j = Json::array(); for (int i = 0; i < len; i++) j.push_back(i + .5 + k);
    Got o = run([&] { M m = j.get<M>(); return ms<C, R>(m); });
    cmp(ctx, "matrix", ref_vec(j, n), o);
    if (len == n) { M m; for (int c = 0; c < C; c++) for (int r = 0; r < R; r++) m[c][r] = Float(c * R + r + .5 + k); Json back = m; ctx.checkf(back == j, "matrix-json", [&] { return "a " + std::to_string(C) + "x" + std::to_string(R) + " matrix is stored as " + back.dump(); }); }
}
SCENARIO("matrix_shapes") {
    ctx.bound("every matrix shape of 2..4 columns and rows x every number of elements");
    H::init();
    ctx.explore([&](vp::Chooser& c) {
        switch (c.choose(9)) {
        case 0: shape<2, 2>(ctx, c); break; case 1: shape<2, 3>(ctx, c); break; case 2: shape<2, 4>(ctx, c); break;
        case 3: shape<3, 2>(ctx, c); break; case 4: shape<3, 3>(ctx, c); break; case 5: shape<3, 4>(ctx, c); break;
        case 6: shape<4, 2>(ctx, c); break; case 7: shape<4, 3>(ctx, c); break; case 8: shape<4, 4>(ctx, c); break;
        }
    });
}
// round trips ----------------------------------------------------------------------------------------------------------------------
struct Obj { int x; };
SCENARIO("roundtrip") {
    const std::vector<double> V = {0, 1, -1, .1, 1e-310, 1.7976931348623157e308, 16777217, 1.0 / 3};
    ctx.bound("round trips through JSON values and text of every 3-vector over 8 values, matrices with a distinct value at every position, pointers of several bit patterns, strings");
    H::init();
    ctx.explore([&](vp::Chooser& c) {
        switch (c.choose(4)) {
        case 0: { Vec3 v; for (int i = 0; i < 3; i++) v[i] = c.pick(V); ctx.trace("Vec3 " + vs<3>(v)); Json j = v;
            ctx.check(j.is_array() && j.size() == 3, "vec-json", "representation of a vector"); for (int i = 0; i < 3; i++) ctx.check(j[i].get<double>() == v[i], "vec-json", "element of a vector");
            for (auto& q : {j, Json::parse(j.dump())}) { Vec3 w = q; ctx.check(vs<3>(w) == vs<3>(v), "vec-roundtrip", "vector changed by a round trip to " + vs<3>(w)); }
            Vec2 v2(v.x, v.y); Vec4 v4(v, v.x); Vec2 w2 = Json(v2); Vec4 w4 = Json(v4); ctx.check(vs<2>(w2) == vs<2>(v2) && vs<4>(w4) == vs<4>(v4), "vec-roundtrip", "vector changed by a round trip"); break; }
        case 1: { double k = c.pick(V); Mat4 m; Mat3 m3; for (int i = 0; i < 4; i++) for (int q = 0; q < 4; q++) { m[i][q] = i * 4 + q + k; if (i < 3 && q < 3) m3[i][q] = i * 3 + q - k; } ctx.trace("Mat " + g(k));
            Json j = m, j3 = m3; ctx.check(j.size() == 16 && j3.size() == 9, "mat-json", "size"); for (int i = 0; i < 16; i++) ctx.check(j[i].get<double>() == m[i / 4][i % 4], "mat-json", "element order");
            Mat4 w = Json::parse(j.dump()); Mat3 w3 = Json::parse(j3.dump()); ctx.check(ms<4, 4>(w) == ms<4, 4>(m) && ms<3, 3>(w3) == ms<3, 3>(m3), "mat-roundtrip", "matrix changed by a round trip"); break; }
        case 2: { static Obj x; const std::vector<uintptr_t> P = {0, 1, 0xff, (uintptr_t)&x, 0x7fffffffffffull, 0xdeadbeefcafebabeull}; auto p = (Obj*)c.pick(P); ctx.trace("ptr"); Json j = p;
            const Json js[2] = {j, Json::parse(j.dump())}; for (auto& q : js) { Obj* w = q.get<Obj*>(); const Obj* cw = q.get<const Obj*>(); ctx.check(w == p && cw == p, "ptr-roundtrip", "pointer changed by a round trip"); }
            Json jc = (const Obj*)p; ctx.check(jc == j, "ptr-roundtrip", "const pointer"); const std::string str = "text " + std::to_string(c.pos); const char* cs = str.c_str(); char* ms = (char*)cs; Json jt = {{"a", cs}, {"b", ms}}; ctx.check(jt["a"] == Json(str) && jt["b"] == Json(str) && json::value<std::string>(jt, "a") == str, "c-string", "a C string is stored as " + jt.dump()); break; }
        case 3: { auto& s = c.pick(scalars()); ctx.trace("pointer from " + s.dump()); if (s.is_string()) break; cmp(ctx, "pointer", {THROW, ""}, run([&] { Obj* p = s.get<Obj*>(); return std::to_string((uintptr_t)p); })); break; }
        }
    });
}
// merge ------------------------------------------------------------------------------------------------------------------------------
SCENARIO("merge") {
    ctx.bound("every pair of documents over 3 keys with each key absent or one of 4 values (nested objects, null and arrays included)");
    H::init();
    ctx.explore([&](vp::Chooser& c) {
        static const std::vector<Json> V = {1, nullptr, Json::array({1, 2}), Json{{"z", 1}}};
        Json a = Json::object(), b = Json::object(); static const char* K[3] = {"a", "b", "c"};
        for (auto k : K) { int i = c.choose(5); if (i) a[k] = V[i - 1]; } for (auto k : K) { int i = c.choose(3); if (i) b[k] = i == 1 ? Json("B") : Json{{"y", 2}}; }
        ctx.trace("merge " + a.dump() + " " + b.dump());
        Json a0 = a, b0 = b, m = json::merge(a, b), want = b; for (auto& e : a.items()) want[e.key()] = e.value();
        ctx.check(m == want, "merge", "merge gave " + m.dump() + " instead of " + want.dump()); ctx.check(a == a0 && b == b0, "merge-input", "merge modified its input");
    });
}
// positional arguments ------------------------------------------------------------------------------------------------------------------
SCENARIO("positional") {
    ctx.bound("templates with 0..3 placeholders (also numbered and repeated) x 0..4 arguments over 4 texts");
    H::init();
    ctx.explore([&](vp::Chooser& c) {
        static const std::vector<std::string> T = {"1", "-2.5", "abc", ""}; int n = c.choose(5); std::vector<std::string> a{"prog"}; for (int i = 0; i < n; i++) a.push_back(c.pick(T));
        std::vector<char*> av; for (auto& s : a) av.push_back((char*)s.c_str());
        int k = c.choose(5); std::string tr = "template " + std::to_string(k); for (auto& s : a) tr += " '" + s + "'"; ctx.trace(tr);
        static const int need[5] = {0, 1, 2, 3, 2};
        auto q = [&](int i) { return Json(a[1 + i]); };
        Exp e{VALUE, ""}; const bool enough = n >= need[k];
        if (k == 0) e.v = Json{{"x", 1}}.dump();
        if (k == 1 && enough) e.v = Json{{"p", q(0)}}.dump();
        if (k == 2 && enough) e.v = Json{{"p", q(0)}, {"q", q(1)}}.dump();
        if (k == 3 && enough) e.v = Json{{"p", q(0)}, {"q", q(1)}, {"r", q(2)}}.dump();
        if (k == 4 && enough) e.v = Json{{"p", q(1)}, {"q", q(0)}, {"r", q(1)}}.dump();
        if (!enough) e = {THROW, ""};
        const int argc = (int)av.size(); char** argv = av.data();
        Got o = run([&]() -> std::string {
            if (k == 0) return json::parse_positional_args<0>(argc, argv, R"({{"x":1}})").dump();
            if (k == 1) return json::parse_positional_args<1>(argc, argv, R"({{"p":"{}"}})").dump();
            if (k == 2) return json::parse_positional_args<2>(argc, argv, R"({{"p":"{}","q":"{}"}})").dump();
            if (k == 3) return json::parse_positional_args<3>(argc, argv, R"({{"p":"{}","q":"{}","r":"{}"}})").dump();
            return json::parse_positional_args<2>(argc, argv, R"({{"p":"{1}","q":"{0}","r":"{1}"}})").dump();
        });
        cmp(ctx, "parse_positional_args", e, o);
    });
}
// component references ------------------------------------------------------------------------------------------------------------------
SCENARIO("comp_ref") {
    ctx.bound("component references: every scalar value and 12 locators x 4 interfaces x (throwing, null-returning)");
    H::init();
    lm::load<Material>("mat", "material::diffuse", {{"Kd", {1, 1, 1}}}); lm::load<Mesh>("mesh", "mesh::raw", {{"ps", {0, 0, 0, 1, 0, 0, 0, 1, 0}}, {"ns", {0, 0, 1}}, {"ts", {0, 0}}, {"fs", {{"p", {0, 1, 2}}, {"t", {0, 0, 0}}, {"n", {0, 0, 0}}}}});
    std::vector<Json> vals = scalars(); for (auto l : {"$.assets.mesh", "$", "$.assets", "mat", "assets.mat", "$.assets.mat.x", "$.assets.mesh.nope", "$.asset.mat", "$$.assets.mat", ".$.assets.mat", "$assets.mat", "$.assets.matt"}) vals.push_back(l);
    ctx.explore([&](vp::Chooser& c) {
        const int vi = c.choose((int)vals.size() + 1); const bool absent = vi == (int)vals.size(); const Json v = absent ? Json() : vals[vi]; const int it = c.choose(4);
        Json d = Json::object(); if (!absent) d["r"] = v; ctx.trace("ref " + d.dump() + " as " + std::to_string(it));
        Component* want = nullptr; const std::string s = v.is_string() ? v.get<std::string>() : "";
        if (s == "$.assets.mat") want = comp::get<Component>("$.assets.mat"); if (s == "$.assets.mesh") want = comp::get<Component>("$.assets.mesh"); if (s == "$.assets") want = lm::assets(); if (s == "$") want = comp::get<Component>("$");
        if (it == 0) want = dynamic_cast<Material*>(want); if (it == 1) want = dynamic_cast<Mesh*>(want); if (it == 2) want = dynamic_cast<Light*>(want);
        auto name = [](Component* p) { return p ? p->loc() : std::string("null"); };
        auto get = [&](auto* t, bool thr) { using T = std::remove_pointer_t<decltype(t)>; return run([&]() -> std::string { Component* p = thr ? json::comp_ref<T>(d, "r") : json::comp_ref_or_nullptr<T>(d, "r"); return name(p); }); };
        for (bool thr : {true, false}) {
            Got o = it == 0 ? get((Material*)nullptr, thr) : it == 1 ? get((Mesh*)nullptr, thr) : it == 2 ? get((Light*)nullptr, thr) : get((Component*)nullptr, thr);
            cmp(ctx, thr ? "comp_ref" : "comp_ref_or_nullptr", want ? Exp{VALUE, name(want)} : thr ? Exp{THROW, "", true} : Exp{VALUE, "null"}, o);
        }
    });
}
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
