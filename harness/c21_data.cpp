// C21: textures and meshes return the data they were given.
#include "harness/catalogue.h"
using namespace lm;
using namespace H;
namespace {
// ---------------------------------------------------------------- image files, written from their format definitions
unsigned crc(const std::string& s) { unsigned c = ~0u; for (unsigned char ch : s) { c ^= ch; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; } return ~c; }
std::string be32(unsigned v) { return {(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}; }
std::string png(int w, int h, int c, const std::vector<unsigned char>& top_down) {
    std::string raw; for (int y = 0; y < h; y++) { raw += '\0'; raw.append((const char*)&top_down[y * w * c], w * c); }
    unsigned a = 1, b = 0; for (unsigned char ch : raw) { a = (a + ch) % 65521; b = (b + a) % 65521; }
    std::string z = "\x78\x01"; z += '\x01'; z += (char)(raw.size() & 255); z += (char)(raw.size() >> 8); z += (char)(~raw.size() & 255); z += (char)((~raw.size() >> 8) & 255); z += raw; z += be32(b << 16 | a);
    auto chunk = [](const std::string& t, const std::string& d) { return be32(d.size()) + t + d + be32(crc(t + d)); };
    const char type[] = {0, 0, 4, 2, 6};
    std::string hdr = be32(w) + be32(h) + '\x08' + type[c] + std::string(3, '\0');
    return std::string("\x89PNG\r\n\x1a\n", 8) + chunk("IHDR", hdr) + chunk("IDAT", z) + chunk("IEND", "");
}
std::string hdr(int w, int h, const std::vector<unsigned char>& rgbe) { return "#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y " + std::to_string(h) + " +X " + std::to_string(w) + "\n" + std::string((const char*)rgbe.data(), rgbe.size()); }
std::string ppm(int w, int h, int c, const std::vector<unsigned char>& px) { return (c == 1 ? "P5\n" : "P6\n") + std::to_string(w) + " " + std::to_string(h) + "\n255\n" + std::string((const char*)px.data(), px.size()); }

enum { PNG, TGA, HDR, PPM };
struct Img { int w, h, c; std::vector<Vec3> col; std::vector<double> alpha; };     // top-down
// content number `k`: all texels different, or black/white/transparent extremes
Img make(const std::string& path, int fmt, int w, int h, int c, int k) {
    Img m{w, h, c, {}, {}}; std::vector<unsigned char> px;
    for (int i = 0; i < w * h; i++) {
        if (fmt == HDR) {
            unsigned char q[4] = {(unsigned char)(11 + 37 * i + 3 * k), (unsigned char)(200 - 23 * i), (unsigned char)(i == 1 && k ? 0 : 128), (unsigned char)(k ? 120 + 5 * i : 130)};
            if (k && i == 0) q[3] = 0;
            for (auto x : q) px.push_back(x);
            const double f = std::ldexp(1.0, q[3] - 136); m.col.push_back(q[3] ? Vec3(q[0] * f, q[1] * f, q[2] * f) : Vec3(0));
            continue;
        }
        unsigned char q[4]; for (int j = 0; j < 4; j++) q[j] = k == 0 ? (17 + 41 * i + 59 * j) & 255 : k == 1 ? ((i + j) % 3 == 0 ? 0 : (i + j) % 3 == 1 ? 255 : 128) : (unsigned char)(255 - 5 * i - j);
        for (int j = 0; j < c; j++) px.push_back(q[j]);
        auto lin = [](unsigned char v) { return std::pow(v / 255., 2.2); };
        m.col.push_back(c < 3 ? Vec3(lin(q[0])) : Vec3(lin(q[0]), lin(q[1]), lin(q[2]))); if (c == 2 || c == 4) m.alpha.push_back(q[c - 1] / 255.);
    }
    put_file(path, fmt == PNG ? png(w, h, c, px) : fmt == HDR ? hdr(w, h, px) : fmt == PPM ? ppm(w, h, c, px) :
        tga(w, h, c, [&](int x, int y, int j) { return px[((h - 1 - y) * w + x) * c + j]; }));
    return m;
}
void textures(vp::Ctx& ctx, int part) {
    init(1);
    ctx.bound("bitmap textures: PNG with 1-4 channels, TGA 24/32 bit, HDR, PPM/PGM; all sizes 1-4 x 1-3; 3 contents; flipped, not flipped and default; every texel at 3x3 inner positions, all texel borders from both sides, 5 repetitions in both directions; also after another image was loaded");
    const std::vector<std::pair<int, int>> F = {{PNG, 1}, {PNG, 2}, {PNG, 3}, {PNG, 4}, {TGA, 3}, {TGA, 4}, {HDR, 3}, {PPM, 1}, {PPM, 3}};
    ctx.explore([&](vp::Chooser& ch) {
        auto [fmt, c] = F[ch.choose(F.size())]; const int w = 1 + ch.choose(4), h = 1 + ch.choose(3), k = ch.choose(3), fl = ch.choose(3);
        if ((w + h) % 2 != part) return;
        const auto path = ctx.scratch + "/t";
        ctx.trace(fmt::format("format {} {} channels {}x{} content {} flip {}", fmt, c, w, h, k, fl == 2 ? "default" : fl ? "yes" : "no"));
        const auto m = make(path, fmt, w, h, c, k); const auto other = make(path + "o", PNG, 2, 2, 3, 1);
        const bool flip = fl != 0;
        Json p = {{"path", path}}; if (fl < 2) p["flip"] = fl == 1;
        lm::reset();
        auto* t = dynamic_cast<Texture*>(lm::assets()->load_asset("t", "texture::bitmap", p));
        lm::assets()->load_asset("o", "texture::bitmap", {{"path", path + "o"}, {"flip", !flip}});
        auto want = [&](int x, int y) { return (flip ? h - 1 - y : y) * w + x; };       // y counted from v = 0
        const auto z = t->size();
        ctx.checkf(z.w == w && z.h == h, "size", [&] { return fmt::format("size {}x{} of a {}x{} image", z.w, z.h, w, h); });
        ctx.check(t->has_alpha() == !m.alpha.empty(), "has-alpha", "presence of an alpha channel is misreported");
        auto buf = t->buffer(); ctx.check(buf.w == w && buf.h == h && buf.c == c, "buffer", "buffer dimensions are wrong");
        for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) {
            const auto q = m.col[want(x, y)];
            auto same = [&](Vec3 v) { return glm::length(v - q) <= 1e-5 * std::max(1., glm::length(q)); };
            ctx.checkf(same(t->eval_by_pixel_coords(x, y)), "pixel", [&] { auto g = t->eval_by_pixel_coords(x, y); return fmt::format("texel ({},{}) is ({},{},{}), expected ({},{},{})", x, y, g.x, g.y, g.z, q.x, q.y, q.z); });
            for (int rx = -2; rx <= 2; rx++) for (int ry = -2; ry <= 2; ry++) for (double dx : {1e-6, .5, 1 - 1e-6}) for (double dy : {1e-6, .37, 1 - 1e-6}) {
                const Vec2 uv((x + dx) / w + rx, (y + dy) / h + ry); const auto g = t->eval(uv);
                ctx.extra_transitions++;
                ctx.checkf(same(g), "eval", [&] { return fmt::format("eval({},{}) is ({},{},{}), expected texel ({},{}) = ({},{},{})", uv.x, uv.y, g.x, g.y, g.z, x, y, q.x, q.y, q.z); });
                if (!m.alpha.empty()) { const double a = t->eval_alpha(uv); ctx.checkf(std::abs(a - m.alpha[want(x, y)]) < 1e-6, "alpha", [&] { return fmt::format("alpha at ({},{}) is {}, expected {}", uv.x, uv.y, a, m.alpha[want(x, y)]); }); }
            }
        }
        for (double u : {0., 1., -1e-20, 1e-20, -1., 7., 1 - 1e-16}) for (double v : {0., 1., -1e-20, 3.}) {       // borders: one of the texels of the image
            const auto g = t->eval(Vec2(u, v)); bool any = false; for (auto& q : m.col) any = any || glm::length(q - g) < 1e-5 * std::max(1., glm::length(q)); ctx.check(any, "border", "a border coordinate returns a colour that does not occur in the image"); if (!m.alpha.empty()) t->eval_alpha(Vec2(u, v)); }
        ctx.state(fmt::format("{}{}{}{}{}{}", fmt, c, w, h, k, fl));
    });
    lm::reset();
}
void constants(vp::Ctx& ctx) {
    init(1);
    ctx.bound("constant textures over a colour and alpha alphabet; missing and broken image files, truncated at every byte (rejected or loaded, never a crash)");
    ctx.explore([&](vp::Chooser& ch) {
        lm::reset();
        if (ch.flip()) {
            const Vec3 c(ch.pick(std::vector<double>{0, .25, 7}), ch.pick(std::vector<double>{0, .5}), ch.pick(std::vector<double>{1, .125})); const int a = ch.choose(4); const double al[] = {0, 0, .5, 1};
            Json p = {{"color", c}}; if (a) p["alpha"] = al[a];
            auto* t = dynamic_cast<Texture*>(lm::assets()->load_asset("t", "texture::constant", p));
            ctx.check(t->has_alpha() == (a > 0), "const-has-alpha", "a constant texture misreports its alpha");
            for (double u : {-1.5, 0., .3, 1., 9.}) for (double v : {-.2, .5, 2.}) { ctx.check(t->eval(Vec2(u, v)) == c, "const", "a constant texture is not constant"); if (a) ctx.check(t->eval_alpha(Vec2(u, v)) == al[a], "const-alpha", "alpha of a constant texture is wrong"); }
            const auto z = t->size(); ctx.check(z.w == 1 && z.h == 1 && t->eval_by_pixel_coords(0, 0) == c, "const-size", "a constant texture is one texel");
            return;
        }
        const auto path = ctx.scratch + "/b"; const int f = ch.choose(3);
        make(path, f == 0 ? PNG : f == 1 ? TGA : HDR, 2, 2, 3, 0);
        std::ifstream is(path, std::ios::binary); const std::string d((std::istreambuf_iterator<char>(is)), {});
        const int n = ch.choose(d.size() + 1) - 1;
        if (n < 0) unlink(path.c_str()); else put_file(path, d.substr(0, n));
        bool ok = false; try { ok = lm::assets()->load_asset("t", "texture::bitmap", {{"path", path}}) != nullptr; } catch (const std::exception&) {}
        if (n < 12) ctx.check(!ok, "broken", "a missing or broken image is accepted");
        if (!ok) ctx.check(comp::get<Component>("$.assets.t") == nullptr, "broken-residue", "a rejected image leaves an asset");
    });
    lm::reset();
}
// ---------------------------------------------------------------- meshes
void meshes(vp::Ctx& ctx) {
    init(1);
    ctx.bound("raw meshes: two faces with all index combinations over pools of 4 positions, 3 normals, 3 texture coordinates (positions distinct within a face); surface points at 10 barycentric coordinates; index lists out of range or of inconsistent length are rejected");
    const std::vector<Vec3> P = {Vec3(0), Vec3(1, 0, 0), Vec3(0, 2, 0), Vec3(.5, .25, 1)}, N = {Vec3(0, 0, 1), Vec3(1, 0, 0), Vec3(.6, .8, 0)}; const std::vector<Vec2> T = {Vec2(0), Vec2(1, .5), Vec2(-2, 3)};
    Json ps = Json::array(), ns = ps, ts = ps; for (auto& p : P) for (int i = 0; i < 3; i++) ps.push_back(p[i]); for (auto& p : N) for (int i = 0; i < 3; i++) ns.push_back(p[i]); for (auto& p : T) for (int i = 0; i < 2; i++) ts.push_back(p[i]);
    ctx.explore([&](vp::Chooser& ch) {
        lm::reset();
        if (ch.choose(2) == 0) {
            int a = ch.choose(4), b = ch.choose(4), c = ch.choose(4); if (a == b || b == c || a == c) return;
            const int na = ch.choose(3), nb = ch.choose(3), nc = ch.choose(3), t0 = ch.choose(3), t1 = ch.choose(3), t2 = ch.choose(3);
            const std::vector<int> fp = {a, b, c, b, a, 6 - a - b - c == c ? 3 : (6 - a - b - c)}, fn = {na, nb, nc, nc, nb, na}, ft = {t0, t1, t2, t2, t2, t0};
            auto* m = dynamic_cast<Mesh*>(lm::assets()->load_asset("m", "mesh::raw", {{"ps", ps}, {"ns", ns}, {"ts", ts}, {"fs", {{"p", fp}, {"n", fn}, {"t", ft}}}}));
            ctx.check(m->num_triangles() == 2, "count", "number of triangles is wrong");
            int cnt = 0;
            m->foreach_triangle([&](int f, const Mesh::Tri& t) {
                ctx.check(f == cnt++, "order", "faces are not visited in order");
                auto t2 = m->triangle_at(f); const Mesh::Point* q[] = {&t.p1, &t.p2, &t.p3, &t2.p1, &t2.p2, &t2.p3};
                for (int i = 0; i < 6; i++) { const int k = 3 * f + i % 3; ctx.check(q[i]->p == P[fp[k]] && q[i]->n == N[fn[k]] && q[i]->t == T[ft[k]], "vertex", "a vertex of a face is not the given one"); }
                for (auto uv : {Vec2(0), Vec2(1, 0), Vec2(0, 1), Vec2(.25, .5), Vec2(.1, .2), Vec2(.6, .3), Vec2(.5, .5), Vec2(0, .5), Vec2(.5, 0), Vec2(1. / 3)}) {
                    auto s = m->surface_point(f, uv); const double w = 1 - uv.x - uv.y; const int k = 3 * f; ctx.extra_transitions++;
                    const Vec3 p = w * P[fp[k]] + uv.x * P[fp[k + 1]] + uv.y * P[fp[k + 2]], n = w * N[fn[k]] + uv.x * N[fn[k + 1]] + uv.y * N[fn[k + 2]]; const Vec2 t = w * T[ft[k]] + uv.x * T[ft[k + 1]] + uv.y * T[ft[k + 2]];
                    ctx.check(glm::length(s.p - p) < 1e-9, "point", "interpolated position is wrong"); ctx.check(glm::length(s.n - glm::normalize(n)) < 1e-9, "normal", "interpolated normal is wrong"); ctx.check(glm::length(s.t - t) < 1e-9, "texcoord", "interpolated texture coordinate is wrong");
                    const Vec3 g = glm::cross(P[fp[k + 1]] - P[fp[k]], P[fp[k + 2]] - P[fp[k]]); ctx.check(glm::length(s.gn - glm::normalize(g)) < 1e-9, "gnormal", "geometric normal is wrong");
                }
            });
            ctx.check(cnt == 2, "visited", "not every face is visited");
            ctx.state(fmt::format("{}{}{}{}{}{}", a, b, c, na, nb, nc));
        } else {
            // one face, one index replaced, or a list shortened
            std::vector<int> f[3] = {{0, 1, 2}, {0, 1, 2}, {0, 1, 2}}; Json a[3] = {ps, ns, ts}; const int sz[] = {4, 3, 3}; bool ok = true;
            const int which = ch.choose(3), op = ch.choose(6);
            if (op < 4) { const int i = ch.choose(3), v = std::vector<int>{-1, sz[which], sz[which] - 1, -2147483647 - 1}[op]; f[which][i] = v; ok = op == 2; }
            else if (op == 4) { f[which].pop_back(); ok = false; }
            else { a[which].erase(a[which].size() - 1); ok = false; }
            bool got = false; try { got = lm::assets()->load_asset("m", "mesh::raw", {{"ps", a[0]}, {"ns", a[1]}, {"ts", a[2]}, {"fs", {{"p", f[0]}, {"n", f[1]}, {"t", f[2]}}}}) != nullptr; } catch (const std::exception&) {}
            ctx.checkf(got == ok, "invalid", [&] { return fmt::format("index list {} with edit {} is {}", which, op, got ? "accepted" : "rejected"); });
        }
    });
    lm::reset();
}
SCENARIO("textures_0") { textures(ctx, 0); }
SCENARIO("textures_1") { textures(ctx, 1); }
SCENARIO("constants") { constants(ctx); }
SCENARIO("meshes") { meshes(ctx); }
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
