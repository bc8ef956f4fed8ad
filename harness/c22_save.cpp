// C22: saved images contain the film, and failed saves are reported.
#include "harness/catalogue.h"
#include <stb/stb_image.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
using namespace lm;
using namespace H;
namespace {
std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
bool exists(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0; }
const char* EXT[] = {".png", ".hdr", ".pfm"};
// checks that `path` holds the film content px (row 0 = bottom), written by format f
void check_file(vp::Ctx& ctx, const std::string& path, int f, int w, int h, const std::vector<Vec3>& px, const std::string& what) {
    auto bad = [&](const std::string& k, const std::string& m) { ctx.record(k, what + ": " + m); };
    if (f == 0) {
        int W, H, C; unsigned char* d = stbi_load(path.c_str(), &W, &H, &C, 0);
        if (!d) { bad("png", "the file is no readable PNG"); return; }
        if (W != w || H != h || C != 3) { bad("png-size", fmt::format("{}x{}x{} instead of {}x{}x3", W, H, C, w, h)); stbi_image_free(d); return; }
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int i = 0; i < 3; i++) {
            const double t = px[y * w + x][i]; const double e = t > 0 ? std::min(255., 256 * std::pow(t, 1 / 2.2)) : 0;
            const int g = d[((h - 1 - y) * w + x) * 3 + i]; ctx.checks++;
            const bool edge = std::abs(e - std::round(e)) < 1e-9;
            if (std::isnan(t)) continue;
            if (g != int(e) && !(edge && std::abs(g - e) < 1.5)) bad("png-pixel", fmt::format("pixel ({},{}) channel {} value {} is stored as {}, expected {}", x, y, i, t, g, int(e)));
        }
        stbi_image_free(d);
    } else if (f == 1) {
        const auto s = slurp(path); const auto p = s.find("-Y "); const auto hd = fmt::format("-Y {} +X {}\n", h, w);
        if (s.rfind("#?", 0) != 0 || p == std::string::npos || s.compare(p, hd.size(), hd) || s.find("FORMAT=32-bit_rle_rgbe") > p) { bad("hdr", "header is wrong"); return; }
        const unsigned char* q = (const unsigned char*)s.data() + p + hd.size(); const size_t rest = s.size() - p - hd.size();
        std::vector<unsigned char> flat;
        if (w < 8) { flat.assign(q, q + rest); }
        else {
            const unsigned char* e = q + rest;
            for (int y = 0; y < h; y++) {
                if (e - q < 4 || q[0] != 2 || q[1] != 2 || (q[2] << 8 | q[3]) != w) { bad("hdr-rle", "scanline header is wrong"); return; }
                q += 4; std::vector<unsigned char> line(4 * w);
                for (int k = 0; k < 4; k++) for (int x = 0; x < w;) { if (q >= e) { bad("hdr-rle", "file is too short"); return; } int n = *q++; if (n > 128) { n -= 128; unsigned char v = *q++; while (n-- && x < w) line[4 * x++ + k] = v; } else { while (n-- && x < w) line[4 * x++ + k] = *q++; } }
                flat.insert(flat.end(), line.begin(), line.end());
            }
            if (q != e) { bad("hdr-rle", "trailing data"); return; }
        }
        if (flat.size() != size_t(4 * w * h)) { bad("hdr-size", fmt::format("{} bytes of pixels for {} pixels", flat.size(), w * h)); return; }
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
            const auto& v = px[y * w + x]; const unsigned char* r = &flat[4 * ((h - 1 - y) * w + x)]; ctx.checks++;
            const double m = std::max(v.x, std::max(v.y, v.z)); if (!(std::isfinite(v.x + v.y + v.z)) || v.x < 0 || v.y < 0 || v.z < 0 || m > 1e37) continue;
            const double sc = r[3] ? std::ldexp(1., r[3] - 136) : 0;
            for (int i = 0; i < 3; i++) if (std::abs(r[i] * sc - v[i]) > m / 120 + 1e-30) bad("hdr-pixel", fmt::format("pixel ({},{}) channel {} value {} is stored as {}", x, y, i, v[i], r[i] * sc));
        }
    } else {
        const auto s = slurp(path); int W = 0, H = 0, n = 0; double sc = 0;
        if (sscanf(s.c_str(), "PF %d %d %lf%n", &W, &H, &sc, &n) != 3 || W != w || H != h) { bad("pfm", "header is wrong"); return; }
        n++;                                                                            // one white space character
        if (sc >= 0) { bad("pfm-endian", "the scale does not announce little endian data"); return; }
        if (s.size() != n + size_t(12) * w * h) { bad("pfm-size", fmt::format("{} bytes of pixels, expected {}", s.size() - n, 12 * w * h)); return; }
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int i = 0; i < 3; i++) {
            float v; memcpy(&v, s.data() + n + 4 * (3 * (y * w + x) + i), 4); const float e = float(px[y * w + x][i]); ctx.checks++;
            if (!(v == e || (std::isnan(v) && std::isnan(e)))) bad("pfm-pixel", fmt::format("pixel ({},{}) channel {} value {} is stored as {}", x, y, i, e, v));
        }
    }
}
Film* film(int w, int h, const std::vector<Vec3>& px) {
    lm::reset();
    auto* f = dynamic_cast<Film*>(lm::assets()->load_asset("f", "film::bitmap", {{"w", w}, {"h", h}}));
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) f->set_pixel(x, y, px[y * w + x]);
    return f;
}
const std::vector<double> VALS = {0, 1e-9, .003, .2, .5, .731, .9999, 1, 1.0001, 2.5, 300, 1e6, 1e15, 1e18, 1e30, -.5, -1e20};
void contents(vp::Ctx& ctx) {
    init(1);
    ctx.bound("films of all sizes 1-3 x 1-3 plus widths 7, 8, 9, 130; pixel values from an alphabet including zero, tiny, negative, huge and non-finite ones, in every rotation over the pixels; PNG, HDR, PFM");
    ctx.explore([&](vp::Chooser& ch) {
        const int f = ch.choose(3); const std::vector<std::pair<int, int>> S = {{1, 1}, {2, 1}, {3, 1}, {1, 2}, {2, 2}, {3, 2}, {1, 3}, {2, 3}, {3, 3}, {7, 2}, {8, 2}, {9, 3}, {130, 2}};
        auto [w, h] = S[ch.choose(S.size())]; const int rot = ch.choose(VALS.size() + 3);
        std::vector<Vec3> px; int k = rot;
        for (int i = 0; i < w * h; i++) { Vec3 v; for (int j = 0; j < 3; j++) v[j] = VALS[k++ % VALS.size()]; px.push_back(v); }
        if (rot == (int)VALS.size()) px[0].x = std::numeric_limits<double>::infinity();
        if (rot == (int)VALS.size() + 1) px[px.size() - 1].y = std::numeric_limits<double>::quiet_NaN();
        if (rot == (int)VALS.size() + 2) for (auto& v : px) v = Vec3(.25, .5, 1);
        const auto what = fmt::format("{} {}x{} content {}", EXT[f], w, h, rot); ctx.trace(what);
        auto* fl = film(w, h, px); const auto path = ctx.scratch + "/i" + EXT[f]; unlink(path.c_str());
        if (rot % 3 == 0) put_file(path, std::string(100000, 'x'));     // overwritten, not appended to
        const bool r = fl->save(path);
        ctx.checkf(r, "false", [&] { return what + ": saving returns false"; });
        if (r) check_file(ctx, path, f, w, h, px, what);
        auto b = fl->buffer(); bool same = b.w == w && b.h == h; for (int i = 0; i < w * h * 3 && same; i++) { const double e = px[i / 3][i % 3]; same = b.data[i] == e || (std::isnan(e) && std::isnan(b.data[i])); }
        ctx.checkf(same, "film", [&] { return what + ": the film itself changed"; });
        ctx.state(what);
    });
    lm::reset();
}
void paths(vp::Ctx& ctx) {
    init(1);
    ctx.bound("target paths: no directory, missing directories of depth 1-3, with dots and trailing parts, upper-case and missing extensions, a directory in place of the file, a file in place of a directory, unwritable device, names and directories too long");
    char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return; if (chdir(ctx.scratch.c_str())) return;
    ctx.explore([&](vp::Chooser& ch) {
        struct P { std::string p; int ok; };      // 1: must succeed, 0: must fail
        const std::vector<P> L = {{"a", 1}, {"./a", 1}, {"d1/a", 1}, {"d2/e/a", 1}, {"d3/e/f/a", 1}, {"d4/../a", 1}, {"d5/../d6/a", 1}, {"d7//e/a", 1}, {"d8/./a", 1}, {"@/d9/a", 1}, {"a b/\xc3\xa4", 1},
            {"file/a", 0}, {"file/x/a", 0}, {"isdir", 0}, {std::string(300, 'n'), 0}, {std::string(300, 'n') + "/a", 0}, {"full", 0}, {"", 2}};
        const int f = ch.choose(3); auto t = L[ch.choose(L.size())];
        std::string p = t.p; if (p[0] == '@') p = ctx.scratch + p.substr(1);
        const std::vector<Vec3> px = {Vec3(.1, .2, .3), Vec3(.4, .5, .6)};
        auto* fl = film(2, 1, px);
        put_file("file", "x"); mkdir(("isdir" + std::string(EXT[f])).c_str(), 0777); const auto full = "full" + std::string(EXT[f]); if (!exists(full)) (void)!symlink("/dev/full", full.c_str());
        const int e = ch.choose(4);      // the extension of the format, or an unsupported one
        const std::string ext = e == 0 ? EXT[f] : e == 1 ? ".xyz" : e == 2 ? "" : ".png.bak";
        p += ext; ctx.trace("path '" + p + "'");
        bool r = false, thrown = false; try { r = fl->save(p); } catch (const std::exception& ex) { thrown = true; ctx.record("throws", "saving to '" + p + "' throws " + ex.what()); }
        const bool ok = t.ok == 1 && e == 0;
        if (t.ok == 2) return;                       // a bare extension is a name without extension: only no crash
        if (!thrown) ctx.checkf(r == ok, ok ? "path-false" : "path-true", [&] { return "saving to '" + p + "' returns " + (r ? "true" : "false"); });
        if (r && ok) check_file(ctx, p, f, 2, 1, px, p);
        ctx.state(p);
    });
    lm::reset(); if (chdir(cwd)) return;
}
// a device that accepts exactly b bytes
void faults(vp::Ctx& ctx) {
    init(1);
    ctx.bound("films 1x1, 3x2 and 40x40 in every format; the file system accepts exactly b bytes, for every b up to the file size (every 7th for the largest); saving over an existing file");
    signal(SIGXFSZ, SIG_IGN);
    ctx.explore([&](vp::Chooser& ch) {
        const int f = ch.choose(3), z = ch.choose(3); const int w = std::vector<int>{1, 3, 40}[z], h = std::vector<int>{1, 2, 40}[z];
        std::vector<Vec3> px; for (int i = 0; i < w * h; i++) px.push_back(Vec3(.1 + .001 * i, .5, 1. / (i + 1)));
        auto* fl = film(w, h, px); const auto path = ctx.scratch + "/q" + EXT[f]; unlink(path.c_str());
        if (!fl->save(path)) { ctx.record("false", "saving returns false"); return; }
        const auto data = slurp(path); const int step = z == 2 ? 7 : 1;
        const int b = ch.choose((data.size() + step - 1) / step + 1) * step;
        ctx.trace(fmt::format("{} {}x{} limited to {} of {} bytes", EXT[f], w, h, b, data.size()));
        if (b % 2) unlink(path.c_str());
        struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = b; setrlimit(RLIMIT_FSIZE, &lim);
        bool r = false, thrown = false; try { r = fl->save(path); } catch (const std::exception&) { thrown = true; }
        setrlimit(RLIMIT_FSIZE, &old);
        const bool complete = slurp(path) == data;
        ctx.checkf(!thrown, "fault-throws", [&] { return std::string("a write error is thrown instead of returned"); });
        ctx.checkf(r == complete, complete ? "fault-false" : "fault-true", [&] { return fmt::format("{}: saving returns {} although {} of {} bytes are in the file", EXT[f], r, slurp(path).size(), data.size()); });
        ctx.state(fmt::format("{}{}{}", f, z, b));
    });
    lm::reset();
}
SCENARIO("contents") { contents(ctx); }
SCENARIO("paths") { paths(ctx); }
SCENARIO("faults") { faults(ctx); }
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
