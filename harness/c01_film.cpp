// C01: concurrent film updates are atomic per pixel (linearizable); nothing is lost, torn or misplaced.
#include "harness/common.h"
#include "mc/mc.h"
using namespace lm;

namespace {
constexpr int W = 2, Hh = 1;
struct Op { int kind, px; };   // kind: 0 set 1 splat 2 update 3 inc_ave 4 raster splat 5 accum(other film)
using Pix = std::vector<Vec3>;
const char* kname[] = {"set_pixel", "splat_pixel", "update_pixel", "inc_ave", "splat", "accum"};

Vec3 val(int who) { double b = double(1 << (2 * who + 1)); return Vec3(b, 64 * b, -4096 * b); }
Vec3 upd(Vec3 c, int who) { return c * 2.0 + val(who); }

// sequential meaning of one atomic step
void apply(Pix& s, int kind, int px, int who) {
    switch (kind) {
        case 0: s[px] = val(who); break;
        case 1: case 4: case 5: s[px] += val(who); break;
        case 2: s[px] = upd(s[px], who); break;
        case 3: s[px] = s[px] + (val(who) - s[px]) / 2.0; break;
    }
}
struct Step { int kind, px, who; };
void outcomes(const std::vector<std::vector<Step>>& th, std::vector<size_t>& pos, Pix& s, std::vector<Pix>& out) {
    bool any = false;
    for (size_t t = 0; t < th.size(); t++) if (pos[t] < th[t].size()) {
        any = true;
        Pix sv = s;
        auto& st = th[t][pos[t]++];
        apply(s, st.kind, st.px, st.who);
        outcomes(th, pos, s, out);
        pos[t]--; s = sv;
    }
    if (!any) out.push_back(s);
}
bool same(const Pix& a, const Pix& b) { for (size_t i = 0; i < a.size(); i++) for (int k = 0; k < 3; k++) if (std::abs(a[i][k] - b[i][k]) > 1e-9 * (1 + std::abs(a[i][k]))) return false; return true; }
Pix read(Film* f) { auto b = f->buffer(); Pix p; for (int i = 0; i < b.w * b.h; i++) p.push_back(Vec3(b.data[3*i], b.data[3*i+1], b.data[3*i+2])); return p; }

void explore_programs(vp::Ctx& ctx, int nthreads, int nops, std::vector<Op> menu, int preempt) {
    H::init(1);
    ctx.bound(std::to_string(nthreads) + " threads x " + std::to_string(nops) + " film operations, every program over " + std::to_string(menu.size()) + " op/pixel kinds, " +
              (preempt < 0 ? "every interleaving of atomic steps (sleep-set reduced)" : "preemption bound " + std::to_string(preempt)));
    std::map<std::string, std::vector<Pix>> cache;
    ctx.explore([&](vp::Chooser& ch) {
        std::vector<std::vector<Op>> prog(nthreads);
        std::string desc; int prev = 0;
        for (int t = 0; t < nthreads; t++) {
            // threads are symmetric: only non-decreasing program indices
            int total = 1; for (int i = 0; i < nops; i++) total *= (int)menu.size();
            int idx = prev + ch.choose(total - prev); prev = idx;
            for (int i = 0; i < nops; i++) { prog[t].push_back(menu[idx % menu.size()]); idx /= menu.size(); }
            desc += (t ? " || " : "");
            for (auto& o : prog[t]) desc += std::string(kname[o.kind]) + "@" + std::to_string(o.px) + " ";
        }
        ctx.trace(desc);
        auto film = comp::create<Film>("film::bitmap", "", {{"w", W}, {"h", Hh}});
        std::vector<Component::Ptr<Film>> others;
        std::vector<std::vector<Step>> steps(nthreads);
        int who = 0;
        std::vector<std::vector<int>> ids(nthreads);
        for (int t = 0; t < nthreads; t++) for (auto& o : prog[t]) {
            ids[t].push_back(who);
            if (o.kind == 5) { for (int p = 0; p < W * Hh; p++) steps[t].push_back({1, p, who}); }
            else steps[t].push_back({o.kind, o.px, who});
            auto of = comp::create<Film>("film::bitmap", "", {{"w", W}, {"h", Hh}});
            for (int p = 0; p < W * Hh; p++) of->set_pixel(p, 0, val(who));
            others.push_back(std::move(of));
            who++;
        }
        mc::Config cfg; cfg.preemptions = preempt; cfg.hardware_threads = nthreads;
        auto r = mc::run(ctx, ch, cfg, [&] {
            mc::parallel(nthreads, [&](int t) {
                for (size_t i = 0; i < prog[t].size(); i++) {
                    const auto& o = prog[t][i]; int w = ids[t][i];
                    switch (o.kind) {
                        case 0: film->set_pixel(o.px, 0, val(w)); break;
                        case 1: film->splat_pixel(o.px, 0, val(w)); break;
                        case 2: film->update_pixel(o.px, 0, [w](Vec3 c) { return upd(c, w); }); break;
                        case 3: film->inc_ave(o.px, 0, 1, val(w)); break;
                        case 4: film->splat(Vec2((o.px + 0.5) / W, 0.5), val(w)); break;
                        case 5: film->accum(others[w].get()); break;
                    }
                }
            });
        });
        if (r.redundant) return;
        auto it = cache.find(desc);
        if (it == cache.end()) {
            std::vector<Pix> out; std::vector<size_t> pos(nthreads, 0); Pix s(W * Hh, Vec3(0));
            outcomes(steps, pos, s, out);
            if (cache.size() > 64) cache.clear();
            it = cache.emplace(desc, out).first;
        }
        const auto got = read(film.get());
        std::string st = desc; for (auto& p : got) st += H::v3(p);
        ctx.state(st);
        bool ok = false;
        for (auto& o : it->second) if (same(o, got)) { ok = true; break; }
        std::string kinds; for (auto& p : prog) for (auto& o : p) { kinds += kname[o.kind]; kinds += '+'; }
        ctx.checkf(ok, "not-linearizable:" + kinds, [&] {
            std::string s = "film content after " + desc + " is"; for (auto& p : got) s += " " + H::v3(p);
            return s + ", which no sequential order of the operations produces"; });
    });
}
const std::vector<Op> kAll = {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {4, 0}, {5, 0}, {1, 1}};
}

SCENARIO("two_threads_one_op") { explore_programs(ctx, 2, 1, {{0,0},{1,0},{2,0},{3,0},{4,0},{5,0},{0,1},{1,1},{2,1},{3,1},{4,1}}, -1); }
SCENARIO("two_threads_two_ops_a") { explore_programs(ctx, 2, 2, {{0,0},{1,0},{2,0},{1,1}}, -1); }
SCENARIO("two_threads_two_ops_b") { explore_programs(ctx, 2, 2, {{3,0},{4,0},{5,0},{0,0}}, -1); }
SCENARIO("three_threads_one_op") { explore_programs(ctx, 3, 1, kAll, -1); }
SCENARIO_T("two_threads_three_ops") { explore_programs(ctx, 2, 3, {{0,0},{1,0},{2,0},{3,0}}, 3); }
SCENARIO_T("three_threads_two_ops") { explore_programs(ctx, 3, 2, {{1,0},{2,0},{0,0}}, 2); }
SCENARIO_T("four_threads_one_op") { explore_programs(ctx, 4, 1, {{0,0},{1,0},{2,0},{3,0},{5,0}}, -1); }

// rescale() itself runs in parallel: every pixel is scaled exactly once whatever the interleaving.
static void rescale_case(vp::Ctx& ctx, int nthreads, int maxpix) {
    H::init(nthreads);
    ctx.bound("rescale on films of 1.." + std::to_string(maxpix) + " pixels, " + std::to_string(nthreads) + " threads, every interleaving");
    ctx.explore([&](vp::Chooser& ch) {
        int n = 1 + ch.choose(maxpix); bool tall = ch.flip();
        int w = tall ? 1 : n, h = tall ? n : 1;
        auto film = comp::create<Film>("film::bitmap", "", {{"w", w}, {"h", h}});
        for (int i = 0; i < n; i++) film->set_pixel(tall ? 0 : i, tall ? i : 0, Vec3(i + 1, 10 * (i + 1), -(i + 1)));
        ctx.trace("rescale " + std::to_string(w) + "x" + std::to_string(h));
        mc::Config cfg; cfg.hardware_threads = nthreads;
        auto r = mc::run(ctx, ch, cfg, [&] { film->rescale(0.5); });
        if (r.redundant) return;
        auto got = read(film.get());
        std::string st; for (auto& p : got) st += H::v3(p);
        ctx.state(st);
        for (int i = 0; i < n; i++)
            ctx.checkf(same({got[i]}, {Vec3(i + 1, 10 * (i + 1), -(i + 1)) * 0.5}), "rescale", [&] { return "pixel " + std::to_string(i) + " after rescale(0.5) is " + H::v3(got[i]); });
    });
}
SCENARIO("rescale_two_threads") { rescale_case(ctx, 2, 3); }
SCENARIO_T("rescale_three_threads") { rescale_case(ctx, 3, 3); }

// Different pixels never interfere: all pairs of pixels of all small film shapes.
SCENARIO("pixel_addressing") {
    H::init(1);
    ctx.bound("films up to 3x3, every pair of pixels written concurrently by two threads with every operation; every raster position on a 13x13 lattice in [-0.2,1.2]^2");
    ctx.explore([&](vp::Chooser& ch) {
        int w = 1 + ch.choose(3), h = 1 + ch.choose(3);
        int a = ch.choose(w * h), b = ch.choose(w * h), kind = ch.choose(4);
        auto film = comp::create<Film>("film::bitmap", "", {{"w", w}, {"h", h}});
        ctx.trace("film " + std::to_string(w) + "x" + std::to_string(h) + " pixels " + std::to_string(a) + "," + std::to_string(b) + " operation " + std::to_string(kind));
        mc::Config cfg;
        auto r = mc::run(ctx, ch, cfg, [&] {
            mc::parallel(2, [&](int t) {
                int p = t ? b : a;
                if (kind == 0 || a == b) film->splat_pixel(p % w, p / w, val(t));
                else if (kind == 1) film->set_pixel(p % w, p / w, val(t));
                else if (kind == 2) film->update_pixel(p % w, p / w, [t](Vec3 c) { return c + val(t); });
                else film->inc_ave(p % w, p / w, 0, val(t));
            });
        });
        if (r.redundant) return;
        auto got = read(film.get());
        for (int i = 0; i < w * h; i++) {
            Vec3 e(0); if (i == a) e += val(0); if (i == b) e += val(1);
            ctx.checkf(same({got[i]}, {e}), "misplaced", [&] { return "pixel " + std::to_string(i) + " = " + H::v3(got[i]) + " expected " + H::v3(e); });
        }
        for (int i = 0; i < 13; i++) for (int j = 0; j < 13; j++) {
            Vec2 rp(-0.2 + 1.4 * (i + 0.37) / 13, -0.2 + 1.4 * (j + 0.37) / 13);
            auto clampi = [](double v, int n) { int k = (int)std::floor(v * n); return k < 0 ? 0 : k >= n ? n - 1 : k; };
            film->clear();
            film->splat(rp, val(0));
            auto g = read(film.get());
            int ex = clampi(rp.y, h) * w + clampi(rp.x, w);
            for (int k = 0; k < w * h; k++)
                ctx.checkf(same({g[k]}, {k == ex ? val(0) : Vec3(0)}), "raster-misplaced", [&] { char m[200]; snprintf(m, 200, "splat at raster (%g,%g) of %dx%d: pixel %d = %s", rp.x, rp.y, w, h, k, H::v3(g[k]).c_str()); return std::string(m); });
        }
    });
}

// accum adds pixel by pixel to a film of the same shape and changes nothing for any other
SCENARIO("accum_shapes") {
    H::init(1); ctx.bound("accum between all pairs of films up to 4x4");
    ctx.explore([&](vp::Chooser& ch) {
        const int w = 1 + ch.choose(4), h = 1 + ch.choose(4), w2 = 1 + ch.choose(4), h2 = 1 + ch.choose(4);
        ctx.trace("accum " + std::to_string(w) + "x" + std::to_string(h) + " += " + std::to_string(w2) + "x" + std::to_string(h2));
        auto a = comp::create<Film>("film::bitmap", "", {{"w", w}, {"h", h}}), b = comp::create<Film>("film::bitmap", "", {{"w", w2}, {"h", h2}});
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) a->set_pixel(x, y, Vec3(x, y, 1)); for (int y = 0; y < h2; y++) for (int x = 0; x < w2; x++) b->set_pixel(x, y, Vec3(10 * x, 100 * y, 5));
        bool thrown = false; try { a->accum(b.get()); } catch (const lm::Exception&) { thrown = true; }
        const bool ok = w == w2 && h == h2; ctx.check(!ok || !thrown, "accum-shape", "accumulation between films of equal shape throws");
        auto g = read(a.get()); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { Vec3 e = Vec3(x, y, 1) + (ok ? Vec3(10 * x, 100 * y, 5) : Vec3(0)); ctx.checkf(same({g[x + y * w]}, {e}), "accum", [&] { return "pixel (" + std::to_string(x) + "," + std::to_string(y) + ") = " + H::v3(g[x + y * w]); }); }
        ctx.state(std::to_string(w) + std::to_string(h) + std::to_string(w2) + std::to_string(h2));
    });
}

// every sequence of operations, the film being read after each of them
static void histories(vp::Ctx& ctx, int depth) {
    H::init(1); ctx.bound("all sequences of " + std::to_string(depth) + " film operations over 9 (set, splat, update, average, raster splat, accumulate, rescale, clear, save) on a 2x2 film, read after every operation");
    ctx.explore([&](vp::Chooser& ch) {
        auto film = comp::create<Film>("film::bitmap", "", {{"w", 2}, {"h", 2}}), other = comp::create<Film>("film::bitmap", "", {{"w", 2}, {"h", 2}});
        for (int i = 0; i < 4; i++) other->set_pixel(i % 2, i / 2, Vec3(i + 1, -i, .5 * i));
        Pix m(4, Vec3(0)); std::string d;
        for (int i = 0; i < depth; i++) {
            const int k = ch.choose(9), p = i % 4, x = p % 2, y = p / 2; const Vec3 v = val(i) + Vec3(0, i, .25);
            static const char* nm[] = {"set", "splat", "update", "average", "raster", "accum", "rescale", "clear", "save"};
            d += std::string(nm[k]) + " ";
            switch (k) {
                case 0: film->set_pixel(x, y, v); m[p] = v; break;
                case 1: film->splat_pixel(x, y, v); m[p] += v; break;
                case 2: film->update_pixel(x, y, [&](Vec3 c) { return 2. * c + v; }); m[p] = 2. * m[p] + v; break;
                case 3: film->inc_ave(x, y, 3, v); m[p] += (v - m[p]) / 4.; break;
                case 4: film->splat(Vec2((x + .4) / 2, (y + .6) / 2), v); m[p] += v; break;
                case 5: film->accum(other.get()); for (int q = 0; q < 4; q++) m[q] += Vec3(q + 1, -q, .5 * q); break;
                case 6: film->rescale(.5); for (auto& q : m) q *= .5; break;
                case 7: film->clear(); for (auto& q : m) q = Vec3(0); break;
                case 8: { const auto f = ctx.scratch + "/h.pfm"; ctx.check(film->save(f), "save", "saving the film fails"); break; }
            }
            ctx.trace(d); ctx.extra_transitions++;
            auto g = read(film.get());
            for (int q = 0; q < 4; q++) ctx.checkf(same({g[q]}, {m[q]}), "history", [&] { return "after " + d + ": pixel " + std::to_string(q) + " = " + H::v3(g[q]) + " expected " + H::v3(m[q]); });
        }
        std::string st; for (auto& q : m) st += H::v3(q); ctx.state(st);
    });
}
SCENARIO("histories3") { histories(ctx, 3); }
SCENARIO_T("histories5") { histories(ctx, 5); }

int main(int argc, char** argv) { return vp::run_main(argc, argv); }
