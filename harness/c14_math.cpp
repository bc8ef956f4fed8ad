// C14: discrete distributions and sampling helpers are exact inverses of their pdf; geometric helpers obey their laws.
#include "harness/common.h"
#include <lm/math.h>
using namespace lm;
namespace {
const double EPS = 1e-9;
std::string V(const std::vector<double>& w) { std::string s = "["; for (double x : w) s += fmt::format("{} ", x); return s + "]"; }
bool near(double a, double b, double e = EPS) { return std::abs(a - b) <= e * std::max(1.0, std::max(std::abs(a), std::abs(b))); }

void check_dist(vp::Ctx& ctx, Dist& d, const std::vector<double>& w, const char* when) {
    const int n = w.size(); double sum = 0; for (double x : w) sum += x;
    double tot = 0;
    for (int i = -2; i < n + 3; i++) {
        const double p = d.pmf(i), want = i < 0 || i >= n || sum == 0 ? 0 : w[i] / sum;
        ctx.checkf(std::isfinite(p) && near(p, want), "pmf", [&] { return fmt::format("{}{}: pmf({}) = {}, expected {}", when, V(w), i, p, want); });
        tot += p;
    }
    ctx.check(near(tot, sum == 0 ? 0 : 1), "pmf-sum", std::string(when) + V(w) + " does not sum to one");
    // every random number: a lattice, all cumulative boundaries and their neighbours, both ends of [0,1]
    std::vector<double> us; for (int i = 0; i <= 64; i++) us.push_back(i / 64.);
    double c = 0; if (sum > 0) for (double x : w) { c += x / sum; for (double e : {-1e-7, 1e-7}) if (c + e >= 0 && c + e <= 1) us.push_back(c + e); }
    for (double u : us) {
        const int i = d.sample(u);
        ctx.extra_transitions++;
        ctx.checkf(i >= 0 && i < n, "range", [&] { return fmt::format("{}{}: sample({}) = {} is out of range", when, V(w), u, i); });
        if (sum == 0) continue;
        ctx.checkf(w[i] > 0, "zero-bin", [&] { return fmt::format("{}{}: sample({}) = {} has probability zero", when, V(w), u, i); });
        double lo = 0; for (int k = 0; k < i; k++) lo += w[k] / sum;
        const double hi = lo + w[i] / sum;
        ctx.checkf(u >= lo - 1e-12 && u <= hi + 1e-12, "interval", [&] { return fmt::format("{}{}: sample({}) = {}, whose interval is [{}, {})", when, V(w), u, i, lo, hi); });
    }
}
void dist1(vp::Ctx& ctx) {
    H::init(1);
    ctx.bound("1-d: all weight vectors of length 1-5 over {0, 1, 2, 0.5, 1e-6, 1e6}; fresh, cleared and refilled; every u of a lattice including both ends and all boundaries");
    const std::vector<double> A = {0, 1, 2, .5, 1e-6, 1e6};
    ctx.explore([&](vp::Chooser& ch) {
        const int n = 1 + ch.choose(5); std::vector<double> w; for (int i = 0; i < n; i++) w.push_back(A[ch.choose(n == 5 ? 4 : (int)A.size())]);
        Dist d; ctx.check(d.empty(), "empty", "a new distribution is not empty");
        for (double x : w) d.add(x);
        ctx.check(!d.empty(), "empty", "a filled distribution is empty");
        d.norm(); check_dist(ctx, d, w, "");
        d.clear(); ctx.check(d.empty(), "empty", "a cleared distribution is not empty");
        std::vector<double> r(w.rbegin(), w.rend()); r.push_back(3);
        for (double x : r) d.add(x); d.norm(); check_dist(ctx, d, r, "refilled ");
        ctx.state(V(w));
    });
}
void check_dist2(vp::Ctx& ctx, const Dist2& d, const std::vector<double>& w, int cols, int rows, const char* when) {
    double sum = 0; for (double x : w) sum += x;
    auto at = [&](double u, double v) { const int x = std::min(int(u * cols), cols - 1), y = std::min(int(v * rows), rows - 1); return sum == 0 ? 0. : w[y * cols + x] / sum * cols * rows; };
    auto name = [&] { return fmt::format("{}{}x{} {}", when, cols, rows, V(w)); };
    double integral = 0; const int K = 3;
    for (int y = 0; y < rows * K; y++) for (int x = 0; x < cols * K; x++) {
        const double u = (x + .5) / (cols * K), v = (y + .5) / (rows * K), p = d.pdf(u, v);
        ctx.extra_transitions++;
        ctx.checkf(std::isfinite(p) && near(p, at(u, v)), "pdf2", [&] { return name() + fmt::format(": pdf({}, {}) = {}, expected {}", u, v, p, at(u, v)); });
        integral += p / (cols * K * rows * K);
    }
    ctx.checkf(near(integral, sum == 0 ? 0 : 1), "norm2", [&] { return name() + fmt::format(": density integrates to {}", integral); });
    for (double u : {0., 1.}) for (double v : {0., 1.}) { const double p = d.pdf(u, v); ctx.checkf(std::isfinite(p) && near(p, at(u, v)), "corner", [&] { return name() + fmt::format(": pdf({}, {}) = {}, expected {}", u, v, p, at(u, v)); }); }
    if (sum == 0) return;
    // sampling: the fraction of random numbers sent into each cell is its probability
    const int N = 48; std::map<int, int> cnt; 
    for (int a = 0; a <= N; a++) for (int b = 0; b <= N; b++) {
        const double ua = a == N ? 1 : (a + .5) / N, ub = b == N ? 1 : (b + .5) / N;
        for (auto in : {Vec2(.25, .75), Vec2(.9, .1)}) {
            const Vec2 s = d.sample(Vec4(ua, ub, in.x, in.y));
            ctx.extra_transitions++;
            ctx.checkf(s.x >= 0 && s.x <= 1 && s.y >= 0 && s.y <= 1 && std::isfinite(s.x + s.y), "sample-range", [&] { return name() + ": sample outside of the unit square"; });
            const double p = d.pdf(s.x, s.y);
            ctx.checkf(p > 0, "sample-zero", [&] { return name() + fmt::format(": sample({}, {}) lands where the density is {}", ua, ub, p); });
            const int x = std::min(int(s.x * cols), cols - 1), y = std::min(int(s.y * rows), rows - 1);
            ctx.checkf(near(s.x * cols - x, in.x, 1e-6) && near(s.y * rows - y, in.y, 1e-6), "inside-cell", [&] { return name() + ": position inside of the cell is not the given one"; });
            if (a < N && b < N && in.x < .5) cnt[y * cols + x]++;
        }
    }
    for (int i = 0; i < cols * rows; i++) { const double f = double(cnt[i]) / (N * N), p = w[i] / sum; ctx.checkf(std::abs(f - p) <= 4.2 / N, "freq", [&] { return name() + fmt::format(": cell {} is hit by {} of the random numbers, its probability is {}", i, f, p); }); }
}
void dist2(vp::Ctx& ctx) {
    H::init(1);
    ctx.bound("2-d: all tables up to 3x2, 2x3 and 1x4 over {0, 1, 3} (the 3x2 and 2x3 ones), fresh and re-initialised from another table");
    ctx.explore([&](vp::Chooser& ch) {
        const std::vector<std::pair<int, int>> S = {{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}, {2, 3}, {4, 1}, {1, 4}};
        auto [c, r] = S[ch.choose(S.size())];
        std::vector<double> w; for (int i = 0; i < c * r; i++) w.push_back(std::vector<double>{0, 1, 3}[ch.choose(3)]);
        Dist2 d; d.init(w, c, r); check_dist2(ctx, d, w, c, r, "");
        std::vector<double> w2(r * (c + 1), 1.); w2[0] = 0; 
        d.init(w2, c + 1, r); check_dist2(ctx, d, w2, c + 1, r, "re-initialised ");
        d.init(w, c, r); check_dist2(ctx, d, w, c, r, "re-initialised ");
        ctx.state(std::to_string(c) + "x" + V(w));
    });
}
std::vector<Vec3> directions() {
    std::vector<Vec3> r; std::set<std::string> seen;
    for (double x : {-2., -1., -.5, -1e-3, -1e-8, 0., 1e-8, 1e-3, .5, 1., 2.}) for (double y : {-2., -1., -1e-3, 0., 1e-8, .5, 1.}) for (double z : {-2., -1., -.5, -1e-3, -1e-8, -0., 0., 1e-8, 1e-3, .5, 1.}) {
        Vec3 v(x, y, z); if (glm::length(v) < 1e-4) continue; r.push_back(glm::normalize(v)); }
    r.push_back(Vec3(0, 0, -1)); r.push_back(Vec3(1e-7, 0, -1)); r.push_back(Vec3(0, 1, -0.0));
    return r;
}
void bases(vp::Ctx& ctx) {
    H::init(1);
    ctx.bound("orthonormal bases over 847 directions (poles, axes, sign of zero, nearly degenerate); reflection, refraction over pairs of directions and 6 relative indices; spherical coordinates; barycentric mixing; balance heuristic");
    const auto D = directions();
    ctx.explore([&](vp::Chooser& ch) {
        const Vec3 n = D[ch.choose(D.size())];
        ctx.trace(fmt::format("n=({},{},{})", n.x, n.y, n.z));
        auto [u, v] = math::orthonormal_basis(n);
        ctx.check(near(glm::length(u), 1, 1e-6) && near(glm::length(v), 1, 1e-6), "unit", "basis vectors are not of unit length");
        ctx.check(std::abs(glm::dot(u, v)) < 1e-6 && std::abs(glm::dot(u, n)) < 1e-6 && std::abs(glm::dot(v, n)) < 1e-6, "orthogonal", "basis is not orthogonal");
        ctx.check(glm::length(glm::cross(u, v) - n) < 1e-6, "handed", "basis is not right-handed");
        for (size_t k = 0; k < D.size(); k += 3) {
            const Vec3 w = D[k]; const double c = glm::dot(w, n);
            const Vec3 r = math::reflection(w, n);
            ctx.check(near(glm::length(r), 1, 1e-9) && near(glm::dot(r, n), c) && glm::length(r + w - 2. * c * n) < 1e-9, "reflection", "reflection is wrong");
            ctx.extra_transitions++;
            if (c <= 1e-6) continue;
            for (double eta : {1., 1 / 1.5, 1.5, 2.4, 1 / 2.4, .1}) {
                auto t = math::refraction(w, n, eta);
                const double sin2 = eta * eta * (1 - c * c);
                if (std::abs(sin2 - 1) < 1e-9) continue;
                ctx.checkf(t.total == (sin2 > 1), "total", [&] { return fmt::format("total reflection flag is {} for eta={} cos={}", t.total, eta, c); });
                if (t.total) continue;
                ctx.checkf(near(glm::length(t.wt), 1, 1e-9) && near(glm::dot(t.wt, n), -std::sqrt(1 - sin2), 1e-9) && glm::length((t.wt - n * glm::dot(t.wt, n)) + eta * (w - n * c)) < 1e-9, "refraction", [&] { return fmt::format("refracted direction violates Snell's law for eta={} cos={}", eta, c); });
            }
        }
        // local coordinates
        ctx.check(near(math::local_cos(n), n.z) && near(math::local_sin(n), std::sqrt(std::max(0., 1 - n.z * n.z)), 1e-9), "local", "local sine or cosine is wrong");
        if (std::abs(n.z) > 1e-2) ctx.check(near(math::local_tan(n), std::sqrt(std::max(0., 1 - n.z * n.z)) / n.z, 1e-7) && near(math::local_tan2(n), (1 - n.z * n.z) / (n.z * n.z), 1e-7), "local-tan", "local tangent is wrong");
        else ctx.check(!std::isnan(math::local_tan2(n)) && math::local_tan2(n) > 9000, "local-tan2", "tan^2 of a grazing direction is wrong");
        const double th = std::acos(n.z), ph = std::atan2(n.y, n.x);
        ctx.check(glm::length(math::spherical_to_cartesian(th, ph) - n) < 1e-6, "spherical", "spherical coordinates are wrong");
        ctx.state(fmt::format("{},{},{}", n.x, n.y, n.z));
    });
}
void misc(vp::Ctx& ctx) {
    H::init(1);
    ctx.bound("barycentric mixing, geometry normals over a vertex lattice, safe_sqrt, balance heuristic over a density alphabet, random number streams of seeds -2..40");
    ctx.explore([&](vp::Chooser& ch) {
        switch (ch.choose(4)) {
        case 0: {
            const std::vector<Vec3> P = {Vec3(0), Vec3(1, 0, 0), Vec3(0, 1, 0), Vec3(0, 0, 1), Vec3(-1, 2, .5)};
            const Vec3 a = ch.pick(P), b = ch.pick(P), c = ch.pick(P);
            for (auto uv : {Vec2(0, 0), Vec2(1, 0), Vec2(0, 1), Vec2(.2, .3), Vec2(.5, .5)}) ctx.check(glm::length(math::mix_barycentric(a, b, c, uv) - ((1 - uv.x - uv.y) * a + uv.x * b + uv.y * c)) < 1e-12, "mix", "barycentric mixing is wrong");
            if (glm::length(glm::cross(b - a, c - a)) > 1e-6) { auto n = math::geometry_normal(a, b, c); ctx.check(near(glm::length(n), 1) && std::abs(glm::dot(n, b - a)) < 1e-9 && std::abs(glm::dot(n, c - a)) < 1e-9 && glm::dot(glm::cross(b - a, c - a), n) > 0, "gnormal", "geometry normal is wrong"); }
            break; }
        case 1: {
            const std::vector<double> A = {0, 1e-300, 1e-6, .5, 1, 3, 1e6};
            const double p = ch.pick(A), q = ch.pick(A), w = math::balance_heuristic(p, q), x = math::balance_heuristic(q, p);
            ctx.check(w >= 0 && w <= 1 && x >= 0 && x <= 1, "mis-range", "balance heuristic leaves [0,1]");
            ctx.check(near(w + x, p + q > 0 ? 1 : 0) && (p + q == 0 || near(w, p / (p + q))), "mis-sum", "balance heuristic is wrong");
            break; }
        case 2: for (double v : {-1., -1e-18, 0., 1e-8, 1., 4.}) { ctx.check(near(math::safe_sqrt(v), v > 0 ? std::sqrt(v) : 0), "sqrt", "safe_sqrt is wrong"); ctx.check(near(math::sq(v), v * v), "sq", "square is wrong"); }
            ctx.check(math::is_zero(Vec3(0)) && !math::is_zero(Vec3(0, 1e-9, 0)) && !math::is_zero(Vec3(1e-9, 0, 0)) && !math::is_zero(Vec3(0, 0, -1)), "zero", "is_zero is wrong"); break;
        case 3: {
            const int seed = ch.choose(43) - 2;
            Rng a(seed), b(seed), c(seed); struct S { Vec2 p; double q; Vec3 r; };
            double mean = 0; std::set<double> vals;
            for (int i = 0; i < 200; i++) { const double x = a.u(); mean += x / 1200; vals.insert(x); ctx.check(x >= 0 && x < 1 && x == b.u(), "rng", "a stream is not reproducible or leaves [0,1)");
                const auto s = a.next<S>(); ctx.check(s.p.x == b.u() && s.p.y == b.u() && s.q == b.u() && s.r.x == b.u() && s.r.y == b.u(), "rng-next", "composite random numbers do not follow the stream"); const double l = b.u(); ctx.check(s.r.z == l, "rng-next", "composite random numbers do not follow the stream");
                mean += (s.p.x + s.p.y + s.q + s.r.x + s.r.y) / 1200; vals.insert(s.r.z); }
            // single precision: the largest float that does not exceed the double of the same stream, so never 1
            lm::detail::RngImpl<float> f(seed); lm::detail::RngImpl<double> g(seed); for (int i = 0; i < 2000; i++) { const float x = f.u(); const double y = g.u(); ctx.check(x <= y && x < 1 && std::nextafter(x, 2.f) > y, "rng-float", "single precision random numbers are not rounded down"); ctx.check(f.u_int() == g.u_int(), "rng-int", "integers of equal seeds differ"); }
            ctx.check(vals.size() == 400 && mean > .44 && mean < .56, "rng-quality", "the random numbers repeat or are biased");
            break; }
        }
    });
}
template <class F> void moments(vp::Ctx& ctx, const char* name, F sample, const std::function<double(const std::vector<double>&)>& ok, const std::vector<double>& m1, const std::vector<std::vector<double>>& m2, const std::function<int(const std::vector<double>&)>& cell, int ncells, int N) {
    const int d = m1.size(); std::vector<double> s1(d, 0); std::vector<std::vector<double>> s2(d, std::vector<double>(d, 0)); std::vector<int> cnt(ncells, 0);
    for (int i = -1; i <= N; i++) for (int j = -1; j <= N; j++) {
        const bool edge = i < 0 || i == N || j < 0 || j == N;
        const double a = i < 0 ? 0 : i == N ? 1 : (i + .5) / N, b = j < 0 ? 0 : j == N ? 1 : (j + .5) / N;
        const std::vector<double> v = sample(Vec2(a, b));
        ctx.extra_transitions++;
        bool fin = true; for (double x : v) fin = fin && std::isfinite(x);
        ctx.checkf(fin && ok(v) < 1e-7, std::string(name) + "-domain", [&] { return fmt::format("{}({}, {}) leaves its domain", name, a, b); });
        if (edge) continue;
        for (int k = 0; k < d; k++) { s1[k] += v[k] / N / N; for (int l = 0; l < d; l++) s2[k][l] += v[k] * v[l] / N / N; }
        const int c = cell(v); if (c >= 0 && c < ncells) cnt[c]++;
    }
    for (int k = 0; k < d; k++) { ctx.checkf(std::abs(s1[k] - m1[k]) < 1e-3, std::string(name) + "-mean", [&] { return fmt::format("{}: mean of coordinate {} is {}, expected {}", name, k, s1[k], m1[k]); });
        for (int l = 0; l < d; l++) ctx.checkf(std::abs(s2[k][l] - m2[k][l]) < 1e-3, std::string(name) + "-var", [&] { return fmt::format("{}: moment {}{} is {}, expected {}", name, k, l, s2[k][l], m2[k][l]); }); }
    for (int c = 0; c < ncells; c++) { const double f = double(cnt[c]) / N / N * ncells; ctx.checkf(std::abs(f - 1) < .06, std::string(name) + "-cell", [&] { return fmt::format("{}: cell {} of {} equally probable ones receives {} of its share", name, c, ncells, f); }); }
}
void samplers(vp::Ctx& ctx, int N) {
    H::init(1);
    ctx.bound(fmt::format("disk, cosine-weighted and uniform sphere sampling over the {0}x{0} lattice of random numbers plus the border of the unit square: domain, moments, 128 cells of equal probability", N));
    ctx.explore([&](vp::Chooser& ch) {
        auto ang = [](double x, double y) { double a = std::atan2(y, x) / (2 * Pi); if (a < 0) a += 1; return std::min(15, int(a * 16)); };
        auto q = [](double t) { return std::min(7, std::max(0, int(t * 8))); };
        switch (ch.choose(3)) {
        case 0: moments(ctx, "disk", [](Vec2 u) { auto p = math::sample_uniform_disk(u); return std::vector<double>{p.x, p.y}; }, [](auto& v) { return std::max(0., v[0] * v[0] + v[1] * v[1] - 1); },
            {0, 0}, {{.25, 0}, {0, .25}}, [&](auto& v) { return ang(v[0], v[1]) * 8 + q(v[0] * v[0] + v[1] * v[1]); }, 128, N);
            ctx.check(near(math::pdf_uniform_disk() * Pi, 1), "disk-pdf", "density of the unit disk is not normalised"); break;
        case 1: moments(ctx, "cosine", [](Vec2 u) { auto p = math::sample_cosine_weighted(u); return std::vector<double>{p.x, p.y, p.z}; }, [](auto& v) { return std::max(std::abs(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] - 1), -v[2]); },
            {0, 0, 2. / 3}, {{.25, 0, 0}, {0, .25, 0}, {0, 0, .5}}, [&](auto& v) { return ang(v[0], v[1]) * 8 + q(v[2] * v[2]); }, 128, N);
            ctx.check(near(math::pdf_cosine_weighted_projSA() * Pi, 1), "cosine-pdf", "cosine-weighted density is not normalised"); break;
        case 2: moments(ctx, "sphere", [](Vec2 u) { auto p = math::sample_uniform_sphere(u); return std::vector<double>{p.x, p.y, p.z}; }, [](auto& v) { return std::abs(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] - 1); },
            {0, 0, 0}, {{1. / 3, 0, 0}, {0, 1. / 3, 0}, {0, 0, 1. / 3}}, [&](auto& v) { return ang(v[0], v[1]) * 8 + q(.5 - .5 * v[2]); }, 128, N);
            ctx.check(near(math::pdf_uniform_sphere() * 4 * Pi, 1), "sphere-pdf", "density of the sphere is not normalised"); break;
        }
    });
}
void bounds(vp::Ctx& ctx) {
    H::init(1);
    ctx.bound("boxes over a lattice of corners (also degenerate ones), rays with all origins of a 5^3 lattice and 26 axis/diagonal/skew directions, 4 intervals: hit and clipped range against the definition; merging, centre, area");
    ctx.explore([&](vp::Chooser& ch) {
        const std::vector<std::pair<double, double>> R = {{-1, 1}, {0, 2}, {1, 1}};
        Bound b; for (int i = 0; i < 3; i++) { auto r = R[ch.choose(3)]; b.min[i] = r.first; b.max[i] = r.second; }
        const auto e = b.max - b.min;
        ctx.check(b.center() == (b.min + b.max) * .5 && near(b.surface_area(), 2 * (e.x * e.y + e.y * e.z + e.z * e.x)) && b[0] == b.min && b[1] == b.max, "box", "centre, area or corners of a box are wrong");
        for (auto p : {Vec3(0), Vec3(3, -4, .5)}) { auto m = merge(b, p); for (int i = 0; i < 3; i++) ctx.check(m.min[i] == std::min(b.min[i], p[i]) && m.max[i] == std::max(b.max[i], p[i]), "merge", "merging with a point is wrong");
            Bound c; c.min = p; c.max = p + Vec3(1); auto n = merge(b, c); for (int i = 0; i < 3; i++) ctx.check(n.min[i] == std::min(b.min[i], c.min[i]) && n.max[i] == std::max(b.max[i], c.max[i]), "merge2", "merging two boxes is wrong"); }
        ctx.check(merge(Bound(), b).min == b.min && merge(Bound(), b).max == b.max, "merge0", "the empty box is not neutral");
        for (double x : {-2., -1., 0., 1., 2.}) for (double y : {-2., -1., .3, 1.}) for (double z : {-2., 0., 1., 3.})
        for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) for (int dz = -1; dz <= 1; dz++) {
            if (!dx && !dy && !dz) continue;
            for (double skew : {1., .37}) {
            const Ray r{Vec3(x, y, z), glm::normalize(Vec3(dx, dy * skew, dz))};
            for (auto iv : {std::pair<double, double>{0, Inf}, {0, 2}, {1.5, 4}, {-5, 5}}) {
                double lo = iv.first, hi = iv.second; bool hit = true;
                for (int i = 0; i < 3; i++) {
                    if (r.d[i] == 0) { if (r.o[i] < b.min[i] || r.o[i] > b.max[i]) hit = false; continue; }
                    double t1 = (b.min[i] - r.o[i]) / r.d[i], t2 = (b.max[i] - r.o[i]) / r.d[i]; if (t1 > t2) std::swap(t1, t2);
                    lo = std::max(lo, t1); hi = std::min(hi, t2);
                }
                if (hit && std::abs(hi - lo) < 1e-9) { double a = iv.first, c = iv.second; b.isect_range(r, a, c); continue; }      // touching an edge: either answer
                hit = hit && lo <= hi;
                double a = iv.first, c = iv.second; const bool g = b.isect_range(r, a, c);
                ctx.extra_transitions++;
                ctx.checkf(g == hit, "isect", [&] { return fmt::format("ray o=({},{},{}) d=({},{},{}) in [{},{}]: {} instead of {}", x, y, z, r.d.x, r.d.y, r.d.z, iv.first, iv.second, g, hit); });
                ctx.check(b.isect(r, iv.first, iv.second) == hit, "isect2", "hit test and range disagree");
                if (hit && g) ctx.checkf(near(a, lo) && near(c, hi), "range", [&] { return fmt::format("ray o=({},{},{}) d=({},{},{}) in [{},{}]: range [{},{}] instead of [{},{}]", x, y, z, r.d.x, r.d.y, r.d.z, iv.first, iv.second, a, c, lo, hi); });
            } }
        }
        ctx.state(fmt::format("{}{}{}{}{}{}", b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z));
    });
}
void transforms(vp::Ctx& ctx) {
    H::init(1);
    ctx.bound("all products of two of 9 affine matrices (translation, rotations, uniform, non-uniform and mirroring scales, shear): normals stay perpendicular, Jacobian is the volume factor, inverse restores points");
    std::vector<Mat4> M = {Mat4(1), glm::translate(Vec3(1, 2, 3)), glm::rotate(.7, glm::normalize(Vec3(1, 1, 0))), glm::rotate(Pi / 2, Vec3(0, 0, 1)), glm::scale(Vec3(2)), glm::scale(Vec3(.5, 1, 3)), glm::scale(Vec3(-1, 1, 1)), glm::scale(Vec3(.1)), Mat4(1)};
    M[8][1][0] = .8;
    ctx.explore([&](vp::Chooser& ch) {
        const Mat4 m = ch.pick(M) * ch.pick(M); const Transform t(m);
        ctx.check(t.M == m, "m", "the matrix is not kept");
        const Mat3 L(m); const double det = glm::dot(glm::cross(L[0], L[1]), L[2]);
        ctx.check(near(t.J, std::abs(det)), "J", "the Jacobian is not the volume factor");
        const std::vector<Vec3> D = {Vec3(1, 0, 0), Vec3(0, 1, 0), Vec3(0, 0, 1), Vec3(1, 1, 1), Vec3(-1, .5, 2)};
        for (auto& n : D) { auto [u, v] = math::orthonormal_basis(glm::normalize(n)); const Vec3 tn = t.normal_M * n; ctx.extra_transitions++;
            ctx.check(glm::length(tn) > 1e-9 && std::abs(glm::dot(tn, L * u)) < 1e-9 && std::abs(glm::dot(tn, L * v)) < 1e-9, "perp", "transformed normal is not perpendicular to the transformed surface");
            ctx.check(glm::dot(tn, L * n) > 0, "side", "transformed normal changes the side"); }
        const Mat4 I = glm::inverse(m) * m; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) ctx.check(near(I[i][j], i == j), "inverse", "inverse does not invert");
    });
}
SCENARIO("dist1") { dist1(ctx); }
SCENARIO("dist2") { dist2(ctx); }
SCENARIO("bases") { bases(ctx); }
SCENARIO("misc") { misc(ctx); }
SCENARIO("samplers") { samplers(ctx, 512); }
SCENARIO("bounds") { bounds(ctx); }
SCENARIO("transforms") { transforms(ctx); }
SCENARIO_T("samplers_fine") { samplers(ctx, 4096); }
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
