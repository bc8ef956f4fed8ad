#pragma once
// Small scenes and an independent brute-force ray/triangle oracle.
#include "harness/common.h"
namespace H {
using namespace lm;
struct T3 { Vec3 a, b, c; };
inline Json mesh_prop(const std::vector<T3>& ts) {
    Json ps = Json::array(), ns = Json::array(), uv = Json::array(), fp = Json::array(), ft = Json::array(), fn = Json::array();
    int i = 0;
    for (auto& t : ts) {
        Vec3 n = glm::cross(t.b - t.a, t.c - t.a); double l = glm::length(n); n = l > 0 ? n / l : Vec3(0, 0, 1);
        const Vec3* v[3] = {&t.a, &t.b, &t.c};
        const double U[3][2] = {{0, 0}, {1, 0}, {0, 1}};
        for (int k = 0; k < 3; k++) {
            for (int j = 0; j < 3; j++) { ps.push_back((*v[k])[j]); ns.push_back(n[j]); }
            uv.push_back(U[k][0]); uv.push_back(U[k][1]);
            fp.push_back(i); ft.push_back(i); fn.push_back(i); i++;
        }
    }
    return {{"ps", ps}, {"ns", ns}, {"ts", uv}, {"fs", {{"p", fp}, {"t", ft}, {"n", fn}}}};
}
// Oracle: distance along the ray and barycentrics, or a miss; `edge` is set when the decision is within
// rounding of the boundary (parallel to the plane, on an edge), in which case no claim is made.
struct RefHit { bool hit = false, edge = false; double t = 0, u = 0, v = 0; };
inline RefHit ref_tri(const T3& tr, Vec3 o, Vec3 d) {
    RefHit r;
    Vec3 n = glm::cross(tr.b - tr.a, tr.c - tr.a);
    double nl = glm::length(n), dn = glm::dot(n, d);
    if (nl < 1e-12) { return r; }                       // degenerate triangle: never hit
    if (std::abs(dn) < 1e-9 * nl) { // ray parallel to plane
        return r;
    }
    double t = glm::dot(n, tr.a - o) / dn;
    Vec3 p = o + d * t;
    // barycentrics by signed areas
    double w = glm::dot(n, glm::cross(tr.b - tr.a, p - tr.a)) / (nl * nl);   // weight of c
    double v = glm::dot(n, glm::cross(tr.a - tr.c, p - tr.c)) / (nl * nl);   // weight of b
    double u = 1 - v - w;
    double m = std::min(u, std::min(v, w));
    r.t = t; r.u = v; r.v = w;
    if (std::abs(m) < 1e-7) r.edge = true;
    r.hit = m >= 0;
    return r;
}
}
