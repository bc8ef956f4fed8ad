#pragma once
// Enumeration of random number sequences: point i of a fixed lattice (Kronecker sequence of the square roots of
// primes, shifted to the middle of the cells, or by a fixed vector per lattice when several are used) in the first 48 dimensions, an integer hash of (i, dimension) in
// the others. Every run visits the same N sequences.
#include <cmath>
#include <vector>
#include <cstdint>
#ifndef mt19937
#error "needs flavor rng"
#endif
namespace H {
struct Lattice {
    static std::vector<double>& alpha() { static std::vector<double> a = [] { std::vector<double> r; for (int p = 2; r.size() < 48; p++) { bool pr = true; for (int q = 2; q * q <= p; q++) if (p % q == 0) pr = false; if (pr) { const double s = std::sqrt((double)p); r.push_back(s - std::floor(s)); } } return r; }(); return a; }
    inline static thread_local uint64_t i = 0; inline static thread_local int d = 0; inline static thread_local uint64_t drawn = 0; inline static thread_local int maxd = 0;
    static double hash(uint64_t i, uint64_t d) { uint64_t x = i * 0x9E3779B97F4A7C15ull + d * 0xBF58476D1CE4E5B9ull; x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31; return (double)(x >> 11) / 9007199254740992.; }
    inline static thread_local uint64_t shift = 0;       // which lattice
    static double u(uint64_t i, int d) {
        if (d < 48) { const double x = (shift ? hash(shift, d + 1) : .5) + alpha()[d] * (double)i; return x - std::floor(x); }
        return hash(i + shift * 0x10001ull, d);
    }
    static double next() { drawn++; maxd = std::max(maxd, d + 1); return u(i, d++); }
    static void set(uint64_t k) { i = k; d = 0; }
    static void at(uint64_t k) { set(k); vp_rng_hook = &next; }
    static void off() { vp_rng_hook = nullptr; }
};
}
