// Force-included into every translation unit of flavor 'rng': the engine behind lm::Rng asks a hook for its
// numbers. Without a hook it produces exactly what std::mt19937 produces.
#pragma once
#include <random>
inline double (*vp_rng_hook)() = nullptr;      // next random number in [0,1)
inline thread_local const void* vp_rng_engine = nullptr;    // the engine that asks
namespace std {
struct vp_engine {
    using result_type = unsigned long long;
    mt19937 e;
    vp_engine() = default;
    explicit vp_engine(unsigned int s) : e(s) {}
    void seed(unsigned int s) { e.seed(s); }
    void seed() { e.seed(); }
    template <class S> void seed(S& s) { e.seed(s); }
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~0ull; }
    result_type operator()() {
        if (vp_rng_hook) { vp_rng_engine = this; const double u = vp_rng_hook() * 18446744073709551616.0; return u >= 18446744073709549568.0 ? 18446744073709549568ull : (result_type)u; }
        const result_type a = e(), b = e(); return a | (b << 32);
    }
};
}
#define mt19937 vp_engine
