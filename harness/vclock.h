// Virtual time: the library's clock reads are answered by the harness.
#pragma once
#include <chrono>
namespace H { inline long long g_now_ns = 1000000000ll; inline void advance_ms(double ms) { g_now_ns += (long long)(ms * 1e6); } }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(H::g_now_ns)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(H::g_now_ns)); }
} } }
