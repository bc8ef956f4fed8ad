#pragma once
#include <pch.h>
#include <lm/lm.h>
#include <lm/path.h>
#include "vp/vp.h"
namespace H {
// lm::init() with everything that writes to the terminal or spawns worker threads turned down.
inline void init(int num_threads = 1) {
    lm::init();
    lm::log::init("default");
    lm::log::set_severity(1000);
    lm::parallel::init("openmp", {{"num_threads", num_threads}});
}
inline std::string v3(const lm::Vec3& v) { char b[96]; snprintf(b, sizeof b, "(%.9g,%.9g,%.9g)", v.x, v.y, v.z); return b; }
}
