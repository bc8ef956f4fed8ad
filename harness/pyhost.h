// Embedded Python interpreter with the real binding (src/pylm.cpp), for C25 and C26.
#pragma once
#include "vp/vp.h"
#include <lm/lm.h>
#include <lm/pylm.h>
#include <pybind11/embed.h>
extern "C" PyObject* PyInit_pylm();
namespace pyh {
namespace py = pybind11;
struct Host {
    py::object g;
    Host() {
        PyImport_AppendInittab("pylm", &PyInit_pylm);
        py::initialize_interpreter(false);
        g = py::module_::import("__main__").attr("__dict__");
        run("import sys, gc, math, weakref\nimport numpy as np\nimport pylm as lm\n"
            "FT = np.float32 if lm.FloatT == lm.FloatType.Float32 else np.float64\n"
            "def arr(*v): return np.array(v, dtype=FT)\n"
            "def same(a, b):\n"
            "    if type(a) is not type(b): return False\n"
            "    if type(a) is float: return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))\n"
            "    if type(a) is list: return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))\n"
            "    if type(a) is dict: return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)\n"
            "    return a == b\n");
    }
    void run(const std::string& code) { py::exec(code, g); }
    py::object eval(const std::string& e) { return py::eval(e, g); }
    py::object operator[](const char* n) { return g[n]; }
    template <typename T> T get(const char* n) { return g[n].cast<T>(); }
};
// the interpreter lives until the (forked) scenario process ends
inline Host& host() { static Host* h = new Host(); return *h; }
inline std::string repr(py::handle o) { try { return py::repr(o).cast<std::string>(); } catch (const std::exception& e) { return std::string("<unprintable>"); } }
inline std::string num(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
}
