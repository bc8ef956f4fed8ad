// C27: the Python package and its notebook backends. The packages of /repo (lightmetrica, lightmetrica_jupyter) run unchanged in the embedded
// interpreter; what they need from a notebook (IPython, tqdm, matplotlib, sleep) is replaced by stand-ins that record every call.
#include "harness/pyhost.h"
#include <cmath>
using namespace lm;
using pyh::host; namespace py = pybind11;

namespace {
const char* STUBS = R"PY(
import types, io, os
def mod(name, **kw):
    m = types.ModuleType(name)
    for k, v in kw.items(): setattr(m, k, v)
    sys.modules[name] = m
    return m
class Bar:
    made = []
    def __init__(self, *a, total=None, **kw):
        self.total = total if total is not None or not a else a[0]; self.n = 0; self.closed = 0; self.late = 0; self.seen = [0]
        Bar.made.append(self)
    def update(self, d=1):
        if self.closed: self.late += 1
        self.n += d; self.seen.append(self.n)
    def refresh(self, *a, **k): self.seen.append(self.n)
    def reset(self, total=None): self.n = 0; self.total = total if total is not None else self.total
    def set_postfix(self, *a, **k): pass
    def set_description(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): self.closed += 1
mod('tqdm', tqdm_notebook=Bar, tqdm=Bar); mod('tqdm.notebook', tqdm=Bar); mod('tqdm.auto', tqdm=Bar)
class Axes:
    def __init__(self): self.images = []
    def clear(self): self.images = []
    def imshow(self, img, *a, **k): self.images.append(np.array(img))
    def __getattr__(self, n): return lambda *a, **k: None
class Canvas:
    def __init__(self, f): self.f = f
    def draw(self): self.f.drawn.append([im for a in self.f.axes for im in a.images])
    def __getattr__(self, n): return lambda *a, **k: None
class Figure:
    made = []
    def __init__(self, *a, **k): self.axes = []; self.drawn = []; self.canvas = Canvas(self); self.size = k.get('figsize', a[0] if a else None); self.closed = 0; Figure.made.append(self)
    def add_subplot(self, *a, **k): self.axes.append(Axes()); return self.axes[-1]
    def show(self): pass
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return lambda *a, **k: None
def close(*a):
    if Figure.made: Figure.made[-1].closed += 1
plt = mod('matplotlib.pyplot', figure=Figure, ion=lambda: None, ioff=lambda: None, tight_layout=lambda *a, **k: None, show=lambda *a, **k: None, close=close, pause=lambda *a: None, draw=lambda: None)
mod('matplotlib', pyplot=plt)
class IPy:
    def __init__(self): self.ran = []; self.magics = []; self.user_ns = {}
    def ex(self, c): self.ran.append(c)
    def run_cell(self, c, *a, **k): self.ran.append(c)
    def register_magic_function(self, f, kind='line', magic_name=None): self.magics.append((magic_name or f.__name__, kind)); setattr(self, 'm_' + (magic_name or f.__name__), f)
ip = IPy()
disp = lambda *a, **k: None
mod('IPython', get_ipython=lambda: ip); mod('IPython.display', display=disp, Markdown=str, HTML=str); mod('IPython.core'); mod('IPython.core.display', display=disp, HTML=str)
import time
real_time, clock = time.time, [1000.0]
time.sleep = lambda s: None
time.time = lambda: clock[0]
sys.path.insert(0, REPO)
import lightmetrica as LM
import lightmetrica_jupyter as LJ
LJ.load_ipython_extension(ip)
class Caught:
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr; sys.stdout, sys.stderr = io.StringIO(), io.StringIO(); return self
    def __exit__(self, *a):
        self.out, self.err = sys.stdout.getvalue(), sys.stderr.getvalue(); sys.stdout, sys.stderr = self.o, self.e
)PY";
void load() {
    const char* r = getenv("VP_REPO"); auto& h = host(); h.g["REPO"] = py::str(r ? r : "/repo");
    h.run(STUBS); h.run("LM.init()\nLM.log.set_severity(1000)");
}
std::string why() { return host().get<std::string>("bad"); }
}
#define OK(key, what) ctx.checkf(why().empty(), key, [&] { return std::string(what) + ": " + why(); })

// every interface x way of extending it x registration history
SCENARIO("decorator") {
    load();
    static const char* I[] = {"LM.Renderer", "LM.Material", "LM.Mesh", "LM.Light", "LM.Camera", "LM.Texture", "LM.Film", "LM.Accel", "LM.Scene", "LM.Medium", "LM.Phase", "LM.Volume", "LM.Model", "LM.Component", "LM.log.LoggerContext", "LM.progress.ProgressContext"};
    ctx.explore([&](vp::Chooser& ch) {
        std::string base = I[ch.choose(16)]; int how = ch.choose(4), again = ch.choose(2);
        ctx.trace(base + (how == 0 ? " extended" : how == 1 ? " extended twice" : how == 2 ? " extended with a second base" : " extended without methods") + (again ? ", registered again" : ""));
        auto& P = host(); P.run("bad = ''\nBase = " + base + "\n");
        P.run("before = LM.registered_components()");
        P.run("if 'x::dec' in before: bad = 'left from before'");
        P.run(how == 1 ? "class Mid(Base):\n    def tag(self): return 1\n@LM.pylm_component('x::dec')\nclass A(Mid):\n    def construct(self, prop): self.p = prop\n    def tag(self): return 2\n"
            : how == 2 ? "class Mix:\n    def other(self): return 7\n@LM.pylm_component('x::dec')\nclass A(Base, Mix):\n    def construct(self, prop): self.p = prop\n    def tag(self): return 2\n"
            : how == 3 ? "@LM.pylm_component('x::dec')\nclass A(Base): pass\n" : "@LM.pylm_component('x::dec')\nclass A(Base):\n    def construct(self, prop): self.p = prop\n    def tag(self): return 2\n");
        P.run("if not isinstance(A, type) or A.__name__ != 'A' or not issubclass(A, Base): bad = 'the decorated name is %r' % (A,)"); OK("decorated-class", "pylm_component on a class extending " + base);
        P.run("names = LM.registered_components()\nif sorted(names) != sorted(before + ['x::dec']): bad = 'registered components changed from %s to %s' % (sorted(set(before) - set(names)), sorted(set(names) - set(before)))"); OK("listed", "registering a class extending " + base);
        P.run("o = Base.create_without_construct('x::dec', '')\nif type(o) is not A: bad = 'instance is a %r' % type(o)\nelif o.key() not in ('x::dec', ''): bad = 'its key is ' + o.key()"); OK("decorated-instance", "creating a class extending " + base);
        if (how != 3) { P.run("if o.tag() != 2: bad = 'wrong method'"); OK("decorated-instance", "creating a class extending " + base); }
        if (again) {
            P.run("@LM.pylm_component('x::dec')\nclass B(Base):\n    pass\no2 = Base.create_without_construct('x::dec', '')\nif type(o2) is not B or type(o) is not A: bad = 'instance is a %r' % type(o2)\nif sorted(LM.registered_components()) != sorted(before + ['x::dec']): bad = 'listed differently'\ndel o2, B"); OK("registered-again", "registering again a class extending " + base);
        }
        P.run("Base.unreg('x::dec', '')\nif sorted(LM.registered_components()) != sorted(before): bad = 'still listed'\ndel o, A"); OK("unlisted", "unregistering a class extending " + base); ctx.state(ctx.note);
    });
    ctx.bound("16 interfaces, 4 ways of extending them, one or two registrations");
}
SCENARIO("listing_and_arrays") {
    load(); auto& P = host();
    std::vector<std::string> v; comp::foreach_registered([&](const std::string& n) { v.push_back(n); }); std::sort(v.begin(), v.end());
    P.g["want"] = py::cast(v);
    static const char* vals[] = {"[1, 2, 3]", "(0.1, 0.2, 0.3)", "[[1, 2], [3, 4]]", "[]", "5", "np.arange(6).reshape(2, 3)", "[16777217.0, 1e-40, 1e300]", "np.array([1, 2, 3], dtype=np.float32)"};
    ctx.explore([&](vp::Chooser& ch) {
        int k = ch.choose(10);
        if (k < 1) { ctx.trace("registered components"); P.run("bad = ''\ngot = sorted(LM.registered_components())\nif got != want: bad = 'missing %s, too many %s' % (sorted(set(want) - set(got)), [x for x in got if x not in want or got.count(x) > 1])"); OK("listing", "listing the registered components"); return; }
        if (k == 9) { // an array made by the package is accepted where the framework wants a vector or matrix
            ctx.trace("arrays as arguments");
            P.run("bad = ''\nf = LM.load_film('f', 'bitmap', w=1, h=1)\nf.set_pixel(0, 0, LM.array([0.1, 16777217.0, -3]))\nv = np.array(f.buffer(), copy=False)[0, 0]\nif list(v) != [FT(0.1), FT(16777217.0), FT(-3)]: bad = 'the pixel is %s' % v\nm = LM.translate(LM.array([1, 2, 3]))\nif list(m[:3, 3]) != [1, 2, 3]: bad = 'the translation is %s' % m");
            OK("array-accepted", "giving an array made by the package to the framework"); return;
        }
        std::string e = vals[k - 1]; int how = ch.choose(4);
        std::string call = how == 0 ? "LM.array(" + e + ")" : how == 1 ? "LM.array(" + e + ", dtype=np.float32)" : how == 2 ? "LM.array(" + e + ", dtype=np.int64, copy=True)" : "LM.array(" + e + ", ndmin=2)";
        if (how == 2 && k == 7) return;
        ctx.trace(call);
        P.run("bad = ''\ngot = " + call + "\nwant_ = np.array(" + e + ", dtype=" + (how == 1 ? "np.float32" : how == 2 ? "np.int64" : "FT") + (how == 3 ? ", ndmin=2" : "") + ")\nif type(got) is not np.ndarray or got.dtype != want_.dtype or got.shape != want_.shape or not (got == want_).all(): bad = '%r instead of %r' % (got, want_)");
        OK("array", call); ctx.state(call);
    });
    ctx.bound("8 contents x 4 ways of calling");
}
// every history of log operations
namespace {
void logs(vp::Ctx& ctx, int depth) {
    load(); auto& P = host();
    static const struct { log::LogLevel l; const char* n; bool err; } L[] = {{log::LogLevel::Debug, "D", false}, {log::LogLevel::Info, "I", false}, {log::LogLevel::Warn, "W", true}, {log::LogLevel::Err, "E", true}, {log::LogLevel::Progress, "I", false}, {log::LogLevel::ProgressEnd, "I", false}};
    static const char* T[] = {"message", "", "two\nlines", "{} %s 100% \xc3\xa9"};
    ctx.explore([&](vp::Chooser& ch) {
        int show = ch.choose(3), ind = 0, sev = 0; std::string tr = show == 2 ? "with file and line" : show ? "without" : "default";
        struct E { std::string head, text; int ind; bool err; }; std::vector<E> want;
        P.run("clock[0] = 1000.0\nc = Caught()\nc.__enter__()");
        log::init("jupyter", show == 0 ? Json{} : Json{{"show_line_and_filename", show == 2}});
        int last = 0;
        for (int i = 0; i < depth; i++) {
            int op = ch.choose(5 - (ind == 0)); P.run("clock[0] += 0.25");
            if (op == 0) {
                int l = i == depth - 1 ? ch.choose(6) : (last++ * 2 + i) % 6, t = i == depth - 1 ? ch.choose(4) : i % 4, s = ch.choose(3) * 10 - 10, py = ch.choose(2);
                tr += std::string("; ") + L[l].n + " severity " + std::to_string(s) + " '" + T[t] + "'";
                if (py) { P.g["a"] = py::cast(L[l].l); P.g["t"] = py::str(T[t]); P.run("LM.log.log(a, " + std::to_string(s) + ", '/a/b.c/file_with_name.cpp', " + std::to_string(i ? 7 : 123456) + ", t)"); }
                else log::log(L[l].l, s, "/a/b.c/file_with_name.cpp", i ? 7 : 123456, T[t]);
                char head[64]; snprintf(head, 64, show == 2 ? "[%s|%.3f|%s] " : "[%s|%.3f] ", L[l].n, 0.25 * (i + 1), i ? "7@file_wit" : "123456@fil");
                if (s >= sev) want.push_back({head, T[t], ind, L[l].err});
            } else if (op == 1) { log::set_severity(sev = 10); tr += "; severity 10"; }
            else if (op == 2) { log::set_severity(sev = -10); tr += "; severity -10"; }
            else if (op == 3) { log::update_indentation(1); ind++; tr += "; indent"; }
            else { log::update_indentation(-1); ind--; tr += "; unindent"; }
        }
        ctx.trace(tr);
        P.run("c.__exit__()\no, e = c.out, c.err"); log::init("default"); log::set_severity(1000);
        std::string o, e; for (auto& w : want) (w.err ? e : o) += w.head + std::string(2 * w.ind, '.') + (w.ind ? " " : "") + w.text + "\n";
        auto go = P.get<std::string>("o"), ge = P.get<std::string>("e");
        ctx.checkf(go == o, "printed", [&] { return "the notebook logger printed '" + go + "' to the output instead of '" + o + "'"; });
        ctx.checkf(ge == e, "printed-errors", [&] { return "the notebook logger printed '" + ge + "' to the error output instead of '" + e + "'"; });
        ctx.state(o + "|" + e);
    });
    ctx.bound(std::to_string(depth) + " log, severity and indentation operations");
}
// every sequence of reports
void reports(vp::Ctx& ctx, int depth) {
    load(); auto& P = host(); progress::init("jupyter");
    ctx.explore([&](vp::Chooser& ch) {
        int runs = 1 + ch.choose(2); std::string tr; P.run("Bar.made.clear()\nbad = ''");
        for (int r = 0; r < runs; r++) {
            bool timed = ch.choose(2); static const long long TOT[] = {4, 1, 0, 1000000000000ll}; long long tot = TOT[ch.choose(r ? 2 : 4)];
            tr += std::string(r ? "; then " : "") + (timed ? "time " : "samples ") + std::to_string(tot) + ":"; ctx.trace(tr);
            progress::start(timed ? progress::ProgressMode::Time : progress::ProgressMode::Samples, timed ? 77 : tot, timed ? Float(tot) : Float(55));
            P.run("if len(Bar.made) != " + std::to_string(r + 1) + ": bad = '%d bars after the start of report " + std::to_string(r + 1) + "' % len(Bar.made)\nb = Bar.made[-1]\nif b.total != " + std::to_string(tot) + ": bad = 'the bar has a total of %r' % b.total"); OK("bar", "a progress report");
            double best = 0; int n = ch.choose(runs > 1 ? depth - 1 : depth + 1);
            for (int i = 0; i < n; i++) {
                static const double F[] = {0, .25, .5, 1, 1.5}; double x = F[ch.choose(5)] * double(tot); if (!timed) x = std::floor(x); tr += " " + pyh::num(x); ctx.trace(tr);
                if (timed) progress::update_time(x); else progress::update((long long)x);
                best = std::max(best, x); P.g["best"] = py::float_(best);
                P.run("if abs(b.n - best) > 1e-9 * best: bad = 'shows %r instead of %r' % (b.n, best)\nif b.closed: bad = 'closed before the end'"); OK("bar", "a progress report");
            }
            progress::end(); tr += " end"; ctx.trace(tr); P.g["fin"] = py::float_(std::max(best, double(tot)));
            P.run("if abs(b.n - fin) > 1e-9 * fin: bad = 'shows %r at the end' % b.n\nif b.closed != 1: bad = 'closed %d times' % b.closed\nif b.late: bad = 'updated after being closed'\nif any(x > y + 1e-9 for x, y in zip(b.seen, b.seen[1:])): bad = 'went back: %r' % b.seen"); OK("bar", "a progress report");
        }
        ctx.state(tr);
    });
    progress::init("default");
    ctx.bound("one report of up to " + std::to_string(depth) + " updates or two of up to " + std::to_string(depth - 2) + " updates each, by samples and by time");
}
}
SCENARIO("logger") { logs(ctx, 3); }
SCENARIO_T("logger4") { logs(ctx, 4); }
SCENARIO("bars") { reports(ctx, 3); }
SCENARIO_T("bars5") { reports(ctx, 5); }
SCENARIO("film_display") {
    load(); auto& P = host();
    ctx.explore([&](vp::Chooser& ch) {
        int w = 1 + ch.choose(3), h = 1 + ch.choose(3), n = ch.choose(3), repl = ch.choose(n ? 3 : 1), timed = ch.choose(2); ctx.trace(std::to_string(w) + "x" + std::to_string(h) + (timed ? ", by time, " : ", ") + std::to_string(n) + " updates" + (repl ? repl == 1 ? ", the film is loaded again in between" : ", the film is loaded again with another size" : ""));
        auto S = [](int i) { return std::to_string(i); };
        P.run("bad = ''\nFigure.made.clear()\nf = LM.load_film('shown', 'bitmap', w=" + S(w) + ", h=" + S(h) + ")\nother = LM.load_film('other', 'bitmap', w=2, h=1)\n"
              "def fill(f, k):\n    s = f.size()\n    for y in range(s.h):\n        for x in range(s.w): f.set_pixel(x, y, np.array([(x + 1 + k) / 8, (y + k) / 4, 2.0 if x == y else 0.0], dtype=FT))\n"
              "def expect(f):\n    s = f.size()\n    b = np.array(f.buffer(), copy=True)\n    return np.array([[[min(max(float(b[s.h - 1 - y, x, c]) ** (1 / 2.2), 0), 1) for c in range(3)] for x in range(s.w)] for y in range(s.h)])\n"
              "def shown(fig, f):\n    if not fig.drawn: return 'nothing is drawn'\n    d = fig.drawn[-1]\n    if len(d) != 1: return '%d images are drawn' % len(d)\n    e = expect(f)\n    return '' if d[0].shape == e.shape and np.allclose(d[0], e, atol=1e-6) else 'draws %s instead of %s' % (d[0].tolist(), e.tolist())\n"
              "fill(f, 0)\n");
        try {
            P.run("LM.progress.init('film_jupyter', film=f, size=(5, 4))");
            if (timed) progress::start(progress::ProgressMode::Time, 0, 10); else progress::start(progress::ProgressMode::Samples, 10, 0);
            P.run("fig = Figure.made[-1]\nif tuple(fig.size) != (5, 4): bad = 'the figure has the size %r' % (fig.size,)"); OK("display", "the film display");
            for (int i = 0; i < n; i++) {
                if (repl && i == n - 1) P.run("f = LM.load_film('shown', 'bitmap', w=" + S(repl == 1 ? w : w + 1) + ", h=" + S(repl == 1 ? h : 4 - h) + ")");
                P.run("fill(f, " + S(i + 1) + ")"); if (timed) progress::update_time(Float(i + 1)); else progress::update(i + 1);
                P.run("bad = shown(fig, f)"); OK("display", "update " + S(i + 1) + " of the film display");
            }
            P.run("fill(f, 3)"); progress::end(); P.run("bad = shown(fig, f)\nif not bad and len(Figure.made) != 1: bad = 'more than one figure'"); OK("display", "the end of the film display");
        } catch (const py::error_already_set& e) { ctx.fail("display-raises", std::string("the film display raises ") + e.what()); }
        catch (const vp::CaseAbort&) { throw; }
        catch (const std::exception& e) { ctx.fail("display-raises", std::string("the film display raises ") + e.what()); }
        progress::init("default"); ctx.state(ctx.note);
    });
    ctx.bound("films up to 3x3, up to 2 updates, replaced or not");
}
SCENARIO("cells") {
    load(); auto& P = host();
    ctx.explore([&](vp::Chooser& ch) {
        static const struct { const char* e; bool v; } C[] = {{"True", true}, {"False", false}, {"1 > 2", false}, {"not False", true}, {"0", false}, {"'x'", true}, {"[]", false}, {"None", false}};
        int k = ch.choose(8), nt = ch.choose(2), cell = ch.choose(2); std::string m = nt ? "skip_if_not" : "skip_if"; bool runs = nt ? C[k].v : !C[k].v;
        ctx.trace(m + " " + C[k].e);
        P.run("bad = ''\nip.ran.clear()\nif ('" + m + "', 'line_cell') not in ip.magics: bad = 'not registered'\nelse: ip.m_" + m + "(\"" + C[k].e + "\", '" + (cell ? "a = 1\\nb = 2" : "x") + "')\nwant_ = " + (runs ? std::string("['") + (cell ? "a = 1\\nb = 2" : "x") + "']" : "[]") + "\nif not bad and ip.ran != want_: bad = 'runs %r instead of %r' % (ip.ran, want_)");
        OK("cell", m + " " + C[k].e); ctx.state(ctx.note + std::to_string(cell));
    });
    ctx.bound("8 conditions x 2 magic functions x 2 cells");
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
