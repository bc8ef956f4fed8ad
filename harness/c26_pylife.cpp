// C26: components implemented in Python live exactly as long as they are in use.
// All histories of registering, loading, replacing, failing, referring, holding, dropping, saving and restoring, resetting;
// after every step the set of living Python instances (weak references) is compared with a model and everything in use is called.
#include "harness/pyhost.h"
#include <set>
using namespace lm;
using pyh::host; namespace py = pybind11;
namespace {
const char* PRE = R"(
live = {}          # id -> weak reference
count = 0
def born(self):
    global count
    self.id = count; live[count] = weakref.ref(self); count += 1
def make(base, tag):
    class K(base):
        def __init__(self):
            base.__init__(self)
            self.tag = tag; self.v = None; born(self)
        def construct(self, prop):
            self.v = prop['v']
            if prop.get('fail'): raise ValueError('failing construct')
        def size(self): return lm.TextureSize()
        def eval(self, t): return arr(self.tag, self.v, 100 * t[0] + t[1])
        def save(self): return str(self.v)
        def load(self, s): self.v = int(s)
    return K
K1 = make(lm.Texture, 1)
K2 = make(lm.Texture, 2)
held = {}
def got(x):
    if x is None: raise LookupError('nothing loaded')
    return x
geom = lm.PointGeometry.make_on_surface(arr(0,0,0), arr(0,0,1), arr(0,0,1), arr(.25,.5))
def alive():
    gc.collect()
    return sorted(k for k, r in live.items() if r() is not None)
)";
struct Inst { int id = -1, tag = 0, v = 0; bool py() const { return id >= 0; } };     // tag 3: C++ texture of that value
struct World {
    vp::Ctx& ctx; std::string scratch, tr; int next = 0;      // id of the next Python instance
    int reg = 0;                                             // class currently registered as texture::py (0: none)
    std::map<std::string, Inst> as;                          // textures among the assets
    bool mat = false;                                        // material m referring to a
    std::map<std::string, Inst> held;                        // kept in Python
    bool saved = false; std::map<std::string, Inst> sa; bool sm = false;
    void py(const std::string& c) { host().run(c); }
    bool fails(const std::string& c) { host().run("err = ''\ntry:\n    " + c + "\nexcept Exception as e: err = type(e).__name__ + ': ' + str(e)\nelse: pass\n"); return !host().get<std::string>("err").empty(); }
    void must(const std::string& c, bool ok, const std::string& what) {
        bool f = fails(c); ctx.checkf(f != ok, what, [&] { return c + (f ? " raises " + host().get<std::string>("err") : std::string(" succeeds although it cannot")); });
    }
    void load(const std::string& n, int v, bool fail = false) {
        char b[128]; snprintf(b, sizeof b, "got(lm.load_texture('%s', 'py', v=%d, fail=%s))", n.c_str(), v, fail ? "True" : "False");
        must(b, reg && !fail, "load");
        if (reg) { Inst i{next++, reg, v}; if (!fail) as[n] = i; }
    }
    static const int N = 16;
    void op(int k) {
        switch (k) {
        case 0: tr += " load-a"; load("a", 10 + next); break;
        case 1: tr += " load-b"; load("b", 30 + next); break;
        case 2: tr += " fail-a"; load("a", 50, true); break;
        case 3: tr += " native-a"; must("lm.load_texture('a', 'constant', color=arr(3, 7, 0))", true, "load"); as["a"] = Inst{-1, 3, 7}; break;
        case 4: tr += " refer"; if (as.count("a")) { must("lm.load_material('m', 'diffuse', mapKd='$.assets.a')", true, "refer"); mat = true; } break;
        case 5: tr += " hold-a"; if (as.count("a") && as["a"].py()) { py("held['a'] = lm.get('$.assets.a')"); held["a"] = as["a"]; } break;
        case 6: tr += " hold-b"; if (as.count("b")) { py("held['b'] = lm.get_texture('$.assets.b')"); held["b"] = as["b"]; } break;
        case 7: tr += " drop-a"; py("held.pop('a', None)"); held.erase("a"); break;
        case 8: tr += " register-1"; py("lm.Texture.unreg('texture::py', '')\nlm.Texture.reg(K1, 'texture::py')"); reg = 1; break;
        case 9: tr += " register-2"; py("lm.Texture.unreg('texture::py', '')\nlm.Texture.reg(K2, 'texture::py')"); reg = 2; break;
        case 10: tr += " unregister"; py("lm.Texture.unreg('texture::py', '')"); reg = 0; break;
        case 11: tr += " reset"; py("lm.reset()"); as.clear(); mat = false; break;
        case 12: tr += " save"; must("lm.save_state_to_file('" + scratch + "/s')", true, "save"); saved = true; sa = as; sm = mat; break;
        case 13: tr += " restore"; {
            // the state can be restored if the implementations it needs are registered
            if (!saved) break; bool need = false; for (auto& [n, i] : sa) need |= i.py();
            must("lm.load_state_from_file('" + scratch + "/s')", !need || reg, "restore");
            if (need && !reg) break;
            as = sa; mat = sm;
            std::vector<std::string> order; for (auto& [n, i] : as) if (i.py()) order.push_back(n);
            // which of the new instances is which is found out by asking them
            for (auto& n : order) { as[n].tag = reg; as[n].id = host().eval("lm.get('$.assets." + n + "').id").cast<int>();
                ctx.checkf(as[n].id >= next && as[n].id < next + (int)order.size(), "restored-instance", [&] { return "asset " + n + " was not created anew"; }); }
            if (order.size() == 2) ctx.check(as["a"].id != as["b"].id, "restored-instance", "two restored assets are one instance");
            next += (int)order.size(); break; }
        case 14: tr += " hold-other"; must("held['x'] = got(lm.load_texture('b', 'py', v=77))", reg, "load"); if (reg) { as["b"] = held["x"] = Inst{next++, reg, 77}; } break;
        case 15: tr += " init"; py("lm.init()\nlm.log.init('default')\nlm.log.set_severity(1000)\nlm.parallel.init('openmp', num_threads=1)"); as.clear(); mat = false; break;
        }
    }
    void observe() {
        ctx.trace(tr);
        std::set<int> want; for (auto& [n, i] : as) if (i.py()) want.insert(i.id); for (auto& [n, i] : held) want.insert(i.id);
        auto l = host().eval("alive()").cast<std::vector<int>>(); std::set<int> got(l.begin(), l.end());
        for (int i : want) ctx.checkf(got.count(i), "released-early", [&] { return "instance " + std::to_string(i) + " is in use but was released, after" + tr; });
        for (int i : got) ctx.checkf(want.count(i), "not-released", [&] { return "instance " + std::to_string(i) + " is not in use any more but still alive, after" + tr; });
        ctx.checkf(host().get<int>("count") == next, "instances", [&] { return std::to_string(host().get<int>("count")) + " instances were created instead of " + std::to_string(next) + ", after" + tr; });
        auto value = [](const Inst& i) { return i.tag == 3 ? Vec3(3, 7, 0) : Vec3(i.tag, i.v, 25.5); };
        for (auto& [n, i] : as) {
            auto* t = comp::get<Texture>("$.assets." + n);
            ctx.check(t != nullptr, "missing", "asset " + n + " is missing, after" + tr); if (!t) continue;
            Vec3 v = t->eval(Vec2(.25, .5)); ctx.checkf(v == value(i), "answer", [&, n = n] { return "asset " + n + " answers (" + pyh::num(v.x) + "," + pyh::num(v.y) + "," + pyh::num(v.z) + ") instead of the value of its instance, after" + tr; });
            if (i.py()) { auto o = host().eval("lm.get('$.assets." + n + "')"); ctx.checkf(py::hasattr(o, "id") && o.attr("id").cast<int>() == i.id, "identity", [&, n = n] { return "getting asset " + n + " does not return the Python object, after" + tr; });
                ctx.check(t->loc() == "$.assets." + n && t->key() == "texture::py", "locator", "locator and key of a Python component"); }
        }
        for (auto& [n, i] : held) {
            ctx.extra_transitions++;
            auto e = host().eval("[float(x) for x in held['" + n + "'].eval(arr(.25,.5))]").cast<std::vector<double>>();
            Vec3 w = value(i); ctx.checkf(e == std::vector<double>({w.x, w.y, w.z}), "held", [&, n = n] { return "the object held in Python changed, after" + tr; });
            host().eval("held['" + n + "'].loc()");
        }
        if (mat) { auto* m = comp::get<Material>("$.assets.m"); ctx.check(m, "missing", "material is missing, after" + tr);
            if (m && as.count("a")) { Vec3 v = m->reflectance(PointGeometry::make_on_surface(Vec3(0), Vec3(0, 0, 1), Vec3(0, 0, 1), Vec2(.25, .5))); ctx.checkf(v == value(as["a"]), "referred", [&] { return "the material does not use the current instance of a, after" + tr; }); } }
        std::string st = std::to_string(reg) + std::to_string(mat) + std::to_string(saved); for (auto& [n, i] : as) st += n + std::to_string(i.tag) + (held.count(n) && held[n].id == i.id ? "h" : ""); for (auto& [n, i] : held) st += n;
        ctx.state(st);
    }
};
void histories(vp::Ctx& ctx, int depth, int part, int parts) {
    ctx.bound("all histories of " + std::to_string(depth) + " operations out of 16 (load, replace by Python and C++ implementations, failing construction, refer, hold, drop, register, re-register, unregister, save, restore, reset, re-initialise) starting with a registered class, with and without an asset held in Python");
    auto& P = host(); P.run("lm.init()\nlm.log.init('default')\nlm.log.set_severity(1000)\nlm.parallel.init('openmp', num_threads=1)"); P.run(PRE);
    ctx.explore([&](vp::Chooser& ch) {
        P.run("lm.init()\nlm.log.init('default')\nlm.log.set_severity(1000)\nlm.parallel.init('openmp', num_threads=1)\nheld.clear(); gc.collect(); live.clear(); count = 0; lm.Texture.unreg('texture::py', '')\n");
        World w{ctx, ctx.scratch}; w.op(8);
        int pre = ch.choose(3); if (pre) { w.op(0); w.op(4); } if (pre == 2) w.op(5);
        w.observe();
        for (int i = 0; i < depth; i++) {
            int k = i == 0 && parts > 1 ? part + parts * ch.choose(World::N / parts) : ch.choose(World::N);
            w.op(k); ctx.extra_transitions++; w.observe();
        }
    });
}
}
SCENARIO("histories2") { histories(ctx, 2, 0, 1); }

// Every interface: what an implementation saves is what the restored one is given, whatever the bytes are.
SCENARIO("saved_by_every_interface") {
    ctx.bound("every asset interface implemented in Python x 9 saved values (empty, text, all byte values, zeros, a pickle, large, not given) x {state file, single asset under another name}, next to other assets");
    auto& P = host(); P.run("lm.init()\nlm.log.init('default')\nlm.log.set_severity(1000)\nlm.parallel.init('openmp', num_threads=1)\nimport pickle");
    static const char* I[] = {"Texture", "Mesh", "Material", "Camera", "Light", "Medium", "Phase", "Volume", "Model", "Accel", "Renderer", "Component"};
    static const char* V[] = {"''", "'text'", "b''", "bytes(range(256))", "b'\\0\\0\\0'", "pickle.dumps({'a': [1, 2.5]})", "b'x' * 70000", "'\\u00e9\\u2603'", "None"};
    ctx.explore([&](vp::Chooser& ch) {
        const std::string i = I[ch.choose(12)]; const int v = ch.choose(9); const bool single = ch.flip();
        ctx.trace(i + " saving " + V[v] + (single ? ", asset" : ", state"));
        const auto f = ctx.scratch + "/x";
        P.run("got = []\nvalue = " + std::string(V[v]) + "\nclass B(lm." + i + "):\n    def __init__(self): lm." + i + ".__init__(self)\n    def construct(self, prop): got.append(('construct', prop))\n" +
              (v == 8 ? "" : "    def save(self): return value\n    def load(self, s): got.append(('load', s))\n") +
              "lm.reset()\nlm." + i + ".unreg('vt::py', '')\nlm." + i + ".reg(B, 'vt::py')\n"
              "lm.load('p0', 'texture::constant', {'color': [1, 2, 3]})\nlm.load('p1', 'vt::py', {'q': 1})\nlm.load('p2', 'texture::constant', {'color': [4, 5, 6]})\n");
        if (single) P.run("lm.get('$.assets.p1').save_to_file('" + f + "')\nlm.load_serialized('p3', '" + f + "')\n");
        else P.run("lm.save_state_to_file('" + f + "')\nlm.reset()\nlm.load_state_from_file('" + f + "')\n");
        P.run("want = [('construct', {'q': 1})]" + std::string(v == 8 ? "" : " + [('load', value if type(value) is bytes else value.encode())]") + "\nok = got == want and type(lm.get('$.assets." + (single ? "p3" : "p1") + "')) is B");
        ctx.checkf(P.get<bool>("ok"), "saved", [&] { return "an implementation of " + i + " in Python that saves " + V[v] + " is restored by the calls " + pyh::repr(P["got"]).substr(0, 200); });
        for (auto n : {"p0", "p2"}) { auto* t = comp::get<Texture>(std::string("$.assets.") + n); ctx.check(t && t->eval(Vec2(0)) == (n[1] == '0' ? Vec3(1, 2, 3) : Vec3(4, 5, 6)), "neighbour", "the asset next to it is not restored"); }
        P.run("lm.reset()\ngot = None\ngc.collect()");
        ctx.state(ctx.note);
    });
}
struct Reg { Reg() {
    for (int i = 0; i < 8; i++) vp::scenarios().push_back({"histories3_" + std::to_string(i), [i](vp::Ctx& c) { histories(c, 3, i, 8); }, 0});
    for (int i = 0; i < 16; i++) vp::scenarios().push_back({"histories4_" + std::to_string(i), [i](vp::Ctx& c) { histories(c, 4, i, 16); }, 1});
} } g_reg;
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
