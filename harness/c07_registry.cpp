// C07: the component registry and plugins follow the registration history.
// All histories of registrations and plugin operations up to a depth are executed on the real registry and compared, after every
// operation and through every name and interface, with a reference map.
#include "harness/catalogue.h"
#include "harness/c07_plugin.h"
#include <lm/exception.h>
using namespace lm;
namespace {
int g_live = 0;
std::vector<std::pair<int, const void*>> g_released;     // which release function got which instance
struct IA : public Component { int tag; virtual ~IA() {} };
struct IB : public Component { int tag; virtual ~IB() {} };
struct ImplA final : public IA { ImplA() { g_live++; } ~ImplA() { g_live--; } void construct(const Json&) override {} };
struct ImplB final : public IB { ImplB() { g_live++; } ~ImplB() { g_live--; } void construct(const Json&) override {} };
struct ImplAB final : public IA, public IB { ImplAB() { g_live++; } ~ImplAB() { g_live--; } void construct(const Json&) override {} };
// registration variants: implementation and the pair of functions it is registered with
template <typename T> Component* mk(int tag) { auto* p = new T; p->tag = tag; return p; }
Component* create_fn(int v) { return v == 0 ? mk<ImplA>(0) : v == 1 ? mk<ImplA>(1) : mk<ImplB>(2); }
int tag_of(Component* c) { if (auto* a = dynamic_cast<IA*>(c)) return a->tag; if (auto* b = dynamic_cast<IB*>(c)) return b->tag; return -1; }
const std::vector<std::string> KEYS = {"vtr::a", "vtr::b"}, ALIAS = {"", "vtr_x", "vtr_y"}, NAMES = {"vtr::a", "vtr::b", "vtr_x", "vtr_y", "vtr::unknown", "", "vtr", "vtr::"};
struct Model {
    std::map<std::string, int> f; std::map<std::string, std::string> al; std::set<std::string> unspecified;
    int find(const std::string& n, std::string& key) const { auto a = al.find(n); key = a == al.end() ? n : a->second; auto it = f.find(key); return it == f.end() ? -1 : it->second; }
};
void reg(const std::string& k, const std::string& al, int v) {
    comp::detail::reg(k, al, [v]() -> Component* { return create_fn(v); }, [v](Component* p) { g_released.push_back({v, p}); delete p; });
}
template <typename I> void probe(vp::Ctx& ctx, const Model& m, const std::string& name, bool has_a, bool want) {
    std::string key; const int v = m.find(name, key);
    const int live0 = g_live; g_released.clear();
    auto p = comp::create_without_construct<I>(name, "$.loc");
    if (v < 0) { ctx.check(!p && g_live == live0, "unknown", "creating '" + name + "', which designates no registered component, returned an instance"); return; }
    const bool ok = std::is_same_v<I, Component> || (std::is_same_v<I, IA> ? v <= 1 : v == 2);
    if (!ok) { ctx.check(!p, "wrong-interface", "creation with an interface the implementation does not have succeeded"); }
    else {
        ctx.check(!!p, "not-created", "registered component '" + name + "' was not created");
        ctx.check(tag_of(p.get()) == v, "stale", "'" + name + "' created an instance of registration variant " + std::to_string(tag_of(p.get())) + " instead of the latest " + std::to_string(v));
        ctx.check(p->key() == key, "key", "instance created as '" + name + "' carries key '" + p->key() + "'");
        ctx.check(p->loc() == "$.loc", "loc", "locator of the instance");
        p.reset();
        ctx.check(g_released.size() == 1 && g_released[0].first == v, "release", "instance was not released exactly once by the function it was registered with");
    }
    ctx.check(g_live == live0, "leak", "instance of '" + name + "' leaked (live " + std::to_string(live0) + " -> " + std::to_string(g_live) + ")");
}
void registry(vp::Ctx& ctx, int depth) {
    ctx.bound("registry: all histories of <= " + std::to_string(depth) + " register/unregister operations over 2 keys, 2 aliases and none, 3 implementations of 2 interfaces; all names and interfaces probed after every operation");
    ctx.explore([&](vp::Chooser& c) {
        for (auto& k : KEYS) for (auto& a : ALIAS) comp::detail::unreg(k, a);
        g_live = 0; Model m; std::string tr; std::vector<std::pair<int, Component::Ptr<Component>>> held;
        for (int d = 0; d < depth; d++) {
            const int op = c.choose(2 * 3 * 4);
            const int k = op / 12, a = (op / 4) % 3, v = op % 4;
            if (v < 3) { tr += " reg(" + KEYS[k] + "," + ALIAS[a] + "," + std::to_string(v) + ")"; }
            else tr += " unreg(" + KEYS[k] + "," + ALIAS[a] + ")";
            ctx.trace(tr);
            if (v < 3) {
                reg(KEYS[k], ALIAS[a], v); m.f[KEYS[k]] = v; if (a) { m.al[ALIAS[a]] = KEYS[k]; m.unspecified.erase(ALIAS[a]); }
            } else {
                comp::detail::unreg(KEYS[k], ALIAS[a]); m.f.erase(KEYS[k]);
                // unregistering with the alias of somebody else's key: only the key's own state is specified
                if (a) { auto it = m.al.find(ALIAS[a]); if (it != m.al.end() && it->second != KEYS[k]) m.unspecified.insert(ALIAS[a]); m.al.erase(ALIAS[a]); }
            }
            std::set<std::string> seen;
            comp::foreach_registered([&](const std::string& n) { if (n.rfind("vtr::", 0) == 0) ctx.check(seen.insert(n).second, "enum-dup", "registered name enumerated twice"); });
            std::set<std::string> want; for (auto& kv : m.f) want.insert(kv.first);
            ctx.check(seen == want, "enumerate", "enumeration of registered components differs from the registered keys");
            std::string st; for (auto& kv : m.f) st += kv.first + std::to_string(kv.second); for (auto& kv : m.al) st += kv.first + ">" + kv.second; ctx.state(st);
            for (auto& n : NAMES) {
                if (m.unspecified.count(n)) continue;
                probe<Component>(ctx, m, n, true, true); probe<IA>(ctx, m, n, true, true); probe<IB>(ctx, m, n, true, true);
            }
            // instances survive later registrations and keep their release function
            for (auto& n : KEYS) { std::string kk; int vv = m.find(n, kk); if (vv >= 0) { auto p = comp::create<Component>(n, "$"); if (p) held.emplace_back(vv, std::move(p)); } }
        }
        while (!held.empty()) {
            auto& [v, p] = held.back(); g_released.clear(); p.reset();
            ctx.check(g_released.size() == 1 && g_released[0].first == v, "release-held", "an instance created before later (un)registrations was released by another function");
            held.pop_back();
        }
        ctx.check(g_live == 0, "leak-end", "instances left alive: " + std::to_string(g_live));
        for (auto& k : KEYS) for (auto& a : ALIAS) comp::detail::unreg(k, a);
    });
    for (auto& k : KEYS) for (auto& a : ALIAS) comp::detail::unreg(k, a);
}
SCENARIO("registry3") { registry(ctx, 3); }
SCENARIO_T("registry4") { registry(ctx, 4); }

// ---- components with several interfaces, templates, RegEntry lifetime ------------------------------------------------------
template <typename T> struct TI : public Component { virtual int sz() const = 0; };
template <typename T> struct TImpl final : public TI<T> { void construct(const Json&) override {} int sz() const override { return sizeof(T); } };
LM_COMP_REG_IMPL(TImpl<char>, "vtt::t");
LM_COMP_REG_IMPL(TImpl<double>, "vtt::t");
struct Scoped1 final : public IA { void construct(const Json& p) override { tag = p["n"]; } };
SCENARIO("regentry") {
    ctx.bound("template instances by type; scoped registration objects in all nesting orders of 3");
    ctx.explore([&](vp::Chooser& c) {
        if (c.flip()) {
            ctx.trace("templates");
            auto a = comp::create<TI<char>>("vtt::t", "$"); auto b = comp::create<TI<double>>("vtt::t", "$");
            ctx.check(a && a->sz() == 1, "template", "char instance"); ctx.check(b && b->sz() == 8, "template", "double instance");
            ctx.check(!comp::create<TI<short>>("vtt::t", "$"), "template", "unregistered instantiation created");
            return;
        }
        // scoped registrations: key is creatable exactly while the entry lives
        std::unique_ptr<comp::detail::RegEntry<Scoped1>> e[2]; std::string tr = "scoped"; std::map<std::string, bool> on;
        const char* K[2] = {"vts::a", "vts::b"};
        for (int d = 0; d < 4; d++) {
            int o = c.choose(2); tr += " " + std::to_string(o); ctx.trace(tr);
            if (e[o]) { e[o].reset(); on[K[o]] = false; } else { e[o].reset(new comp::detail::RegEntry<Scoped1>(K[o], std::string("al") + K[o])); on[K[o]] = true; }
            for (int i = 0; i < 2; i++) for (auto n : {std::string(K[i]), std::string("al") + K[i]}) {
                auto p = comp::create<IA>(n, "$.z", {{"n", 7 + i}});
                ctx.check(bool(p) == on[K[i]], "scoped", n + std::string(p ? " creatable after its registration ended" : " not creatable while registered"));
                if (p) { ctx.check(p->tag == 7 + i, "construct", "construct did not receive the properties"); ctx.check(p->key() == K[i], "key", "key"); }
            }
        }
    });
}
// ---- plugins ---------------------------------------------------------------------------------------------------------------
std::string self_dir() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n < 0 ? 0 : n] = 0; std::string s(b); return s.substr(0, s.rfind('/')); }
void copy(const std::string& a, const std::string& b) { std::ifstream i(a, std::ios::binary); std::ofstream o(b, std::ios::binary); o << i.rdbuf(); }
void plugins(vp::Ctx& ctx, int depth) {
    ctx.bound("plugins: all histories of <= " + std::to_string(depth) + " load/unload/scoped/directory operations over 2 plugins, a missing and a broken one");
    const std::string dir = ctx.scratch + "/plug", empty = ctx.scratch + "/none";
    mkdir(dir.c_str(), 0755); mkdir(empty.c_str(), 0755); mkdir((dir + "/sub.so").c_str(), 0755);
    copy(self_dir() + "/vtplug_a.so", dir + "/vtplug_a.so"); copy(self_dir() + "/vtplug_b.so", dir + "/vtplug_b.so");
    { std::ofstream(dir + "/junk.so") << "not a library"; std::ofstream(dir + "/readme.txt") << "text"; }
    const std::string P[4] = {dir + "/vtplug_a", dir + "/vtplug_b", dir + "/missing", dir + "/junk"};
    ctx.explore([&](vp::Chooser& c) {
        comp::unload_all_plugins(); bool on[2] = {false, false}; std::string tr;
        auto threw = [&](auto&& f) { try { f(); return 0; } catch (const lm::Exception&) { return 1; } catch (...) { return 2; } };
        auto observe = [&](const std::string& when) {
            for (int i = 0; i < 2; i++) for (auto n : {std::string("vtplug::") + char('a' + i), std::string("vtplugalias_") + char('a' + i)}) {
                auto p = comp::create<VtPlug>(n, "$");
                ctx.check(bool(p) == on[i], on[i] ? "plugin-missing" : "plugin-stays", n + (p ? " is creatable although its plugin is not loaded" : " is not creatable although its plugin is loaded") + when);
                if (p) ctx.check(p->f() == 'a' + i, "plugin-impl", "implementation of another plugin");
            }
            ctx.state(std::string(on[0] ? "A" : "-") + (on[1] ? "B" : "-"));
        };
        for (int d = 0; d < depth; d++) {
            const int op = c.choose(13);
            auto say = [&](const std::string& s) { tr += " " + s; ctx.trace(tr); };
            if (op < 4) { say("load" + std::to_string(op)); int t = threw([&] { comp::load_plugin(P[op]); }); ctx.check(t == (op >= 2), "load-throw", op >= 2 ? "failed plugin load did not throw" : "plugin load threw"); if (op < 2) on[op] = true; }
            else if (op < 7) { int k = op - 4; say("unload" + std::to_string(k)); bool w = k == 2 || !on[k]; int t = threw([&] { comp::unload_plugin(P[k]); }); ctx.check(t == w, "unload-throw", w ? "unloading a plugin that is not loaded did not throw" : "unload threw"); if (k < 2) on[k] = false; }
            else if (op == 7) { say("unload_all"); comp::unload_all_plugins(); on[0] = on[1] = false; }
            else if (op == 8) { say("dir"); int t = threw([&] { comp::load_plugin_directory(dir); }); ctx.check(t == 0, "dir-throw", "loading a plugin directory threw"); on[0] = on[1] = true; }
            else if (op == 9) { say("dir-empty"); int t = threw([&] { comp::load_plugin_directory(empty); }); ctx.check(t == 0, "dir-throw", "loading an empty plugin directory threw"); }
            else if (op == 10) { say("dir-missing"); int t = threw([&] { comp::load_plugin_directory(dir + "/nowhere"); }); ctx.check(t == 0, "dir-throw", "loading a missing plugin directory threw"); }
            else { // scoped guard around an observation; the guard owns the plugin, so it must not be loaded before
                int k = op - 11; if (on[k]) { say("noop"); continue; }
                say("scoped" + std::to_string(k));
                { comp::detail::ScopedLoadPlugin g({P[k]}); on[k] = true; observe(" (inside a scoped load)"); }
                on[k] = false;
            }
            observe("");
        }
        comp::unload_all_plugins();
    });
}
SCENARIO("plugins3") { plugins(ctx, 3); }
SCENARIO_T("plugins4") { plugins(ctx, 4); }
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
