// C08: saved state restores every component to identical behaviour.
#include "harness/catalogue.h"
#include "lm/model.h"
using namespace lm;
using namespace H;
namespace {
std::string first_diff(const std::string& a, const std::string& b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    return "at " + std::to_string(i) + ": original '..." + a.substr(i > 30 ? i - 30 : 0, 70) + "', restored '..." + b.substr(i > 30 ? i - 30 : 0, 70) + "'";
}
std::map<std::string, std::string> fps(const std::string& at, const std::string& only = "") {
    std::map<std::string, std::string> m;
    for (auto& [l, c] : owned(comp::get<Component>(at))) { auto rel = l.substr(at.size()); if (!only.empty() && rel.rfind("." + only, 0) != 0) continue; m[rel] = fingerprint(c, at); }
    return m;
}
std::string refs(const std::string& at) {  // keys, ownership and references of the whole tree
    std::string s;
    for (auto& [l, c] : owned(comp::get<Component>(at))) {
        s += l.substr(at.size()) + "=" + c->key() + "{";
        c->foreach_underlying([&](Component*& k, bool weak) { s += (weak ? "~" : "+") + (k ? (k->loc().rfind(at, 0) == 0 ? k->loc().substr(at.size()) : "!" + k->loc()) : "null") + ","; });
        s += "}\n";
    }
    return s;
}
void compare(vp::Ctx& ctx, const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b) {
    for (auto& [l, f] : a) {
        auto it = b.find(l);
        if (it == b.end()) { ctx.record("lost:" + l, "component " + l + " is missing in the restored tree"); continue; }
        ctx.checks++;
        if (it->second != f) ctx.record("behaviour:" + l, "component " + l + " behaves differently after restoring, " + first_diff(f, it->second));
    }
    for (auto& [l, f] : b) if (!a.count(l)) ctx.record("extra:" + l, "component " + l + " appeared");
}
void whole(vp::Ctx& ctx, int v, int mode) {
    init(1);
    ctx.bound("one instance of every shipped component, parameter variants 0/1; whole state (mode 0), subtree under another name (1), restored over the other variant (2), twice (3)");
    write_files(ctx.scratch);
    ctx.explore([&](vp::Chooser& ch) {
        ctx.trace("variant " + std::to_string(v) + " mode " + std::to_string(mode));
        lm::reset();
        std::string at = "$.assets", to = at;
        if (mode == 1) { lm::assets()->load_asset("g", "asset_group::default", {}); at = "$.assets.g"; to = "$.assets.other"; }
        build_universe(at, ctx.scratch, v);
        auto a = fps(at); auto ra = refs(at);
        {   // the renderers have cleared the film: give it a content
            auto* fl = comp::get<Film>(at + ".film"); const auto z = fl->size();
            for (int y = 0; y < z.h; y++) for (int x = 0; x < z.w; x++) fl->set_pixel(x, y, Vec3(x + .5, y + .25, x * y + v));
            a[".film"] = fingerprint(fl, at);
        }
        ctx.extra_transitions += a.size();
        const auto file = ctx.scratch + "/s";
        if (mode == 1) {
            { std::ofstream os(file, std::ios::binary); serial::save_comp_owned(os, comp::get<Component>(at), at); }
            lm::assets()->load_serialized("other", file);
            // the original must be untouched and the copy independent of it
            compare(ctx, a, fps(at));
            lm::assets()->load_asset("g", "asset_group::default", {});
        } else {
            lm::save_state_to_file(file);
            lm::reset();
            if (mode == 2) build_universe(at, ctx.scratch, 1 - v);
            lm::load_state_from_file(file);
            if (mode == 3) { lm::save_state_to_file(file + "2"); lm::reset(); lm::load_state_from_file(file + "2"); }
        }
        auto rb = refs(to);
        ctx.checkf(ra == rb, "structure", [&] { return "keys, ownership or references differ: " + first_diff(ra, rb); });
        compare(ctx, a, fps(to));
        ctx.state("v" + std::to_string(v) + std::to_string(mode));
        lm::reset();
    });
}
// every component alone with everything it needs: enumerates which component is the last one loaded (so that forward/backward order in the file varies)
void order(vp::Ctx& ctx, int v, bool rev) {
    init(1);
    ctx.bound("weak references stored before and after the component they designate: every pair (holder, target) with the holder loaded first and later");
    write_files(ctx.scratch);
    ctx.explore([&](vp::Chooser& ch) {
        lm::reset();
        const std::string at = "$.assets";
        build_universe(at, ctx.scratch, v);
        auto items = universe(at, ctx.scratch, v);
        int i = ch.choose((int)items.size());
        ctx.trace("reload of " + items[i].name + " before saving");
        if (items[i].name == "scene") return;
        // replaced in place: same slot, later construction; then an extra component referring to it
        lm::assets()->load_asset(items[i].name, items[i].key, items[i].prop);
        populate_scene(at, v);
        const bool slow = items[i].slow;
        auto a = fps(at, slow ? "r_" : items[i].name);
        auto sc = fps(at, "scene");
        lm::save_state_to_file(ctx.scratch + "/s"); lm::reset(); lm::load_state_from_file(ctx.scratch + "/s");
        compare(ctx, a, fps(at, slow ? "r_" : items[i].name)); compare(ctx, sc, fps(at, "scene"));
        ctx.state(items[i].name);
    });
}
}
// a single asset, saved as a subtree of its own: accepted and identical under another name when it refers to nothing
// outside, rejected otherwise
static void single(vp::Ctx& ctx, int v) {
    init(1);
    ctx.bound("every shipped component saved on its own as a subtree");
    write_files(ctx.scratch);
    ctx.explore([&](vp::Chooser& ch) {
        lm::reset();
        const std::string at = "$.assets";
        auto items = universe(at, ctx.scratch, v);
        auto& it = items[ch.choose((int)items.size())];
        ctx.trace("asset " + it.name + " (" + it.key + ") saved on its own");
        build_universe(at, ctx.scratch, v);
        const bool outside = it.prop.dump().find("$.assets") != std::string::npos;
        std::map<std::string, std::string> a, b;
        for (auto& [l, c] : owned(comp::get<Component>(at + "." + it.name))) if (!outside) a[l.substr(at.size() + 1 + it.name.size())] = fingerprint(c, at + "." + it.name);
        bool threw = false;
        const auto file = ctx.scratch + "/one";
        try { std::ofstream os(file, std::ios::binary); serial::save_comp_owned(os, comp::get<Component>(at + "." + it.name), at + "." + it.name); }
        catch (const std::exception&) { threw = true; }
        ctx.checkf(threw == outside, "outer-ref:" + it.name, [&] { return outside ? "asset referring to other assets was saved as a self-contained subtree" : "saving a self-contained asset failed"; });
        if (!outside) {
            auto* c = lm::assets()->load_serialized("copy", file);
            ctx.check(c && c->loc() == at + ".copy" && comp::get<Component>(at + ".copy") == c, "copy-loc:" + it.name, "restored asset is not reachable under its new name");
            for (auto& [l, k] : owned(c)) b[l.substr(at.size() + 5)] = fingerprint(k, at + ".copy");
            compare(ctx, a, b);
        }
        ctx.state(it.name);
    });
}
// references from a group to its own members, to itself, to siblings, to the parent and to groups with similar names
static void outer(vp::Ctx& ctx) {
    init(1);
    ctx.bound("a reference from group G to a target placed inside, below, beside (with similar names) and above it");
    ctx.explore([&](vp::Chooser& ch) {
        lm::reset();
        struct P { const char* group; bool inside; };
        static const std::vector<std::string> names = {"a", "a-", "a_b", "a:1", "ab", "b", "aa"};
        const std::string G = names[ch.choose(3)];            // saved group
        const std::string O = ch.pick(names);                 // group that holds the target
        const bool nested = ch.flip();                        // holder inside a nested group of G
        const bool deep = ch.flip();                          // target inside a nested group of O
        const bool below = ch.flip();                         // everything below an enclosing group "a"
        AssetGroup* top = lm::assets();
        std::string at = "$.assets";
        if (below) { top = dynamic_cast<AssetGroup*>(top->load_asset("a", "asset_group::default", {})); at += ".a"; }
        auto grp = [&](const std::string& n) { auto* c = comp::get<AssetGroup>(at + "." + n); return c ? c : dynamic_cast<AssetGroup*>(top->load_asset(n, "asset_group::default", {})); };
        auto* o = grp(O); std::string ol = at + "." + O;
        if (deep) { o = dynamic_cast<AssetGroup*>(o->load_asset("n", "asset_group::default", {})); ol += ".n"; }
        o->load_asset("t", "texture::constant", {{"color", Vec3(.25)}});
        auto* g = grp(G); std::string gl = at + "." + G;
        if (nested) { auto* n = comp::get<AssetGroup>(gl + ".n"); g = n ? n : dynamic_cast<AssetGroup*>(g->load_asset("n", "asset_group::default", {})); gl += ".n"; }
        g->load_asset("h", "material::diffuse", {{"mapKd", ol + ".t"}});
        ctx.trace("group " + at + "." + G + ", holder " + gl + ".h refers to " + ol + ".t");
        bool threw = false;
        const auto file = ctx.scratch + "/sub";
        try { std::ofstream os(file, std::ios::binary); serial::save_comp_owned(os, comp::get<Component>(at + "." + G), at + "." + G); }
        catch (const std::exception&) { threw = true; }
        ctx.checkf(threw == (O != G), "outer", [&] { return threw ? "saving a self-contained group failed" : "group with a reference to the outside was saved"; });
        if (threw) return;
        for (std::string to : {std::string("z"), G + "2"}) {
            auto* c = top->load_serialized(to, file);
            auto pt = surf(Vec3(0), Vec3(0, 0, 1));
            auto* m = comp::get<Material>(at + "." + to + (nested ? ".n" : "") + ".h");
            auto* t = comp::get<Texture>(at + "." + to + (deep ? ".n" : "") + ".t");
            ctx.check(c && m && t, "outer-copy", "components of the restored group are not reachable");
            Component* ref = nullptr; m->foreach_underlying([&](Component*& k, bool) { if (k) ref = k; });
            ctx.check(ref == t, "outer-ref", "reference in the copy does not designate the copied target");
            ctx.check(m->reflectance(pt) == Vec3(.25), "outer-refl", "restored material differs");
        }
        ctx.state(ctx.note);
    });
}
SCENARIO("single_v0") { single(ctx, 0); }
SCENARIO("single_v1") { single(ctx, 1); }
SCENARIO("outer") { outer(ctx); }
SCENARIO("state_v0") { whole(ctx, 0, 0); }
SCENARIO("state_v1") { whole(ctx, 1, 0); }
SCENARIO("subtree_v0") { whole(ctx, 0, 1); }
SCENARIO("subtree_v1") { whole(ctx, 1, 1); }
SCENARIO("over_v0") { whole(ctx, 0, 2); }
SCENARIO("over_v1") { whole(ctx, 1, 2); }
SCENARIO("twice_v1") { whole(ctx, 1, 3); }
SCENARIO("order_v1") { order(ctx, 1, false); }
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
