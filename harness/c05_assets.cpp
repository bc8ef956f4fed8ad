// C05: asset references always follow the current live asset.
// Explicit enumeration of all operation histories over a small universe of assets that refer to each other,
// executed on the real AssetGroup / component system and compared with a reference model after every operation.
#include "harness/catalogue.h"
#include <lm/assetgroup.h>
using namespace lm;

namespace {
std::set<const Component*> g_alive;        // every test instance that has not been released
int g_tag = 0;                             // construction serial

struct VT : public Component {             // base of all test components
    int tag = -1; bool constructed = false;
    VT() { g_alive.insert(this); }
    virtual ~VT() { g_alive.erase(this); }
    virtual char kind() const = 0;
};
struct Leaf : public VT {                  // the type asked for by typed references
    char kind() const override { return 'L'; }
    LM_SERIALIZE_IMPL(ar) { ar(tag, constructed); }
    void construct(const Json& p) override { tag = p["tag"]; constructed = true; }
};
LM_COMP_REG_IMPL(Leaf, "vt::leaf");
struct Other : public VT {
    char kind() const override { return 'O'; }
    LM_SERIALIZE_IMPL(ar) { ar(tag, constructed); }
    void construct(const Json& p) override { tag = p["tag"]; constructed = true; }
};
LM_COMP_REG_IMPL(Other, "vt::other");

const std::vector<std::string> LOCS = {"$.assets.a", "$.assets.b", "$.assets.g", "$.assets.g.x", "$.assets.a.c", "$.assets.g.x.c"};
const std::vector<std::string> TLOCS = {"$.assets.a", "$.assets.b", "$.assets.g.x"};

struct Holder : public VT {                // weak references to everything, plus typed ones, optionally an owned child
    std::vector<Component*> refs; std::vector<Leaf*> typed; Ptr<Component> child;
    char kind() const override { return 'H'; }
    LM_SERIALIZE_IMPL(ar) { ar(tag, constructed, refs, typed, child); }
    Component* underlying(const std::string& n) const override { return n == "c" ? child.get() : nullptr; }
    void foreach_underlying(const ComponentVisitor& v) override {
        for (auto& r : refs) comp::visit(v, r);
        comp::visit(v, child);
        for (auto& r : typed) comp::visit(v, r);
    }
    void construct(const Json& p) override {
        tag = p["tag"];
        const std::string t = p.value("throw", "");
        if (t == "before") throw std::runtime_error("planned");
        for (auto& l : LOCS) refs.push_back(comp::get<Component>(l));
        for (auto& l : TLOCS) typed.push_back(comp::get<Leaf>(l));
        if (p.value("child", false)) child = comp::create<Component>("vt::holder", make_loc("c"), {{"tag", tag + 1000000}});
        if (p.value("nest", false)) lm::assets()->load_asset("b", "vt::leaf", {{"tag", tag + 2000000}});
        if (t == "after") throw std::runtime_error("planned");
        constructed = true;
    }
};
LM_COMP_REG_IMPL(Holder, "vt::holder");

// ---------------------------------------------------------------- reference model
struct MRef { bool set = false; };
struct MInst { char kind = 0; int tag = -1; std::vector<bool> refs, typed; bool has_child = false; std::vector<bool> crefs, ctyped; };
struct Model {
    std::map<std::string, MInst> m;        // locator -> instance ('G' = group); children are part of the owner
    bool exists(const std::string& l, bool no_child_of_new = false, const std::string& nw = "") const {
        if (m.count(l)) { // parent must be a group
            return true; }
        if (l.size() > 2 && l.substr(l.size() - 2) == ".c") {
            auto o = l.substr(0, l.size() - 2);
            if (no_child_of_new && o == nw) return false;
            auto it = m.find(o); return it != m.end() && it->second.has_child;
        }
        return false;
    }
    bool leaf(const std::string& l) const { auto it = m.find(l); return it != m.end() && it->second.kind == 'L'; }
    void erase_under(const std::string& l) { for (auto it = m.begin(); it != m.end();) if (it->first.rfind(l + ".", 0) == 0) it = m.erase(it); else ++it; }
    // registers the new instance; references of everybody else that no longer resolve become null
    void put(const std::string& l, char kind, int tag, bool child) {
        erase_under(l);
        MInst n; n.kind = kind; n.tag = tag; m[l] = n;
        if (kind == 'H') {
            MInst& h = m[l];
            for (auto& x : LOCS) h.refs.push_back(exists(x, true, l));
            for (auto& x : TLOCS) h.typed.push_back(leaf(x));
            if (child) { h.crefs = h.refs; h.ctyped = h.typed; h.has_child = true; }
        }
        for (auto& kv : m) {
            if (kv.first == l) continue;
            auto upd = [&](std::vector<bool>& r, std::vector<bool>& t) {
                for (size_t i = 0; i < r.size(); i++) if (r[i] && !exists(LOCS[i])) r[i] = false;
                for (size_t i = 0; i < t.size(); i++) if (t[i] && !leaf(TLOCS[i])) t[i] = false;
            };
            upd(kv.second.refs, kv.second.typed);
            upd(kv.second.crefs, kv.second.ctyped);
        }
    }
    std::string key() const {
        std::string s;
        for (auto& kv : m) { s += kv.first + kv.second.kind; for (bool b : kv.second.refs) s += b ? '1' : '0'; for (bool b : kv.second.typed) s += b ? '1' : '0';
            s += kv.second.has_child ? 'C' : '-'; for (bool b : kv.second.crefs) s += b ? '1' : '0'; }
        return s;
    }
};

struct World {
    vp::Ctx& ctx; Model md;
    World(vp::Ctx& c) : ctx(c) { lm::reset(); g_tag = 0; if (!g_alive.empty()) ctx.fail("leak-at-reset", "instances survive a reset of the asset tree"); }

    void check_refs(const std::string& where, const Holder* h, const std::vector<bool>& r, const std::vector<bool>& t) {
        ctx.check(h->refs.size() == r.size() && h->typed.size() == t.size(), "reference-lost", "a holder lost its references: " + where);
        for (size_t i = 0; i < r.size(); i++) {
            Component* now = comp::get<Component>(LOCS[i]);
            if (!r[i]) { ctx.check(h->refs[i] == nullptr, "stale-reference", where + " still refers to " + LOCS[i] + " although nothing is loaded there"); continue; }
            ctx.check(h->refs[i] == now && now, "stale-reference", where + ": the reference to " + LOCS[i] + (h->refs[i] ? " does not designate the current instance" : " was lost"));
        }
        for (size_t i = 0; i < t.size(); i++) {
            Leaf* now = comp::get<Leaf>(TLOCS[i]);
            if (!t[i]) { ctx.check(h->typed[i] == nullptr, "stale-typed-reference", where + " holds a typed reference to " + TLOCS[i] + " which is not of that type"); continue; }
            ctx.check(h->typed[i] == now && now, "stale-typed-reference", where + ": typed reference to " + TLOCS[i] + " is stale or lost");
        }
    }
    void check_all() {
        size_t alive = 0;
        for (auto& l : {"$.assets.a", "$.assets.b", "$.assets.g", "$.assets.g.x"}) {
            auto it = md.m.find(l);
            Component* p = comp::get<Component>(l);
            if (it == md.m.end()) { ctx.check(p == nullptr, "phantom-asset", std::string("lookup of ") + l + " returns a component although no load of it succeeded"); continue; }
            ctx.check(p != nullptr, "lost-asset", std::string("lookup of ") + l + " returns null although its load succeeded");
            ctx.check(p->loc() == l, "wrong-locator", std::string("component found at ") + l + " calls itself " + p->loc());
            if (it->second.kind == 'G') { ctx.check(p->key() == "asset_group::default" , "wrong-instance", "not a group any more"); continue; }
            ctx.check(g_alive.count(p), "released-instance", std::string("lookup of ") + l + " returns a released instance");
            auto* v = dynamic_cast<VT*>(p);
            ctx.check(v && v->kind() == it->second.kind && v->tag == it->second.tag && v->constructed, "wrong-instance",
                std::string(l) + " is not the instance of the latest successful load");
            alive++;
            if (auto* h = dynamic_cast<Holder*>(v)) {
                check_refs(l, h, it->second.refs, it->second.typed);
                ctx.check(bool(h->child) == it->second.has_child, "lost-child", "owned child");
                if (h->child) {
                    alive++;
                    auto* c = dynamic_cast<Holder*>(h->child.get());
                    ctx.check(c && g_alive.count(c) && c->constructed, "lost-child", "owned child is not live");
                    check_refs(std::string(l) + ".c", c, it->second.crefs, it->second.ctyped);
                }
            }
        }
        ctx.check(g_alive.size() == alive, "instance-count", "live instances: " + std::to_string(g_alive.size()) + ", expected " + std::to_string(alive));
        ctx.state(md.key());
    }
    AssetGroup* group_of(const std::string& l) { return l == "$.assets.g.x" ? comp::get<AssetGroup>("$.assets.g") : lm::assets(); }
    static std::string name_of(const std::string& l) { return l.substr(l.rfind('.') + 1); }

    // returns false if the operation is not enabled
    bool op(const std::string& l, const std::string& kind) {
        if (kind == "reset") { lm::reset(); md.m.clear(); return true; }
        if (kind == "saveload") {
            auto f = ctx.scratch + "/state";
            lm::save_state_to_file(f); lm::reset(); lm::load_state_from_file(f);
            return true;
        }
        if (kind == "thrownest" && md.m.count(l)) return false;   // outside of the universe: a replacement that changes other assets and then fails
        if (l == "$.assets.g.x") { auto it = md.m.find("$.assets.g"); if (it == md.m.end() || it->second.kind != 'G') return false; }
        AssetGroup* g = group_of(l); auto n = name_of(l);
        const int tag = ++g_tag;
        Component* r = nullptr; bool threw = false;
        auto call = [&](const std::string& name, const std::string& impl, Json p) {
            p["tag"] = tag;
            try { r = g->load_asset(name, impl, p); } catch (const std::exception&) { threw = true; }
        };
        auto expect_ok = [&] { ctx.check(!threw && r, "load-failed", "a valid load of " + l + " failed"); ctx.check(r == comp::get<Component>(l), "load-result", "load returned something else than the registered instance"); };
        auto expect_bad = [&](bool th) { ctx.check(threw == th && !r, "bad-load-accepted", th ? "a load whose construction throws did not report it" : "a rejected load did not return null"); };
        if (kind == "leaf") { call(n, "vt::leaf", {}); expect_ok(); md.put(l, 'L', tag, false); }
        else if (kind == "other") { call(n, "vt::other", {}); expect_ok(); md.put(l, 'O', tag, false); }
        else if (kind == "holder") { call(n, "vt::holder", Json::object()); expect_ok(); md.put(l, 'H', tag, false); }
        else if (kind == "owner") { call(n, "vt::holder", {{"child", true}}); expect_ok(); md.put(l, 'H', tag, true); }
        else if (kind == "group") { call(n, "asset_group::default", Json::object()); expect_ok(); md.put(l, 'G', tag, false); }
        else if (kind == "nest") {       // construction loads another asset
            call(n, "vt::holder", {{"nest", true}}); expect_ok();
            // references are taken before the nested load replaces b
            if (l == "$.assets.b") return true;
            md.put(l, 'H', tag, false);
            auto h = md.m[l];
            md.put("$.assets.b", 'L', tag + 2000000, false);
            // the holder is under construction while b is replaced: its references follow like everybody's
        }
        else if (kind == "throw0") { call(n, "vt::holder", {{"throw", "before"}}); expect_bad(true); }
        else if (kind == "throw1") { call(n, "vt::holder", {{"throw", "after"}, {"child", true}}); expect_bad(true); }
        else if (kind == "thrownest") { call(n, "vt::holder", {{"throw", "after"}, {"nest", true}}); expect_bad(true); md.put("$.assets.b", 'L', tag + 2000000, false); }
        else if (kind == "badname") { call(n + ".y", "vt::leaf", {}); expect_bad(false); call("", "vt::leaf", {}); expect_bad(false); call(n + " ", "vt::leaf", {}); expect_bad(false); }
        else if (kind == "badimpl") { call(n, "vt::nope", {}); expect_bad(false); }
        else if (kind == "noserial") {
            try { r = g->load_serialized(n, ctx.scratch + "/missing"); } catch (const std::exception&) { threw = true; }
            ctx.check(threw && !r, "bad-load-accepted", "loading a missing serialized asset succeeded");
        }
        else abort();
        return true;
    }
};

struct Op { std::string l, k; };
std::vector<Op> full_ops() {
    std::vector<Op> v;
    for (auto l : {"$.assets.a", "$.assets.b", "$.assets.g.x"})
        for (auto k : {"leaf", "other", "holder", "owner", "throw0", "throw1", "badname", "badimpl", "noserial"}) {
            if (std::string(l) == "$.assets.b" && (std::string(k) == "owner" || std::string(k) == "noserial" || std::string(k) == "badname")) continue;
            v.push_back({l, k});
        }
    for (auto k : {"group", "leaf", "throw1"}) v.push_back({"$.assets.g", k});
    v.push_back({"$.assets.a", "nest"}); v.push_back({"$.assets.a", "thrownest"});
    v.push_back({"", "reset"}); v.push_back({"", "saveload"});
    return v;
}
std::vector<Op> core_ops() {
    return {{"$.assets.a", "leaf"}, {"$.assets.a", "owner"}, {"$.assets.a", "throw1"}, {"$.assets.b", "leaf"}, {"$.assets.b", "holder"}, {"$.assets.b", "throw1"},
            {"$.assets.g", "group"}, {"$.assets.g.x", "owner"}, {"$.assets.g.x", "leaf"}, {"$.assets.g.x", "throw1"}, {"", "saveload"}};
}
std::vector<Op> tiny_ops() {
    return {{"$.assets.a", "leaf"}, {"$.assets.a", "owner"}, {"$.assets.b", "holder"}, {"$.assets.b", "throw1"}, {"$.assets.g", "group"}, {"$.assets.g.x", "owner"}};
}
void run(vp::Ctx& ctx, const std::vector<Op>& ops, int depth, int part, int parts) {
    H::init();
    ctx.bound("all histories of length " + std::to_string(depth) + " over " + std::to_string(ops.size()) + " operations on 4 names (nested group included)");
    ctx.explore([&](vp::Chooser& ch) {
        World w(ctx);
        std::string tr;
        for (int d = 0; d < depth; d++) {
            int i;
            if (d == 0) { std::vector<int> mine; for (int k = 0; k < (int)ops.size(); k++) if (k % parts == part) mine.push_back(k); i = ch.pick(mine); }
            else i = ch.choose((int)ops.size());
            tr += (d ? "; " : "") + ops[i].k + " " + ops[i].l; ctx.trace(tr);
            if (ops[i].k == "noserial" && w.md.m.count(ops[i].l)) return;      // documented: name already loaded
            if (!w.op(ops[i].l, ops[i].k)) return;                           // not enabled: prune
            w.check_all();
        }
        lm::reset();
        ctx.check(g_alive.empty(), "leak", "instances survive a reset");
    });
}
}
// The shipped components: one asset of a tree with all of them is replaced (or its replacement fails), afterwards every
// reference held anywhere must designate the registered instance and every component is exercised under the address sanitizer.
static void shipped(vp::Ctx& ctx, int part, int parts, bool pairs) {
    H::init();
    ctx.bound("every shipped component replaced once (and every ordered pair of replacements in the thorough tier) in a tree holding all of them, replacement successful or failing");
    H::write_files(ctx.scratch);
    const std::string at = "$.assets";
    auto fresh = H::universe(at, ctx.scratch, 0), alt = H::universe(at, ctx.scratch, 1);
    // holders that keep nothing but the reference: must behave exactly as if built on the new asset
    std::map<std::string, std::vector<std::string>> forwards = {{"m_glossy", {"m_proxy", "m_rr", "m_marg"}}, {"m_diff", {"m_rr", "m_marg"}}, {"tex_b", {"m_difft"}}, {"tex_c", {"m_difftc"}},
        {"tex_ba", {"m_wf"}}, {"p_hg", {"med_hom"}}, {"p_iso", {"med_het"}}, {"v_chk", {"med_het"}}, {"v_cc", {"med_het"}}, {"v_mul", {"med_het2"}}};
    // ... and so must everything that renders through the scene
    const std::vector<std::string> all_r = {"r_ray", "r_rayc", "r_pt", "r_lt", "r_volpt", "r_volpt_naive", "r_pt_naive_path", "r_pt_nee_path", "r_lt_nee_path", "r_bdpt", "r_bdptopt"};
    for (auto n : {"scene", "film", "accel", "cam", "m_rr", "m_difft", "m_wf", "med_hom", "l_point", "l_area"}) { auto& v = forwards[n]; v.insert(v.end(), all_r.begin(), all_r.end()); }
    forwards["film"].push_back("r_blank");
    ctx.explore([&](vp::Chooser& ch) {
        lm::reset();
        H::build_universe(at, ctx.scratch, 0);
        std::vector<int> mine; for (int i = 0; i < (int)alt.size(); i++) if (i % parts == part) mine.push_back(i);
        std::string tr;
        for (int k = 0; k < (pairs ? 2 : 1); k++) {
            const int i = k == 0 ? ch.pick(mine) : ch.choose((int)alt.size());
            const auto it = alt[i];
            const int how = ch.choose(2);          // 0: replaced by the variant, 1: failing replacement
            tr += (how ? "failing replacement of " : "replace ") + it.name + "; "; ctx.trace(tr);
            auto* before = comp::get<Component>(at + "." + it.name);
            if (how == 0) {
                auto* n = lm::assets()->load_asset(it.name, it.key, it.prop);
                ctx.check(n && n != before && comp::get<Component>(at + "." + it.name) == n, "replace:" + it.name, "replacement is not what the locator returns");
                if (it.name == "scene") H::populate_scene(at, 1);      // the new scene gets another content
                for (auto& [rel, c] : H::owned(n)) ctx.check(comp::get<Component>(rel) == c, "replace-owned:" + it.name, "component owned by the replacement is not reachable by its locator " + rel);
            } else {
                Json bad = {{"path", "/nonexistent/x"}, {"ref", "$.assets.nope"}, {"scene", "$.assets.nope"}, {"output", "$.assets.nope"}, {"mesh", "$.assets.nope"}, {"phase", "$.assets.nope"}, {"mapKd", "$.assets.nope"}};
                Component* r = nullptr; bool threw = false;
                try { r = lm::assets()->load_asset(it.name, it.key, bad); } catch (const std::exception&) { threw = true; }
                if (threw) ctx.check(comp::get<Component>(at + "." + it.name) == before, "failed-replace:" + it.name, "failed replacement changed the registered asset");
                else if (!r) ctx.fail("null:" + it.name, "load of a valid implementation returned null");
                if (!threw) return;                // this component needs none of the parameters: an ordinary replacement
            }
        }
        if (tr.find("replace accel") != std::string::npos) comp::get<Scene>(at + ".scene")->build();   // an acceleration structure has to be built before use
        for (auto& [l, c] : H::owned(comp::get<Component>(at)))
            c->foreach_underlying([&](Component*& r, bool weak) {
                ctx.checks++;
                if (!r || !weak) return;
                if (comp::get<Component>(r->loc()) != r) ctx.record("stale:" + l, l + " holds a reference that is not the registered instance");
            });
        std::map<std::string, std::string> got;
        for (auto& [l, c] : H::owned(comp::get<Component>(at))) { auto f = H::fingerprint(c, at); if (l.size() > at.size()) got[l.substr(at.size() + 1)] = f; ctx.extra_transitions++; }
        ctx.state(tr);
        if (pairs) return;
        const int i = mine[ch.path[0]]; auto fw = forwards.find(alt[i].name);
        if (fw == forwards.end() || ch.path[1] != 0) return;
        lm::reset();
        for (int k = 0; k < (int)fresh.size(); k++) { auto& it = k == i ? alt[k] : fresh[k]; lm::assets()->load_asset(it.name, it.key, it.prop); if (it.name == "scene") H::populate_scene(at, k == i); }
        for (auto& hname : fw->second)
            ctx.checkf(H::fingerprint(comp::get<Component>(at + "." + hname), at) == got[hname], "follow:" + hname, [&] { return hname + " does not behave as one built on the replaced " + alt[i].name; });
    });
}
struct Shipped { Shipped() { for (int p = 0; p < 8; p++) {
    vp::scenarios().push_back({"shipped_" + std::to_string(p), [=](vp::Ctx& c) { shipped(c, p, 8, false); }, 0});
    vp::scenarios().push_back({"shipped_pairs_" + std::to_string(p), [=](vp::Ctx& c) { shipped(c, p, 8, true); }, 1}); } } } shipped_reg;
struct Split { Split(const char* nm, std::vector<Op> ops, int depth, int parts, int tier) {
    for (int p = 0; p < parts; p++) vp::scenarios().push_back({std::string(nm) + "_" + std::to_string(p), [=](vp::Ctx& c) { run(c, ops, depth, p, parts); }, tier}); } };
Split s1("full3", full_ops(), 3, 8, 0), s2("core4", core_ops(), 4, 7, 0), s3("tiny5", tiny_ops(), 5, 5, 0), s4("full4", full_ops(), 4, 16, 1), s5("core5", core_ops(), 5, 7, 1), s6("tiny6", tiny_ops(), 6, 5, 1);
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
