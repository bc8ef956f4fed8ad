// C09: truncated, missing or unwritable state files are rejected, never half-accepted.
#include "harness/catalogue.h"
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
using namespace lm;
using namespace H;
// ---------------------------------------------------------------- write faults
// the process-wide write functions, with a fault at the k-th call that writes to the watched file
namespace fault {
int fd_watch = -1; long long budget = -1; int calls = 0; bool on = false; dev_t dev; ino_t ino;
bool watched(int fd) { if (!on) return false; struct stat s; return fstat(fd, &s) == 0 && s.st_dev == dev && s.st_ino == ino; }
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
    if (fault::watched(fd)) {
        fault::calls++;
        if ((long long)n > fault::budget) {
            if (fault::budget <= 0) { errno = ENOSPC; return -1; }
            n = fault::budget;
        }
        fault::budget -= n;
    }
    return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
    if (fault::watched(fd)) {
        ssize_t tot = 0;
        for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return tot ? tot : -1; tot += r; if ((size_t)r < v[i].iov_len) break; }
        return tot;
    }
    return syscall(SYS_writev, fd, v, c);
}
namespace {
std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
// structure of the whole tree
std::string shape() {
    std::string s;
    for (auto& [l, c] : owned(comp::get<Component>("$.assets"))) {
        s += l + "=" + c->key() + "{";
        c->foreach_underlying([&](Component*& k, bool weak) { s += (weak ? "~" : "+") + (k ? k->loc() : "null") + (k && comp::get<Component>(k->loc()) != k ? "!" : "") + ","; });
        s += "}\n";
    }
    return s;
}
enum { STATE, ASSET };
const char* SETS[] = {"empty", "textures", "mesh", "materials", "lights", "media", "film", "scene", "everything"};
// builds one of the sets below `at`
void build(const std::string& at, const std::string& d, int set) {
    auto* g = comp::get<AssetGroup>(at);
    auto pick = [&](std::initializer_list<const char*> ns) { for (auto& it : universe(at, d, 0)) for (auto n : ns) if (it.name == n) g->load_asset(it.name, it.key, it.prop); };
    switch (set) {
    case 0: break;
    case 1: pick({"tex_c", "tex_ca", "tex_b"}); break;
    case 2: pick({"mesh", "mesh_e"}); break;
    case 3: pick({"tex_c", "m_difftc", "m_diff", "m_glossy", "m_glass", "m_mirror", "m_mask", "m_proxy", "m_rr", "m_marg", "m_wfn"}); break;
    case 4: pick({"mesh_e", "l_area", "l_point", "l_dir", "l_envc", "cam"}); break;
    case 5: pick({"p_hg", "p_iso", "v_cc", "v_cs", "v_chk", "v_gau", "v_sph", "v_mul", "med_hom", "med_het", "med_het2"}); break;
    case 6: pick({"film", "s_spps", "s_spis", "r_blank"}); break;
    case 7: {
        pick({"mesh_e", "m_diff", "l_area", "l_point", "cam", "accel", "film", "scene"});
        auto* s = comp::get<Scene>(at + ".scene");
        s->add_primitive({{"camera", at + ".cam"}}); s->add_primitive({{"mesh", at + ".mesh_e"}, {"material", at + ".m_diff"}, {"light", at + ".l_area"}}); s->add_primitive({{"light", at + ".l_point"}});
        const int gr = s->create_group_node(glm::translate(Vec3(1, 2, 3))); s->add_child(gr, s->create_primitive_node({{"mesh", at + ".mesh_e"}, {"material", at + ".m_diff"}})); s->add_child(s->root_node(), gr);
        s->build(); pick({"r_pt", "r_ray"}); break; }
    case 8: build_universe(at, d, 0); break;
    }
}
// what is loaded already when the damaged file comes
void previous(const std::string& d, int prev) {
    lm::reset();
    if (prev == 0) return;
    lm::assets()->load_asset("keep", "texture::constant", {{"color", Vec3(.5)}});
    lm::assets()->load_asset("km", "material::diffuse", {{"mapKd", "$.assets.keep"}});
}
void cuts(vp::Ctx& ctx, int kind, int set, int step = 1, int off = 0) {
    init(1);
    ctx.bound(std::string("every truncation point of the ") + (kind == STATE ? "state" : "asset") + " file of set '" + SETS[set] + "'" + (step > 1 ? " congruent " + std::to_string(off) + " mod " + std::to_string(step) : "") + ", into an empty and a populated context");
    write_files(ctx.scratch);
    const auto full = ctx.scratch + "/full", cut = ctx.scratch + "/cut";
    lm::reset();
    if (kind == STATE) { build("$.assets", ctx.scratch, set); lm::save_state_to_file(full); }
    else { lm::assets()->load_asset("g", "asset_group::default", {}); build("$.assets.g", ctx.scratch, set); std::ofstream os(full, std::ios::binary); serial::save_comp_owned(os, comp::get<Component>("$.assets.g"), "$.assets.g"); }
    const auto want_full = [&] { if (kind == ASSET) { lm::reset(); lm::assets()->load_serialized("x", full); } return shape(); }();
    const std::string data = slurp(full);
    auto load = [&](const std::string& f) { if (kind == STATE) lm::load_state_from_file(f); else lm::assets()->load_serialized("x", f); };
    // complete file
    auto complete = [&](const char* when) {
        try { lm::reset(); load(full); ctx.checkf(shape() == want_full, "complete", [&] { return std::string("the complete file does not load ") + when; }); }
        catch (const std::exception& e) { ctx.record("complete-throws", std::string("the complete file is rejected ") + when + ": " + e.what()); }
    };
    std::string before[2]; for (int p = 0; p < 2; p++) { previous(ctx.scratch, p); before[p] = shape(); }
    ctx.trace("file of " + std::to_string(data.size()) + " bytes");
    const long long n = ((long long)data.size() - off + step - 1) / step;
    ctx.explore([&](vp::Chooser& ch) {
        const long long i = ch.choose(n + 1);        // the last one is the missing file
        const int prev = ch.choose(2);
        const long long len = i < n ? off + i * step : -1;
        ctx.trace("cut after " + std::to_string(len) + " bytes, previous content " + std::to_string(prev));
        if (len >= 0) put_file(cut, data.substr(0, len)); else unlink(cut.c_str());
        previous(ctx.scratch, prev);
        bool thrown = false;
        try { load(cut); } catch (const std::exception&) { thrown = true; }
        ctx.checkf(thrown, "accepted", [&] { return "a file cut after " + std::to_string(len) + " of " + std::to_string(data.size()) + " bytes is accepted"; });
        // nothing of it is there, everything else still is
        ctx.checkf(shape() == before[prev], "residue", [&] { return "after the rejected load the assets are\n" + shape() + "instead of\n" + before[prev]; });
        if (kind == ASSET) ctx.check(comp::get<Component>("$.assets.x") == nullptr, "occupied", "the name of the rejected asset is occupied");
        if (prev == 1) { auto g = surf(Vec3(0), Vec3(0, 0, 1)); ctx.check(comp::get<Material>("$.assets.km")->reflectance(g) == Vec3(.5), "ref", "a previous asset does not work any more"); }
        // the same name, another try
        if (i % 16 == 0) {
            try { load(full); } catch (const std::exception& e) { ctx.record("retry", std::string("the complete file is rejected after a failed load: ") + e.what()); }
            if (kind == ASSET && prev == 0) ctx.checkf(shape() == want_full, "retry-shape", [&] { return std::string("the complete file loads to something else after a failed load"); });
            complete("after a failed load");
        }
        ctx.state(std::to_string(len) + "/" + std::to_string(prev));
    });
    lm::reset();
}
// a device that fills up after every number of bytes
void full_device(vp::Ctx& ctx, int set) {
    init(1);
    ctx.bound(std::string("state file of set '") + SETS[set] + "': the device accepts exactly b bytes, for every b below the file size; opening fails");
    write_files(ctx.scratch);
    const auto f = ctx.scratch + "/w";
    lm::reset(); build("$.assets", ctx.scratch, set);
    lm::save_state_to_file(f); const auto data = slurp(f); const auto want = shape();
    ctx.explore([&](vp::Chooser& ch) {
        const long long b = ch.choose((int)data.size() + 2);
        ctx.trace("device accepts " + std::to_string(b) + " bytes");
        if (b == (long long)data.size() + 1) {
            bool thrown = false; try { lm::save_state_to_file(ctx.scratch + "/no/such/dir/w"); } catch (const std::exception&) { thrown = true; }
            ctx.check(thrown, "open", "saving to a file that cannot be opened does not throw"); ctx.state("open"); return;
        }
        put_file(f, ""); struct stat s; stat(f.c_str(), &s); fault::dev = s.st_dev; fault::ino = s.st_ino;
        fault::budget = b; fault::calls = 0; fault::on = true; bool thrown = false;
        try { lm::save_state_to_file(f); } catch (const std::exception&) { thrown = true; }
        fault::on = false;
        ctx.extra_transitions += fault::calls;
        const bool complete = slurp(f) == data;
        ctx.checkf(thrown == !complete, complete ? "spurious" : "silent", [&] { return complete ? "a complete save throws" : "only " + std::to_string(b) + " of " + std::to_string(data.size()) + " bytes could be written, but saving does not throw"; });
        ctx.checkf(shape() == want, "tree", [&] { return std::string("a failed save changes the assets"); });
        ctx.state(std::to_string(b));
    });
    lm::reset();
}
// other ways a load of a serialized asset is rejected
void rejected(vp::Ctx& ctx) {
    init(1);
    ctx.bound("load_serialized with every name of an alphabet of valid, invalid and taken names; files naming an implementation that is not registered");
    write_files(ctx.scratch);
    const auto f = ctx.scratch + "/f";
    lm::reset(); lm::assets()->load_asset("g", "asset_group::default", {}); build("$.assets.g", ctx.scratch, 7);
    { std::ofstream os(f, std::ios::binary); serial::save_comp_owned(os, comp::get<Component>("$.assets.g"), "$.assets.g"); }
    auto data = slurp(f);
    {   // another implementation name of the same length
        auto i = data.find("material::diffuse"); auto d2 = data; d2.replace(i, 17, "material::diffusX"); put_file(f + "u", d2);
        i = data.find("asset_group::default"); d2 = data; d2.replace(i, 20, "asset_group::defaulX"); put_file(f + "v", d2);
    }
    const std::vector<std::string> names = {"x", "a-b", "a:b", "_", "", "a.b", ".", "a b", "$", "keep", "x\n", "a/b", "\xc3\xa4"};
    ctx.explore([&](vp::Chooser& ch) {
        const auto n = ch.pick(names); const int v = ch.choose(3);
        previous(ctx.scratch, 1); const auto before = shape();
        ctx.trace("name '" + n + "' file " + std::to_string(v));
        const bool ok = v == 0 && n != "keep" && n != "" && n.find_first_not_of("abcdefghijklmnopqrstuvwxyz:_-") == std::string::npos;
        bool done = false; Component* c = nullptr;
        try { c = lm::assets()->load_serialized(n, v == 0 ? f : v == 1 ? f + "u" : f + "v"); done = c != nullptr; } catch (const std::exception&) {}
        ctx.checkf(done == ok, "name", [&] { return std::string(ok ? "rejects" : "accepts") + " name '" + n + "'" + (v ? " with a file naming an unknown implementation" : ""); });
        if (ok && done) ctx.check(comp::get<Component>("$.assets." + n) == c, "get", "a loaded asset is not found");
        if (!ok) ctx.checkf(shape() == before, "residue", [&] { return "a rejected load leaves\n" + shape(); });
        ctx.state(n + std::to_string(v));
    });
    lm::reset();
}
struct Reg { Reg() {
    for (int s = 0; s < 8; s++) for (int k = 0; k < 2; k++)
        vp::scenarios().push_back({std::string(k ? "asset_" : "state_") + SETS[s], [=](vp::Ctx& c) { cuts(c, k, s); }, 0});
    for (int o = 0; o < 8; o++) {
        vp::scenarios().push_back({"state_everything_" + std::to_string(o), [=](vp::Ctx& c) { cuts(c, STATE, 8, 8, o); }, 0}); }
    for (int s : {0, 1, 3, 7}) vp::scenarios().push_back({std::string("full_") + SETS[s], [=](vp::Ctx& c) { full_device(c, s); }, 0});
    vp::scenarios().push_back({"full_everything", [=](vp::Ctx& c) { full_device(c, 8); }, 1});
} } reg;
SCENARIO("rejected") { rejected(ctx); }
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
