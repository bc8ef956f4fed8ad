// C17: progress reports are forwarded, multiplexed and delayed faithfully, under virtual time.
#include "harness/vclock.h"
#include "harness/common.h"
#include <lm/progresscontext.h>
using namespace lm;
namespace {
std::vector<std::string> g_rec;
struct Rec : public progress::ProgressContext {
    std::string id; int made = 0;
    void construct(const Json& p) override { id = json::value<std::string>(p, "id", "?"); }
    void start(progress::ProgressMode m, long long total, double t) override { char b[96]; snprintf(b, 96, "%s start %d %lld %.17g", id.c_str(), int(m), total, t); g_rec.push_back(b); }
    void update(long long p) override { g_rec.push_back(id + " update " + std::to_string(p)); }
    void update_time(Float e) override { char b[64]; snprintf(b, 64, "%s time %.17g", id.c_str(), e); g_rec.push_back(b); }
    void end() override { g_rec.push_back(id + " end"); }
};
LM_COMP_REG_IMPL(Rec, "progress::vt");
// reference tree
struct Node { enum K { Leaf, Mux, Delay, Silent } k; std::string id; double delay = 0; std::vector<Node> ch; double last = 0; };
std::string type_of(const Node& n);
Json json_of(const Node& n);
Json entry(const Node& c) { Json o = Json::object(); o["progress::" + type_of(c)] = json_of(c); return o; }
Json json_of(const Node& n) {
    if (n.k == Node::Leaf) return {{"id", n.id}};
    if (n.k == Node::Mux) { Json a = Json::array(); for (auto& c : n.ch) a.push_back(entry(c)); return a; }
    if (n.k == Node::Delay) { Json o = Json::object(); o["delay"] = (int)n.delay; o["progress"] = entry(n.ch[0]); return o; }
    return Json::object();
}
std::string type_of(const Node& n) { return n.k == Node::Leaf ? "vt" : n.k == Node::Mux ? "mux" : n.k == Node::Delay ? "delay" : "default"; }
std::string show(const Node& n) { if (n.k == Node::Leaf) return n.id; if (n.k == Node::Silent) return "default"; std::string s = n.k == Node::Mux ? "mux(" : "delay(" ; for (auto& c : n.ch) s += show(c) + " "; return s + ")"; }
struct Ev { int k; long long v; double t; };
void apply(Node& n, const Ev& e, double now, std::vector<std::string>& out) {
    char b[96];
    if (n.k == Node::Leaf) {
        if (e.k == 0) snprintf(b, 96, "%s start %d %lld %.17g", n.id.c_str(), e.v < 0, e.v, e.t);
        if (e.k == 1) snprintf(b, 96, "%s update %lld", n.id.c_str(), e.v);
        if (e.k == 2) snprintf(b, 96, "%s time %.17g", n.id.c_str(), e.t);
        if (e.k == 3) snprintf(b, 96, "%s end", n.id.c_str());
        out.push_back(b); return;
    }
    if (n.k == Node::Silent) return;
    if (n.k == Node::Delay) {
        if (e.k == 0) n.last = now;
        if (e.k == 1 || e.k == 2) { if (now - n.last <= n.delay) return; n.last = now; }
    }
    for (auto& c : n.ch) apply(c, e, now, out);
}
// all trees up to a depth: leaves R0..; mux of 0..3 children; delay around one child
int g_leaf;
Node tree(vp::Chooser& c, int depth) {
    int k = depth > 0 ? c.choose(4) : 0;
    if (k == 0) return {Node::Leaf, "R" + std::to_string(g_leaf++)};
    if (k == 1) { Node n{Node::Mux}; int m = c.choose(4); for (int i = 0; i < m; i++) n.ch.push_back(i == 0 || depth > 2 ? tree(c, depth - 1) : Node{Node::Leaf, "R" + std::to_string(g_leaf++)}); return n; }
    if (k == 2) { Node n{Node::Delay}; n.delay = 10; n.ch.push_back(tree(c, depth - 1)); return n; }
    return {Node::Silent};
}
void run(vp::Ctx& ctx, int tdepth, int nev) {
    ctx.bound("backend trees of depth <= " + std::to_string(tdepth) + " (recorder, default reporter, multiplexer of 0..3, delay), all report sequences of " + std::to_string(nev) + " events with every combination of elapsed times 0/4/7/11 ms against a delay of 10 ms");
    H::init(1);
    ctx.explore([&](vp::Chooser& c) {
        g_leaf = 0; Node n = tree(c, tdepth); std::string tr = show(n); std::vector<std::string> want;
        g_rec.clear(); H::g_now_ns = 5000000000ll; double now = 0;
        ctx.trace(tr);
        progress::init(type_of(n), json_of(n));
        bool started = false;
        for (int i = 0; i < nev; i++) {
            Ev e; int k = i == 0 ? c.choose(2) : c.choose(5);
            if (k == 0) e = {0, 100 + i, -1}; else if (k == 1) e = {0, -1, 2.5 + i}; else if (k == 2) e = {1, 7 * i, 0}; else if (k == 3) e = {2, 0, .25 * i}; else e = {3, 0, 0};
            if (i > 0) { static const double A[4] = {0, 4, 7, 11}; double a = A[c.choose(4)]; H::advance_ms(a); now += a; }
            const char* nm[] = {"start", "startT", "update", "time", "end"}; tr += std::string(" ") + nm[k] + "@" + std::to_string((int)now); ctx.trace(tr);
            if (e.k == 0) progress::start(k == 0 ? progress::ProgressMode::Samples : progress::ProgressMode::Time, e.v, e.t);
            if (e.k == 1) progress::update(e.v); if (e.k == 2) progress::update_time(e.t); if (e.k == 3) progress::end();
            apply(n, e, now, want);
            ctx.checkf(g_rec == want, "reports", [&] { std::string s = "received:"; for (auto& x : g_rec) s += " [" + x + "]"; s += " expected:"; for (auto& x : want) s += " [" + x + "]"; return s; });
        }
        ctx.state(tr);
        progress::shutdown();
    });
}
SCENARIO("trees2") { run(ctx, 2, 3); }
SCENARIO("trees1") { run(ctx, 1, 4); }
SCENARIO_T("trees2_deep") { run(ctx, 2, 4); }
SCENARIO_T("trees1_deep") { run(ctx, 1, 5); }
SCENARIO_T("trees3") { run(ctx, 3, 2); }
// the default reporter over two seconds of virtual time: never throws, totals of zero included
SCENARIO("scoped_and_invalid") {
    ctx.bound("scoped reports left normally and by exception, nested; delay and multiplexer over missing, unknown or malformed backends");
    H::init(1);
    ctx.explore([&](vp::Chooser& c) {
        g_rec.clear();
        if (c.flip()) {
            int kind = c.choose(2), leave = c.choose(2), ups = c.choose(3); ctx.trace("scoped " + std::to_string(kind * 100 + leave * 10 + ups));
            progress::init("vt", {{"id", "S"}});
            std::vector<std::string> want{kind ? "S start 1 -1 2.5" : "S start 0 9 -1"};
            try {
                auto body = [&] { for (int i = 0; i < ups; i++) { if (kind) { progress::update_time(i); want.push_back("S time " + std::to_string(i)); } else { progress::update(i); want.push_back("S update " + std::to_string(i)); } } if (leave) throw 1; };
                if (kind) { progress::ScopedTimeReport r(2.5); body(); } else { progress::ScopedReport r(9); body(); }
            } catch (int) {}
            want.push_back("S end");
            ctx.check(g_rec == want, "scoped", "scoped report did not report start, updates and end once each");
            progress::shutdown();
        } else {
            static const std::vector<std::pair<std::string, Json>> bad = {
                {"delay", Json{{"delay", 5}, {"progress", Json{{"progress::nope", Json::object()}}}}}, {"delay", Json{{"delay", 5}}}, {"delay", Json{{"progress", Json{{"progress::vt", Json::object()}}}}},
                {"delay", Json{{"delay", 5}, {"progress", Json::object()}}}, {"mux", Json::array({Json{{"progress::nope", Json::object()}}})}, {"mux", Json::array({Json{{"progress::vt", Json::object()}}, Json{{"progress::nope", Json::object()}}})},
                {"delay", Json{{"delay", 5}, {"progress", Json{{"logger::default", Json::object()}}}}}};
            int i = c.choose((int)bad.size()); ctx.trace("invalid " + std::to_string(i)); bool threw = false;
            try { progress::init(bad[i].first, bad[i].second); } catch (const std::exception&) { threw = true; }
            ctx.check(threw, "invalid-accepted", "a backend whose underlying backend cannot be created was accepted");
        }
    });
}
SCENARIO("default_reporter") {
    ctx.bound("default reporter: totals 0,1,5; processed 0..5; elapsed 0/400/600 ms between events; sequences of 4 events");
    H::init(1); log::set_severity(-100);
    ctx.explore([&](vp::Chooser& c) {
        progress::init(); long long total = c.pick(std::vector<long long>{0, 1, 5}); bool tm = c.flip();
        std::string tr = "default total=" + std::to_string(total) + (tm ? " time" : "");
        progress::start(tm ? progress::ProgressMode::Time : progress::ProgressMode::Samples, total, tm ? total : -1);
        std::stringstream ss; auto* old = std::cout.rdbuf(ss.rdbuf());
        double last = 0, now = 0; int want = 0; bool threw = false;
        try {
            for (int i = 0; i < 4; i++) {
                int k = c.choose(4); double a = c.pick(std::vector<double>{0, 400, 600}); H::advance_ms(a); now += a; tr += " " + std::to_string(k) + "@" + std::to_string((int)now);
                if (k < 3) { progress::update(k * total / 2); if (!tm && now - last > 500) { want++; last = now; } } else { progress::update_time(k); if (tm && now - last > 500) { want++; last = now; } }
            }
            progress::end(); want++;
        } catch (const std::exception&) { threw = true; }
        std::cout.rdbuf(old); ctx.trace(tr);
        ctx.check(!threw, "throws", "the default reporter threw");
        int got = 0; for (char ch : ss.str()) got += ch == '\r' || ch == '\n';
        ctx.check(got == want, "default-count", "default reporter printed " + std::to_string(got) + " messages instead of " + std::to_string(want) + ": " + ss.str());
    });
}
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
