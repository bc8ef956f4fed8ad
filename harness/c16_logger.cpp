// C16: the logger emits exactly the admitted messages with the right indentation.
#include "harness/common.h"
#include "mc/mc.h"
#include <lm/loggercontext.h>
#if __has_include(<../src/ext/rang.hpp>)
#include <../src/ext/rang.hpp>
#define VP_RANG 1
#endif
using namespace lm;
namespace {
// captures std::cout; every partial write of the logger is a scheduling point
struct Cap final : std::streambuf {
    std::string s; bool points = false;
    void point() { if (points && mc::active()) mc::yield_point(); }
    std::streamsize xsputn(const char* p, std::streamsize n) override { point(); mc::Ignore ig; s.append(p, n); return n; }
    int overflow(int c) override { point(); mc::Ignore ig; if (c != EOF) s.push_back((char)c); return c; }
    int sync() override { point(); return 0; }
};
struct Redirect { Cap cap; std::streambuf* old; Redirect() { old = std::cout.rdbuf(&cap); } ~Redirect() { std::cout.rdbuf(old); } };
struct Line { char type; std::string body; int prog = 0; };   // prog: 1 progress message, 2 the end of progress
std::string rtrim(std::string b) { while (!b.empty() && b.back() == ' ') b.pop_back(); return b; }
// splits captured output into records; false if it is malformed
bool parse(const std::string& s, std::vector<Line>& out, std::string& why) {
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find_first_of("\n\r", i);
        if (e == std::string::npos) { why = "unterminated output '" + s.substr(i) + "'"; return false; }
        std::string l = s.substr(i, e - i); bool prog = s[e] == '\r'; i = e + 1;
        if (l.size() < 6 || l[0] != '[' || l[2] != '|') { why = "no header in '" + l + "'"; return false; }
        size_t c = l.find("] ");
        if (c == std::string::npos) { why = "no header in '" + l + "'"; return false; }
        std::string b = l.substr(c + 2);
        if (prog) b = rtrim(b);
        out.push_back({l[1], (prog ? "P:" : "L:") + b});
    }
    return true;
}
// what a terminal shows: a progress message replaces the one before it on its line, and nothing of it is left on the line of the end of progress
std::string leftover(const std::string& s, const std::vector<Line>& want) {
    std::string row; size_t i = 0;
    for (auto& w : want) {
        size_t e = s.find_first_of("\n\r", i); if (e == std::string::npos) return "unterminated";
        const std::string l = s.substr(i, e - i);
        const bool over = !row.empty(); if (l.size() > row.size()) row.resize(l.size(), ' '); row.replace(0, l.size(), l);
        if (over && w.prog && rtrim(row) != rtrim(l)) return row;
        if (s[e] == '\n') row.clear();
        i = e + 1;
    }
    return "";
}
std::string ind(int d) { return d > 0 ? std::string(2 * d, '.') + " " : ""; }
std::vector<std::string> lines(const std::string& m) {
    if (m.empty()) return {""};
    std::vector<std::string> r; size_t i = 0;
    while (i < m.size()) { size_t e = m.find('\n', i); if (e == std::string::npos) e = m.size(); r.push_back(m.substr(i, e - i)); i = e + 1; }
    return r;
}
struct Thrown {};
void nested(int depth, int logat) { LM_INDENT(); if (depth == logat) LM_ERROR("deep"); if (depth == 0) throw Thrown(); nested(depth - 1, logat); }

void sequential(vp::Ctx& ctx, int depth, const Json& prop, int part = 0, int parts = 1) {
    ctx.bound("all histories of <= " + std::to_string(depth) + " operations: messages of every level and shape, severities, indentation scopes, exceptions, re-initialisation");
    const std::string big(5000, 'q');
    ctx.explore([&](vp::Chooser& c) {
        Redirect r; std::vector<Line> want; std::string tr; int sev = 0;
        log::init("default", prop);
        std::vector<std::unique_ptr<log::LogIndenter>> open;
        int d0 = 0;   // scopes that were open when the logger was initialised do not count
        auto expect = [&](char t, int s, const std::string& m, int prog = 0) {
            if (s < sev) return;
            const std::string in = ind((int)open.size() - d0);
            if (prog) want.push_back({t, rtrim((prog == 1 ? "P:" : "L:") + in + m), prog});
            else for (auto& l : lines(m)) want.push_back({t, "L:" + in + l});
        };
        for (int i = 0; i < depth; i++) {
            int op = i == 0 && parts > 1 ? part + parts * c.choose(24 / parts) : c.choose(24);
            tr += " " + std::to_string(op); ctx.trace(tr);
            switch (op) {
            case 0: LM_DEBUG("dbg"); expect('D', int(log::LogLevel::Debug), "dbg"); break;
            case 1: LM_INFO("info"); expect('I', int(log::LogLevel::Info), "info"); break;
            case 2: LM_WARN("warn"); expect('W', int(log::LogLevel::Warn), "warn"); break;
            case 3: LM_ERROR("err"); expect('E', int(log::LogLevel::Err), "err"); break;
            case 4: LM_LOG(15, "user"); expect('I', 15, "user"); break;
            case 5: LM_LOG(-1000, "low"); expect('I', -1000, "low"); break;
            case 6: LM_ERROR(""); expect('E', 30, ""); break;
            case 7: LM_WARN("a\nb"); expect('W', 20, "a\nb"); break;
            case 8: LM_WARN("a\n\nb\n"); expect('W', 20, "a\n\nb\n"); break;
            case 9: LM_ERROR("x{}y{}", 1, "{}"); expect('E', 30, "x1y{}"); break;
            case 10: LM_ERROR("{} {0}"); expect('E', 30, "{} {0}"); break;
            case 11: LM_INFO(big); expect('I', 10, big); break;
            case 12: { const int k = c.choose(2); tr += "/" + std::to_string(k); const std::string m = k ? "p 3 of many more to come" : "p 3"; LM_PROGRESS("p {}{}", 3, k ? " of many more to come" : ""); expect('I', int(log::LogLevel::Progress), m, 1); break; }
            case 13: LM_PROGRESS_END("longer progress"); expect('I', int(log::LogLevel::ProgressEnd), "longer progress", 2); break;
            case 14: log::set_severity(log::LogLevel::Debug); sev = int(log::LogLevel::Debug); break;
            case 15: log::set_severity(15); sev = 15; break;
            case 16: log::set_severity(log::LogLevel::Warn); sev = 20; break;
            case 17: log::set_severity(31); sev = 31; break;
            case 18: log::set_severity(1000); sev = 1000; break;
            case 19: open.emplace_back(new log::LogIndenter); break;
            case 20: if (!open.empty()) { open.pop_back(); if (d0 > (int)open.size()) d0 = (int)open.size(); } break;
            case 21: { int k = c.choose(3); tr += "/" + std::to_string(k); try { nested(2, k); } catch (Thrown&) {} for (int q = 0; q < 3 - k; q++) open.emplace_back(); expect('E', 30, "deep"); for (int q = 0; q < 3 - k; q++) open.pop_back(); break; }
            case 22: log::init("default", prop); sev = 0; d0 = (int)open.size(); break;
            case 23: { LM_INDENT(); LM_INFO("in\ndent"); open.emplace_back(); expect('I', 10, "in\ndent"); open.pop_back(); break; }
            }
        }
        while (!open.empty()) { open.pop_back(); if (d0 > (int)open.size()) d0 = (int)open.size(); }
        LM_PROGRESS_END("final"); expect('I', int(log::LogLevel::ProgressEnd), "final", 2);
        std::vector<Line> got; std::string why;
        if (r.cap.s.find('\x1b') != std::string::npos) {
            ctx.check(prop.is_null() || prop.value("color", true), "colours", "escape sequences although colours are off");
            std::string t; bool on = false;
            for (size_t i = 0; i < r.cap.s.size(); i++) {
                if (r.cap.s[i] == '\x1b') { const size_t e = r.cap.s.find('m', i); if (e == std::string::npos) break; on = r.cap.s.substr(i, e - i) != "\x1b[0"; i = e; continue; }
                if (on && (r.cap.s[i] == '\n' || r.cap.s[i] == '\r')) ctx.fail("colours", "the colour of a message runs into the next line");
                t += r.cap.s[i];
            }
            r.cap.s = t;
        }
        ctx.checkf(parse(r.cap.s, got, why), "malformed", [&] { return why; });
        ctx.checkf(got.size() == want.size(), got.size() < want.size() ? "lost" : "extra", [&] { return "emitted " + std::to_string(got.size()) + " lines instead of " + std::to_string(want.size()) + ":\n" + r.cap.s.substr(0, 800); });
        for (size_t i = 0; i < got.size(); i++)
            ctx.checkf(got[i].type == want[i].type && (want[i].prog ? rtrim(got[i].body) : got[i].body) == want[i].body, "content", [&] { return "emitted '" + std::string(1, got[i].type) + got[i].body.substr(0, 200) + "' instead of '" + std::string(1, want[i].type) + want[i].body.substr(0, 200) + "'"; });
        { const auto row = leftover(r.cap.s, want); ctx.checkf(row.empty(), "leftover", [&] { return "the line of a progress message still shows an earlier one: '" + row + "'"; }); }
        ctx.state(vp::hash_str(tr));
    });
    log::shutdown();
}
#if VP_RANG
// as on a terminal: with colours the text is the same apart from escape sequences (and ends uncoloured), without there are none
SCENARIO("colours") {
    rang::setControlMode(rang::control::Force);
    sequential(ctx, 2, {}); sequential(ctx, 2, {{"color", true}, {"show_line_and_filename", false}}); sequential(ctx, 2, {{"color", false}});
    rang::setControlMode(rang::control::Auto);
}
#endif
SCENARIO("history3") { sequential(ctx, 3, {}); }
SCENARIO("history3_short_header") { sequential(ctx, 3, {{"color", false}, {"show_line_and_filename", false}}); }
struct R4 { R4() {
    for (int p = 0; p < 4; p++) vp::scenarios().push_back({"history4_" + std::to_string(p), [=](vp::Ctx& c) { sequential(c, 4, {{"color", false}}, p, 4); }, 0});
    for (int p = 0; p < 24; p++) vp::scenarios().push_back({"history5_" + std::to_string(p), [=](vp::Ctx& c) { sequential(c, 5, {{"color", false}}, p, 24); }, 1});
} } r4;

// ---- a user-defined logger receives every call once, unfiltered ----------------------------------------------------------------
std::vector<std::string> g_rec;
struct RecLogger final : public log::LoggerContext {
    void construct(const Json&) override {}
    void log(log::LogLevel l, int s, const char* f, int line, const char* m) override { g_rec.push_back("log " + std::to_string(int(l)) + " " + std::to_string(s) + " " + f + ":" + std::to_string(line) + " " + m); }
    void update_indentation(int n) override { g_rec.push_back("indent " + std::to_string(n)); }
    void set_severity(int s) override { g_rec.push_back("severity " + std::to_string(s)); }
};
LM_COMP_REG_IMPL(RecLogger, "logger::vt");
SCENARIO("user_logger") {
    ctx.bound("all histories of <= 4 operations against a user-defined logger, and against no logger");
    ctx.explore([&](vp::Chooser& c) {
        const bool on = c.flip(); Redirect r; g_rec.clear();
        if (on) log::init("vt"); else log::shutdown();
        std::vector<std::string> want; std::string plain, tr = on ? "on" : "off";
        for (int i = 0; i < 4; i++) {
            int op = c.choose(6); tr += " " + std::to_string(op); ctx.trace(tr);
            auto w = [&](const std::string& s) { want.push_back(s); };
            if (op == 0) { log::log(log::LogLevel::Warn, 7, "file", 12, "msg\nx"); w("log 20 7 file:12 msg\nx"); plain += "msg\nx\n"; }
            if (op == 1) { log::log(log::LogLevel::Err, -5, "f", 1, std::string("v={}"), 5); w("log 30 -5 f:1 v=5"); plain += "v=5\n"; }
            if (op == 2) { log::log(log::LogLevel::Debug, 1, "f", 2, std::string("{}")); w("log " + std::to_string(int(log::LogLevel::Debug)) + " 1 f:2 {}"); plain += "{}\n"; }
            if (op == 3) { log::set_severity(42); w("severity 42"); }
            if (op == 4) { { LM_INDENT(); } w("indent 1"); w("indent -1"); }
            if (op == 5) { try { nested(1, 9); } catch (Thrown&) {} for (int q : {1, 1, -1, -1}) w("indent " + std::to_string(q)); }
        }
        if (on) { ctx.check(g_rec == want, "forward", "calls received by the user-defined logger differ from the calls made"); ctx.check(r.cap.s.empty(), "stdout", "output besides the user-defined logger"); }
        else ctx.check(r.cap.s == plain, "fallback", "without a logger messages are written as they are; got '" + r.cap.s + "'");
    });
    log::shutdown();
}
// ---- concurrent messages ---------------------------------------------------------------------------------------------------------
void concurrent(vp::Ctx& ctx, int nthreads, int preempt) {
    ctx.bound(std::to_string(nthreads) + " threads, every pair/triple of programs (single line, multi-line, progress, indented message), " + (preempt < 0 ? "all interleavings" : "preemption bound " + std::to_string(preempt)) + " of locks and partial writes");
    ctx.explore([&](vp::Chooser& c) {
        std::vector<int> prog(nthreads); std::string tr = "programs";
        int lo = 0;   // threads are symmetric
        for (auto& p : prog) { p = lo + c.choose(5 - lo); lo = p; tr += " " + std::to_string(p); }
        ctx.trace(tr);
        Redirect r; r.cap.points = true;
        log::init("default", {{"color", false}});
        mc::Config cfg; cfg.preemptions = preempt;
        auto res = mc::run(ctx, c, cfg, [&] {
            mc::parallel(nthreads, [&](int t) {
                const std::string id(1, char('A' + t));
                switch (prog[t]) {
                case 0: log::log(log::LogLevel::Info, 10, "f", 1, ("one" + id).c_str()); break;
                case 1: log::log(log::LogLevel::Warn, 20, "f", 1, ("x" + id + "\ny" + id).c_str()); break;
                case 2: log::log(log::LogLevel::Progress, 100, "f", 1, ("prog" + id).c_str()); break;
                case 3: { log::LogIndenter in; log::log(log::LogLevel::Err, 30, "f", 1, ("ind" + id).c_str()); break; }
                case 4: log::log(log::LogLevel::Info, -1, "f", 1, ("hidden" + id).c_str()); break;
                }
            });
        });
        if (res.redundant) { log::shutdown(); return; }
        r.cap.points = false;
        std::vector<Line> got; std::string why;
        ctx.checkf(parse(r.cap.s, got, why), "interleaved", [&] { return why + "\n" + r.cap.s; });
        ctx.state(r.cap.s.size() + vp::hash_str([&] { std::string s; for (auto& l : got) s += l.body + "|"; return s; }()));
        int maxd = 0; for (int p : prog) if (p == 3) maxd++;
        auto strip = [&](std::string b, int& d) { b = b.substr(2); size_t n = b.find_first_not_of('.'); d = 0; if (n != std::string::npos && n > 0 && n % 2 == 0 && b[n] == ' ') { d = (int)n / 2; b = b.substr(n + 1); } return b; };
        std::vector<std::string> bodies; std::vector<int> dep;
        for (auto& l : got) { int d; bodies.push_back(strip(l.body, d)); dep.push_back(d); ctx.check(d <= maxd, "depth", "indentation deeper than the number of open scopes"); }
        size_t expect = 0;
        for (int t = 0; t < nthreads; t++) {
            const std::string id(1, char('A' + t));
            auto at = [&](const std::string& m) -> int { int f = -1; for (size_t i = 0; i < bodies.size(); i++) if (bodies[i] == m) { ctx.check(f < 0, "duplicate", "message emitted twice: " + m); f = (int)i; } return f; };
            if (prog[t] == 0) { ctx.check(at("one" + id) >= 0, "lost", "message lost\n" + r.cap.s); expect++; }
            if (prog[t] == 1) { int a = at("x" + id), b = at("y" + id); ctx.check(a >= 0 && b >= 0, "lost", "line of a multi-line message lost\n" + r.cap.s); ctx.check(b == a + 1, "interleaved", "another message was written between the lines of a message\n" + r.cap.s); ctx.check(dep[a] == dep[b], "interleaved", "indentation changed within a message"); expect += 2; }
            if (prog[t] == 2) { ctx.check(at("prog" + id) >= 0, "lost", "progress message lost\n" + r.cap.s); expect++; }
            if (prog[t] == 3) { int a = at("ind" + id); ctx.check(a >= 0, "lost", "message lost\n" + r.cap.s); ctx.check(dep[a] >= 1, "indent", "message inside an open scope is not indented\n" + r.cap.s); expect++; }
            if (prog[t] == 4) ctx.check(at("hidden" + id) < 0, "admitted", "message below the severity emitted");
        }
        ctx.check(got.size() == expect, "extra", "more lines than messages\n" + r.cap.s);
        r.cap.s.clear(); log::log(log::LogLevel::Info, 10, "f", 1, "after");
        got.clear(); ctx.check(parse(r.cap.s, got, why) && got.size() == 1 && got[0].body == "L:after", "indent-restored", "after all scopes ended a message is still indented: " + r.cap.s);
        log::shutdown();
    });
}
SCENARIO("two_threads") { concurrent(ctx, 2, -1); }
SCENARIO("three_threads") { concurrent(ctx, 3, 1); }
SCENARIO_T("three_threads_deep") { concurrent(ctx, 3, 2); }
}
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
