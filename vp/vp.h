// Shared driver for the explicit-state / stateless model-checking harnesses.
//
// A harness declares scenarios.  A scenario is a *bounded, exhaustively explored*
// space: its body draws every nondeterministic decision (operation, argument,
// input value, fault point, random number, ...) from Chooser::choose(n) and is
// re-executed until the depth-first search over the whole decision tree is done.
// Scenarios run in forked children, so a crash, a sanitizer report or a hang of
// the code under test is attributed to the exact decision vector being executed.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <algorithm>
#include <stdexcept>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>

namespace vp {

struct Violation { std::string key, msg, choices; };
struct CaseAbort {};   // thrown by fail(): ends the current case only

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

// ------------------------------------------------------------------------------------------------

class Chooser {
public:
    std::vector<int> path, width;   // decisions taken so far and their branching
    size_t pos = 0;
    bool replay_only = false;
    uint64_t transitions = 0;
    char* live = nullptr;           // shared with the parent: survives a crash
    size_t live_cap = 0;

    int choose(int n) {
        if (n <= 0) { fprintf(stderr, "choose(0)\n"); abort(); }
        transitions++;
        int v;
        if (pos < path.size()) {
            v = path[pos];
            if (v >= n) {
                // can only happen on a stale replay file
                v = n - 1; path[pos] = v;
            }
            if (pos >= width.size()) width.push_back(n); else width[pos] = n;
        } else {
            path.push_back(0); width.push_back(n); v = 0;
        }
        pos++;
        publish();
        return v;
    }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
    bool flip() { return choose(2) == 1; }

    void begin() { pos = 0; publish(); }
    // advance to the next leaf; false when the tree is exhausted
    bool next() {
        path.resize(pos); width.resize(pos);
        if (replay_only) return false;
        while (!path.empty()) {
            if (path.back() + 1 < width.back()) { path.back()++; return true; }
            path.pop_back(); width.pop_back();
        }
        return false;
    }
    std::string str() const {
        std::string s;
        for (size_t i = 0; i < pos && i < path.size(); i++) { if (i) s += ','; s += std::to_string(path[i]); }
        return s;
    }
private:
    void publish() {
        if (!live) return;
        size_t n = std::min(pos, path.size());
        int* p = (int*)live;
        size_t cap = live_cap / sizeof(int) - 2;
        if (n > cap) n = cap;
        if (n == 0) { p[0] = 0; return; }
        p[n] = path[n - 1];           // prefix is already there
        if ((size_t)p[0] + 1 != n || republish) { for (size_t i = 0; i < n; i++) p[1 + i] = path[i]; }
        p[0] = (int)n;
    }
public:
    bool republish = false;
};

struct Ctx {
    std::string scenario;
    bool thorough = false;
    int seed = 1;
    std::string scratch;            // private scratch directory
    Chooser ch;
    uint64_t executions = 0, checks = 0, extra_transitions = 0;
    std::unordered_set<uint64_t> states;
    std::unordered_set<uint64_t> nontrivial;
    std::vector<std::string> samples;
    std::map<std::string, Violation> violations;
    std::map<std::string, uint64_t> counters;
    std::string note;               // description of the current case
    std::vector<std::string> bounds;
    bool exhaustive = true;
    double deadline = 0;
    char* live_note = nullptr; size_t live_note_cap = 0;
    bool replaying = false;
    std::string res_path; double t0 = 0;
    [[noreturn]] void bail();       // write what has been found and leave the process (threads cannot be unwound)

    // Record a violation. `key` identifies the failing input/call-site/history.
    [[noreturn]] void fail(const std::string& key, const std::string& msg) { record(key, msg); throw CaseAbort(); }
    void record(const std::string& key, const std::string& msg) {
        auto it = violations.find(key);
        if (it == violations.end()) {
            violations[key] = Violation{key, msg + (note.empty() ? "" : "\n    case: " + note), ch.str()};
            if (replaying) fprintf(stderr, "[violation] %s: %s\n", key.c_str(), msg.c_str());
        }
    }
    void check(bool ok, const std::string& key, const std::string& msg) { checks++; if (!ok) fail(key, msg); }
    template <typename F> void checkf(bool ok, const std::string& key, F&& f) { checks++; if (!ok) fail(key, f()); }
    void state(uint64_t h) { states.insert(h); }
    void state(const std::string& s) { states.insert(hash_str(s)); }
    void trace(const std::string& s) {
        note = s;
        if (live_note) { size_t n = std::min(s.size(), live_note_cap - 1); memcpy(live_note, s.data(), n); live_note[n] = 0; }
    }
    void add_trace(const std::string& s) { trace(note.empty() ? s : note + "; " + s); }
    void bound(const std::string& s) { bounds.push_back(s); }
    void nontriv(const std::string& s) { nontrivial.insert(hash_str(s)); }

    // Explore the whole decision tree of `body`.
    void explore(const std::function<void(Chooser&)>& body) {
        if (!replaying) { ch.path.clear(); ch.width.clear(); }
        do {
            ch.begin();
            trace("");
            try { body(ch); }
            catch (const CaseAbort&) {}
            executions++;
            if (!note.empty()) {
                nontrivial.insert(hash_str(note));
                if (samples.size() < 3 || (samples.size() < 6 && (executions & (executions - 1)) == 0)) samples.push_back(note);
            }
            if (violations.size() >= 40) { exhaustive = false; break; }
            if (deadline > 0 && now() > deadline) { exhaustive = false; counters["deadline_hit"]++; break; }
        } while (ch.next());
    }
};

struct Scenario { std::string name; std::function<void(Ctx&)> fn; int tier; /*0 both, 1 thorough only*/ };
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
struct Reg { Reg(const char* n, std::function<void(Ctx&)> f, int tier = 0) { scenarios().push_back({n, f, tier}); } };
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define SCENARIO(name) \
    static void VP_CAT(scn_, __LINE__)(vp::Ctx&); \
    static vp::Reg VP_CAT(reg_, __LINE__)(name, VP_CAT(scn_, __LINE__)); \
    static void VP_CAT(scn_, __LINE__)(vp::Ctx& ctx)
#define SCENARIO_T(name) \
    static void VP_CAT(scn_, __LINE__)(vp::Ctx&); \
    static vp::Reg VP_CAT(reg_, __LINE__)(name, VP_CAT(scn_, __LINE__), 1); \
    static void VP_CAT(scn_, __LINE__)(vp::Ctx& ctx)

inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        switch (c) {
            case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\n': o += "\\n"; break;
            case '\r': o += "\\r"; break; case '\t': o += "\\t"; break;
            default: if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c;
        }
    }
    return o;
}
inline std::string jstr(const std::string& s) { return "\"" + jesc(s) + "\""; }

inline void write_result(const Ctx& c, const std::string& path, double wall) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"scenario\":%s,\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"nontrivial\":%llu,\"checks\":%llu,\"exhaustive\":%s,\"wall\":%.3f,",
        jstr(c.scenario).c_str(), (unsigned long long)c.executions, (unsigned long long)(c.ch.transitions + c.extra_transitions),
        (unsigned long long)c.states.size(), (unsigned long long)c.nontrivial.size(), (unsigned long long)c.checks, c.exhaustive ? "true" : "false", wall);
    fprintf(f, "\"samples\":[");
    for (size_t i = 0; i < c.samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(c.samples[i].substr(0, 600)).c_str());
    fprintf(f, "],\"bounds\":[");
    for (size_t i = 0; i < c.bounds.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(c.bounds[i]).c_str());
    fprintf(f, "],\"counters\":{");
    { bool first = true; for (auto& kv : c.counters) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second); first = false; } }
    fprintf(f, "},\"violations\":[");
    { bool first = true; for (auto& kv : c.violations) { fprintf(f, "%s{\"key\":%s,\"msg\":%s,\"choices\":%s}", first ? "" : ",",
        jstr(kv.second.key).c_str(), jstr(kv.second.msg.substr(0, 3000)).c_str(), jstr(kv.second.choices).c_str()); first = false; } }
    fprintf(f, "]}\n");
    fclose(f);
}

inline void Ctx::bail() { write_result(*this, res_path, now() - t0); if (replaying) for (auto& v : violations) printf("REPLAYED %s: %s\n", v.second.key.c_str(), v.second.msg.c_str()); fflush(stdout); _exit(3); }

inline int run_main(int argc, char** argv) {
    std::string out = "/tmp", only, choices; bool thorough = false, list = false, replay = false;
    int seed = 1, jobs = 8; double budget = 600;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out") out = val();
        else if (a == "--tier") thorough = val() == "thorough";
        else if (a == "--scenario") only = val();
        else if (a == "--choices") { choices = val(); replay = true; }
        else if (a == "--seed") seed = atoi(val().c_str());
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--budget") budget = atof(val().c_str());
        else if (a == "--list") list = true;
    }
    if (list) { for (auto& s : scenarios()) printf("%s\n", s.name.c_str()); return 0; }
    mkdir(out.c_str(), 0755);
    const size_t LIVE = 1 << 16, NOTE = 1 << 14;
    struct Run { pid_t pid; size_t idx; double t0; char* live; std::string res; };
    std::vector<Run> running;
    std::vector<size_t> todo;
    for (size_t i = 0; i < scenarios().size(); i++) {
        if (!only.empty() && scenarios()[i].name != only) continue;
        if (scenarios()[i].tier == 1 && !thorough && only.empty()) continue;
        todo.push_back(i);
    }
    size_t ti = 0;
    const double T0 = now();
    auto case_of = [&](char* live) {
        int* p = (int*)live; std::string s; int n = p[0];
        if (n < 0 || n > (int)(LIVE / sizeof(int)) - 2) n = 0;
        for (int i = 0; i < n; i++) { if (i) s += ','; s += std::to_string(p[1 + i]); }
        return s;
    };
    while (ti < todo.size() || !running.empty()) {
        while (ti < todo.size() && (int)running.size() < jobs) {
            auto& s = scenarios()[todo[ti]];
            Run r; r.idx = todo[ti]; r.t0 = now(); ti++;
            r.live = (char*)mmap(nullptr, LIVE + NOTE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            std::string base = out + "/" + s.name;
            r.res = base + ".json";
            unlink(r.res.c_str());
            std::string scratch = base + ".d";
            mkdir(scratch.c_str(), 0755);
            fflush(stdout); fflush(stderr);
            r.pid = fork();
            if (r.pid == 0) {
                setpgid(0, 0);
                if (!replay) {
                    std::string lg = base + ".log";
                    if (!freopen(lg.c_str(), "w", stderr)) {}
                    if (!freopen("/dev/null", "w", stdout)) {}
                }
                // keep the descriptor of the log file reachable, everything else quiet
                Ctx c; c.scenario = s.name; c.thorough = thorough; c.seed = seed; c.scratch = scratch;
                c.ch.live = r.live; c.ch.live_cap = LIVE; c.ch.republish = true;
                c.live_note = r.live + LIVE; c.live_note_cap = NOTE;
                c.deadline = T0 + budget * 0.9;
                if (replay) {
                    c.replaying = true; c.ch.replay_only = true;
                    std::stringstream ss(choices); std::string tok;
                    while (std::getline(ss, tok, ',')) if (!tok.empty()) c.ch.path.push_back(atoi(tok.c_str()));
                }
                double t0 = now();
                c.res_path = r.res; c.t0 = t0;
                try { s.fn(c); }
                catch (const CaseAbort&) {}
                catch (const std::exception& e) { c.record("uncaught-exception", std::string("uncaught exception escaped a scenario: ") + e.what()); }
                catch (...) { c.record("uncaught-exception", "uncaught exception of unknown type escaped a scenario"); }
                write_result(c, r.res, now() - t0);
                if (replay) for (auto& v : c.violations) printf("REPLAYED %s: %s\n", v.second.key.c_str(), v.second.msg.c_str());
                fflush(stdout); fflush(stderr);
                _exit(c.violations.empty() ? 0 : 3);
            }
            running.push_back(r);
        }
        bool progressed = false;
        for (size_t i = 0; i < running.size();) {
            int st = 0;
            pid_t p = waitpid(running[i].pid, &st, WNOHANG);
            bool dead = p == running[i].pid, hang = false;
            if (!dead && now() - T0 > budget) {
                kill(-running[i].pid, SIGKILL); kill(running[i].pid, SIGKILL);
                waitpid(running[i].pid, &st, 0); dead = hang = true;
            }
            if (!dead) { i++; continue; }
            progressed = true;
            auto& r = running[i];
            std::string name = scenarios()[r.idx].name;
            bool clean = WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3) && access(r.res.c_str(), R_OK) == 0;
            if (!clean) {
                Ctx c; c.scenario = name; c.exhaustive = false; c.executions = 1;
                std::string why = hang ? "no progress: did not terminate within the time budget"
                    : WIFSIGNALED(st) ? std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")"
                    : "exited with status " + std::to_string(WEXITSTATUS(st));
                Violation v{hang ? "hang" : "crash", "code under test " + why + "\n    case: " + std::string(r.live + LIVE), case_of(r.live)};
                // append the sanitizer / terminate report
                FILE* f = fopen((out + "/" + name + ".log").c_str(), "r");
                if (f) { std::string all; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) { all.append(b, n); if (all.size() > (8u << 20)) break; } fclose(f);
                    size_t q = all.find("ERROR: AddressSanitizer"); if (q == std::string::npos) q = all.size() > 1500 ? all.size() - 1500 : 0;
                    v.msg += "\n    log: " + all.substr(q, 1800); }
                c.violations[v.key] = v;
                write_result(c, r.res, now() - r.t0);
            }
            munmap(r.live, LIVE + NOTE);
            running.erase(running.begin() + i);
        }
        if (!progressed) usleep(2000);
    }
    return 0;
}

} // namespace vp
