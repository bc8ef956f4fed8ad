// Our own __tsan_* / pthread / OpenMP runtime: a stateless model checker for the code of /repo,
// compiled with -fsanitize=thread but linked against this file instead of libtsan.
#include "mc.h"
#include <pthread.h>
#include <dlfcn.h>
#include <semaphore.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <atomic>
#include <thread>
#include <unordered_map>
#include <vector>
#include <deque>
#include <set>
#include <new>
#include <cassert>
#include <execinfo.h>

namespace {

constexpr int MAXT = 8;
struct VC { unsigned c[MAXT] = {}; void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

enum Kind { K_START, K_ATOMIC, K_LOCK, K_TRYLOCK, K_UNLOCK, K_CWAIT, K_CREACQ, K_CSIG, K_CREATE, K_JOIN, K_LOOP, K_BARRIER,
            K_WORKWAIT, K_TEAMEND, K_FORK, K_YIELD, K_GUARD, K_FINISH, K_USER };

struct Op { Kind k = K_START; const void* obj = nullptr; bool write = true; const void* obj2 = nullptr; int arg = 0; };

struct Team;
struct Th {
    int id = 0;
    std::atomic<int> go{0};
    bool finished = false, started = false, detached = false;
    Op op;
    VC vc;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
    pthread_t real{};
    bool have_real = false;
    // openmp
    Team* team = nullptr; int team_id = 0; int ws = 0; bool is_worker = false; bool assigned = false; bool worker_quit = false;
    // condvar
    bool signaled = false; bool timed = false; bool timed_out = false;
    int consecutive = 0;
    long barrier_gen = 0;
};
struct Mutex { int owner = -1; int depth = 0; VC vc; };
struct AtomicLoc { VC vc; };
struct Loop { long next = 0, end = 0, incr = 1, chunk = 1; bool init = false; VC vc; };
struct Team { int n = 1; void (*fn)(void*) = nullptr; void* data = nullptr; int arrived = 0; long gen = 0; int done = 0; bool preloop = false; std::deque<Loop> loops; VC bvc, evc; std::vector<int> single; };

struct Shadow { int wt = -1; unsigned wc = 0; const void* wpc = nullptr; unsigned rc[MAXT] = {}; const void* rpc[MAXT] = {}; uint8_t wmask = 0; uint8_t rmask[MAXT] = {}; };

struct Engine {
    bool on = false;
    vp::Ctx* ctx = nullptr; vp::Chooser* ch = nullptr; mc::Config cfg;
    std::vector<Th*> th;
    int cur = 0;
    int steps = 0, preempts = 0, spurious = 0;
    bool redundant = false, aborted = false;
    std::unordered_map<const void*, Mutex> mutexes;
    std::unordered_map<const void*, AtomicLoc> atomics;
    std::unordered_map<const void*, std::vector<int>> condq;  // waiters in order
    std::unordered_map<uintptr_t, Shadow> shadow;
    std::unordered_map<const void*, int> guards;   // 1 in progress
    std::unordered_map<const void*, VC> guardvc;
    VC fencevc;
    std::vector<std::pair<int, Op>> sleep;
    std::vector<Team*> teams;
    std::vector<int> workers;
    bool multi() const { return th.size() > 1; }
};
Engine E;
thread_local Th* self = nullptr;
thread_local int ignore_depth = 0;
thread_local int in_rt = 0;
struct RT { RT() { in_rt++; } ~RT() { in_rt--; } };   // inside the runtime nothing is an event
int omp_nthreads = 0;
thread_local Team* g_serial = nullptr;   // team of an uncontrolled region (always one thread)
thread_local int g_serial_ws = 0;

// real functions -----------------------------------------------------------------------------------
#define REAL(ret, name, ...) typedef ret (*name##_t)(__VA_ARGS__); name##_t r_##name = nullptr;
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
REAL(int, pthread_join, pthread_t, void**)
REAL(int, pthread_detach, pthread_t)
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec*)
REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)
REAL(int, pthread_cond_signal, pthread_cond_t*)
REAL(int, pthread_cond_broadcast, pthread_cond_t*)
REAL(int, pthread_once, pthread_once_t*, void (*)())
REAL(int, sched_yield, void)
REAL(int, nanosleep, const timespec*, timespec*)
REAL(int, clock_nanosleep, clockid_t, int, const timespec*, timespec*)
template <typename T> void resolve(T& p, const char* n) { if (!p) p = (T)dlsym(RTLD_NEXT, n); }
#define RES(n) resolve(r_##n, #n)
void resolve_all() {
    RES(pthread_create); RES(pthread_join); RES(pthread_detach); RES(pthread_mutex_lock); RES(pthread_mutex_trylock);
    RES(pthread_mutex_unlock); RES(pthread_cond_wait); RES(pthread_cond_timedwait); RES(pthread_cond_clockwait);
    RES(pthread_cond_signal); RES(pthread_cond_broadcast); RES(pthread_once); RES(sched_yield); RES(nanosleep); RES(clock_nanosleep);
}
__attribute__((constructor(101))) void init_rt() { resolve_all(); }

inline bool ctl() { return E.on && self && ignore_depth == 0 && in_rt == 0; }
inline bool ctl_any() { return E.on && self && in_rt == 0; }   // sync primitives are modelled even in Ignore regions of controlled threads

// token passing ----------------------------------------------------------------------------------
void fwait(std::atomic<int>& a) {
    for (int i = 0; i < 200; i++) { if (a.exchange(0)) return; __builtin_ia32_pause(); }
    while (!a.exchange(0)) syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
}
void fwake(std::atomic<int>& a) { a.store(1); syscall(SYS_futex, (int*)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

std::string describe(const Op& o) {
    static const char* n[] = {"start", "atomic", "lock", "trylock", "unlock", "cond_wait", "cond_reacquire", "cond_signal", "create", "join", "omp_next", "barrier",
                              "idle-worker", "team_end", "fork", "yield", "static_init", "finish", "user"};
    return n[o.k];
}

bool enabled(const Th* t) {
    if (t->finished) return false;
    const Op& o = t->op;
    switch (o.k) {
        case K_LOCK: { auto it = E.mutexes.find(o.obj); return it == E.mutexes.end() || it->second.owner == -1 || (o.arg && it->second.owner == t->id); }
        case K_CREACQ: {
            auto it = E.mutexes.find(o.obj2);
            bool freem = it == E.mutexes.end() || it->second.owner == -1;
            return freem && (t->signaled || t->timed || E.spurious < E.cfg.spurious_wakeups);
        }
        case K_JOIN: return E.th[o.arg]->finished;
        case K_WORKWAIT: return t->assigned || t->worker_quit;
        case K_TEAMEND: return t->team && t->team->done >= t->team->n - 1;
        case K_BARRIER: return !t->team || t->team->gen > t->barrier_gen;
        case K_GUARD: { auto it = E.guards.find(o.obj); return it == E.guards.end() || it->second == 0; }
        default: return true;
    }
}

bool dependent(const Op& a, const Op& b) {
    auto local = [](const Op& o) { return o.k == K_START || o.k == K_CREATE || o.k == K_JOIN || o.k == K_WORKWAIT || o.k == K_TEAMEND || o.k == K_FORK || o.k == K_YIELD || o.k == K_FINISH; };
    if (local(a) || local(b)) return false;
    auto uses = [](const Op& o, const void* p) { return p && (o.obj == p || o.obj2 == p); };
    bool share = uses(b, a.obj) || uses(b, a.obj2);
    if (!share) return false;
    if (a.k == K_ATOMIC && b.k == K_ATOMIC) return a.write || b.write;
    return true;
}

[[noreturn]] void bail() {
    E.ctx->executions++;
    E.ctx->exhaustive = false;
    E.ctx->bail();
}

void deadlock() {
    std::string s = "deadlock: no thread can make progress [";
    for (auto* t : E.th) if (!t->finished) s += " T" + std::to_string(t->id) + ":" + describe(t->op);
    E.ctx->record("deadlock", s + " ]");
    bail();
}

// pick who runs next; self must already have published self->op (or be finished)
int pick_next() {
    if (++E.steps > E.cfg.max_steps) {
        E.ctx->record("livelock", "no termination after " + std::to_string(E.cfg.max_steps) + " scheduling points");
        bail();
    }
    std::vector<int> en;
    for (auto* t : E.th) if (enabled(t)) en.push_back(t->id);
    bool real = false;   // a thread that only a spurious wakeup could release does not count as progress
    for (int i : en) { Th* t = E.th[i]; if (t->op.k != K_CREACQ || t->signaled || t->timed) real = true; }
    if (!real) deadlock();
    if (E.redundant) {
        if (enabled(E.th[E.cur]) && E.th[E.cur]->op.k != K_YIELD && ++E.th[E.cur]->consecutive < 300) return E.cur;
        for (int i : en) if (i != E.cur) { E.th[i]->consecutive = 0; return i; }
        return en[0];
    }
    bool cur_en = std::find(en.begin(), en.end(), E.cur) != en.end();
    // put the running thread first: choice 0 is "no preemption"
    if (cur_en) {
        bool spin = E.th[E.cur]->op.k == K_YIELD || E.th[E.cur]->consecutive > 300;
        en.erase(std::find(en.begin(), en.end(), E.cur));
        if (spin && !en.empty()) { en.push_back(E.cur); cur_en = false; }
        else en.insert(en.begin(), E.cur);
    }
    int chosen;
    if (E.cfg.preemptions >= 0) {
        int n = (int)en.size();
        if (cur_en && E.preempts >= E.cfg.preemptions) n = 1;
        int k = n > 1 ? E.ch->choose(n) : 0;
        if (cur_en && k > 0) E.preempts++;
        chosen = en[k];
    } else {
        std::vector<int> cand;
        for (int t : en) {
            bool asleep = false;
            for (auto& s : E.sleep) if (s.first == t) asleep = true;
            if (!asleep) cand.push_back(t);
        }
        if (cand.empty()) { E.redundant = true; return pick_next(); }
        int k = cand.size() > 1 ? E.ch->choose((int)cand.size()) : 0;
        chosen = cand[k];
        const Op& oc = E.th[chosen]->op;
        std::vector<std::pair<int, Op>> ns;
        for (auto& s : E.sleep) if (!dependent(s.second, oc)) ns.push_back(s);
        for (int i = 0; i < k; i++) if (!dependent(E.th[cand[i]]->op, oc)) ns.push_back({cand[i], E.th[cand[i]]->op});
        E.sleep.swap(ns);
    }
    if (chosen == E.cur) E.th[chosen]->consecutive++; else E.th[chosen]->consecutive = 0;
    return chosen;
}

void point(const Op& op) {
    RT rt;
    Th* me = self;
    me->op = op;
    int nx = pick_next();
    if (nx == me->id) return;
    E.cur = nx;
    fwake(E.th[nx]->go);
    fwait(me->go);
}

void finish_thread() {
    RT rt;
    Th* me = self;
    me->op = Op{K_FINISH};
    me->finished = true;
    int nx = pick_next();
    E.cur = nx;
    self = nullptr;
    fwake(E.th[nx]->go);
}

// ---------------------------------------------------------------------------------------- races
std::string sym(const void* pc) {
    Dl_info i;
    char b[64];
    if (dladdr(pc, &i) && i.dli_sname) { snprintf(b, sizeof b, "+0x%lx", (long)((char*)pc - (char*)i.dli_saddr)); return std::string(i.dli_sname).substr(0, 160) + b; }
    snprintf(b, sizeof b, "%p", pc); return b;
}
void race(const char* what, const void* a, const void* pc1, const void* pc2) {
    E.ctx->record("race", std::string("data race (") + what + ") between " + sym(pc1) + " and " + sym(pc2));
}
void mem(const void* p, size_t n, bool write, const void* pc) {
    if (!ctl() || !E.cfg.races || E.th.size() < 2) return;
    RT rt;
    int t = self->id; unsigned* my = self->vc.c;
    uintptr_t a = (uintptr_t)p, e = a + n;
    while (a < e) {
        uintptr_t g = a >> 3; unsigned off = a & 7; unsigned len = std::min<uintptr_t>(8 - off, e - a);
        uint8_t mask = ((1u << len) - 1) << off;
        Shadow& s = E.shadow[g];
        if (s.wt >= 0 && s.wt != t && (s.wmask & mask) && s.wc > my[s.wt]) race(write ? "write/write" : "write/read", p, s.wpc, pc);
        if (write) {
            for (int i = 0; i < MAXT; i++) if (i != t && s.rc[i] > my[i] && (s.rmask[i] & mask)) race("read/write", p, s.rpc[i], pc);
            if (s.wt == t && s.wc == my[t]) s.wmask |= mask; else s.wmask = mask;
            s.wt = t; s.wc = my[t]; s.wpc = pc;
        } else {
            if (s.rc[t] == my[t]) s.rmask[t] |= mask; else s.rmask[t] = mask;
            s.rc[t] = my[t]; s.rpc[t] = pc;
        }
        a += len;
    }
}
void forget(void* p, size_t n) {
    if (!E.on || E.shadow.empty()) return;
    uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
    if (e - a > 4096) { for (auto it = E.shadow.begin(); it != E.shadow.end();) if (it->first >= a && it->first < e) it = E.shadow.erase(it); else ++it; return; }
    for (; a < e; a++) E.shadow.erase(a);
}
bool is_acq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST || o == __ATOMIC_CONSUME; }
bool is_rel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
void tick() { self->vc.c[self->id]++; }
// a: location; rd/wr: what the operation does
void atomic_sync(const void* a, int order, bool rd, bool wr) {
    RT rt;
    auto& l = E.atomics[a];
    if (rd && is_acq(order)) self->vc.join(l.vc);
    if (wr) {
        if (is_rel(order)) { if (rd) l.vc.join(self->vc); else l.vc = self->vc; tick(); }
        else if (!rd) l.vc = VC();
    }
}
struct AtomicOp {
    bool on;
    AtomicOp(const void* a, bool write) : on(ctl() && E.th.size() > 1) { if (on) point(Op{K_ATOMIC, a, write}); }
};

// ------------------------------------------------------------------------------- mutex / condvar
int mutex_kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
void do_lock(pthread_mutex_t* m) {
    RT rt;
    bool rec = mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE_NP;
    point(Op{K_LOCK, m, true, nullptr, rec});
    auto& mu = E.mutexes[m];
    if (rec && mu.owner == self->id) { mu.depth++; return; }
    mu.owner = self->id; mu.depth = 1;
    self->vc.join(mu.vc);
}
void release(pthread_mutex_t* m) {
    RT rt;
    auto& mu = E.mutexes[m];
    mu.vc = self->vc; tick();
    mu.owner = -1;
}
int do_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    RT rt;
    point(Op{K_CWAIT, c, true, m});
    release(m);
    Th* me = self;
    me->signaled = false; me->timed = timed; me->timed_out = false;
    E.condq[c].push_back(me->id);
    point(Op{K_CREACQ, c, true, m});
    auto& q = E.condq[c];
    auto it = std::find(q.begin(), q.end(), me->id);
    if (it != q.end()) q.erase(it);
    bool sig = me->signaled;
    if (!sig && !timed) E.spurious++;
    auto& mu = E.mutexes[m];
    mu.owner = me->id; mu.depth = 1;
    me->vc.join(mu.vc);
    return (!sig && timed) ? ETIMEDOUT : 0;
}

// --------------------------------------------------------------------------------------- threads
Th* new_thread() {
    RT rt;
    if (E.th.size() >= MAXT) { E.ctx->record("internal-too-many-threads", "more than 8 controlled threads"); bail(); }
    Th* t = new Th; t->id = (int)E.th.size();
    t->vc = self->vc; t->vc.c[t->id] = 1;
    tick();
    E.th.push_back(t);
    return t;
}
void* trampoline(void* p) {
    Th* t = (Th*)p;
    fwait(t->go);
    self = t; ignore_depth = 0;
    void* r = t->fn(t->arg);
    t->ret = r;
    finish_thread();
    return r;
}
void start_real(Th* t) {
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    r_pthread_create(&t->real, &at, trampoline, t);
    pthread_attr_destroy(&at);
    t->have_real = true;
}
void* worker_main(void* p) {
    Th* me = self;
    for (;;) {
        point(Op{K_WORKWAIT});
        if (me->worker_quit && !me->assigned) break;
        Team* tm;
        {
            RT rt;
            me->assigned = false;
            tm = me->team;
            me->vc.join(tm->evc);
            me->ws = tm->preloop ? 1 : 0;
        }
        tm->fn(tm->data);
        {
            // implicit barrier at the end of the region
            RT rt;
            tm->bvc.join(me->vc);
            me->vc.c[me->id]++;
            tm->done++;
        }
    }
    return nullptr;
}

void gomp_parallel(void (*fn)(void*), void* data, unsigned nthreads, Loop* pre) {
    if (!ctl_any()) {
        // uncontrolled: serial team of one
        Team* tm; { RT rt; tm = new Team; tm->n = 1; if (pre) tm->loops.push_back(*pre); }
        Team* os = g_serial; int ow = g_serial_ws;
        g_serial = tm; g_serial_ws = pre ? 1 : 0;
        fn(data);
        g_serial = os; g_serial_ws = ow;
        { RT rt; delete tm; }
        return;
    }
    Th* me = self;
    int n = nthreads ? (int)nthreads : omp_nthreads > 0 ? omp_nthreads : E.cfg.hardware_threads;
    Team* outer = me->team; int oid = me->team_id, ows = me->ws;
    if (outer) n = 1;
    if (n > MAXT) n = MAXT;
    Team* tm;
    {
        RT rt;
        tm = new Team; tm->n = n; tm->fn = fn; tm->data = data; tm->preloop = pre != nullptr; if (pre) tm->loops.push_back(*pre);
        E.teams.push_back(tm);
        me->team = tm; me->team_id = 0; me->ws = pre ? 1 : 0;
        while ((int)E.workers.size() < n - 1) {
            Th* t = new_thread(); t->is_worker = true; t->fn = worker_main; t->op = Op{K_WORKWAIT};
            E.workers.push_back(t->id);
            start_real(t);
        }
        tick(); tm->evc = me->vc; tick();
        for (int i = 0; i < n - 1; i++) { Th* w = E.th[E.workers[i]]; w->team = tm; w->team_id = i + 1; w->assigned = true; }
        if (n > 1) point(Op{K_FORK});
    }
    fn(data);
    {
        RT rt;
        if (n > 1) { point(Op{K_TEAMEND}); me->vc.join(tm->bvc); }
        for (int i = 0; i < n - 1; i++) E.th[E.workers[i]]->team = nullptr;
        me->team = outer; me->team_id = oid; me->ws = ows;
    }
}

Team* cur_team() { return E.on && self && self->team ? self->team : g_serial; }
int& cur_ws() { return E.on && self && self->team ? self->ws : g_serial_ws; }
bool team_controlled() { return E.on && self && self->team && self->team->n > 1; }

bool loop_next(long* s, long* e) {
    RT rt;
    Team* tm = cur_team();
    Loop& l = tm->loops[cur_ws() - 1];
    if (team_controlled()) point(Op{K_LOOP, &l});
    if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
    *s = l.next;
    long nx = l.next + l.chunk * l.incr;
    if (l.incr > 0 ? nx > l.end : nx < l.end) nx = l.end;
    *e = nx; l.next = nx;
    return true;
}
bool loop_start(long start, long end, long incr, long chunk, long* s, long* e) {
    RT rt;
    Team* tm = cur_team();
    int i = cur_ws()++;
    while ((int)tm->loops.size() <= i) tm->loops.emplace_back();
    Loop& l = tm->loops[i];
    if (!l.init) { l.init = true; l.next = start; l.end = end; l.incr = incr; l.chunk = chunk > 0 ? chunk : 1; }
    return loop_next(s, e);
}
void team_barrier() {
    if (!team_controlled()) return;
    RT rt;
    Team* tm = self->team;
    tick(); tm->bvc.join(self->vc);
    self->barrier_gen = tm->gen;
    if (++tm->arrived == tm->n) { tm->arrived = 0; tm->gen++; }
    point(Op{K_BARRIER, tm});
    self->vc.join(tm->bvc);
}
pthread_mutex_t omp_critical = PTHREAD_MUTEX_INITIALIZER;

} // namespace

// ================================================================================================
namespace mc {

int tid() { return self ? self->id : -1; }
bool active() { return E.on; }
Ignore::Ignore() { ignore_depth++; }
Ignore::~Ignore() { ignore_depth--; }
Track::Track() { saved = ignore_depth; ignore_depth = 0; }
Track::~Track() { ignore_depth = saved; }
static int user_obj;
void local_point(const void* obj) { if (ctl_any() && E.th.size() > 1) point(Op{K_USER, obj}); }
void yield_point() { if (ctl_any() && E.th.size() > 1) point(Op{K_USER, &user_obj}); }

Result run(vp::Ctx& ctx, vp::Chooser& ch, const Config& cfg, const std::function<void()>& body) {
    resolve_all();
    for (auto* t : E.th) delete t;
    for (auto* t : E.teams) delete t;
    E.th.clear(); E.teams.clear(); E.workers.clear(); E.mutexes.clear(); E.atomics.clear(); E.condq.clear(); E.shadow.clear();
    E.guards.clear(); E.guardvc.clear(); E.fencevc = VC(); E.sleep.clear();
    E.ctx = &ctx; E.ch = &ch; E.cfg = cfg; E.steps = 0; E.preempts = 0; E.spurious = 0; E.redundant = false; E.cur = 0;
    Th* t = new Th; t->id = 0; t->vc.c[0] = 1; E.th.push_back(t);
    self = t; ignore_depth = 0;
    E.on = true;
    std::exception_ptr ep;
    try { body(); } catch (...) { ep = std::current_exception(); }
    // retire pool workers, then wait for every thread that is still alive
    for (int w : E.workers) E.th[w]->worker_quit = true;
    for (auto* x : E.th) if (x->id != 0 && !x->finished) point(Op{K_JOIN, nullptr, true, nullptr, x->id});
    E.on = false;
    self = nullptr;
    for (auto* x : E.th) if (x->have_real && !x->detached) { r_pthread_join(x->real, nullptr); x->have_real = false; }
    Result r; r.steps = E.steps; r.threads = (int)E.th.size(); r.preemptions = E.preempts; r.redundant = E.redundant;
    ctx.extra_transitions += r.steps;
    if (r.redundant) ctx.counters["sleep_set_pruned"]++;
    if (ep) std::rethrow_exception(ep);
    return r;
}

void parallel(int n, const std::function<void(int)>& body) {
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++) ts.emplace_back([&body, i] { body(i); });
    for (auto& t : ts) t.join();
}

} // namespace mc

// ================================================================================================
extern "C" {

// ---- pthread -----------------------------------------------------------------------------------
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    RES(pthread_create);
    if (!ctl_any()) return r_pthread_create(t, a, fn, arg);
    RT rt;
    Th* n = new_thread(); n->fn = fn; n->arg = arg; n->op = Op{K_START};
    start_real(n);
    *t = n->real;
    point(Op{K_CREATE});
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    RES(pthread_join);
    if (!ctl_any()) return r_pthread_join(t, ret);
    RT rt;
    for (auto* x : E.th) if (x->have_real && pthread_equal(x->real, t)) {
        point(Op{K_JOIN, nullptr, true, nullptr, x->id});
        self->vc.join(x->vc);
        x->have_real = false;
        return r_pthread_join(t, ret);
    }
    return r_pthread_join(t, ret);
}
int pthread_detach(pthread_t t) {
    RES(pthread_detach);
    if (ctl_any()) for (auto* x : E.th) if (x->have_real && pthread_equal(x->real, t)) x->detached = true;
    return r_pthread_detach(t);
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (!ctl_any()) { RES(pthread_mutex_lock); return r_pthread_mutex_lock(m); } do_lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!ctl_any()) { RES(pthread_mutex_trylock); return r_pthread_mutex_trylock(m); }
    RT rt;
    point(Op{K_TRYLOCK, m});
    auto& mu = E.mutexes[m];
    if (mu.owner != -1) { if (mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE_NP && mu.owner == self->id) { mu.depth++; return 0; } return EBUSY; }
    mu.owner = self->id; mu.depth = 1; self->vc.join(mu.vc);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!ctl_any()) { RES(pthread_mutex_unlock); return r_pthread_mutex_unlock(m); }
    RT rt;
    auto& mu = E.mutexes[m];
    if (mu.owner != self->id) { E.ctx->record("unlock-not-owner", "mutex unlocked by a thread that does not hold it"); }
    if (mu.depth > 1) { mu.depth--; return 0; }
    point(Op{K_UNLOCK, m});
    release(m);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!ctl_any()) { RES(pthread_cond_wait); return r_pthread_cond_wait(c, m); } return do_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { if (!ctl_any()) { RES(pthread_cond_timedwait); return r_pthread_cond_timedwait(c, m, ts); } return do_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) { if (!ctl_any()) { RES(pthread_cond_clockwait); return r_pthread_cond_clockwait(c, m, k, ts); } return do_wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) {
    if (!ctl_any()) { RES(pthread_cond_signal); return r_pthread_cond_signal(c); }
    RT rt;
    point(Op{K_CSIG, c});
    auto& q = E.condq[c];
    std::vector<int> w; for (int i : q) if (!E.th[i]->signaled) w.push_back(i);
    if (!w.empty()) { int k = (w.size() > 1 && !E.redundant) ? E.ch->choose((int)w.size()) : 0; E.th[w[k]]->signaled = true; }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!ctl_any()) { RES(pthread_cond_broadcast); return r_pthread_cond_broadcast(c); }
    RT rt;
    point(Op{K_CSIG, c});
    for (int i : E.condq[c]) E.th[i]->signaled = true;
    return 0;
}
int sched_yield(void) { if (ctl_any()) { point(Op{K_YIELD}); return 0; } RES(sched_yield); return r_sched_yield(); }
int nanosleep(const timespec* a, timespec* b) { if (ctl_any()) { point(Op{K_YIELD}); return 0; } RES(nanosleep); return r_nanosleep(a, b); }
int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) { if (ctl_any()) { point(Op{K_YIELD}); return 0; } RES(clock_nanosleep); return r_clock_nanosleep(c, f, a, b); }

// ---- function-local statics: same protocol, but blocking goes through the scheduler -------------
int __cxa_guard_acquire(long long* g) {
    if (!ctl_any()) return !*(unsigned char*)g;
    RT rt;
    if (__atomic_load_n((unsigned char*)g, __ATOMIC_ACQUIRE)) { auto it = E.guardvc.find(g); if (it != E.guardvc.end()) self->vc.join(it->second); return 0; }
    if (E.guards[g]) { point(Op{K_GUARD, g}); if (*(unsigned char*)g) { self->vc.join(E.guardvc[g]); return 0; } }
    E.guards[g] = 1;
    return 1;
}
void __cxa_guard_release(long long* g) { if (ctl_any()) { RT rt; E.guards[g] = 0; E.guardvc[g] = self->vc; tick(); } __atomic_store_n((unsigned char*)g, 1, __ATOMIC_RELEASE); }
void __cxa_guard_abort(long long* g) { if (ctl_any()) { RT rt; E.guards[g] = 0; } }

// ---- OpenMP ------------------------------------------------------------------------------------
void omp_set_num_threads(int n) { omp_nthreads = n; }
int omp_get_max_threads() { return omp_nthreads > 0 ? omp_nthreads : E.cfg.hardware_threads; }
int omp_get_num_procs() { return E.cfg.hardware_threads; }
int omp_get_thread_num() { return E.on && self && self->team ? self->team_id : 0; }
int omp_get_num_threads() { return E.on && self && self->team ? self->team->n : 1; }
int omp_in_parallel() { return E.on && self && self->team && self->team->n > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
double omp_get_wtime() { return vp::now(); }
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { gomp_parallel(fn, d, n, nullptr); }
#define PLOOP(nm) void nm(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long chunk, unsigned) { \
    Loop l; l.next = s; l.end = e; l.incr = inc; l.chunk = chunk > 0 ? chunk : 1; l.init = true; gomp_parallel(fn, d, n, &l); }
PLOOP(GOMP_parallel_loop_dynamic) PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic) PLOOP(GOMP_parallel_loop_guided) PLOOP(GOMP_parallel_loop_nonmonotonic_guided) PLOOP(GOMP_parallel_loop_static)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned) { Loop l; l.next = s; l.end = e; l.incr = inc; l.init = true; gomp_parallel(fn, d, n, &l); }
#define LOOP(nm) bool GOMP_loop_##nm##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); } \
                 bool GOMP_loop_##nm##_next(long* a, long* b) { return loop_next(a, b); }
LOOP(dynamic) LOOP(nonmonotonic_dynamic) LOOP(guided) LOOP(nonmonotonic_guided) LOOP(static)
bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long* a, long* b) { return loop_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return loop_next(a, b); }
typedef unsigned long long ull;
#define LOOPU(nm) bool GOMP_loop_ull_##nm##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return loop_start((long)s, (long)e, (long)i, (long)c, (long*)a, (long*)b); } \
                  bool GOMP_loop_ull_##nm##_next(ull* a, ull* b) { return loop_next((long*)a, (long*)b); }
LOOPU(dynamic) LOOPU(nonmonotonic_dynamic) LOOPU(guided) LOOPU(nonmonotonic_guided)
void GOMP_loop_end() { team_barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { team_barrier(); }
bool GOMP_single_start() {
    RT rt;
    Team* tm = cur_team(); if (!tm) return true;
    int i = cur_ws()++; while ((int)tm->loops.size() <= i) tm->loops.emplace_back();
    Loop& l = tm->loops[i]; if (team_controlled()) point(Op{K_LOOP, &l});
    if (l.init) return false; l.init = true; return true;
}
static pthread_mutex_t* crit(void** p) { if (!*p) *p = new pthread_mutex_t(PTHREAD_MUTEX_INITIALIZER); return (pthread_mutex_t*)*p; }
void GOMP_critical_start() { pthread_mutex_lock(&omp_critical); }
void GOMP_critical_end() { pthread_mutex_unlock(&omp_critical); }
void GOMP_critical_name_start(void** p) { pthread_mutex_lock(crit(p)); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(crit(p)); }
static pthread_mutex_t omp_atomic_mu = PTHREAD_MUTEX_INITIALIZER;
void GOMP_atomic_start() { pthread_mutex_lock(&omp_atomic_mu); }
void GOMP_atomic_end() { pthread_mutex_unlock(&omp_atomic_mu); }

// ---- plain memory accesses ----------------------------------------------------------------------
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { mem(p, n, false, PC); } void __tsan_write##n(void* p) { mem(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { mem(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { mem(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { mem(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { mem(p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { mem(p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { mem(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { mem(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { mem(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) mem(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { mem(p, 8, false, PC); }

// ---- atomics ------------------------------------------------------------------------------------
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int mo) { AtomicOp o((void*)a, false); T r = *a; if (o.on) atomic_sync((void*)a, mo, true, false); return r; } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { AtomicOp o((void*)a, true); if (o.on) atomic_sync((void*)a, mo, false, true); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { AtomicOp o((void*)a, true); if (o.on) atomic_sync((void*)a, mo, true, true); T r = *a; *a = v; return r; } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { AtomicOp o((void*)a, true); if (o.on) atomic_sync((void*)a, mo, true, true); T r = *a; *a = r + v; return r; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { AtomicOp o((void*)a, true); if (o.on) atomic_sync((void*)a, mo, true, true); T r = *a; *a = r - v; return r; } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { AtomicOp o((void*)a, true); if (o.on) atomic_sync((void*)a, mo, true, true); T r = *a; *a = r & v; return r; } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { AtomicOp o((void*)a, true); if (o.on) atomic_sync((void*)a, mo, true, true); T r = *a; *a = r | v; return r; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { AtomicOp o((void*)a, true); if (o.on) atomic_sync((void*)a, mo, true, true); T r = *a; *a = r ^ v; return r; } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { AtomicOp o((void*)a, true); if (o.on) atomic_sync((void*)a, mo, true, true); T r = *a; *a = ~(r & v); return r; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { AtomicOp o((void*)a, true); T r = *a; \
    if (r == *c) { if (o.on) atomic_sync((void*)a, mo, true, true); *a = v; return 1; } if (o.on) atomic_sync((void*)a, fmo, true, false); *c = r; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { if (ctl()) { self->vc.join(E.fencevc); E.fencevc.join(self->vc); tick(); } }
void __tsan_atomic_signal_fence(int) {}

// objects that are not lock-free (std::atomic<Vec3>) go through libatomic: model each call as one atomic step
void mc_atomic_load(size_t, void*, void*, int) asm("__atomic_load");
void mc_atomic_load(size_t n, void* p, void* ret, int mo) { AtomicOp o(p, false); memcpy(ret, p, n); if (o.on) atomic_sync(p, mo, true, false); }
void mc_atomic_store(size_t, void*, void*, int) asm("__atomic_store");
void mc_atomic_store(size_t n, void* p, void* v, int mo) { AtomicOp o(p, true); if (o.on) atomic_sync(p, mo, false, true); memcpy(p, v, n); }
void mc_atomic_exchange(size_t, void*, void*, void*, int) asm("__atomic_exchange");
void mc_atomic_exchange(size_t n, void* p, void* v, void* ret, int mo) { AtomicOp o(p, true); if (o.on) atomic_sync(p, mo, true, true); memcpy(ret, p, n); memmove(p, v, n); }
bool mc_atomic_cas(size_t, void*, void*, void*, int, int) asm("__atomic_compare_exchange");
bool mc_atomic_cas(size_t n, void* p, void* e, void* d, int mo, int fmo) {
    AtomicOp o(p, true);
    if (memcmp(p, e, n) == 0) { if (o.on) atomic_sync(p, mo, true, true); memcpy(p, d, n); return true; }
    if (o.on) atomic_sync(p, fmo, true, false);
    memcpy(e, p, n); return false;
}
} // extern "C"

unsigned int std::thread::hardware_concurrency() noexcept { return E.on ? E.cfg.hardware_threads : 2; }

// fresh allocations start with a clean access history
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (E.on && self && in_rt == 0) { RT rt; forget(p, n); } return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
