#include "fsched.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <ucontext.h>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <new>
#include <time.h>
#include <errno.h>
#include <pthread.h>
// This file is compiled without instrumentation.
// It is built as a shared library so that none of its template instantiations are merged with
// instrumented ones.
#include <algorithm>
#define __real_malloc malloc
#define __real_free free
#define __real_memcpy memcpy
#define __real_memmove memmove
#define __real_memset memset
extern "C" { void *__wrap_malloc(size_t); void __wrap_free(void *); }

namespace sched {
static const size_t STACK = 1 << 20;
struct Ws { long next, end, incr, chunk; bool guided = false; unsigned long long unext, uend, uincr, uchunk; };
struct Fiber {
    ucontext_t ctx;
    char *stack = nullptr;
    enum St { Ready, AtBarrier, AtCritical, Done, AtMutex, AtCond, AtJoin } st = Ready;
    void *(*start)(void *) = nullptr;      // in a process: what the thread runs
    void *arg = nullptr, *ret = nullptr;
    const void *mutex = nullptr, *cond = nullptr;
    int joins = -1;
    std::vector<uint32_t> vc;              // what this thread has seen of the others
    int singles = 0, loops = 0;
    const void *critical = nullptr;
};
struct Team {
    int n;
    void (*fn)(void *);
    void *data;
    std::vector<Fiber> f;
    std::vector<char> singleTaken;
    std::vector<Ws> ws;
    bool preWs = false;
    bool process = false, stuck = false;
    int cur = 0;
};
static Team *team = nullptr;          // active team (nested regions run alone)
static int nestedDepth = 0;
static int defaultThreads = 1;
static Config cfg;
static bool configured = false;
static Stats st;
static uint64_t rs = 1;
static size_t planPos = 0;
static long epoch = 0;
static bool inHook = false;
static int atomicDepth = 0;
static std::map<const void *, int> criticalOwner, mutexOwner;
static std::vector<char *> stackPool;
static std::unordered_set<uintptr_t> hotSites, freed;
struct Cell { long epoch; uint8_t r[8], w[8]; uintptr_t site[8]; };
static std::unordered_map<uintptr_t, Cell> cells;
// Happens-before between the threads of a process.
typedef std::vector<uint32_t> Clock;
struct Mark { uint32_t clk; uint8_t tid, mask; bool write; };
static std::unordered_map<uintptr_t, std::vector<Mark>> marks;
static std::unordered_map<const void *, Clock> syncClock;
static void joinClock(Clock &a, const Clock &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i]; }
static std::vector<void *> quarantine;
static long quarantineBytes = 0;

struct Internal { bool was = inHook; Internal() { inHook = true; } ~Internal() { inHook = was; } };
static uint64_t rnd() {
    uint64_t z = (rs += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
void begin(const Config &c) { Internal in; cfg = c; configured = true; rs = c.seed * 77 + 5; planPos = 0; st = Stats(); cells.clear(); marks.clear(); syncClock.clear(); }
void end() { Internal in; configured = false; cells.clear(); marks.clear(); syncClock.clear(); }
Stats stats() { return st; }
bool hot() { return !hotSites.empty(); }
void forgetHot() { Internal in; hotSites.clear(); }
void releaseQuarantine() {
    Internal in;
    for (void *p : quarantine) __real_free(p);
    quarantine.clear();
    freed.clear();
    quarantineBytes = 0;
}
[[noreturn]] static void die(const char *why) {
    fprintf(stderr, "sched: %s\n", why);
    abort();
}

static bool runnable(int i) {
    Fiber &f = team->f[i];
    if (f.st == Fiber::Ready) return true;
    if (f.st == Fiber::AtCritical) { auto it = criticalOwner.find(f.critical); return it == criticalOwner.end() || it->second < 0; }
    if (f.st == Fiber::AtMutex) { auto it = mutexOwner.find(f.mutex); return it == mutexOwner.end() || it->second < 0; }
    if (f.st == Fiber::AtJoin) return team->f[f.joins].st == Fiber::Done;
    return false;
}
static uint64_t rnd();
static void switchTo(int i) {
    int from = team->cur;
    if (i == from) return;
    st.switches++;
    team->cur = i;
    swapcontext(&team->f[from].ctx, &team->f[i].ctx);
}
static int choose(bool stay) {
    int n = team->n, r[160], k = 0, lo = team->process ? 1 : 0;
    if (team->process && configured && cfg.spuriousPerMille)
        for (int i = 1; i < n; i++) if (team->f[i].st == Fiber::AtCond && int(rnd() % 1000) < cfg.spuriousPerMille) team->f[i].st = Fiber::AtMutex;
    for (int i = lo; i < n && k < 160; i++) if (runnable(i)) r[k++] = i;
    if (k == 0) return -1;
    if (!configured) { if (stay && runnable(team->cur)) return team->cur; return r[0]; }
    if (!cfg.plan.empty()) {      // the plan is followed again and again
        int want = cfg.plan[planPos++ % cfg.plan.size()] % n;
        if (want >= lo && runnable(want)) return want;
        for (int d = 1; d < n; d++) if ((want + d) % n >= lo && runnable((want + d) % n)) return (want + d) % n;
    }
    if (cfg.randomSync) return r[rnd() % k];
    return stay && runnable(team->cur) ? team->cur : r[0];
}
static void syncPoint() {      // the current fiber stays runnable or is blocked
    if (!team || nestedDepth || atomicDepth) return;
    st.syncs++;
    int i = choose(true);
    if (i < 0 && team->process) { team->stuck = true; team->cur = 0; setcontext(&team->f[0].ctx); }
    if (i < 0) die("deadlock: no team member can run");
    switchTo(i);
}
void point() { if (configured) syncPoint(); }
static void releaseBarrier() {
    bool all = true, any = false;
    for (auto &f : team->f) { if (f.st != Fiber::AtBarrier) all = false; if (f.st == Fiber::AtBarrier) any = true; }
    if (all && any) { epoch++; for (auto &f : team->f) f.st = Fiber::Ready; }
}
static void barrier() {
    if (!team || nestedDepth) return;
    team->f[team->cur].st = Fiber::AtBarrier;
    releaseBarrier();
    syncPoint();
}
static void fiberMain() {
    team->fn(team->data);
    team->f[team->cur].st = Fiber::Done;
    int left = 0;
    for (auto &f : team->f) if (f.st != Fiber::Done) left++;
    if (left == 0) {            // everybody is done: the encountering thread goes on
        team->cur = 0;
        setcontext(&team->f[0].ctx);
    }
    st.syncs++;
    int i = choose(false);
    if (i < 0) die("deadlock: a barrier is not reached by every team member");
    st.switches++;
    team->cur = i;
    setcontext(&team->f[i].ctx);
}
static void run(void (*fn)(void *), void *data, unsigned nt, Ws *pre) {
    if (team) {                 // nested region: a team of one
        nestedDepth++;
        fn(data);
        nestedDepth--;
        return;
    }
    Team t;
    t.n = nt ? (int) nt : defaultThreads;
    if (t.n < 1) t.n = 1;
    t.fn = fn; t.data = data;
    t.f.resize(t.n);
    if (pre) { t.ws.push_back(*pre); t.preWs = true; for (auto &f : t.f) f.loops = 1; }
    st.regions++;
    if (t.n > st.maxTeam) st.maxTeam = t.n;
    epoch++;
    team = &t;
    volatile bool finished = false;
    for (int i = 1; i < t.n; i++) {
        Fiber &f = t.f[i];
        if (stackPool.empty()) stackPool.push_back((char *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        f.stack = stackPool.back();
        stackPool.pop_back();
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = f.stack;
        f.ctx.uc_stack.ss_size = STACK;
        f.ctx.uc_link = nullptr;
        makecontext(&f.ctx, (void (*)()) fiberMain, 0);
    }
    syncPoint();                // anybody may start
    fn(data);                   // member 0 on the encountering thread's own stack
    t.f[0].st = Fiber::Done;
    int left = 0;
    for (auto &f : t.f) if (f.st != Fiber::Done) left++;
    if (left) {
        st.syncs++;
        getcontext(&t.f[0].ctx);
        bool more = false;
        for (auto &f : t.f) if (f.st != Fiber::Done) more = true;
        if (more) {
            int i = choose(false);
            if (i < 0) die("deadlock: a barrier is not reached by every team member");
            st.switches++;
            team->cur = i;
            swapcontext(&t.f[0].ctx, &t.f[i].ctx);
        }
    }
    (void) finished;
    for (int i = 1; i < t.n; i++) stackPool.push_back(t.f[i].stack);
    epoch++;
    team = nullptr;
}
static void threadMain() {
    Fiber &f = team->f[team->cur];
    f.ret = f.start(f.arg);
    f.st = Fiber::Done;
    int i = choose(false);
    if (i < 0) {
        for (int k = 1; k < team->n; k++) if (team->f[k].st != Fiber::Done) team->stuck = true;
        i = 0;
    }
    st.switches++;
    team->cur = i;
    setcontext(&team->f[i].ctx);
}
static int spawn(void *(*start)(void *), void *arg) {
    if (team->n >= 150) die("too many threads");
    int k = team->n;
    Fiber &f = team->f[k];
    f.start = start; f.arg = arg;
    Fiber &parent = team->f[team->cur];
    f.vc = parent.vc;
    f.vc.resize(160, 0);
    parent.vc.resize(160, 0);
    f.vc[k]++; parent.vc[team->cur]++;
    if (stackPool.empty()) stackPool.push_back((char *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    f.stack = stackPool.back();
    stackPool.pop_back();
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack;
    f.ctx.uc_stack.ss_size = STACK;
    f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, (void (*)()) threadMain, 0);
    team->n++;
    return k;
}
struct MainFn { void (*fn)(void *); void *data; };
static void *mainStart(void *p) { MainFn *m = (MainFn *) p; m->fn(m->data); return nullptr; }
bool process(void (*fn)(void *), void *data) {
    Team t;
    t.n = 1;
    t.process = true;
    t.fn = nullptr; t.data = nullptr;
    t.f.resize(150);
    t.f[0].st = Fiber::Done;
    epoch++;
    team = &t;
    MainFn m{fn, data};
    { Internal in; mutexOwner.clear(); spawn(mainStart, &m); }
    team->cur = 1;
    swapcontext(&t.f[0].ctx, &t.f[1].ctx);
    Internal in;
    for (int i = 1; i < t.n; i++) stackPool.push_back(t.f[i].stack);
    epoch++;
    team = nullptr;
    mutexOwner.clear();
    return !t.stuck;
}
int thread() { return team && !nestedDepth ? team->cur : 0; }
static bool inProcess() { return team && team->process && !inHook; }
static void acquire(const void *m) { Internal in; auto it = syncClock.find(m); if (it != syncClock.end()) joinClock(team->f[team->cur].vc, it->second); }
static void release(const void *m) { Internal in; Fiber &f = team->f[team->cur]; joinClock(syncClock[m], f.vc); f.vc[team->cur]++; }
static void both(const volatile void *p) { if (inProcess() && configured && cfg.races) { acquire((const void *) p); release((const void *) p); } }
static void race(uintptr_t a, size_t size, bool write) {
    int me = team->cur;
    Clock &vc = team->f[me].vc;
    for (uintptr_t g = a >> 3; g <= (a + size - 1) >> 3; g++) {
        uintptr_t lo = std::max(a, g << 3), hi = std::min(a + size, (g + 1) << 3);
        uint8_t m = uint8_t(((1u << (hi - lo)) - 1) << (lo & 7));
        auto &v = marks[g];
        bool found = false;
        for (auto &k : v) {
            if (k.tid == me) { if (k.mask == m && k.write == write) { k.clk = vc[me]; found = true; } continue; }
            if ((k.mask & m) && (k.write || write) && k.clk > vc[k.tid]) die("data race");
        }
        if (!found) v.push_back(Mark{vc[me], (uint8_t) me, m, write});
    }
}
static void lockMutex(const void *m) {
    Fiber &f = team->f[team->cur];
    f.mutex = m;
    f.st = Fiber::AtMutex;                 // runnable as long as nobody owns it
    syncPoint();
    { Internal in; mutexOwner[m] = team->cur; }
    acquire(m);
    f.st = Fiber::Ready;
}
static int self() { return team && !nestedDepth ? team->cur : 0; }

// ------------------------------------------------------------- memory accesses
static void access(uintptr_t a, size_t size, bool write, uintptr_t site) {
    if (inHook) return;
    if (!freed.empty() && freed.count(a >> 3)) { inHook = true; die(write ? "write to freed memory" : "read of freed memory"); }
    if (!team || nestedDepth || !configured || atomicDepth) return;
    inHook = true;
    st.accesses++;
    if (team->process && cfg.races) race(a, size, write);
    bool isHot = cfg.hotPerMille && hotSites.count(site);
    if (cfg.detect && team->n > 1 && team->n <= 8) {
        int me = team->cur;
        bool own = team->f[me].stack && a >= (uintptr_t) team->f[me].stack && a < (uintptr_t) team->f[me].stack + STACK;
        if (!own) for (uintptr_t g = a >> 3; g <= (a + size - 1) >> 3; g++) {
            uintptr_t lo = std::max(a, g << 3), hi = std::min(a + size, (g + 1) << 3);
            uint8_t m = uint8_t(((1u << (hi - lo)) - 1) << (lo & 7));
            Cell &c = cells[g];
            if (c.epoch != epoch) { memset(&c, 0, sizeof c); c.epoch = epoch; }
            for (int o = 0; o < team->n; o++) if (o != me && (((c.w[o] & m)) || (write && (c.r[o] & m)))) {
                if (hotSites.size() < 5000) { hotSites.insert(site); hotSites.insert(c.site[o]); }
                st.conflicts++;
            }
            (write ? c.w : c.r)[me] |= m;
            c.site[me] = site;
        }
    }
    int p = isHot ? cfg.hotPerMille : cfg.preemptPerMille;
    bool sw = p && int(rnd() % 1000) < p;
    inHook = false;
    if (sw) {
        int r[160], k = 0;
        for (int i = team->process ? 1 : 0; i < team->n && k < 160; i++) if (i != team->cur && runnable(i)) r[k++] = i;
        if (k) switchTo(r[rnd() % k]);
    }
}
} // namespace sched
using namespace sched;
#define SITE ((uintptr_t) __builtin_return_address(0))

extern "C" {
void omp_set_num_threads(int n) { defaultThreads = n < 1 ? 1 : n; }
int omp_get_num_threads() { return team && !nestedDepth ? team->n : 1; }
int omp_get_max_threads() { return defaultThreads; }
int omp_get_thread_num() { return self(); }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team != nullptr; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_level() { return team ? 1 : 0; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { run(fn, data, nt, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nt, unsigned) { die("task reductions are not supported"); }
void GOMP_barrier() { barrier(); }
bool GOMP_single_start() {
    if (!team || nestedDepth) return true;
    syncPoint();
    int k = team->f[team->cur].singles++;
    if ((int) team->singleTaken.size() <= k) team->singleTaken.resize(k + 1, 0);
    if (team->singleTaken[k]) return false;
    team->singleTaken[k] = 1;
    return true;
}
struct CopyPriv { void *p; };
static std::map<int, void *> copyPriv;
void *GOMP_single_copy_start() {
    if (!team || nestedDepth) return nullptr;
    int k = team->f[team->cur].singles;
    if (GOMP_single_start()) return nullptr;
    barrier();
    return copyPriv[k];
}
void GOMP_single_copy_end(void *d) {
    if (!team || nestedDepth) return;
    copyPriv[team->f[team->cur].singles - 1] = d;
    barrier();
}
static const char unnamed = 0;
static void enter(const void *c) {
    if (!team || nestedDepth) return;
    syncPoint();
    while (true) {
        auto it = criticalOwner.find(c);
        if (it == criticalOwner.end() || it->second < 0) { criticalOwner[c] = team->cur; break; }
        team->f[team->cur].st = Fiber::AtCritical;
        team->f[team->cur].critical = c;
        syncPoint();
    }
    team->f[team->cur].st = Fiber::Ready;
}
static void leave(const void *c) {
    if (!team || nestedDepth) return;
    criticalOwner[c] = -1;
    syncPoint();
}
void GOMP_critical_start() { enter(&unnamed); }
void GOMP_critical_end() { leave(&unnamed); }
void GOMP_critical_name_start(void **p) { enter(p); }
void GOMP_critical_name_end(void **p) { leave(p); }
void GOMP_atomic_start() { syncPoint(); atomicDepth++; }
void GOMP_atomic_end() { atomicDepth--; }

static Ws *loopOf(bool fresh, const Ws &init) {
    static Ws alone;
    if (!team || nestedDepth) { if (fresh) alone = init; return &alone; }
    Fiber &f = team->f[team->cur];
    if (fresh) { if ((int) team->ws.size() <= f.loops) team->ws.resize(f.loops + 1, Ws{0, 0, 0, 0}); if (team->ws[f.loops].incr == 0) team->ws[f.loops] = init; f.loops++; }
    return &team->ws[f.loops - 1];
}
static bool takeChunk(Ws *w, long *s, long *e) {
    syncPoint();
    long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
    if (left <= 0) return false;
    long n = w->chunk > 0 ? w->chunk : 1;
    if (w->guided) n = std::max(n, left / (2 * omp_get_num_threads()));
    n = std::min(n, left);
    *s = w->next;
    w->next += n * w->incr;
    *e = w->next;
    return true;
}
#define LOOP(NAME, G) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { Ws w{s, e, i, c}; w.guided = G; return takeChunk(loopOf(true, w), is, ie); } \
    bool GOMP_loop_##NAME##_next(long *is, long *ie) { return takeChunk(loopOf(false, Ws{}), is, ie); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { Ws w{s, e, i, c}; w.guided = G; run(fn, d, nt, &w); } \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { Ws w{(long) s, (long) e, (long) i, (long) c}; w.guided = G; return takeChunk(loopOf(true, w), (long *) is, (long *) ie); } \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, unsigned long long *ie) { return takeChunk(loopOf(false, Ws{}), (long *) is, (long *) ie); }
LOOP(dynamic, false)
LOOP(nonmonotonic_dynamic, false)
LOOP(guided, true)
LOOP(nonmonotonic_guided, true)
LOOP(static, false)
#define LOOPR(NAME) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long *is, long *ie) { Ws w{s, e, i, 1}; return takeChunk(loopOf(true, w), is, ie); } \
    bool GOMP_loop_##NAME##_next(long *is, long *ie) { return takeChunk(loopOf(false, Ws{}), is, ie); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) { Ws w{s, e, i, 1}; run(fn, d, nt, &w); }
LOOPR(runtime)
LOOPR(maybe_nonmonotonic_runtime)
LOOPR(nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }

// ------------------------------------------------------------- threads, mutexes, conditions
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!inProcess()) return 0;
    { Internal in; auto it = mutexOwner.find(m); if (it != mutexOwner.end() && it->second == team->cur) die("a thread locks a mutex it holds"); }
    lockMutex(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!inProcess()) return 0;
    syncPoint();
    Internal in;
    auto it = mutexOwner.find(m);
    if (it != mutexOwner.end() && it->second >= 0) return EBUSY;
    mutexOwner[m] = team->cur;
    acquire(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!inProcess()) return 0;
    { Internal in; auto it = mutexOwner.find(m); if (it == mutexOwner.end() || it->second != team->cur) die("a thread unlocks a mutex it does not hold"); release(m); it->second = -1; }
    syncPoint();
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!inProcess()) die("waiting for a condition nobody can signal");
    syncPoint();                           // between testing the predicate and going to sleep
    { Internal in; auto it = mutexOwner.find(m); if (it == mutexOwner.end() || it->second != team->cur) die("waiting without holding the mutex"); release(m); it->second = -1; }
    Fiber &f = team->f[team->cur];
    f.cond = c; f.mutex = m;
    f.st = Fiber::AtCond;
    syncPoint();
    { Internal in; mutexOwner[m] = team->cur; }
    acquire(m);
    f.st = Fiber::Ready;
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { pthread_cond_wait(c, m); return 0; }
static void wake(const void *c, bool all) {
    Internal in;
    int r[160], k = 0;
    for (int i = 1; i < team->n; i++) if (team->f[i].st == Fiber::AtCond && team->f[i].cond == c) r[k++] = i;
    if (!k) return;
    if (all) for (int i = 0; i < k; i++) team->f[r[i]].st = Fiber::AtMutex;
    else team->f[r[configured ? rnd() % k : 0]].st = Fiber::AtMutex;
}
int pthread_cond_signal(pthread_cond_t *c) { if (!inProcess()) return 0; syncPoint(); wake(c, false); syncPoint(); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!inProcess()) return 0; syncPoint(); wake(c, true); syncPoint(); return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_create(pthread_t *id, const pthread_attr_t *, void *(*start)(void *), void *arg) {
    if (!inProcess()) die("a thread is created outside a process");
    { Internal in; *id = (pthread_t) spawn(start, arg); }
    syncPoint();
    return 0;
}
int pthread_join(pthread_t id, void **ret) {
    if (!inProcess()) die("a thread is joined outside a process");
    Fiber &f = team->f[team->cur];
    f.joins = (int) id;
    f.st = Fiber::AtJoin;
    syncPoint();
    { Internal in; joinClock(f.vc, team->f[id].vc); }
    f.st = Fiber::Ready;
    if (ret) *ret = team->f[id].ret;
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
int sched_yield() { if (inProcess()) syncPoint(); return 0; }

// ------------------------------------------------------------- compiler hooks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void *a) { access((uintptr_t) a, N, false, SITE); } \
    void __tsan_write##N(void *a) { access((uintptr_t) a, N, true, SITE); } \
    void __tsan_unaligned_read##N(void *a) { access((uintptr_t) a, N, false, SITE); } \
    void __tsan_unaligned_write##N(void *a) { access((uintptr_t) a, N, true, SITE); } \
    void __tsan_volatile_read##N(void *a) { access((uintptr_t) a, N, false, SITE); } \
    void __tsan_volatile_write##N(void *a) { access((uintptr_t) a, N, true, SITE); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) access((uintptr_t) a, n, false, SITE); }
void __tsan_write_range(void *a, size_t n) { if (n) access((uintptr_t) a, n, true, SITE); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define ATOM(B, T) \
    T __tsan_atomic##B##_load(const volatile T *p, int) { syncPoint(); both(p); return *p; } \
    void __tsan_atomic##B##_store(volatile T *p, T v, int) { syncPoint(); both(p); *p = v; } \
    T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { syncPoint(); both(p); T o = *p; *p = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { syncPoint(); both(p); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { syncPoint(); both(p); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { syncPoint(); both(p); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { syncPoint(); both(p); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { syncPoint(); both(p); T o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { syncPoint(); both(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { syncPoint(); both(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) { syncPoint(); both(p); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------- memory that stays recognisably freed
void *__wrap_malloc(size_t n) {
    size_t *p = n > (1ull << 30) ? nullptr : (size_t *) __real_malloc(n + 16);
    if (!p) return nullptr;
    p[0] = n;
    p[1] = 0x5AFEB10C5AFEB10Cull;
    memset(p + 2, 0xBE, n < (1u << 20) ? n : (1u << 20));
    return p + 2;
}
void __wrap_free(void *q) {
    if (!q) return;
    size_t *p = (size_t *) q - 2;
    if (p[1] == 0xDEADB10CDEADB10Cull) die("double free");
    if (p[1] != 0x5AFEB10C5AFEB10Cull) { __real_free(q); return; }     // not ours
    p[1] = 0xDEADB10CDEADB10Cull;
    if (inHook || (team == nullptr && !configured)) { memset(q, 0xDD, p[0] < (1u << 20) ? p[0] : (1u << 20)); __real_free(p); return; }
    Internal in;
    memset(q, 0xDD, p[0] < (1u << 20) ? p[0] : (1u << 20));
    if (p[0] < (1u << 20) && quarantineBytes < (64 << 20)) {
        for (uintptr_t a = (uintptr_t) q; a + 8 <= (uintptr_t) q + p[0]; a += 8) freed.insert(a >> 3);
        quarantineBytes += p[0];
        quarantine.push_back(p);
    } else __real_free(p);
}
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { access((uintptr_t) s, n, false, SITE); access((uintptr_t) d, n, true, SITE); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { access((uintptr_t) s, n, false, SITE); access((uintptr_t) d, n, true, SITE); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { if (n) access((uintptr_t) d, n, true, SITE); return __real_memset(d, v, n); }
} // extern "C"

static void *orThrow(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return orThrow(n); }
void *operator new[](size_t n) { return orThrow(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return __wrap_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
