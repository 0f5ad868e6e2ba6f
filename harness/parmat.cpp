// Conformance harness for C21: the parallel R-MAT generator.  Built twice: with AddressSanitizer
// and real threads, and with -DCONTROLLED on the controlled scheduler of fsched.cpp.
// usage: parmat OUT
#ifdef CONTROLLED
#include "fsched.h"
#endif
#include "common.h"
#include <future>
#include <random>
#include <thread>
#include <unistd.h>
#define main parmat_main
#include "PaRMAT/src/PaRMAT.cpp"
#undef main
#include "PaRMAT/src/utils.cpp"
#include "PaRMAT/src/Square.cpp"
#include "PaRMAT/src/Edge.cpp"
#include "PaRMAT/src/GraphGen_sorted.cpp"
#include "PaRMAT/src/GraphGen_notSorted.cpp"
using namespace vh;
extern "C" char __libc_single_threaded;

// Everything random is decided here.
static uint64_t entropy = 1;
static int randMode = 0;
static long fakePages = 0;
__attribute__((no_sanitize("thread"))) static uint64_t draw() {
    uint64_t z = __atomic_add_fetch(&entropy, 0x9E3779B97F4A7C15ull, __ATOMIC_RELAXED);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
extern "C" {
unsigned int _ZNSt13random_device9_M_getvalEv(void *) { return (unsigned) draw(); }
time_t time(time_t *t) { time_t v = (time_t) (draw() >> 33); if (t) *t = v; return v; }
void srand(unsigned) {}
int rand() {
    if (randMode == 1) return draw() & 1 ? RAND_MAX : 0;
    if (randMode == 2) return RAND_MAX;
    if (randMode == 3) return 0;
    return (int) (draw() >> 33);
}
long __sysconf(int);
long sysconf(int n) {
    if (n == _SC_PHYS_PAGES && fakePages) return fakePages;
    return __sysconf(n);
}
}

struct Job {
    int api = 0;                      // 0 vector, 1 unsorted file, 2 sorted file, 3 command line unsorted, 4 sorted
    long m = 1, n = 2, cap = 1;
    int threads = 1;
    double a = .45, b = .22, c = .22;
    bool loops = true, dups = true, directed = true;
    std::string file;
    std::vector<std::pair<int64_t, int64_t>> edges;
    bool ok = true;
};
static void work(void *p) {
    Job &j = *(Job *) p;
    if (j.api == 0) { j.edges = GraphGen_notSorted::GenerateGraph(j.m, j.n, j.a, j.b, j.c, j.threads, j.cap, j.loops, j.dups, j.directed); return; }
    if (j.api < 3) {
        std::ofstream f(j.file);
        if (j.api == 1) j.ok = GraphGen_notSorted::GenerateGraph(j.m, j.n - 1, j.a, j.b, j.c, j.threads, f, j.cap, j.loops, j.dups, j.directed) == EXIT_SUCCESS;
        else j.ok = GraphGen_sorted::GenerateGraph(j.m, j.n - 1, j.a, j.b, j.c, j.threads, f, j.cap, j.loops, j.dups, j.directed) == EXIT_SUCCESS;
        return;
    }
    std::vector<std::string> s = {"PaRMAT", "-nEdges", std::to_string(j.m), "-nVertices", std::to_string(j.n), "-a", std::to_string(j.a), "-b", std::to_string(j.b),
                                  "-c", std::to_string(j.c), "-threads", std::to_string(j.threads), "-output", j.file, "-memUsage", "0.5"};
    if (!j.loops) s.push_back("-noEdgeToSelf");
    if (!j.dups) s.push_back("-noDuplicateEdges");
    if (!j.directed) s.push_back("-undirected");
    if (j.api == 4) s.push_back("-sorted");
    std::vector<char *> argv;
    for (auto &x : s) argv.push_back(&x[0]);
    fakePages = (j.cap * 2 * (j.m < 10000 ? 1 : j.threads) * (long) sizeof(Edge) * 2 + 4095) / __sysconf(_SC_PAGE_SIZE);      // rounds the capacity up
    j.ok = parmat_main((int) argv.size(), argv.data()) == EXIT_SUCCESS;
}
static std::string head(const std::string &id, const std::string &kind, const std::string &what, const std::string &crash) {
    return "{\"id\":" + jsonStr(id) + ",\"kind\":" + jsonStr(kind) + ",\"what\":" + jsonStr(what) + ",\"crash\":" + jsonStr(crash);
}
static const char *B(bool b) { return b ? "true" : "false"; }
static std::string jsonSquares(std::vector<Square> &v) {
    std::string o = "[";
    for (auto &s : v) {
        long long n = (long long) s.getnEdges();
        if (o.size() > 1) o += ",";
        o += "[" + std::to_string(s.get_X_start()) + "," + std::to_string(s.get_X_end()) + "," + std::to_string(s.get_Y_start()) + "," + std::to_string(s.get_Y_end()) + "," +
             std::to_string(n < 0 || n > 2000000000 ? -1 : n) + "]";
    }
    return o + "]";
}
static void probabilities(Rng &g, double &a, double &b, double &c, bool wild) {
    switch (g.upto(wild ? 7 : 3)) {
        case 0: a = .45; b = .22; c = .22; break;
        case 1: a = .25; b = .25; c = .25; break;
        case 2: a = .57; b = .19; c = .19; break;
        case 3: a = .6; b = .2; c = .2; break;                    // nothing is left for the fourth part
        case 4: a = .9; b = .05; c = .05; break;
        case 5: a = .5; b = 0; c = .25; break;
        default: a = .05; b = .1; c = .05;
    }
}
static std::string regions(const std::string &id, Rng &g) {
    bool directed = g.chance(50);
    int n = g.in(2, 24), splits = g.in(1, 5);
    double a, b, c;
    probabilities(g, a, b, c, true);
    long m = g.chance(30) ? g.in(0, 6) : g.in(1, 3000);
    std::vector<Square> v(1, Square(0, n - 1, 0, n - 1, m, 0, 0, 0));
    randMode = g.upto(4);
    std::string r;
    for (int k = 0; k < splits; k++) {
        std::vector<unsigned> can;
        for (unsigned i = 0; i < v.size(); i++) if (v[i].get_X_start() < v[i].get_X_end() && v[i].get_Y_start() < v[i].get_Y_end()) can.push_back(i);
        if (can.empty()) break;
        std::vector<Square> before = v;
        ShatterSquare(v, a, b, c, g.pick(can), directed);
        r += head(id + "." + std::to_string(k), "regions", "", "") + ",\"n\":" + std::to_string(n) + ",\"directed\":" + B(directed) + ",\"before\":" + jsonSquares(before) + ",\"after\":" + jsonSquares(v) + "}\n";
    }
    return r;
}
static std::string what(const Job &j) {
    static const char *api[] = {"vector", "file", "sorted file", "command", "sorted command"};
    char buf[300];
    snprintf(buf, sizeof buf, "%s m=%ld n=%ld cap=%ld threads=%d abc=%g/%g/%g rand=%d%s%s%s", api[j.api], j.m, j.n, j.cap, j.threads, j.a, j.b, j.c, randMode, j.loops ? "" : " noloops", j.dups ? "" : " nodups", j.directed ? "" : " undirected");
    return buf;
}
static Runner *runner;
static std::string graph(const std::string &id, Rng &g, int x) {
    Job j;
#ifdef CONTROLLED
    j.api = g.upto(3);
    bool big = false;
#else
    j.api = g.upto(5);
    bool big = x % (thorough() ? 8 : 16) == 5;
#endif
    randMode = g.chance(50) ? 0 : g.upto(4);
    j.threads = g.chance(20) ? 1 : g.in(2, 6);
    j.loops = g.chance(50);
    j.dups = g.chance(40);
    j.directed = g.chance(50);
    probabilities(g, j.a, j.b, j.c, j.dups);
    j.n = big ? g.in(400, 1200) : g.chance(30) ? g.in(4, 20) : g.in(20, 70);
    long cells = j.n * j.n / (j.directed ? 1 : 2);
    // How deep the regions get split, and whether there is room in the fullest one then: a request
    // that leaves no room (a region of few cells with many edges) is not one the generator can meet.
    auto roomFor = [&]() {
        bool sorted = j.api == 2 || j.api == 4;
        double d = 1 - j.a - j.b - j.c, share = sorted ? std::max(j.a + j.c + (j.directed ? 0 : j.b), j.b + d) : std::max(std::max(j.a, d), j.b + j.c);
        int L = 0;
        double left = j.m;
        while (left * (L ? 1.05 : 1) > j.cap && L < 20) { left = left * share * 1.01 + 3 * (sorted ? 1 << L : 1); L++; }      // (shares are rounded down, the rest goes to the last part)
        int T = 0;
        for (int have = 1; have < j.threads; sorted ? have *= 2 : have += 2) T++;           // (the same corner may be split each time)
        L = std::max(L, T) + 1;
        if ((2 << L) > j.n) return false;
        double cell = std::max(std::max(j.a, d), j.b + j.c), full = double(j.m) / double(j.n) / double(j.n) * (j.directed ? 1 : 2);
        for (int k = 0; k < L; k++) full *= j.m < 60 ? 4 : 4 * cell;
        return j.dups || full < .25;
    };
    for (int tries = 0; ; tries++) {
        j.m = big ? g.in(10000, 12000) : g.chance(15) ? g.in(1, 5) : g.chance(50) ? g.in(1, 400) : g.in(1, std::max(1, (int) cells / 6));
        j.cap = g.chance(20) ? j.m : g.chance(5) ? j.m + 1 : std::max(1l, j.m / g.in(1, 8) + g.in(0, 3));
        if (j.m < j.n * j.n && roomFor()) break;
        if (tries % 10 == 9) { j.threads = std::max(1, j.threads - 1); probabilities(g, j.a, j.b, j.c, false); }
        if (tries % 50 == 49) { j.n += 10; j.dups = true; }
        cells = (long) j.n * j.n / (j.directed ? 1 : 2);
    }
    j.file = "parmat-" + std::to_string(getpid()) + ".txt";
    entropy = g.next();
    runner->mark(0, what(j));
#ifdef CONTROLLED
    sched::Config cfg;
    cfg.races = true;
    cfg.seed = g.next();
    switch (x % 4) {
        case 1: cfg.preemptPerMille = 3; break;
        case 2: cfg.spuriousPerMille = 50; break;
        case 3: for (int i = g.in(2, 9); i-- > 0;) { int t = g.in(1, j.threads + 1), k = g.chance(60) ? 1 : g.in(2, 9); while (k--) cfg.plan.push_back(t); } break;
        default: break;
    }
    sched::begin(cfg);
    bool fine = sched::process(work, &j);
    sched::end();
    sched::releaseQuarantine();
    if (!fine) return head(id, "graph", what(j), "nobody can go on") + "}\n";
#else
    work(&j);
#endif
    if (j.api) {
        std::ifstream f(j.file);
        long a, b;
        std::string l;
        while (std::getline(f, l)) {
            std::istringstream is(l);
            std::string rest;
            if (!(is >> a >> b) || (is >> rest)) { j.ok = false; break; }
            j.edges.push_back({a, b});
        }
        f.close();
        unlink(j.file.c_str());
    }
    std::string o = head(id, "graph", what(j), j.ok ? "" : "reported failure or wrote something else than edges") + ",\"n\":" + std::to_string(j.n) + ",\"m\":" + std::to_string(j.m) + ",\"directed\":" + B(j.directed) +
                    ",\"loops\":" + B(j.loops) + ",\"dups\":" + B(j.dups) + ",\"sorted\":" + B(j.api == 2 || j.api == 4) + ",\"edges\":[";
    bool first = true;
    for (auto &e : j.edges) {
        if (!first) o += ",";
        first = false;
        o += "[" + std::to_string(tlcInt(e.first)) + "," + std::to_string(tlcInt(e.second)) + "]";
    }
    return o + "]}\n";
}
int main(int, char **argv) {
    __libc_single_threaded = 0;
    FILE *f = fopen(argv[1], "w");
    Runner run(f);
    runner = &run;
    run.caseTimeout = 20;
    run.maxSkips = 0;
#ifdef CONTROLLED
    const char *p = "c";
    int N = thorough() ? 2400 : 420;
#else
    const char *p = "r";
    int N = thorough() ? 4000 : 700;
#endif
    run.run(N, [&](int c, const std::set<int> &) {
                if (!freopen("/dev/null", "w", stderr) || !freopen("/dev/null", "w", stdout)) abort();
                Rng g(c * 104729ull + seedFromEnv() * 31 + p[0]);
                std::string id = p + std::to_string(c);
#ifndef CONTROLLED
                if (c % 4 == 0) return regions(id, g);
#endif
                return graph(id, g, c);
            },
            [&](int c, const std::string &label, const std::string &why) { return head(p + std::to_string(c), "graph", label, why) + "}\n"; });
    fclose(f);
}
