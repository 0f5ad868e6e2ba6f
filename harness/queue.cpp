// Conformance harness for C20: the generator's concurrent queue and capacity gate, run as little
// processes of std::threads under the controlled scheduler of fsched.cpp.
// usage: queue OUT PLANS    PLANS: one line per behaviour of Queue.tla: "NT k op.. k op.. : t t t .."
#include "fsched.h"
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
#include <vector>
#include "threadsafe_queue.hpp"
#include "capacity_controller.hpp"
#include "common.h"
using namespace vh;
extern "C" char __libc_single_threaded;

struct Ev { int t, what, val; };
static Ev events[3][6000];               // three objects at most are observed at a time
static int nev[3];
__attribute__((no_sanitize("thread"), noinline)) static void note(int object, int what, int val) {
    if (nev[object] < 6000) { Ev &e = events[object][nev[object]++]; e.t = sched::thread(); e.what = what; e.val = val; }
}
enum { PUSH, WAIT, TRY, EMPTY, RET, ACC, DISS };

static long liveItems = 0;
__attribute__((no_sanitize("thread"), noinline)) static void countItem(int d) { liveItems += d; }
struct Item {                            // counts itself; a moved-from item has no value
    int v;
    Item() : v(-7) { countItem(1); }
    explicit Item(int x) : v(x) { countItem(1); }
    Item(const Item &o) : v(o.v) { countItem(1); }
    Item(Item &&o) noexcept : v(o.v) { o.v = -8; countItem(1); }
    Item &operator=(const Item &o) { v = o.v; return *this; }
    Item &operator=(Item &&o) noexcept { v = o.v; o.v = -8; return *this; }
    ~Item() { v = -9; countItem(-1); }
};
template<class T> struct Val;
template<> struct Val<int> { static int make(int v) { return v; } static int get(const int &v) { return v; } };
template<> struct Val<Item> { static Item make(int v) { return Item(v); } static int get(const Item &v) { return v.v; } };
template<> struct Val<std::vector<int>> {
    static std::vector<int> make(int v) { return std::vector<int>(v % 5 + 1, v); }
    static int get(const std::vector<int> &v) { if (v.empty() || (int) v.size() != v[0] % 5 + 1) return -9; for (int x : v) if (x != v[0]) return -9; return v[0]; }
};

template<class Q> auto emptyOf(Q &q, int) -> typename std::enable_if<!std::is_void<decltype(q.empty())>::value, int>::type { return q.empty() ? 1 : 0; }
template<class Q> int emptyOf(Q &, long) { return -2; }      // does not answer

struct Program {
    int n = 0;                            // threads, the first one is the main thread
    int type = 0, api = 0;
    bool gate = false, pipeline = false, finishes = false;
    int max = 0, init = 0;
    std::vector<std::vector<std::pair<int, int>>> ops;     // per thread: operation, argument
    std::vector<int> squares;             // pipeline: sizes of the regions
    int atomicStart = 0;                  // main performs this many of its operations before it starts the others
};

template<class T> struct QueueRun {
    static void op(threadsafe_queue<T> &q, int o, int arg, int api, int object = 0) {
        note(object, o, o == PUSH ? arg : 0);
        int r = 0;
        if (o == PUSH) q.push(Val<T>::make(arg));
        else if (o == WAIT) {
            if (api) { std::shared_ptr<T> p = q.wait_and_pop(); r = p ? Val<T>::get(*p) : -6; }
            else { T v; q.wait_and_pop(v); r = Val<T>::get(v); }
        } else if (o == TRY) {
            if (api) { std::shared_ptr<T> p = q.try_pop(); r = p ? Val<T>::get(*p) : -1; }
            else { T v; r = q.try_pop(v) ? Val<T>::get(v) : -1; }
        } else r = emptyOf(q, 0);
        note(object, RET, r);
    }
    static void main(void *d) {
        Program &p = *(Program *) d;
        auto *q = new threadsafe_queue<T>;
        std::vector<std::thread> ts;
        size_t at = 0;
        auto next = [&](int t, size_t i) { op(*q, p.ops[t][i].first, p.ops[t][i].second, p.api ^ int(i & 1)); };
        for (; (int) at < p.atomicStart && at < p.ops[0].size(); at++) next(0, at);
        for (int t = 1; t < p.n; t++) ts.emplace_back([&p, &next, t] { for (size_t i = 0; i < p.ops[t].size(); i++) next(t, i); });
        for (; at < p.ops[0].size(); at++) next(0, at);
        for (auto &t : ts) t.join();
        delete q;
    }
};
static void gateMain(void *d) {
    Program &p = *(Program *) d;
    auto *g = new capacity_controller<long long>(p.max, p.init);
    std::vector<std::thread> ts;
    auto next = [&](int t, size_t i) {
        int o = p.ops[t][i].first, v = p.ops[t][i].second;
        note(0, o, v);
        if (o == ACC) g->accumulate(v); else g->dissipate(v);
        note(0, RET, 0);
    };
    for (int t = 1; t < p.n; t++) ts.emplace_back([&p, &next, t] { for (size_t i = 0; i < p.ops[t].size(); i++) next(t, i); });
    for (size_t i = 0; i < p.ops[0].size(); i++) next(0, i);
    for (auto &t : ts) t.join();
    delete g;
}
// The way the generator combines them: regions queue -> gate -> edges queue -> writer.
static void pipeMain(void *d) {
    Program &p = *(Program *) d;
    auto *work = new threadsafe_queue<Item>;
    auto *done = new threadsafe_queue<std::vector<int>>;
    auto *g = new capacity_controller<long long>(p.max, 0);
    std::vector<int> id(p.squares.size());
    for (size_t i = 0; i < p.squares.size(); i++) QueueRun<Item>::op(*work, PUSH, (int) i + 1, 0, 0);
    std::vector<std::thread> ts;
    for (int t = 1; t < p.n; t++) ts.emplace_back([&] {
        while (true) {
            Item x;
            note(0, TRY, 0);
            bool got = work->try_pop(x);
            note(0, RET, got ? x.v : -1);
            if (!got) return;
            int v = x.v, size = p.squares[v - 1];
            note(1, ACC, size);
            g->accumulate(size);
            note(1, RET, 0);
            QueueRun<std::vector<int>>::op(*done, PUSH, v, 0, 2);
        }
    });
    for (size_t i = 0; i < p.squares.size(); i++) {
        std::vector<int> e;
        note(2, WAIT, 0);
        done->wait_and_pop(e);
        int v = Val<std::vector<int>>::get(e);
        note(2, RET, v);
        int size = v >= 1 && v <= (int) p.squares.size() ? p.squares[v - 1] : 0;
        note(1, DISS, size);
        g->dissipate(size);
        note(1, RET, 0);
    }
    for (auto &t : ts) t.join();
    delete work; delete done; delete g;
}

struct Case { Program p; sched::Config cfg; std::string tag; };
static std::string head(const std::string &id, const std::string &kind, const std::string &crash) {
    return "{\"id\":" + jsonStr(id) + ",\"kind\":" + jsonStr(kind) + ",\"crash\":" + jsonStr(crash);
}
static std::string record(const std::string &id, const Case &c, int object, const std::string &kind, bool stuck, long live) {
    std::string o = head(id, kind + " " + c.tag, "") + ",\"n\":" + std::to_string(c.p.n) + ",\"max\":" + std::to_string(kind == "gate" ? c.p.max : 0) +
                    ",\"init\":" + std::to_string(kind == "gate" ? c.p.init : 0) + ",\"stuck\":" + (stuck ? "true" : "false") +
                    ",\"finishes\":" + (c.p.finishes ? "true" : "false") + ",\"live\":" + std::to_string(live) + ",\"ev\":[";
    for (int i = 0; i < nev[object]; i++) {
        Ev &e = events[object][i];
        if (i) o += ",";
        o += "[" + std::to_string(e.t) + "," + std::to_string(e.what) + "," + std::to_string(e.val) + "]";
    }
    return o + "]}\n";
}
static std::string runCase(const std::string &id, Case &c) {
    for (int &n : nev) n = 0;
    liveItems = 0;
    sched::begin(c.cfg);
    bool ok = sched::process(c.p.pipeline ? pipeMain : c.p.gate ? gateMain : c.p.type == 0 ? QueueRun<int>::main : c.p.type == 1 ? QueueRun<Item>::main : QueueRun<std::vector<int>>::main, &c.p);
    sched::end();
    sched::releaseQuarantine();
    long live = ok ? liveItems : 0;
    if (!c.p.pipeline) return record(id, c, 0, c.p.gate ? "gate" : "queue", !ok, live);
    return record(id + "w", c, 0, "queue", !ok, live) + record(id + "g", c, 1, "gate", !ok, 0) + record(id + "e", c, 2, "queue", !ok, 0);
}

int main(int, char **argv) {
    __libc_single_threaded = 0;
    FILE *f = fopen(argv[1], "w");
    std::vector<Case> cases;
    Rng g(seedFromEnv() * 31 + 7);
    auto schedule = [&](Case &c, int x) {
        c.cfg.races = true;
        c.cfg.seed = g.next();
        switch (x % 5) {
            case 0: c.tag = "random"; break;
            case 1: c.tag = "preempt"; c.cfg.preemptPerMille = 150; break;
            case 2: c.tag = "hot"; c.cfg.detect = true; c.cfg.preemptPerMille = 20; c.cfg.hotPerMille = 500; break;
            case 3: c.tag = "spurious"; c.cfg.spuriousPerMille = 100; break;
            default: {
                c.tag = "plan";
                int len = g.in(3, 14);
                for (int i = 0; i < len; i++) { int t = g.in(1, c.p.n), k = g.chance(60) ? 1 : g.in(2, 9); while (k--) c.cfg.plan.push_back(t); }
            }
        }
    };
    {   // behaviours of the specification
        std::ifstream in(argv[2]);
        std::string l;
        while (std::getline(in, l)) {
            std::istringstream is(l);
            Case c;
            int nt, v = 100;
            is >> nt;
            c.p.n = nt + 1;
            c.p.ops.resize(nt + 1);
            for (int t = 1; t <= nt; t++) {
                int k, o;
                is >> k;
                while (k--) { is >> o; c.p.ops[t].push_back({o - 1, o == 1 ? ++v : 0}); }
            }
            std::string colon;
            is >> colon;
            int t;
            c.cfg.plan.assign(1, 1);
            for (int i = 0; i < 2 * nt; i++) c.cfg.plan.push_back(1);         // the main thread starts the others
            while (is >> t) c.cfg.plan.push_back(t + 1);
            c.p.type = cases.size() % 3;
            c.p.api = cases.size() / 3 % 2;
            c.cfg.seed = g.next();
            c.cfg.races = true;
            c.tag = "behaviour";
            c.p.finishes = true;
            cases.push_back(c);
        }
    }
    int N = thorough() ? 6000 : 1100;
    for (int x = 0; x < N; x++) {
        Case c;
        c.p.n = g.chance(15) ? 5 : g.in(2, 4);
        c.p.ops.resize(c.p.n);
        int kind = x % 4;
        if (kind < 2) {                                     // the queue alone
            c.p.type = g.upto(3);
            c.p.api = g.upto(2);
            int v = 10, pushes = 0, takes = 0, most = c.p.n > 4 ? 3 : c.p.n > 3 ? 5 : 7;
            bool roles = g.chance(60);                       // producers and consumers, or everybody does everything
            for (int t = 0; t < c.p.n; t++) {
                int k = g.in(0, most), role = g.upto(3);
                for (int i = 0; i < k; i++) {
                    int o = roles ? (role == 0 ? (int) PUSH : role == 1 ? (int) WAIT : g.chance(80) ? (int) TRY : (int) EMPTY)
                                  : g.chance(50) ? (int) PUSH : g.chance(50) ? (int) WAIT : g.chance(70) ? (int) TRY : (int) EMPTY;
                    if (o == PUSH) pushes++;
                    if (o == WAIT || o == TRY) takes++;
                    c.p.ops[t].push_back({o, o == PUSH ? ++v : 0});
                }
            }
            if (g.chance(70)) {                              // enough for everybody: one more thread pushes what is missing
                int t = g.upto(c.p.n);
                std::vector<std::pair<int, int>> more;
                for (; pushes < takes; pushes++) more.push_back({PUSH, ++v});
                if (roles) c.p.ops[t].insert(c.p.ops[t].begin(), more.begin(), more.end());
                else c.p.ops[t].insert(c.p.ops[t].begin() + g.upto((int) c.p.ops[t].size() + 1), more.begin(), more.end());
            }
            c.p.atomicStart = g.chance(40) ? g.in(0, 4) : 0;
        } else if (kind == 2) {                              // the gate alone
            c.p.gate = true;
            c.p.max = g.in(1, 9);
            c.p.init = g.in(0, c.p.max);
            int have = c.p.init;
            for (int t = 0; t < c.p.n; t++) {
                bool giver = t == 0 || g.chance(25);
                int k = g.in(1, 5);
                for (int i = 0; i < k; i++) {
                    if (giver) { int v = g.in(0, have); if (v) { c.p.ops[t].push_back({DISS, v}); have -= v; } }
                    else {                                   // takes, then gives back (a part of) what it took
                        int v = g.chance(30) ? c.p.max : g.in(1, c.p.max);
                        c.p.ops[t].push_back({ACC, v});
                        if (g.chance(75)) {
                            int a = g.in(1, v);
                            c.p.ops[t].push_back({DISS, a});
                            if (a < v && g.chance(50)) c.p.ops[t].push_back({DISS, v - a});
                        }
                    }
                }
            }
        } else {
            c.p.pipeline = true;
            c.p.finishes = true;
            c.p.max = g.in(1, 12);
            int k = g.in(1, c.p.n > 4 ? 5 : 8);
            for (int i = 0; i < k; i++) c.p.squares.push_back(g.chance(20) ? c.p.max : g.chance(10) ? 0 : g.in(0, c.p.max));
        }
        schedule(c, x / 4);
        cases.push_back(c);
    }
    Runner run(f);
    run.caseTimeout = 20;
    run.run((int) cases.size(), [&](int c, const std::set<int> &) { if (!freopen("/dev/null", "w", stderr)) abort(); return runCase("q" + std::to_string(c), cases[c]); },
            [&](int c, const std::string &, const std::string &why) {
                return head("q" + std::to_string(c), cases[c].p.gate ? "gate" : "queue", why) + ",\"n\":1,\"max\":0,\"init\":0,\"stuck\":false,\"finishes\":false,\"live\":0,\"ev\":[]}\n"; });
    fclose(f);
}
