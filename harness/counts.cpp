// Conformance harness for C24: the counts of multiplications, against the inputs and against
// what a real multiplication performs.  UNIT 0/1 pick headers that define the same names.
// usage: counts OUT
#ifdef CONTROLLED
#include "fsched.h"
#endif
#include <numeric>
#include <omp.h>
#include <tuple>
#include <typeinfo>
#include <atomic>
#include "common.h"
extern "C" {
#include "GraphBLAS.h"
}
#include "CSC.h"
#include "CSR.h"
#include "utility.h"
using namespace std;
#if UNIT == 0
#include "hash_mult_hw.h"
#include "heap_mult_generic.h"
#include "heap_mult.h"
#include "outer_mult.h"
#include "spgemm-blocks/common.h"
#else
#include "inner_mult.h"
#include "outer_mult2.h"
#include "multiply.h"
#endif
#include "mats.h"

static std::atomic<long long> calls;
struct CountMul { NT operator()(const NT &a, const NT &b) const { calls.fetch_add(1, std::memory_order_relaxed); VH_POINT(); return a; } };
struct CountAdd { NT operator()(const NT &a, const NT &) const { return a; } };

struct Case { std::string tag; Mat A, B, M; int threads; uint64_t seed; bool big = false; std::vector<int> gl = {}; };   // gl: lengths of B's rows (columns), B itself is not there

static std::vector<int> lens(const Mat &a) { std::vector<int> l; for (auto &r : a.r) l.push_back((int) r.size()); return l; }
static std::string residues(long long t) {
    static const long long p[] = {32749, 32719, 32717};
    bool sane = t >= 0 && t < 35000000000000ll;
    return "\"sane\":" + std::string(sane ? "true" : "false") + ",\"tot\":[" + std::to_string(sane ? t % p[0] : -1) + "," + std::to_string(sane ? t % p[1] : -1) + "," + std::to_string(sane ? t % p[2] : -1) + "]";
}
static std::string cols(const Mat &a) { std::string o; jsonCols(o, a); return o; }

template<class P> static std::vector<long long> perOf(const P *p, int n) { std::vector<long long> v; for (int i = 0; i < n; i++) v.push_back(tlcInt((long long) p[i])); return v; }
template<class P> static std::vector<long long> perMod(const P *p, int n) { std::vector<long long> v; for (int i = 0; i < n; i++) v.push_back(p[i] < 0 ? -1 : (long long) (p[i] % 32749)); return v; }

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    freopen("/dev/null", "w", stdout);
    Rng g(seedFromEnv() * 733 + VT * 10 + UNIT);
    std::vector<Case> cs;
#ifdef CONTROLLED
    int N = thorough() ? 500 : 70;
#else
    int N = thorough() ? 3000 : 300;
    {   // every pattern of a 2x2 by 2x2 product
        for (int x = 0; x < 4096; x += VT == 0 ? 1 : 7) {
            Case c{"ex" + std::to_string(x), Mat(2, 2), Mat(2, 2), Mat(2, 2), 1 + x % 3, g.next()};
            for (int i = 0; i < 4; i++) { if (x >> i & 1) c.A.add(i / 2, i % 2, 1); if (x >> (4 + i) & 1) c.B.add(i / 2, i % 2, 1); if (x >> (8 + i) & 1) c.M.add(i / 2, i % 2, 1); }
            if (VT == 0 && x % 4 != int(seedFromEnv() % 4) && !thorough()) continue;
            cs.push_back(c);
        }
    }
#endif
    for (int x = 0; x < N; x++) {
        int m = g.in(1, 10), k = g.in(1, 10), n = g.in(1, 10);
        if (x % 12 == 5) { m = g.in(40, 200); k = g.in(20, 150); n = g.in(20, 150); }
#ifdef CONTROLLED
        m = std::min(m, 24); k = std::min(k, 12); n = std::min(n, 12);
#endif
        Case c{"r" + std::to_string(x), Mat(m, k), Mat(k, n), Mat(m, n), g.in(1, 8), g.next()};
        int pa = g.in(0, 90), pb = g.in(0, 90), pm = g.in(0, 60);
        for (int i = 0; i < m; i++) if (!g.chance(15)) for (int j = 0; j < k; j++) if (g.chance(pa)) c.A.add(i, j, 1);
        for (int i = 0; i < k; i++) if (!g.chance(15)) for (int j = 0; j < n; j++) if (g.chance(pb)) c.B.add(i, j, 1);
        for (int i = 0; i < m; i++) if (!g.chance(25)) for (int j = 0; j < n; j++) if (g.chance(pm)) c.M.add(i, j, 1);
        if (g.chance(40)) for (auto *q : {&c.A, &c.B, &c.M}) for (auto &r : q->r) g.shuffle(r);
        cs.push_back(c);
    }
#ifndef CONTROLLED
    // counts beyond 32 bits although every array fits: a long column times a long row
    for (int x = 0; x < (VT == 0 || thorough() ? 3 : 1); x++) {
        int m = g.in(47000, 52000), n = g.in(55000, 61000), k = g.in(1, 4), hot = g.upto(k);
        Case c{"big" + std::to_string(x), Mat(m, k), Mat(k, n), Mat(m, n), g.in(2, 8), g.next()};
        c.big = true;
        for (int i = 0; i < m; i++) c.A.add(i, hot, 1);
        for (int j = 0; j < n; j++) c.B.add(hot, j, 1);
        if (k > 1) { c.A.add(0, (hot + 1) % k, 1); c.B.add((hot + 1) % k, n - 1, 1); }
        cs.push_back(c);
    }
#endif
#if UNIT == 0 && VT == 1 && !defined(CONTROLLED)
    // rows of more than 2^31: only the row (column) pointers of B are read, so they may say anything
    for (int x = 0; x < (thorough() ? 400 : 60); x++) {
        int m = g.in(1, 12), k = g.in(1, 6);
        Case c{"giant" + std::to_string(x), Mat(m, k), Mat(k, 1), Mat(m, k), g.in(1, 8), g.next()};
        for (int i = 0; i < k; i++) c.gl.push_back(g.chance(15) ? 0 : g.chance(50) ? g.in(2000000000, 2140000000) : g.in(1, 2000000000));
        for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) { if (g.chance(70)) c.A.add(i, j, 1); if (g.chance(70)) c.M.add(i, j, 1); }
        cs.push_back(c);
    }
#endif
    Runner runner(out);
    auto record = [&](const Case &c, const char *what, const char *kind, int factor, const std::vector<long long> &per, bool intact, long long tot, const std::string &status = "ok") {
        std::string k = kind;
        bool cc = k == "colwise";      // B's columns drive the count: the transposed problem
        Mat a = cc ? c.B.transposed() : c.A;
        std::vector<int> bl = cc ? lens(c.A.transposed()) : k == "work" ? lens(c.B.transposed()) : lens(c.B);
        if (k == "inner") { a = Mat(0, 0); }
        if (!c.gl.empty()) bl = c.gl;
        return "{\"id\":" + jsonStr(c.tag + "." + what + ".T" + std::to_string(c.threads)) + ",\"kind\":" + jsonStr(cc ? "rows" : k) + ",\"status\":" + jsonStr(status) + ",\"giant\":" + (c.gl.empty() ? "false" : "true") + ",\"factor\":" + std::to_string(factor) +
               ",\"intact\":" + (intact ? "true" : "false") + ",\"a\":" + cols(a) + ",\"bl\":" + jsonInts(bl) + ",\"al\":" + jsonInts(k == "inner" ? lens(c.A.transposed()) : std::vector<int>()) +
               ",\"m\":" + (k == "masked" || k == "work" ? cols(c.M) : std::string("[]")) + ",\"per\":" + jsonInts(per) + "," + residues(tot) + "}\n";
    };
    auto body = [&](int ci, const std::set<int> &skip) -> std::string {
        const Case &c = cs[ci];
        std::string o;
        CSRt *ar = toCSR(c.A), *br = toCSR(c.B), *mr = toCSR(c.M);
        CSCt *ac = toCSC(c.A), *bc = toCSC(c.B);
        int sub = 0;
        auto one = [&](const char *what, const char *kind, int factor, int nper, const std::function<long long(IT *)> &fn) {
            runner.mark(sub, std::string(what) + "|" + kind + "|" + std::to_string(factor));
            if (skip.count(sub++)) return;
            IT *per = (IT *) malloc(sizeof(IT) * (nper > 0 ? nper : 1));
            for (int i = 0; i < nper; i++) per[i] = -7;
            omp_set_num_threads(c.threads);
#ifdef CONTROLLED
            sched::Config cfg;
            cfg.seed = c.seed + sub;
            cfg.preemptPerMille = c.seed % 4 == 0 ? 0 : c.seed % 4 == 1 ? 30 : 200;
            sched::begin(cfg);
#endif
            long long t = fn(per);
#ifdef CONTROLLED
            sched::end();
            sched::releaseQuarantine();
#endif
            o += record(c, what, kind, factor, c.gl.empty() ? perOf(per, nper) : perMod(per, nper), sameCSR(*ar, c.A) && (!c.gl.empty() || sameCSR(*br, c.B)) && sameCSR(*mr, c.M), t);
            free(per);
        };
        if (!c.gl.empty()) {
            IT *&p = br->rowptr, *&q = bc->colptr;
            p = my_malloc<IT>(c.gl.size() + 1); q = my_malloc<IT>(c.gl.size() + 1);
            p[0] = q[0] = 0;
            for (size_t i = 0; i < c.gl.size(); i++) p[i + 1] = q[i + 1] = p[i] + c.gl[i];
            br->cols = bc->rows = IT(1) << 40;
            bc->cols = (IT) c.gl.size();
        }
        int m = c.A.m, n = c.B.n, T = c.threads;
        (void) T;
#if UNIT == 0
        if (c.gl.empty()) {
        one("heap.get_flop/3", "colwise", 2, n, [&](IT *p) { return get_flop(*ac, *bc, p); });
        one("heap.get_flop", "colwise", 2, 0, [&](IT *) { return get_flop(*ac, *bc); });
        one("outer.getFlop", "inner", 1, 0, [&](IT *) { return (long long) getFlop(*ac, *br); });
        }
        one("generic.getFlop", "rows", 2, m, [&](IT *p) { return tmp::getFlop(*ar, *br, p); });
        auto internal = [&](auto &A, auto &B, auto &Bc, auto &M) {
            if constexpr (requires { calculateMultOps(A, B, T); }) one("calculateMultOps", "rows", 1, 0, [&](IT *) { return (long long) calculateMultOps(A, B, T); });
            if constexpr (requires { calculateMultOps(A, B); }) one("calculateMultOps/2", "rows", 1, 0, [&](IT *) { return (long long) calculateMultOps(A, B); });
            if constexpr (requires (IT *p) { calculateFlops(A, B, p, T); }) one("calculateFlops", "rows", 1, m, [&](IT *p) { return (long long) calculateFlops(A, B, p, T); });
            if constexpr (requires (IT *p) { calculateFlops(A, B, M, p, T); }) one("calculateFlops.M", "masked", 1, m, [&](IT *p) { return (long long) calculateFlops(A, B, M, p, T); });
            if constexpr (requires (IT *p) { calculateWork(A, Bc, M, p, T); }) one("calculateWork", "work", 1, m, [&](IT *p) { return (long long) calculateWork(A, Bc, M, p, T); });
        };
        if (!c.gl.empty()) internal(*ar, *br, *bc, *mr);
        else if (!c.big) {
            internal(*ar, *br, *bc, *mr);
            one("HashSpGEMM performs", "rows", 1, 0, [&](IT *) { CSRt C; calls = 0; HashSpGEMM<false>(*ar, *br, C, CountMul(), CountAdd(), (unsigned) T); return calls.load(); });
            one("HeapSpGEMM performs", "colwise", 1, 0, [&](IT *) { CSCt C; calls = 0; HeapSpGEMM(*ac, *bc, C, CountMul(), CountAdd()); return calls.load(); });
        }
#else
        one("inner.get_flop/3", "colwise", 2, n, [&](IT *p) { return get_flop(*ac, *bc, p); });
        one("inner.get_flop", "colwise", 2, 0, [&](IT *) { return get_flop(*ac, *bc); });
        one("outer2.getFlop", "inner", 1, 0, [&](IT *) { return (long long) getFlop(*ac, *br); });
        one("multiply.get_flop(CSR,CSR)", "rows", 2, 0, [&](IT *) { return get_flop(*ar, *br); });
        one("multiply.get_flop(CSC,CSR)", "inner", 2, 0, [&](IT *) { return get_flop(*ac, *br); });
#endif
        delete ar; delete br; delete mr; delete ac; delete bc;
        return o;
    };
    auto onCrash = [&](int ci, const std::string &label, const std::string &why) -> std::string {
        std::istringstream is(label);
        std::string what = "setup", kind = "inner", f = "1";
        std::getline(is, what, '|'); std::getline(is, kind, '|'); std::getline(is, f, '|');
        return record(cs[ci], what.c_str(), kind.empty() ? "inner" : kind.c_str(), 1, {}, true, 0, why);
    };
    runner.caseTimeout = 20;
    runner.run((int) cs.size(), body, onCrash);
    fclose(out);
    return 0;
}
