// Conformance harness for C13: every conversion between triples, tuples, arrays, edges, CSR
// and CSC, alone and in chains.  usage: convert OUT
#ifdef CONTROLLED
#include "fsched.h"
#endif
#include <numeric>
#include <omp.h>
#include <tuple>
#include "common.h"
extern "C" {
#include "GraphBLAS.h"
}
#include "CSC.h"
#include "CSR.h"
#include "utility.h"
#include "util/transpose.h"
#include "mats.h"

struct T3 { int r, c, v; };
using List = std::vector<T3>;

template<class V> static V encV(int x) { return Codec<V>::enc(x); }
struct Op { std::string n; NT operator()(const NT &a, const NT &b) const {
    int x = C1::dec(a), y = C1::dec(b);
    return C1::enc(n == "plus" ? x + y : n == "max" ? std::max(x, y) : n == "min" ? std::min(x, y) : n == "second" ? y : x); } };

template<class I> static std::string arrays(long long maj, long long min, long long nnz, const I *ptr, const I *ids, const NT *vals) {
    std::vector<long long> p, d, v;
    for (long long i = 0; i <= maj; i++) p.push_back(tlcInt((long long) ptr[i]));
    long long top = nnz > 0 && nnz < 1000000 ? nnz : 0;
    for (long long i = 0; i < top; i++) { d.push_back(tlcInt((long long) ids[i])); v.push_back(C1::dec(vals[i])); }
    return "{\"maj\":" + std::to_string(maj) + ",\"min\":" + std::to_string(min) + ",\"nnz\":" + std::to_string(tlcInt(nnz)) + ",\"ptr\":" + jsonInts(p) + ",\"ids\":" + jsonInts(d) + ",\"vals\":" + jsonInts(v) + "}";
}
static std::string csrJ(const CSRt &x) { return arrays<IT>(x.rows, x.cols, x.nnz, x.rowptr, x.colids, x.values); }
static std::string cscJ(const CSCt &x) { return arrays<IT>(x.cols, x.rows, x.nnz, x.colptr, x.rowids, x.values); }
static const char *EMPTY = "{\"maj\":0,\"min\":0,\"nnz\":0,\"ptr\":[0],\"ids\":[],\"vals\":[]}";

struct Case { std::string tag; int m, n; List in; bool dups; int threads; uint64_t seed; bool bySource = false; };

static std::string listJ(const List &l) {
    std::string o = "[";
    for (size_t i = 0; i < l.size(); i++) { if (i) o += ","; o += "[" + std::to_string(l[i].r) + "," + std::to_string(l[i].c) + "," + std::to_string(l[i].v) + "]"; }
    return o + "]";
}
static std::string record(const std::string &id, const std::string &how, int m, int n, const List &in, const char *dup, bool byrow, bool order, bool intact, const std::string &out, const std::string &status = "ok") {
    auto B = [](bool b) { return b ? std::string("true") : std::string("false"); };
    return "{\"id\":" + jsonStr(id) + ",\"how\":" + jsonStr(how) + ",\"status\":" + jsonStr(status) + ",\"m\":" + std::to_string(m) + ",\"n\":" + std::to_string(n) +
           ",\"dup\":" + jsonStr(dup) + ",\"byrow\":" + B(byrow) + ",\"order\":" + B(order) + ",\"intact\":" + B(intact) + ",\"in\":" + listJ(in) + ",\"out\":" + out + "}\n";
}
static std::vector<Triple<IT, NT>> triplesOf(const List &l) {
    std::vector<Triple<IT, NT>> t;
    for (auto &e : l) t.push_back(Triple<IT, NT>(e.r, e.c, C1::enc(e.v)));
    return t;
}
static bool sameTriples(const std::vector<Triple<IT, NT>> &a, const List &l) {
    for (size_t i = 0; i < l.size(); i++) if (a[i].row != l[i].r || a[i].col != l[i].c || C1::dec(a[i].val) != l[i].v) return false;
    return a.size() == l.size();
}
static List swapped(const List &l) { List s; for (auto &e : l) s.push_back({e.c, e.r, e.v}); return s; }
static std::string snap(const CSCt &x) { return cscJ(x); }
static std::string snap(const CSRt &x) { return csrJ(x); }

// the transposing helper, whatever integer type it counts in
static std::string transposeJ(const CSRt &a, std::vector<IT> &ptr, std::vector<IT> &ids, std::vector<NT> &vals) {
    IT *p = (IT *) malloc(sizeof(IT) * (a.cols + 1)), *d = (IT *) malloc(sizeof(IT) * (a.nnz ? a.nnz : 1));
    NT *v = (NT *) malloc(sizeof(NT) * (a.nnz ? a.nnz : 1));
    csr2csc_atomic_nosort<IT, NT>(a.rows, a.cols, a.nnz, a.rowptr, a.colids, a.values, p, d, v);
    ptr.assign(p, p + a.cols + 1);
    bool ok = ptr[a.cols] == a.nnz;
    if (ok) { ids.assign(d, d + a.nnz); vals.assign(v, v + a.nnz); }
    std::string s = arrays<IT>(a.cols, a.rows, a.nnz, p, d, v);
    free(p); free(d); free(v);
    return s;
}
static long weight(int v) { return std::is_integral<NT>::value ? (long) C1::enc(v) : v; }
static graph graphOf(const List &l, int n) {
    graph g;
    g.m = (long) l.size(); g.n = n;
    g.start = (long *) malloc(8 * l.size()); g.end = (long *) malloc(8 * l.size()); g.w = (long *) malloc(8 * l.size());
    for (size_t i = 0; i < l.size(); i++) { g.start[i] = l[i].r; g.end[i] = l[i].c; g.w[i] = weight(l[i].v); }
    return g;
}
static bool sameGraph(const graph &g, const List &l) {
    for (size_t i = 0; i < l.size(); i++) if (g.start[i] != l[i].r || g.end[i] != l[i].c || g.w[i] != weight(l[i].v)) return false;
    return true;
}

#ifdef CONTROLLED
static const bool BIG = false;
#else
static const bool BIG = true;
#endif

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    freopen("/dev/null", "w", stdout);
    Rng g0(seedFromEnv() * 131 + VT);
    std::vector<Case> cs;
    static const char *ops[] = {"plus", "max", "min"};
#ifdef CONTROLLED
    int N = thorough() ? 1500 : 220;
#else
    // all patterns of small shapes, then random ones
    if (VT == 0) {
        struct D { int m, n; };
        for (D d : {D{1, 1}, D{2, 2}, D{1, 3}, D{3, 1}, D{2, 3}, D{3, 2}})
            for (int x = 0; x < 1 << (d.m * d.n); x++) {
                Case c{"", d.m, d.n, {}, false, 1 + x % 3, g0.next()};
                for (int i = 0; i < d.m * d.n; i++) if (x >> i & 1) c.in.push_back({i / d.n, i % d.n, i + 1});
                g0.shuffle(c.in);
                c.tag = "ex" + std::to_string(d.m) + std::to_string(d.n) + "." + std::to_string(x);
                cs.push_back(c);
            }
    }
    int N = thorough() ? 2500 : 260;
#endif
    for (int x = 0; x < N; x++) {
        bool sq = g0.chance(50);
        int m = g0.in(1, 9), n = sq ? m : g0.in(1, 9), k;
        if (x % 40 == 7) { m = g0.in(60, 300); n = sq ? m : g0.in(40, 300); k = g0.in(50, 900); }
        else if (BIG && x % 130 == 8) {                 // dimensions beyond 2^16 and 2^17
            m = (x / 130 % 2 ? 131072 : 65536) + g0.in(0, 200); n = sq ? m : x / 130 % 2 ? g0.in(1, 9) : 65536 + g0.in(0, 200); k = 40;
        } else k = g0.in(0, m * n);
#ifdef CONTROLLED
        if (k > 30) k = 30;
#endif
        Case c{"r" + std::to_string(x), m, n, {}, g0.chance(55), g0.in(1, 6), g0.next()};
        std::set<std::pair<int, int>> seen;
        for (int i = 0; i < k; i++) {
            int r = g0.upto(m), q = g0.upto(n);
            if (m > 5000 && i > 0 && g0.chance(60)) { r = (c.in.back().r + 65536) % m; if (g0.chance(50)) q = (c.in.back().c + 65536) % n; }
            if (c.dups && g0.chance(35) && !c.in.empty()) { r = g0.pick(c.in).r; q = c.in[g0.upto(c.in.size())].c; }
            if (!c.dups && !seen.insert({r, q}).second) continue;
            c.in.push_back({r, q, g0.chance(8) ? 0 : g0.chance(50) ? g0.in(-50, 50) : g0.in(-200000, 200000)});
        }
        cs.push_back(c);
    }
    Runner runner(out);
    auto body = [&](int ci, const std::set<int> &skip) -> std::string {
        const Case &c = cs[ci];
        Rng g(c.seed);
        std::string o;
        int sub = 0;
#ifdef CONTROLLED
        sched::Config cfg;
        cfg.seed = c.seed; cfg.preemptPerMille = g.pick(std::vector<int>{0, 40, 150}); cfg.hotPerMille = g.chance(70) ? 500 : 0; cfg.detect = true;
        sched::begin(cfg);
#endif
        omp_set_num_threads(c.threads);
        auto step = [&](const std::string &how, const std::function<std::string(const std::string &)> &f) {
            int s = sub++;
            if (skip.count(s)) return;
            runner.mark(s, how);
            o += f(c.tag + "." + std::to_string(VT) + "." + how);
        };
        std::string op = ops[g.upto(3)];
        step("csc-triples", [&](const std::string &id) {
            auto t = triplesOf(c.in);
            CSCt x(t.data(), (IT) c.in.size(), (IT) c.m, (IT) c.n);
            std::string r = record(id, "CSC(triples)", c.m, c.n, c.in, "keep", false, true, sameTriples(t, c.in), cscJ(x));
            // chain: CSC -> CSR -> (transpose helper) -> ... -> CSR
            std::string before = snap(x);
            CSRt y(x);
            r += record(id + ".csr", "CSR(CSC)", c.m, c.n, c.in, "keep", true, true, snap(x) == before, csrJ(y));
            CSRt y2(x, false);
            r += record(id + ".csrf", "CSR(CSC,false)", c.m, c.n, c.in, "keep", true, true, snap(x) == before, csrJ(y2));
            CSRt z(x, true);
            r += record(id + ".csrt", "CSR(CSC,true)", c.n, c.m, swapped(c.in), "keep", true, true, snap(x) == before, csrJ(z));
            std::vector<IT> p, d; std::vector<NT> v;
            before = snap(y);
            std::string tj = transposeJ(y, p, d, v);
            r += record(id + ".tr", "csr2csc", c.m, c.n, c.in, "keep", false, false, snap(y) == before, tj);
            if ((IT) d.size() == y.nnz) {
                CSCt w;
                w.rows = c.m; w.cols = c.n; w.nnz = y.nnz;
                w.colptr = my_malloc<IT>(c.n + 1); std::copy(p.begin(), p.end(), w.colptr);
                if (w.nnz > 0) { w.rowids = my_malloc<IT>(w.nnz); w.values = my_malloc<NT>(w.nnz); std::copy(d.begin(), d.end(), w.rowids); std::copy(v.begin(), v.end(), w.values); }
                CSRt back(w);
                r += record(id + ".tr.csr", "CSR(csr2csc)", c.m, c.n, c.in, "keep", true, true, true, csrJ(back));
            }
            return r;
        });
        step("csc-tuples", [&](const std::string &id) {
            std::vector<std::tuple<IT, IT, NT>> t;
            for (auto &e : c.in) t.push_back(std::make_tuple((IT) e.r, (IT) e.c, C1::enc(e.v)));
            auto copy = t;
            CSCt x(t, (IT) c.m, (IT) c.n, Op{op});
            return record(id, "CSC(tuples," + op + ")", c.m, c.n, c.in, op.c_str(), false, true, t == copy, cscJ(x));
        });
        step("csc-pairs", [&](const std::string &id) {
            std::vector<std::pair<int64_t, int64_t>> e;
            List ones;
            for (auto &t : c.in) { e.push_back({t.r, t.c}); ones.push_back({t.r, t.c, C1::dec(NT(1))}); }
            CSCt x(e, (IT) c.in.size(), (IT) c.m, (IT) c.n);
            return record(id, "CSC(edges)", c.m, c.n, ones, "keep", false, true, true, cscJ(x));
        });
        if (!c.in.empty()) step("csc-arrays", [&](const std::string &id) {
            std::vector<IT> r, q; std::vector<NT> v;
            for (auto &t : c.in) { r.push_back(t.r); q.push_back(t.c); v.push_back(C1::enc(t.v)); }
            auto r0 = r, q0 = q; auto v0 = v;
            CSCt x(r.data(), q.data(), v.data(), (IT) c.in.size(), (IT) c.m, (IT) c.n);
            return record(id, "CSC(arrays)", c.m, c.n, c.in, "keep", false, true, r == r0 && q == q0 && v == v0, cscJ(x));
        });
        step("csc-merge", [&](const std::string &id) {
            auto t = triplesOf(c.in);
            CSCt x(t.data(), (IT) c.in.size(), (IT) c.m, (IT) c.n);
            x.MergeDuplicates(Op{op});
            std::string r = record(id, "MergeDuplicates(" + op + ")", c.m, c.n, c.in, op.c_str(), false, true, true, cscJ(x));
            CSRt y(x);
            r += record(id + ".csr", "CSR(MergeDuplicates)", c.m, c.n, c.in, op.c_str(), true, true, true, csrJ(y));
            return r;
        });
        if (c.m == c.n) step("graph", [&](const std::string &id) {
            List s = c.in;                     // the generator's output is grouped by source
            std::stable_sort(s.begin(), s.end(), [](const T3 &a, const T3 &b) { return a.r < b.r; });
            graph gr = graphOf(s, c.n);
            List enc = s;
            for (auto &t : enc) t.v = C1::dec(NT(weight(t.v)));      // weights are long integers whatever NT is
            bool exact = true;
            for (auto &t : enc) if (t.v == BADVAL) exact = false;
            CSRt x(gr);
            std::string xj = csrJ(x);
            std::string r;
            if (exact) r += record(id + ".csr", "CSR(graph)", c.n, c.n, enc, "plus", true, true, sameGraph(gr, s), xj);
            CSCt y(gr);
            if (exact) r += record(id + ".csc", "CSC(graph)", c.n, c.n, enc, "plus", false, true, sameGraph(gr, s), cscJ(y));
            return r;
        });
#ifdef CONTROLLED
        sched::end();
        sched::releaseQuarantine();
#endif
        return o;
    };
    auto onCrash = [&](int ci, const std::string &label, const std::string &why) -> std::string {
        const Case &c = cs[ci];
        return record(c.tag + "." + std::to_string(VT) + "." + label, label, c.m, c.n, c.in, "keep", true, true, true, EMPTY, why + " in " + label);
    };
    runner.run((int) cs.size(), body, onCrash);
    fclose(out);
    return 0;
}
