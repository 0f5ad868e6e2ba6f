// Conformance harness for C14: replays histories generated from ObjectLifeGen.tla on real CSR
// and CSC objects and records the raw arrays of every object after every operation.
// usage: objects OUT CSRPLANS CSCPLANS      (plan line: op k i j arg op k i j arg ...)
#ifdef CONTROLLED
#include "fsched.h"
#endif
#include <numeric>
#include <omp.h>
#include <tuple>
#include "common.h"
extern "C" {
#include "GraphBLAS.h"
}
#include "CSC.h"
#include "CSR.h"
#include "utility.h"
#include "mats.h"

struct PlanOp { std::string op; int k, i, j, arg; };
static std::vector<std::vector<PlanOp>> plansOf(const char *f) {
    std::vector<std::vector<PlanOp>> v;
    std::ifstream in(f);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ss(line);
        PlanOp p;
        v.emplace_back();
        while (ss >> p.op >> p.k >> p.i >> p.j >> p.arg) v.back().push_back(p);
    }
    return v;
}
template<class T> struct Acc;
template<> struct Acc<CSRt> {
    static IT &maj(CSRt &x) { return x.rows; } static IT &min(CSRt &x) { return x.cols; }
    static IT *&ptr(CSRt &x) { return x.rowptr; } static IT *&ids(CSRt &x) { return x.colids; }
    static bool zb(const CSRt &x) { return x.zerobased; }
    static const char *name() { return "CSR"; }
};
template<> struct Acc<CSCt> {
    static IT &maj(CSCt &x) { return x.cols; } static IT &min(CSCt &x) { return x.rows; }
    static IT *&ptr(CSCt &x) { return x.colptr; } static IT *&ids(CSCt &x) { return x.rowids; }
    static bool zb(const CSCt &) { return true; }
    static const char *name() { return "CSC"; }
};
template<class T> static std::string objJ(T &x) {
    using A = Acc<T>;
    std::vector<long long> p, d, v;
    long long maj = A::maj(x), nnz = x.nnz;
    if (maj <= 0 || maj > 100000) p = {0};
    else for (long long i = 0; i <= maj; i++) p.push_back(tlcInt(A::ptr(x)[i]));
    if (nnz > 0 && nnz < 100000) for (long long i = 0; i < nnz; i++) { d.push_back(tlcInt(A::ids(x)[i])); v.push_back(C1::dec(x.values[i])); }
    return "{\"maj\":" + std::to_string(maj) + ",\"min\":" + std::to_string((long long) A::min(x)) + ",\"nnz\":" + std::to_string(tlcInt(nnz)) + ",\"zb\":" + (A::zb(x) ? "true" : "false") +
           ",\"ptr\":" + jsonInts(p) + ",\"ids\":" + jsonInts(d) + ",\"vals\":" + jsonInts(v) + "}";
}
struct FOp { std::string n; NT operator()(const NT &a, const NT &b) const {
    int x = C1::dec(a), y = C1::dec(b);
    return C1::enc(n == "plus" ? x + y : n == "minus" ? x - y : n == "first" ? x : n == "second" ? y : std::max(x, y)); } };
static const char *fops[] = {"plus", "minus", "first", "second", "max", "minus"};

static CSRt *freshCSR(Rng &g, int arg, int bigness) {
    static const int sm[] = {3, 3, 3, 4, 1}, sn[] = {4, 4, 4, 3, 0};
    int s = g.upto(5);
    int m = bigness ? bigness : sm[s], n = bigness ? 40 : sn[s];
    if (arg == 6) { m = 4; n = 0; }
    Mat a(m, n);
    int pct = g.pick(std::vector<int>{0, 20, 30, 45, 60, 60, 80, 100});
    for (int i = 0; i < m; i++) {
        if (g.chance(15)) continue;
        for (int j = 0; j < n; j++) if (g.chance(pct)) a.add(i, j, g.chance(10) ? 0 : g.in(-3000, 3000));
        if (arg == 3) g.shuffle(a.r[i]);
    }
    return toCSR(a);
}
static CSCt *freshCSC(Rng &g, int arg, int bigness) {
    int m = g.pick(std::vector<int>{3, 3, 4, 0}), n = g.pick(std::vector<int>{4, 4, 3});
    if (bigness) m = 30, n = bigness;
    std::vector<Triple<IT, NT>> t;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (g.chance(arg * 15)) t.push_back(Triple<IT, NT>(i, j, C1::enc(g.in(-3000, 3000))));
    return new CSCt(t.data(), (IT) t.size(), (IT) m, (IT) n);
}
template<class T> struct Special;       // operations only one of the two classes has
template<> struct Special<CSRt> {
    static CSRt *fresh(Rng &g, int a, int b) { return freshCSR(g, a, b); }
    static bool one(CSRt &x) { return x.ConvertOneBased(); }
    static bool zero(CSRt &x) { return x.ConvertZeroBased(); }
    static void sort(CSRt &x) { x.sortIds(); }
    static CSRt isect(const CSRt &a, const CSRt &b, FOp f) { return Intersect(a, b, f); }
    static long long sum(CSRt &x) { return tlcInt(C1::dec(x.sumall())); }
};
template<> struct Special<CSCt> {
    static CSCt *fresh(Rng &g, int a, int b) { return freshCSC(g, a, b); }
    static bool one(CSCt &) { return false; }
    static bool zero(CSCt &) { return true; }
    static void sort(CSCt &) {}
    static CSCt isect(const CSCt &a, const CSCt &, FOp) { return a; }
    static long long sum(CSCt &) { return 0; }
};
template<class T> static std::string history(Runner &runner, const std::string &id, const std::vector<PlanOp> &plan, uint64_t seed) {
    using A = Acc<T>;
    using S = Special<T>;
    const int K = 3;
    Rng g(seed);
    int bigness = g.chance(4) ? 60 : 0;
    omp_set_num_threads(g.in(1, 5));
    T *o[K];
    std::string rec = "{\"id\":" + jsonStr(id) + ",\"kind\":" + jsonStr(A::name()) + ",\"status\":\"ok\",\"tol\":" + (std::is_floating_point<NT>::value ? "1024" : "0") + ",\"init\":[";
    for (int k = 0; k < K; k++) { o[k] = new T(); if (k) rec += ","; rec += objJ(*o[k]); }
    rec += "],\"steps\":[";
    int made = 0;
    for (auto p : plan) {
        T *&x = o[p.k - 1];
        T &i = *o[p.i - 1], &j = *o[p.j - 1];
        long long res = 0;
        std::string arg = "-";
        if (p.op == "near" || p.op == "nearone") { T *n = new T(j); delete x; x = n; }
        if ((p.op == "near" || p.op == "nearone") && (x->nnz == 0 || !A::zb(*x))) p.op = "copy";
        else if (p.op == "mutate" && (x->nnz == 0 || !A::zb(*x))) p.op = "isempty";
        if ((p.op == "one" || p.op == "zero") && A::maj(*x) == 0) p.op = "isempty";
        runner.mark(made, std::string(A::name()) + "." + p.op + " " + std::to_string(p.k) + " " + std::to_string(p.i) + " " + std::to_string(p.j));
        vhTrackOn(p.op != "near" && p.op != "nearone" && p.op != "mutate" && (p.op != "isect" || A::maj(i) > 0));     // a matrix without rows: its pointer array is not accounted for
        if (p.op == "default") { delete x; x = new T(); }
        else if (p.op == "fresh") { T *n = S::fresh(g, p.arg, bigness); delete x; x = n; }
        else if (p.op == "copy" && A::maj(*x) == A::maj(j) && x->nnz == j.nnz && &j != x && objJ(*x) == objJ(j)) {}      // done above
        else if (p.op == "copy") { T *n = new T(j); delete x; x = n; }
        else if (p.op == "assign") { *x = j; }
        else if (p.op == "empty") x->make_empty();
        else if (p.op == "sort") S::sort(*x);
        else if (p.op == "shuffle") x->shuffleIds();
        else if (p.op == "one") res = S::one(*x);
        else if (p.op == "zero") res = S::zero(*x);
        else if (p.op == "isect") { arg = fops[p.arg - 1]; *x = S::isect(i, j, FOp{arg}); }
        else if (p.op == "eq") res = i == j;
        else if (p.op == "sum") res = S::sum(i);
        else if (p.op == "isempty") res = i.isEmpty();
        else if (p.op == "mutate" || p.op == "near" || p.op == "nearone") {
            IT q = g.upto((int) x->nnz);
            int v = C1::dec(x->values[q]);
            if (p.arg <= 2) x->values[q] = C1::enc(v + 1);
            else if (p.arg == 3) x->values[q] = C1::enc(v + 200);
            else if (p.arg == 4) x->values[q] = C1::enc(-v - 5);
            else if (p.arg == 6) {  // the last entry of a slice becomes the first of the next one: only the pointers differ
                for (IT t = 0, s0 = g.upto((int) A::maj(*x)); t + 1 < A::maj(*x); t++) {
                    IT s = (s0 + t) % (A::maj(*x) - 1), e = A::ptr(*x)[s + 1];
                    if (e == A::ptr(*x)[s]) continue;
                    if (A::ptr(*x)[s + 2] > e && A::ids(*x)[e] <= A::ids(*x)[e - 1]) continue;
                    A::ptr(*x)[s + 1]--;
                    break;
                }
            }
            else {              // move one entry of a slice to a free place next to it
                IT s = 0;
                while (A::ptr(*x)[s + 1] <= q) s++;
                IT c = A::ids(*x)[q] + 1, lim = q + 1 < A::ptr(*x)[s + 1] ? A::ids(*x)[q + 1] : A::min(*x);
                if (c < lim) A::ids(*x)[q] = c;
            }
            if (p.op == "nearone") S::one(*x);
        }
        vhTrackOn(false);
        rec += (made++ ? ",{" : "{");
        rec += "\"op\":" + jsonStr(p.op) + ",\"k\":" + std::to_string(p.k) + ",\"i\":" + std::to_string(p.i) + ",\"j\":" + std::to_string(p.j) + ",\"arg\":" + jsonStr(arg) +
               ",\"res\":" + std::to_string(res) + ",\"objs\":[";
        for (int k = 0; k < K; k++) { if (k) rec += ","; rec += objJ(*o[k]); }
        rec += "]}";
    }
    runner.mark(made, "destruction");
    for (int k = 0; k < K; k++) delete o[k];
    return rec + "],\"left\":" + std::to_string(vhLeft()) + "}\n";
}

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    freopen("/dev/null", "w", stdout);
    auto a = plansOf(argv[2]), b = plansOf(argv[3]);
    Runner runner(out);
    runner.maxSkips = 0;
    int n = (int) a.size();
    auto idOf = [&](int c) { return std::string(c < n ? "csr" : "csc") + std::to_string(VT) + "." + std::to_string(c); };
    auto body = [&](int c, const std::set<int> &) -> std::string {
        uint64_t seed = seedFromEnv() * 977 + c * 13 + VT;
#ifdef CONTROLLED
        sched::Config cfg;
        cfg.seed = seed; cfg.preemptPerMille = 60; cfg.hotPerMille = 400; cfg.detect = true;
        sched::begin(cfg);
#endif
        std::string r = c < n ? history<CSRt>(runner, idOf(c), a[c], seed) : history<CSCt>(runner, idOf(c), b[c - n], seed);
#ifdef CONTROLLED
        sched::end();
        sched::releaseQuarantine();
#endif
        return r;
    };
    auto onCrash = [&](int c, const std::string &label, const std::string &why) -> std::string {
        return "{\"id\":" + jsonStr(idOf(c)) + ",\"kind\":" + jsonStr(label) + ",\"status\":" + jsonStr(why + " in " + label) + ",\"tol\":0,\"init\":[],\"steps\":[],\"left\":0}\n";
    };
    runner.run(n + (int) b.size(), body, onCrash);
    fclose(out);
    return 0;
}
