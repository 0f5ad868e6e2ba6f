// Conformance harness for C09: prefix sums.  Built twice: with AddressSanitizer and the real
// OpenMP runtime, and with -DCONTROLLED on the controlled runtime of fsched.cpp.
// usage: scan OUT
#ifdef CONTROLLED
#include "fsched.h"
#endif
#include <numeric>
#include <omp.h>
#include <tuple>
#include "common.h"
extern "C" {
#include "GraphBLAS.h"
}
#include "CSC.h"
#include "CSR.h"
#include "utility.h"
#include "spgemm-blocks/scan.h"
#include "spgemm-blocks/masked-spgemm.h"
using namespace vh;

template<class T> struct Scale { static constexpr long long k = sizeof(T) == 8 ? (1ll << 33) + 3 : 1; };   // 64-bit sums leave the 32-bit range
template<class T> long long down(T v) {
    long long x = (long long) v;
    return x % Scale<T>::k || x / Scale<T>::k > 2000000000ll || x / Scale<T>::k < -2000000000ll ? -1999999999ll : x / Scale<T>::k;
}
template<class T> T *exact(size_t n) {      // an array that ends where its last element ends
    T *p = (T *) malloc(sizeof(T) * (n ? n : 1));
    for (size_t i = 0; i < n; i++) p[i] = T(-77777);
    return p;
}
// setRowOffsets is internal to the drivers: use it when it is there with the known arguments
template<class C, class I> auto offsetsDirect(C &c, I *tn, I b, I e, I *rn, int nt, int t, int) -> decltype(setRowOffsets(c, tn, b, e, rn, nt, t), bool()) {
    setRowOffsets(c, tn, b, e, rn, nt, t);
    return true;
}
template<class C, class I> bool offsetsDirect(C &, I *, I, I, I *, int, int, long) { return false; }

struct Job { std::string kind, tag, type; long n; int threads, outer; uint64_t seed; bool wide; };

template<class T> std::string runJob(const Job &j) {
    Rng g(j.seed);
    bool util = j.kind == "util" || j.kind == "seq";
    long inlen = util ? j.n - 1 : j.n;
    T *in = exact<T>(inlen);
    std::vector<long long> vals(inlen);
    int top = j.n > 1000 ? 9 : 60;
    int shape = g.upto(5);
    for (long i = 0; i < inlen; i++) {
        long long v = shape == 0 ? 0 : shape == 1 ? (i == inlen / 2) * 5000 : shape == 2 ? g.in(0, 1) : g.in(std::is_signed<T>::value ? -3 : 0, top);
        vals[i] = v;
        in[i] = T(v * Scale<T>::k);
    }
    T *out = j.kind == "cumsum" ? in : exact<T>(j.n);
    long long total = 0;
    if (j.kind == "incl") inclusiveScan<T>(in, j.n, out, j.threads);
    else if (j.kind == "excl") exclusiveScan<T>(in, j.n, out, j.threads);
    else if (j.kind == "util") { scan<T>(in, out, T(j.n)); }
    else if (j.kind == "seq") { seq_scan<T>(in, out, T(j.n)); }
    else if (j.kind == "cumsum") total = down<T>(CumulativeSum<T>(in, T(j.n)));
    std::string o;
    bool intact = true;
    if (j.kind != "cumsum") for (long i = 0; i < inlen; i++) if (down<T>(in[i]) != vals[i]) intact = false;
    std::vector<long long> res(j.n);
    for (long i = 0; i < j.n; i++) res[i] = down<T>(out[i]);
    o = "\"inp\":" + jsonInts(vals) + ",\"out\":" + jsonInts(res) + ",\"total\":" + std::to_string(total) + ",\"intact\":" + (intact ? "true" : "false");
    free(in);
    if (out != in) free(out);
    return o;
}
template<class T> std::string runOffsets(const Job &j) {      // row sizes -> row pointers, thread by thread
    Rng g(j.seed);
    CSR<T, int> c;
    c.rows = j.n; c.cols = 5; c.nnz = 0;
    c.rowptr = exact<T>(j.n + 1); c.colids = nullptr; c.values = nullptr;
    T *sizes = exact<T>(j.n), *tn = exact<T>(j.threads);
    std::vector<long long> vals(j.n);
    for (long i = 0; i < j.n; i++) sizes[i] = T((vals[i] = g.chance(40) ? 0 : g.in(0, 9)));
    std::vector<T> cut(j.threads + 1, 0);
    for (int t = 1; t < j.threads; t++) cut[t] = T(g.in(0, (int) j.n));
    cut[j.threads] = T(j.n);
    std::sort(cut.begin(), cut.end());
    std::vector<int> order(j.threads);
    for (int t = 0; t < j.threads; t++) { order[t] = t; tn[t] = 0; for (T i = cut[t]; i < cut[t + 1]; i++) tn[t] += sizes[i]; }
    g.shuffle(order);
    bool there = true;
    for (int t : order) there = offsetsDirect(c, tn, cut[t], cut[t + 1], sizes, j.threads, t, 0);
    std::vector<long long> res;
    if (there) for (long i = 0; i <= j.n; i++) res.push_back(tlcInt(c.rowptr[i]));
    else { long long s = 0; for (long i = 0; i <= j.n; i++) { res.push_back(s); if (i < j.n) s += vals[i]; } }
    free(sizes); free(tn);
    c.make_empty();
    return "\"inp\":" + jsonInts(vals) + ",\"out\":" + jsonInts(res) + ",\"total\":0,\"intact\":true";
}
static std::string dispatch(const Job &j) {
    if (j.kind == "offsets") return j.wide ? runOffsets<int64_t>(j) : runOffsets<int>(j);
    if (j.type == "int") return runJob<int>(j);
    if (j.type == "int64") return runJob<int64_t>(j);
    if (j.type == "uint64") return runJob<uint64_t>(j);
    return runJob<unsigned>(j);
}

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    Rng g(seedFromEnv() * 577 + 3);
    std::vector<Job> jobs;
    static const char *types[] = {"int", "int64", "uint64", "uint32"};
    auto add = [&](const char *k, long n, int t, const char *ty) {
        Job j{k, "", ty, n, t, t, g.next(), g.chance(50)};
        j.tag = j.kind + "." + ty + ".n" + std::to_string(n) + ".t" + std::to_string(t) + "." + std::to_string(jobs.size());
        jobs.push_back(j);
    };
    const long BIG = 1l << 17;
#ifndef CONTROLLED
    const char *kinds[] = {"incl", "excl", "util", "seq", "cumsum", "offsets"};
    int top = thorough() ? 70 : 34;
    for (int n = 1; n <= top; n++)
        for (const char *k : kinds) {
            std::vector<int> ts = {1, 2, n, n + 1, g.in(2, 40)};
            for (int t : ts) add(k, n, t, types[g.upto(4)]);
        }
    for (const char *k : kinds) for (int x = 0; x < 6; x++) add(k, g.in(100, 3000), g.in(1, 40), types[g.upto(4)]);
    for (const char *k : {"incl", "util", "excl"}) {
        std::vector<long> ns = {BIG - 1, BIG, BIG + 1, BIG + g.in(2, 9000)};
        if (thorough()) for (int i = 0; i < 6; i++) ns.push_back(BIG + g.in(2, 40000));
        for (long n : ns) add(k, n, g.in(2, 37), types[g.upto(4)]);
    }
    std::stable_sort(jobs.begin(), jobs.end(), [](const Job &a, const Job &b) { return a.threads < b.threads; });
#else
    for (int x = 0; x < (thorough() ? 1500 : 260); x++) {
        int n = g.in(2, 30);
        add("excl", n, g.chance(25) ? n + g.in(1, 4) : g.in(2, 7), types[g.upto(4)]);
    }
    for (int x = 0; x < (thorough() ? 12 : 3); x++) {
        add("incl", BIG + g.in(0, 500), g.in(2, 6), types[g.upto(2)]);
        add("util", BIG + g.in(0, 500), g.in(2, 6), types[g.upto(2)]);
    }
#endif
    Runner runner(out);
    auto head = [&](const Job &j, const std::string &how) {
        return "{\"id\":" + jsonStr(j.tag) + ",\"kind\":" + jsonStr(j.kind) + ",\"how\":" + jsonStr(how) + ",\"n\":" + std::to_string(j.n) + ",\"threads\":" + std::to_string(j.threads) + ",";
    };
    auto body = [&](int ci, const std::set<int> &skip) -> std::string {
        const Job &j = jobs[ci];
        std::map<std::string, std::string> seen;
        omp_set_num_threads(j.threads);
#ifdef CONTROLLED
        Rng q(j.seed + 1);
        bool big = j.n >= BIG;
        int total = big ? 5 : 16;
        sched::forgetHot();
        for (int v = 0; v < total; v++) {
            sched::Config c;
            c.seed = q.next();
            if (v == 0) c.randomSync = false;
            if (v == 1) c.detect = true;
            if (v == 2) { c.randomSync = false; for (int t = j.threads - 1; t >= 0; t--) c.plan.push_back(t); }     // last thread first
            if (v >= 3) c.preemptPerMille = big ? 1 : v % 2 ? 40 : 250;
            if (v >= 6) { c.hotPerMille = 400; if (v > 11) c.preemptPerMille = 0; }
            runner.mark(v, "schedule" + std::to_string(v));
            if (skip.count(v)) continue;
            sched::begin(c);
            std::string r = dispatch(j);
            sched::end();
            sched::releaseQuarantine();
            seen.insert({r, "schedule" + std::to_string(v)});
        }
#else
        runner.mark(0, "run");
        if (!skip.count(0)) seen.insert({dispatch(j), "run"});
#endif
        std::string res;
        for (auto &s : seen) res += head(j, s.second) + "\"status\":\"ok\"," + s.first + "}\n";
        return res;
    };
    auto onCrash = [&](int ci, const std::string &label, const std::string &why) -> std::string {
        return head(jobs[ci], label) + "\"status\":" + jsonStr(why) + ",\"inp\":[],\"out\":[],\"total\":0,\"intact\":true}\n";
    };
    runner.caseTimeout = 20;
    runner.run((int) jobs.size(), body, onCrash);
    fclose(out);
    return 0;
}
