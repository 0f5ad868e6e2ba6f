// Conformance harness for C10: who gets which rows, and are the bounds computed for them enough.
//   direct  distributeWork / scanInputs (internal: used when present with the known arguments)
//   driver  MaskedSpGEMM1p / 2p with a row algorithm that records what it is asked to do
//   bin     the BIN class of the baseline kernels
// usage: workdist OUT PART
#ifdef CONTROLLED      // on the controlled OpenMP runtime of fsched.cpp
#include "fsched.h"
#define USABLE(p) (((size_t *) (p))[-2])
#else
#define USABLE(p) malloc_usable_size(p)
#endif
#include <malloc.h>
#include <numeric>
#include <omp.h>
#include <tuple>
#define VT 0
#include "common.h"
extern "C" {
#include "GraphBLAS.h"
}
#include "CSC.h"
#include "CSR.h"
#include "utility.h"
#include "BIN.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "mats.h"

// ---------------------------------------------------------------- the recording row algorithm
struct Log { std::vector<std::vector<long long>> numeric, symbolic, ctor; };
static Log logs;
template<bool Comp, int Flags, class I, class N> struct Probe {
    inline const static bool COMPLEMENTED = Comp;
    inline const static bool CALC_MAX_ROW_SIZE_A = Flags & 1;
    inline const static bool CALC_MAX_ROW_SIZE_M = Flags & 2;
    inline const static bool CALC_MAX_ROW_FLOPS = Flags & 4;
    struct Acc {
        std::byte *b = nullptr;
        size_t n = 0;
        void setBuffer(std::byte *buf, size_t size, size_t) { b = buf; n = size; if (n) memset(b, 7, n); }
        size_t releaseBuffer() { return n; }
        std::tuple<size_t, size_t> getMemoryRequirement() { return {64, 16}; }
        bool isInitialized() { return true; }
    } acc1, acc2;
    Probe(I cols, I ma, I mm, I mf) {
        int t = omp_get_thread_num();
        logs.ctor[t] = {(long long) cols, Flags & 1 ? (long long) ma : -1, Flags & 2 ? (long long) mm : -1, Flags & 4 ? (long long) mf : -1};
    }
    std::tuple<size_t, size_t> getMemoryRequirement() { return {64, 16}; }
    Acc &getSymbolicAccumulator() { return acc1; }
    Acc &getNumericAccumulator() { return acc2; }
    static I count(const CSR<I, N> &A, const CSR<I, N> &B, const CSR<I, N> &M, I row) {
        I f = 0;
        for (I j = A.rowptr[row]; j < A.rowptr[row + 1]; j++) f += B.rowptr[A.colids[j] + 1] - B.rowptr[A.colids[j]];
        return Comp ? f : std::min(f, M.rowptr[row + 1] - M.rowptr[row]);
    }
    void symbolicRow(const CSR<I, N> &A, const CSR<I, N> &B, const CSR<I, N> &M, I row, I *rowNvals, I &) {
        logs.symbolic[omp_get_thread_num()].push_back(row);
        rowNvals[row] = count(A, B, M, row);
    }
    template<class X, class Y> void numericRow(const CSR<I, N> &A, const CSR<I, N> &B, const CSR<I, N> &M, X, Y, I row, I *&col, N *&val, I &) {
        logs.numeric[omp_get_thread_num()].push_back(row);
        I k = count(A, B, M, row);
        for (I i = 0; i < k; i++) { *col++ = i; *val++ = N(row); }
    }
};
template<bool C, int F> struct P { template<class I, class N> using Impl = Probe<C, F, I, N>; };

// ---------------------------------------------------------------- internal helpers, if they are there
template<class I> auto dist(I total, I *cum, I n, int T, int t, std::pair<I, I> &r, int) -> decltype(distributeWork(total, cum, n, T, t), bool()) {
    auto [b, e] = distributeWork(total, cum, n, T, t);
    r = {b, e};
    return true;
}
template<class I> bool dist(I, I *, I, int, int, std::pair<I, I> &, long) { return false; }
template<bool C, class I> auto bounds(I b, I e, I *f, const CSR<I, int> &A, const CSR<I, int> &B, const CSR<I, int> &M, std::vector<long long> &r, int)
    -> decltype(scanInputs<C, true, true, true, true>(b, e, f, A, B, M), bool()) {
    auto [u, a, m, x] = scanInputs<C, true, true, true, true>(b, e, f, A, B, M);
    r = {u, a, m, x};
    return true;
}
template<bool C, class I> bool bounds(I, I, I *, const CSR<I, int> &, const CSR<I, int> &, const CSR<I, int> &, std::vector<long long> &, long) { return false; }

struct Job { std::string kind, tag; Mat A, B, M; int T, comp, phases, flags, cols; std::vector<long long> f; };
static std::string lists(const std::vector<std::vector<long long>> &v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + jsonInts(v[i]);
    return o + "]";
}
static std::vector<long long> sizes(const Mat &a) { std::vector<long long> s; for (auto &r : a.r) s.push_back((long long) r.size()); return s; }

template<class I, bool C> static std::string direct(const Job &j) {
    int n = j.A.m;
    CSR<I, int> A, B, M;
    auto mk = [&](CSR<I, int> &x, const Mat &a) {
        x.rows = a.m; x.cols = a.n; x.nnz = a.nnz();
        x.rowptr = my_malloc<I>(a.m + 1); x.colids = my_malloc<I>(x.nnz); x.values = my_malloc<int>(x.nnz);
        I p = 0;
        for (int i = 0; i < a.m; i++) { x.rowptr[i] = p; for (auto &e : a.r[i]) { x.colids[p] = e.first; x.values[p++] = 1; } }
        x.rowptr[a.m] = p;
    };
    mk(A, j.A); mk(B, j.B); mk(M, j.M);
    std::vector<I> cum(n), f(j.f.begin(), j.f.end());
    I total = 0;
    for (int i = 0; i < n; i++) { cum[i] = total; total += f[i]; }
    I *exact = (I *) malloc(sizeof(I) * n);
    memcpy(exact, cum.data(), sizeof(I) * n);
    std::vector<std::vector<long long>> ranges, bnd;
    bool there = true;
    for (int t = 0; t < j.T; t++) {
        std::pair<I, I> r;
        if (!dist<I>(total, exact, n, j.T, t, r, 0)) { there = false; break; }
        ranges.push_back({(long long) r.first, (long long) r.second});
        std::vector<long long> b;
        if (r.first >= 0 && r.second <= n && bounds<C, I>(r.first, r.second, f.data(), A, B, M, b, 0)) bnd.push_back(b);
    }
    free(exact);
    if (!there) { ranges = {{0, n}}; bnd.clear(); }
    return "\"ranges\":" + lists(ranges) + ",\"bounds\":" + lists(bnd);
}
template<bool C, int F> static void mult(const Job &j, const CSRt &A, const CSRt &B, CSRt &R, const CSRt &M) {
    if (j.phases == 1) MaskedSpGEMM1p<P<C, F>::template Impl>(A, B, R, M, Mul{0}, Add{0}, j.T);
    else MaskedSpGEMM2p<P<C, F>::template Impl>(A, B, R, M, Mul{0}, Add{0}, j.T);
}
static std::string driver(const Job &j) {
    CSRt *A = toCSR(j.A), *B = toCSR(j.B), *M = toCSR(j.M), R;
    R.rowptr = nullptr; R.colids = nullptr; R.values = nullptr;
    logs.numeric.assign(j.T, {}); logs.symbolic.assign(j.T, {}); logs.ctor.assign(j.T, {0, -1, -1, -1});
    switch (j.flags * 2 + j.comp) {
#define CASE(F) case F * 2: mult<false, F>(j, *A, *B, R, *M); break; case F * 2 + 1: mult<true, F>(j, *A, *B, R, *M); break;
        CASE(0) CASE(1) CASE(2) CASE(3) CASE(4) CASE(5) CASE(6) CASE(7)
    }
    std::vector<long long> rp, va;
    for (int i = 0; i <= j.A.m; i++) rp.push_back(tlcInt(R.rowptr[i]));
    for (int i = 0; i < R.nnz && R.nnz < 1000000; i++) va.push_back(R.values[i]);
    delete A; delete B; delete M;
    return "\"phases\":" + std::to_string(j.phases) + ",\"numeric\":" + lists(logs.numeric) + ",\"symbolic\":" + lists(logs.symbolic) + ",\"ctor\":" + lists(logs.ctor) +
           ",\"rowptr\":" + jsonInts(rp) + ",\"values\":" + jsonInts(va);
}
template<class I> static std::string binning(const Job &j, int min) {
    int n = j.A.m;
    std::vector<I> arpt(n + 1), acol, brpt(j.B.m + 1);
    for (int i = 0; i < n; i++) { arpt[i] = acol.size(); for (auto &e : j.A.r[i]) acol.push_back(e.first); }
    arpt[n] = acol.size();
    I p = 0;
    for (int i = 0; i < j.B.m; i++) { brpt[i] = p; p += j.B.r[i].size(); }
    brpt[j.B.m] = p;
    acol.push_back(0);
    BIN<I, double> bin(n, min, j.T);
    bin.set_max_bin(arpt.data(), acol.data(), brpt.data(), n, j.cols);
    std::vector<long long> off(bin.rows_offset, bin.rows_offset + j.T + 1), nz(bin.row_nz, bin.row_nz + n), bi(bin.bin_id, bin.bin_id + n), table, bi2, nz2;
    bin.create_local_hash_table(j.cols);
    for (int t = 0; t < j.T; t++)
        table.push_back(std::min<long long>(USABLE(bin.local_hash_table_id[t]) / sizeof(I), USABLE(bin.local_hash_table_val[t]) / sizeof(double)));
    for (int i = 0; i < n; i++) { long long v = std::min<long long>(nz[i], j.cols); if (v > 0) v = 1 + (i * 7 + v) % v; nz2.push_back(v); bin.row_nz[i] = (I) v; }
    bin.set_min_bin(n, j.cols);
    bi2.assign(bin.bin_id, bin.bin_id + n);
    return "\"min\":" + std::to_string(min) + ",\"offsets\":" + jsonInts(off) + ",\"rownz\":" + jsonInts(nz) + ",\"total\":" + std::to_string(bin.total_intprod) + ",\"bin\":" + jsonInts(bi) +
           ",\"table\":" + jsonInts(table) + ",\"nz2\":" + jsonInts(nz2) + ",\"bin2\":" + jsonInts(bi2);
}

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    int part = atoi(argv[2]);
    Rng g(seedFromEnv() * 313 + part);
    std::vector<Job> jobs;
    // a problem whose row i needs w[i] products: B has rows of size 0, 1, 2, 3, 7 ...
    auto problem = [&](const std::vector<int> &w, const std::vector<int> &m, const std::string &tag) {
        Job j;
        int n = (int) w.size(), bcols = 24;
        static const int bs[] = {0, 1, 2, 3, 7, 20};
        j.A = Mat(n, 40); j.B = Mat(40, bcols); j.M = Mat(n, bcols);
        for (int k = 0; k < 40; k++) { int s = k < 6 ? bs[k] : k % 3 == 0 ? 20 : k % 2 ? 1 : 7; for (int c = 0; c < s; c++) j.B.add(k, c, 1); }
        for (int i = 0; i < n; i++) {
            int left = w[i], k;
            std::set<int> used;
            while (left > 0) {
                for (k = 39; k > 0; k--) if (!used.count(k) && (int) j.B.r[k].size() > 0 && (int) j.B.r[k].size() <= left) break;
                if (k == 0) break;
                used.insert(k);
                left -= (int) j.B.r[k].size();
            }
            if (g.chance(20)) used.insert(0);
            for (int x : used) j.A.add(i, x, 1);
            for (int c = 0; c < std::min(m[i], bcols); c++) j.M.add(i, c, 1);
        }
        j.tag = tag;
        return j;
    };
    auto finish = [&](Job j, const std::string &kind, int T) {
        j.kind = kind; j.T = T;
        j.comp = kind == "bin" ? 0 : g.upto(2);
        j.phases = 1 + g.upto(2);
        j.flags = g.upto(8);
        j.cols = kind == "bin" ? g.pick(std::vector<int>{1, 7, 8, 9, 24, 100}) : j.B.n;
        j.f.clear();
        for (int i = 0; i < j.A.m; i++) {
            long long f = 0;
            for (auto &e : j.A.r[i]) f += (long long) j.B.r[e.first].size();
            if (kind != "bin" && !j.comp && j.M.r[i].empty()) f = 0;
            j.f.push_back(f);
        }
        j.tag = kind + "." + j.tag + ".T" + std::to_string(T) + "." + std::to_string(jobs.size());
        jobs.push_back(j);
    };
    const char *kind = part == 0 ? "direct" : part == 1 ? "driver" : "bin";
    // every small work vector
    int maxn = thorough() ? 5 : 4, lv = thorough() ? 4 : 3;
    static const int level[] = {0, 1, 3, 30};
    for (int n = 1; n <= maxn; n++) {
        int tot = 1;
        for (int i = 0; i < n; i++) tot *= lv;
        for (int x = 0; x < tot; x++) {
            std::vector<int> w(n), m(n);
            for (int i = 0, y = x; i < n; i++, y /= lv) { w[i] = level[y % lv]; m[i] = g.in(0, 4); }
            Job j = problem(w, m, "ex" + std::to_string(n) + "_" + std::to_string(x));
            if (part == 0) for (int T = 1; T <= 6; T++) finish(j, kind, T);
            else finish(j, kind, g.in(1, 6));
        }
    }
    for (int x = 0; x < (thorough() ? 2500 : 260); x++) {
        int n = g.chance(20) ? g.in(50, 200) : g.in(1, 24), shape = g.upto(6);
        std::vector<int> w(n), m(n);
        for (int i = 0; i < n; i++) {
            w[i] = shape == 0 ? 0 : shape == 1 ? (i == n / 2 ? 200 : 0) : shape == 2 ? (i < n - 1 ? 1 : 150) : shape == 3 ? (g.chance(80) ? 0 : g.in(1, 50)) : shape == 4 ? (i == 0 ? 100 : g.in(0, 2)) : g.in(0, 20);
            m[i] = g.in(0, 24);
        }
        finish(problem(w, m, "r" + std::to_string(x)), kind, g.chance(30) ? n + g.in(1, 3) > 40 ? 40 : n + g.in(1, 3) : g.in(1, 12));
    }
    std::stable_sort(jobs.begin(), jobs.end(), [](const Job &a, const Job &b) { return a.T < b.T; });
    Runner runner(out);
    auto head = [&](const Job &j) {
        return "{\"id\":" + jsonStr(j.tag) + ",\"kind\":" + jsonStr(j.kind) + ",\"n\":" + std::to_string(j.A.m) + ",\"cols\":" + std::to_string(j.cols) + ",\"threads\":" + std::to_string(j.T) +
               ",\"comp\":" + (j.comp ? "true" : "false") + ",\"a\":" + jsonInts(sizes(j.A)) + ",\"m\":" + jsonInts(sizes(j.M)) + ",\"f\":" + jsonInts(j.f) + ",\"status\":";
    };
    auto body = [&](int ci, const std::set<int> &skip) -> std::string {
        const Job &j = jobs[ci];
        runner.mark(0, "run");
        if (skip.count(0)) return "";
        omp_set_num_threads(j.T);
        std::string o;
#ifdef CONTROLLED
        sched::Config cfg;
        cfg.seed = ci * 7 + seedFromEnv();
        cfg.preemptPerMille = ci % 4 == 0 ? 0 : ci % 4 == 1 ? 20 : 150;
        sched::begin(cfg);
#endif
        if (part == 0) o = ci % 2 ? (j.comp ? direct<int, true>(j) : direct<int, false>(j)) : (j.comp ? direct<int64_t, true>(j) : direct<int64_t, false>(j));
        else if (part == 1) o = driver(j);
        else o = ci % 2 ? binning<int>(j, 8) : binning<int64_t>(j, ci % 3 ? 8 : 16);
#ifdef CONTROLLED
        sched::end();
        sched::releaseQuarantine();
#endif
        return head(j) + "\"ok\"," + o + "}\n";
    };
    auto onCrash = [&](int ci, const std::string &, const std::string &why) -> std::string { return head(jobs[ci]) + jsonStr(why) + "}\n"; };
    runner.caseTimeout = 20;
    runner.run((int) jobs.size(), body, onCrash);
    fclose(out);
    return 0;
}
