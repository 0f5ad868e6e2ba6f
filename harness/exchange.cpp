// Conformance harness for C19: replays histories generated from ExchangeGen.tla on real CSR and
// CSC objects and GraphBLAS matrices and records every object of the pool after every operation.
// usage: exchange OUT PLANS SCRATCHDIR      (plan line: op k j arg op k j arg ...)
#include <numeric>
#include <omp.h>
#include <tuple>
#include "common.h"
extern "C" {
#include "GraphBLAS.h"
}
#include "CSC.h"
#include "CSR.h"
#include "IO.h"
#include "utility.h"
using namespace vh;
#if VT == 0
using NT = int64_t;
#define TYPENAME INT64
#elif VT == 1
using NT = uint64_t;
#define TYPENAME UINT64
#elif VT == 2
using NT = float;
#define TYPENAME FP32
#elif VT == 3
using NT = double;
#define TYPENAME FP64
#elif VT == 4
using NT = int32_t;
#define TYPENAME INT32
#else
using NT = uint32_t;
#define TYPENAME UINT32
#endif
using IT = GrB_Index;
using X = CSR<IT, NT>;
using Y = CSC<IT, NT>;
static constexpr bool elementwise = VT <= 3;        // only these types can be set entry by entry
static NT enc(int v) { return VT <= 1 ? NT((int64_t(1) << 33) + 1) * NT(v) : VT == 2 ? NT(v * 0.25) : VT == 3 ? NT(v * 0.0009765625) : NT(v); }
static long long dec(NT x) {
    if (VT == 0) { const int64_t u = (int64_t(1) << 33) + 1; return (int64_t) x % u ? BADVAL : tlcInt((int64_t) x / u); }
    if (VT == 1) { const uint64_t u = (uint64_t(1) << 33) + 1; return (uint64_t) x % u ? BADVAL : tlcInt((uint64_t) x / u); }
    if (VT == 2 || VT == 3) { double d = (double) x * (VT == 2 ? 4.0 : 1024.0); return d > -2e9 && d < 2e9 && d == (double) (long long) d ? (long long) d : BADVAL; }
    return tlcInt((long long) x);
}
static int value(Rng &g) { return std::is_signed<NT>::value ? g.in(-900, 900) : g.in(0, 1800); }

struct PlanOp { std::string op; int k, j, arg; };
static std::vector<std::vector<PlanOp>> plansOf(const char *f) {
    std::vector<std::vector<PlanOp>> v;
    std::ifstream in(f);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ss(line);
        PlanOp p;
        v.emplace_back();
        while (ss >> p.op >> p.k >> p.j >> p.arg) v.back().push_back(p);
    }
    return v;
}
static std::string S(long long x) { return std::to_string(tlcInt(x)); }
static std::string compressed(const char *st, long long maj, long long min, long long nnz, bool zb, const IT *ptr, const IT *ids, const NT *vals) {
    std::vector<long long> p, d, v;
    if (ptr && maj >= 0 && maj < 100000) for (long long i = 0; i <= maj; i++) p.push_back(tlcInt((long long) ptr[i]));
    if (ids && vals && nnz > 0 && nnz < 100000) for (long long i = 0; i < nnz; i++) { d.push_back(tlcInt((long long) ids[i])); v.push_back(dec(vals[i])); }
    return std::string("{\"st\":\"") + st + "\",\"maj\":" + S(maj) + ",\"min\":" + S(min) + ",\"nnz\":" + S(nnz) + ",\"zb\":" + (zb ? "true" : "false") + ",\"ptr\":" + jsonInts(p) + ",\"ids\":" +
           jsonInts(d) + ",\"vals\":" + jsonInts(v) + "}";
}
static std::string xJ(const X &x) {
    const char *st = x.rows == 0 && x.nnz == 0 ? "empty" : !x.rowptr && !x.colids && !x.values ? "moved" : "full";
    return compressed(st, x.rows, x.cols, x.nnz, x.zerobased, st[0] == 'f' ? x.rowptr : nullptr, x.colids, x.values);
}
static std::string yJ(const Y &y) {
    const char *st = y.cols == 0 && y.nnz == 0 ? "empty" : !y.colptr && !y.rowids && !y.values ? "moved" : "full";
    return compressed(st, y.cols, y.rows, y.nnz, true, st[0] == 'f' ? y.colptr : nullptr, y.rowids, y.values);
}
#define GLUE2(a, b) a##b
#define GLUE(a, b) GLUE2(a, b)
static GrB_Type grbType() { return GLUE(GrB_, TYPENAME); }
static GrB_Info extract(GrB_Index *r, GrB_Index *c, NT *v, GrB_Index *n, GrB_Matrix a) { return GLUE(GrB_Matrix_extractTuples_, TYPENAME)(r, c, v, n, a); }
static GrB_Info build(GrB_Matrix a, const GrB_Index *r, const GrB_Index *c, const NT *v, GrB_Index n) { return GLUE(GrB_Matrix_build_, TYPENAME)(a, r, c, v, n, GLUE(GrB_FIRST_, TYPENAME)); }
static void setElement(GrB_Matrix a, int v, GrB_Index i, GrB_Index j) {      // harness side: through an intermediate type
    if (VT == 2 || VT == 3) GrB_Matrix_setElement_FP64(a, (double) enc(v), i, j);
    else if (VT == 1) GrB_Matrix_setElement_UINT64(a, (uint64_t) enc(v), i, j);
    else GrB_Matrix_setElement_INT64(a, (int64_t) enc(v), i, j);
}
// what a handle holds; read from a duplicate so that the original keeps its internal form
static std::string gJ(GrB_Matrix h, bool raw) {
    if (!h) return "{\"st\":\"dead\",\"m\":0,\"n\":0,\"bycol\":false,\"t\":[]}";
    GrB_Matrix a = nullptr;
    GrB_Matrix_dup(&a, h);
    GrB_Index m = 0, n = 0, k = 0;
    GrB_Matrix_nrows(&m, a); GrB_Matrix_ncols(&n, a); GrB_Matrix_nvals(&k, a);
    GxB_Format_Value f;
    GxB_Matrix_Option_get(h, GxB_FORMAT, &f);
    std::vector<GrB_Index> r(k + 1), c(k + 1);
    std::vector<NT> v(k + 1);
    extract(r.data(), c.data(), v.data(), &k, a);
    std::vector<std::array<long long, 3>> t;
    for (GrB_Index i = 0; i < k; i++) t.push_back({(long long) r[i], (long long) c[i], raw ? tlcInt((long long) v[i]) : dec(v[i])});
    std::sort(t.begin(), t.end());
    GrB_Matrix_free(&a);
    std::string o = std::string("{\"st\":\"live\",\"m\":") + S((long long) m) + ",\"n\":" + S((long long) n) + ",\"bycol\":" + (f == GxB_BY_COL ? "true" : "false") + ",\"t\":[";
    for (size_t i = 0; i < t.size(); i++) { if (i) o += ","; o += "[" + S(t[i][0]) + "," + S(t[i][1]) + "," + S(t[i][2]) + "]"; }
    return o + "]}";
}
struct E { int r, c, v; };
static std::vector<E> entries(Rng &g, int m, int n, bool unique) {
    std::vector<E> e;
    int pct = g.pick(std::vector<int>{0, 10, 25, 40, 60, 60, 85, 100});
    int u = 1;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (g.chance(pct)) e.push_back({i, j, unique ? u++ : value(g)});
    return e;
}
static void dims(Rng &g, int &m, int &n) {
    m = g.in(1, 6); n = g.chance(60) ? m : g.in(1, 6);
    if (g.chance(6)) { m = g.in(10, 24); n = g.chance(60) ? m : g.in(10, 24); }
}
static X *freshX(Rng &g) {
    int m, n;
    dims(g, m, n);
    auto e = entries(g, m, n, g.chance(60));
    X *x = new X((IT) e.size(), (IT) m, (IT) n);
    std::fill(x->rowptr, x->rowptr + m + 1, (IT) 0);
    for (size_t i = 0; i < e.size(); i++) { x->rowptr[e[i].r + 1]++; x->colids[i] = e[i].c; x->values[i] = enc(e[i].v); }
    for (int i = 0; i < m; i++) x->rowptr[i + 1] += x->rowptr[i];
    return x;
}
static Y *freshY(Rng &g) {
    int m, n;
    dims(g, m, n);
    auto e = entries(g, n, m, g.chance(60));       // by columns
    Y *y = new Y();
    y->rows = m; y->cols = n; y->nnz = e.size();
    y->colptr = my_malloc<IT>(n + 1); y->rowids = my_malloc<IT>(e.size()); y->values = my_malloc<NT>(e.size());
    std::fill(y->colptr, y->colptr + n + 1, (IT) 0);
    for (size_t i = 0; i < e.size(); i++) { y->colptr[e[i].r + 1]++; y->rowids[i] = e[i].c; y->values[i] = enc(e[i].v); }
    for (int i = 0; i < n; i++) y->colptr[i + 1] += y->colptr[i];
    return y;
}
static GrB_Matrix freshG(Rng &g, int arg) {
    int m, n;
    dims(g, m, n);
    if (arg == 11 && n == m) n = m + 1;
    auto e = entries(g, m, n, arg != 2 && arg != 8);
    if (arg == 2) for (auto &x : e) x.v = 5;
    if (arg == 3) e.clear();
    if (arg == 6) e = {{g.upto(m), g.upto(n), value(g)}};
    if (arg == 9) { e.clear(); int u = 1; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e.push_back({i, j, u++}); }
    GrB_Matrix a = nullptr;
    if (arg == 4) GxB_Global_Option_set(GxB_FORMAT, GxB_BY_COL);
    GrB_Matrix_new(&a, grbType(), m, n);
    if (arg == 4) GxB_Global_Option_set(GxB_FORMAT, GxB_BY_ROW);
    std::vector<GrB_Index> r, c;
    std::vector<NT> v;
    std::vector<E> in = e, late;
    g.shuffle(in);
    if (arg == 10) while (in.size() > 1 && (int) late.size() < 3) { late.push_back(in.back()); in.pop_back(); }
    if (arg == 5) {          // rows in any order, as a multiplication without sorting leaves them
        size_t k = in.size();
        IT *p = (IT *) calloc(m + 1, sizeof(IT)), *d = (IT *) malloc(sizeof(IT) * (k + 1));
        NT *x = (NT *) malloc(sizeof(NT) * (k + 1));
        std::stable_sort(in.begin(), in.end(), [](const E &a, const E &b) { return a.r < b.r; });
        for (size_t i = 0; i < k; i++) { p[in[i].r + 1]++; d[i] = in[i].c; x[i] = enc(in[i].v); }
        for (int i = 0; i < m; i++) p[i + 1] += p[i];
        GxB_Matrix_pack_CSR(a, &p, &d, (void **) &x, sizeof(IT) * (m + 1), sizeof(IT) * (k + 1), sizeof(NT) * (k + 1), false, true, nullptr);
        return a;
    }
    for (auto &x : in) { r.push_back(x.r); c.push_back(x.c); v.push_back(enc(x.v)); }
    r.push_back(0); c.push_back(0); v.push_back(0);
    build(a, r.data(), c.data(), v.data(), in.size());
    for (auto &x : late) setElement(a, x.v, x.r, x.c);                     // pending
    if (arg == 10 && in.size() > 2) GrB_Matrix_removeElement(a, in[0].r, in[0].c);
    if (arg == 7) GxB_Matrix_Option_set(a, GxB_SPARSITY_CONTROL, GxB_HYPERSPARSE);
    if (arg == 8) GxB_Matrix_Option_set(a, GxB_SPARSITY_CONTROL, GxB_BITMAP);
    if (arg == 7 || arg == 8) { GrB_Matrix_wait(a, GrB_MATERIALIZE); GxB_Matrix_Option_set(a, GxB_SPARSITY_CONTROL, GxB_AUTO_SPARSITY); }
    return a;
}
static std::string history(Runner &runner, const std::string &id, const std::vector<PlanOp> &plan, uint64_t seed, const std::string &dir) {
    Rng g(seed);
    static bool ready = false;
    if (!ready) { GrB_init(seed % 2 ? GrB_BLOCKING : GrB_NONBLOCKING); GxB_Global_Option_set(GxB_FORMAT, GxB_BY_ROW); ready = true; }
    if (g.chance(50)) { double b[GxB_NBITMAP_SWITCH]; std::fill(b, b + GxB_NBITMAP_SWITCH, 1.0); GxB_Global_Option_set(GxB_BITMAP_SWITCH, b); GxB_Global_Option_set(GxB_HYPER_SWITCH, GxB_NEVER_HYPER); }
    GxB_Global_Option_set(GxB_GLOBAL_NTHREADS, g.in(1, 4));
    X *x[2] = {new X(), new X()};
    Y *y = new Y();
    y->colptr = y->rowids = nullptr; y->values = nullptr;
    GrB_Matrix h[3] = {nullptr, nullptr, nullptr};
    bool raw[3] = {false, false, false};
    auto pool = [&]() {
        GxB_Format_Value f;
        GxB_Global_Option_get(GxB_FORMAT, &f);
        return "{\"byrow\":" + std::string(f == GxB_BY_ROW ? "true" : "false") + ",\"x\":[" + xJ(*x[0]) + "," + xJ(*x[1]) + "],\"y\":" + yJ(*y) + ",\"g\":[" + gJ(h[0], raw[0]) + "," + gJ(h[1], raw[1]) + "," + gJ(h[2], raw[2]) + "]}";
    };
    std::string rec = "{\"id\":" + jsonStr(id) + ",\"status\":\"ok\",\"init\":" + pool() + ",\"steps\":[";
    int made = 0;
    for (auto p : plan) {
        int kx = p.k % 2, jx = p.j % 2, k = p.k - 1, j = p.j - 1;      // as in ExchangeGen: 1 + (k % 2)
        std::string extra;
        auto sq = [&](GrB_Matrix a) { GrB_Index m, n; GrB_Matrix_nrows(&m, a); GrB_Matrix_ncols(&n, a); return m == n; };
        auto rawness = [&](int t) { return raw[t]; };
        // an operation its operands do not allow becomes one that changes nothing
        if (p.op == "sortdeg" && h[k] && !sq(h[k])) p.op = "nothing";
        if (p.op == "avoidiso" && (!elementwise || raw[k])) p.op = "nothing";
        if (p.op != "read" && p.op != "freeG" && p.op != "freshG" && ((p.j >= 1 && raw[j]) || raw[k])) p.op = "nothing";   // drawn values: only read
        if ((p.op == "build" || p.op == "pack" || p.op == "import" || p.op == "copyX" || p.op == "assignX") && (x[jx]->rows == 0 || !x[jx]->rowptr)) p.op = "nothing";
        for (const char *o : {"unpack", "exportdup", "export", "unpackY", "lowtri", "tocsc"}) if (p.op == o && !h[j]) p.op = "nothing";
        for (const char *o : {"sortdeg", "avoidiso"}) if (p.op == o && !h[k]) p.op = "nothing";
        if ((p.op == "pack" || p.op == "import") && !x[jx]->zerobased) p.op = "nothing";        // the plan may think otherwise, after another step was left out
        if (p.op == "onebased" && !x[kx]->zerobased) p.op = "nothing";
        if (p.op == "packY" && (y->cols == 0 || !y->colptr)) p.op = "nothing";
        if (p.op == "onebased" && (x[kx]->rows == 0 || !x[kx]->rowptr)) p.op = "nothing";
        runner.mark(made, p.op + " " + std::to_string(p.k) + " " + std::to_string(p.j) + " " + std::to_string(p.arg));
        int rk = p.k, rj = p.j;
        if (p.op == "freshX") { X *n = freshX(g); delete x[kx]; x[kx] = n; rk = kx + 1; }
        else if (p.op == "freshY") { Y *n = freshY(g); delete y; y = n; }
        else if (p.op == "freshG") { GrB_Matrix n = freshG(g, p.arg); GrB_Matrix_free(&h[k]); h[k] = n; raw[k] = false; }
        else if (p.op == "build") {
            rj = jx + 1;
            GrB_Matrix old = h[k];
            if (p.arg % 3 == 0) {                // the same matrix with narrower indices
                CSR<int, NT> s((int) x[jx]->nnz, (int) x[jx]->rows, (int) x[jx]->cols);
                for (IT i = 0; i <= x[jx]->rows; i++) s.rowptr[i] = (int) x[jx]->rowptr[i];
                for (IT i = 0; i < x[jx]->nnz; i++) { s.colids[i] = (int) x[jx]->colids[i]; s.values[i] = x[jx]->values[i]; }
                s.zerobased = x[jx]->zerobased;
                s.get_grb_mat(&h[k]);
            } else x[jx]->get_grb_mat(&h[k]);
            if (old && old != h[k]) GrB_Matrix_free(&old);      // the call only forgets it
        }
        else if (p.op == "pack") {
            rj = jx + 1;
            GrB_Index m = 0, n = 0;
            if (h[k]) { GrB_Matrix_nrows(&m, h[k]); GrB_Matrix_ncols(&n, h[k]); }
            if (m != x[jx]->rows || n != x[jx]->cols || p.arg % 2) { GrB_Matrix_free(&h[k]); GrB_Matrix_new(&h[k], grbType(), x[jx]->rows, x[jx]->cols); }
            x[jx]->get_grb_mat(h[k]);
        }
        else if (p.op == "import") { rj = jx + 1; GrB_Matrix_free(&h[k]); x[jx]->get_grb_mat_ptr(&h[k]); }
        else if (p.op == "packY") {
            GrB_Matrix_free(&h[k]);
            if (p.arg % 2) GxB_Global_Option_set(GxB_FORMAT, GxB_BY_COL);
            GrB_Matrix_new(&h[k], grbType(), y->rows, y->cols);
            GxB_Global_Option_set(GxB_FORMAT, GxB_BY_ROW);
            y->get_grb_mat(h[k]);
        }
        else if (p.op == "unpack") { rk = kx + 1; X *n = new X(h[j]); delete x[kx]; x[kx] = n; }
        else if (p.op == "exportdup") { rk = kx + 1; X *n = new X(&h[j], true); delete x[kx]; x[kx] = n; }
        else if (p.op == "export") { rk = kx + 1; X *n = new X(&h[j], false); delete x[kx]; x[kx] = n; h[j] = nullptr; }
        else if (p.op == "unpackY") { Y *n = new Y(h[j]); delete y; y = n; }
        else if (p.op == "lowtri") { GrB_Matrix_free(&h[k]); get_lowtri<NT>(h[j], &h[k]); }
        else if (p.op == "tocsc") { GrB_Matrix_free(&h[k]); convert_to_csc<NT>(h[j], &h[k]); }
        else if (p.op == "sortdeg") { GrB_Matrix old = h[k]; sort_by_degree<NT>(&h[k]); if (old != h[k]) GrB_Matrix_free(&old); }
#if VT <= 3
        else if (p.op == "avoidiso") {
            {
                GrB_Index m, n;
                GrB_Matrix_nrows(&m, h[k]); GrB_Matrix_ncols(&n, h[k]);
                int r = g.upto((int) m), c = g.upto((int) n), v = 1 + g.upto(900);
                avoid_iso<NT>(h[k], enc(v), (GrB_Index) r, (GrB_Index) c);
                extra = ",\"r\":" + std::to_string(r) + ",\"c\":" + std::to_string(c) + ",\"v\":" + std::to_string(v);
            }
        }
#endif
        else if (p.op == "read") {
            bool sym = g.chance(40), pattern = g.chance(30), nodiag = g.chance(60), rand = g.chance(30), mirror;
            int m = g.in(1, 6), n = sym || g.chance(70) ? m : g.in(1, 6);
            mirror = m == n && g.chance(50);
            if (!rand && (VT == 0 || VT == 1 || VT == 2 || VT == 3)) pattern = false;      // a missing value is 1, which the encodings have not
            std::string f = dir + "/f.mtx", lines = std::string("[[\"banner\",") + (sym ? "true" : "false") + "]";
            std::vector<E> e;
            int pct = g.pick(std::vector<int>{0, 20, 40, 70});
            for (int i = 0; i < m; i++) for (int q = 0; q < (sym ? i + 1 : n); q++) if (g.chance(pct)) { e.push_back({i + 1, q + 1, g.in(1, 900)}); if (g.chance(8)) e.push_back({i + 1, q + 1, g.in(1, 900)}); }
            g.shuffle(e);
            FILE *o = fopen(f.c_str(), "w");
            fprintf(o, "%%%%MatrixMarket matrix coordinate %s %s\n%% written by the check\n%d %d %d\n", pattern ? "pattern" : VT == 2 || VT == 3 ? "real" : "integer", sym ? "symmetric" : "general", m, n, (int) e.size());
            lines += ",[\"comment\"],[\"size\"," + std::to_string(m) + "," + std::to_string(n) + "," + std::to_string(e.size()) + "]";
            for (auto &t : e) {
                if (pattern) { fprintf(o, "%d %d\n", t.r, t.c); lines += ",[\"pattern\"," + std::to_string(t.r) + "," + std::to_string(t.c) + "]"; }
                else {
                    if (VT == 2 || VT == 3) fprintf(o, "%d %d %.10g\n", t.r, t.c, (double) enc(t.v)); else fprintf(o, "%d %d %lld\n", t.r, t.c, (long long) enc(t.v));
                    lines += ",[\"entry\"," + std::to_string(t.r) + "," + std::to_string(t.c) + "," + std::to_string(t.v) + "]";
                }
            }
            fclose(o);
            GrB_Matrix_free(&h[k]);
            read_grb_mtx<NT>(&h[k], (char *) f.c_str(), nodiag, mirror, rand);
            raw[k] = rand;
            auto B = [](bool b) { return b ? "true" : "false"; };
            extra = std::string(",\"nodiag\":") + B(nodiag) + ",\"mirror\":" + B(mirror) + ",\"rand\":" + B(rand) + ",\"one\":1,\"lines\":" + lines + "]";
        }
        else if (p.op == "freeX") { rk = kx + 1; x[kx]->make_empty(); }
        else if (p.op == "freeY") y->make_empty();
        else if (p.op == "freeG") { GrB_Matrix_free(&h[k]); raw[k] = false; }
        else if (p.op == "onebased") { rk = kx + 1; x[kx]->ConvertOneBased(); }
        else if (p.op == "copyX") { rk = kx + 1; rj = jx + 1; X *n = new X(*x[jx]); delete x[kx]; x[kx] = n; }
        else if (p.op == "assignX") { rk = kx + 1; rj = jx + 1; *x[kx] = *x[jx]; }
        (void) rawness;
        rec += (made++ ? ",{" : "{");
        rec += "\"op\":" + jsonStr(p.op) + ",\"k\":" + std::to_string(rk) + ",\"j\":" + std::to_string(rj) + extra + ",\"objs\":" + pool() + "}";
        if (p.op == "export" || p.op == "freeG") raw[p.op == "export" ? j : k] = false;
    }
    runner.mark(made, "destruction");
    delete x[0]; delete x[1]; delete y;
    for (auto &a : h) GrB_Matrix_free(&a);
    return rec + "]}\n";
}

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    freopen("/dev/null", "w", stdout);
    auto a = plansOf(argv[2]);
    Runner runner(out);
    runner.maxSkips = 0;
    runner.caseTimeout = 60;
    auto idOf = [&](int c) { return "v" + std::to_string(VT) + "." + std::to_string(c); };
    runner.run((int) a.size(), [&](int c, const std::set<int> &) { return history(runner, idOf(c), a[c], seedFromEnv() * 977 + c * 13 + VT, argv[3]); },
        [&](int c, const std::string &label, const std::string &why) {
            return "{\"id\":" + jsonStr(idOf(c)) + ",\"status\":" + jsonStr(why + " in " + label) + ",\"init\":[],\"steps\":[]}\n"; });
    fclose(out);
    return 0;
}
