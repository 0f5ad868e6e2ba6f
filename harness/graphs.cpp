// Conformance harness for C16, C17 and C18: runs the repository's own graph programs (their main,
// renamed, in a process of its own per run) on generated graphs and records what they print, and
// records the sweeps of their kernels.     usage: graphs OUT SCRATCHDIR SHARD NSHARDS NCASES
#include <cmath>
#include <numeric>
#include <omp.h>
#include <tuple>
#include "common.h"
#if APP != 1
extern "C" {
#include "GraphBLAS.h"
}
#endif
#define main app_main
#if APP == 1
#include "benchmarks/TriCntAll.cpp"
#elif APP == 2
#define GrB_Matrix_wait(x) GrB_Matrix_wait(*(x), GrB_MATERIALIZE)      // the call's signature since GraphBLAS 6
#include "benchmarks/TriCntAllGrb.cpp"
#elif APP == 3
#include "benchmarks/KTrussAllGrb.cpp"
#else
#include "benchmarks/BCAllGrb.cpp"
#endif
#undef main
using namespace vh;

static const bool DIRECTED = APP == 4;
struct Graph { int n; bool sym, pattern; std::vector<std::pair<int, int>> lines; };       // lines: 1-based, as in the file
static Graph random(Rng &g, int c, bool small) {
    Graph q;
    int shape = c % 16;
    int n = small ? g.in(1, 7) : g.pick(std::vector<int>{2, 3, 4, 5, 6, 8, 10, 13, 17, 24, 33});
    std::set<std::pair<int, int>> e;       // 0-based arcs
    auto both = [&](int a, int b) { if (a != b) { e.insert({a, b}); if (DIRECTED) e.insert({b, a}); } };
    switch (shape) {
        case 0: for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) both(i, j); break;                                     // complete
        case 1: for (int i = 0; i < n; i++) both(i, (i + 1) % n); break;                                                        // cycle
        case 2: n = std::max(n, 2); for (int i = 1; i < n; i++) both(0, i); if (g.chance(50)) for (int i = 1; i + 1 < n; i++) both(i, i + 1); break;   // star, wheel
        case 3: { int h = n / 2; for (int i = 0; i < h; i++) for (int j = h; j < n; j++) both(i, j); } break;                   // bipartite: no triangle
        case 4: break;                                                                                                          // no edges
        case 5: n = std::max(n, 2); both(g.upto(n), g.upto(n)); break;                                                         // at most one edge
        case 6: { int b = g.in(3, 5); for (int o = 0; o + b <= n; o += b - 1) for (int i = 0; i < b; i++) for (int j = 0; j < i; j++) both(o + i, o + j); } break;   // cliques sharing a vertex
        case 7: for (int i = 0; i < n; i++) for (int d = 1; d <= 2; d++) both(i, (i + d) % n); break;                           // circulant
        case 8: for (int i = 0; i + 1 < n; i++) { both(i, i + 1); if (i + 2 < n) both(i, i + 2); } break;                       // strip
        case 9: { int w = g.in(2, 3), prev = -1; for (int i = 0; i < n; i++) { int layer = i / w; if (layer != prev) prev = layer; for (int j = 0; j < n; j++) if (j / w == layer + 1) both(i, j); } } break;   // layers
        default: {
            int pct = g.pick(std::vector<int>{5, 12, 20, 35, 50, 80});
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && g.chance(pct)) e.insert({i, j});
            if (shape == 15 && n > 2) { int k = g.upto(n); for (auto it = e.begin(); it != e.end();) it = (it->first == k || it->second == k) ? e.erase(it) : std::next(it); }   // isolated
        }
    }
    q.n = n;
    q.sym = DIRECTED ? shape < 10 || g.chance(25) : g.chance(50);
    q.pattern = g.chance(40);
    std::vector<int> label(n);
    std::iota(label.begin(), label.end(), 0);
    if (g.chance(80)) g.shuffle(label);
    std::set<std::pair<int, int>> out;
    for (auto &p : e) {
        int a = label[p.first] + 1, b = label[p.second] + 1;
        if (q.sym) out.insert({std::max(a, b), std::min(a, b)});
        else if (DIRECTED) out.insert({a, b});
        else { int w = g.upto(3); if (w != 1) out.insert({a, b}); if (w != 0) out.insert({b, a}); }
    }
    q.lines.assign(out.begin(), out.end());
    if (g.chance(25)) for (int i = 1; i <= n; i++) if (g.chance(40)) q.lines.push_back({i, i});                 // self loops
    if (g.chance(20) && !q.lines.empty()) for (int i = 0; i < 3; i++) q.lines.push_back(g.pick(q.lines));       // repeated entries
    if (g.chance(70)) g.shuffle(q.lines);
    return q;
}
// every graph with at most four vertices (undirected) or three (directed), one after the other
static bool exhaustive(int c, Graph &q) {
    static const int maxN = DIRECTED ? 3 : 4;
    for (int n = 1; n <= maxN; n++) {
        std::vector<std::pair<int, int>> slots;
        for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) if (DIRECTED ? i != j : i > j) slots.push_back({i, j});
        int k = 1 << slots.size();
        if (c < k) {
            q.n = n; q.sym = !DIRECTED; q.pattern = true; q.lines.clear();
            for (size_t b = 0; b < slots.size(); b++) if (c >> b & 1) q.lines.push_back(slots[b]);
            return true;
        }
        c -= k;
    }
    return false;
}
static void write(const Graph &q, const std::string &f, Rng &g) {
    FILE *o = fopen(f.c_str(), "w");
    fprintf(o, "%%%%MatrixMarket matrix coordinate %s %s\n%% comment\n%d %d %zu\n", q.pattern ? "pattern" : "integer", q.sym ? "symmetric" : "general", q.n, q.n, q.lines.size());
    for (auto &p : q.lines) { if (q.pattern) fprintf(o, "%d %d\n", p.first, p.second); else fprintf(o, "%d %d %d\n", p.first, p.second, g.in(1, 9)); }
    fclose(o);
}
static std::string pairsJ(const std::vector<std::pair<int, int>> &v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += "[" + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + "]"; }
    return o + "]";
}
static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static std::vector<std::string> split(const std::string &s, char d) { std::vector<std::string> v; std::string x; std::istringstream i(s); while (std::getline(i, x, d)) v.push_back(trim(x)); return v; }
static std::string num(const std::string &s) {      // an integer TLC can hold, or something no count equals
    char *e; errno = 0;
    long long v = strtoll(s.c_str(), &e, 10);
    return s.empty() || *e || errno ? std::to_string(BADVAL) : std::to_string(tlcInt(v));
}
static std::string scaled(double x, double by) { return std::isfinite(x) && std::fabs(x * by) < 2e9 ? std::to_string((long long) std::llround(x * by)) : std::to_string(BADVAL); }
// the LOG lines a program printed, as [name, first number, second number]
static std::string logs(const std::string &file) {
    std::ifstream in(file);
    std::string l, o = "[";
    int k = 0;
    while (std::getline(in, l)) {
        l = trim(l);
        if (l.compare(0, 4, APP == 1 ? "LOG," : "LOG;")) continue;
        auto f = split(l, APP == 1 ? ',' : ';');
        int z = (int) f.size();
        std::string a = "0", b = "0", name = "?";
        if (APP == 1 && z >= 10) { name = f[2]; for (int i = 3; i < z - 7; i++) name += "," + f[i]; a = num(f[z - 3]); b = num(f[z - 2]); }
        else if (APP == 2 && z >= 9) { name = f[2]; a = num(f[7]); b = num(f[8]); }
        else if (APP == 3 && z >= 11) { name = f[2]; a = num(f[z - 2]); b = num(f[z - 1]); }
        else if (APP == 4 && z >= 11) { name = f[2]; a = scaled(strtod(f[z - 1].c_str(), nullptr), 100); }
        else a = b = std::to_string(BADVAL);
        o += (k++ ? ",[" : "[") + jsonStr(name) + "," + a + "," + b + "]";
    }
    return o + "]";
}

// one run in a process of its own: body's result, or how it ended
static std::string isolated(const std::string &tmp, const std::function<std::string()> &body, std::string &status) {
    std::string res = tmp + "/result", log = tmp + "/stdout";
    unlink(res.c_str());
    pid_t pid = fork();
    if (pid == 0) {
        freopen(log.c_str(), "w", stdout);
        if (!getenv("GRAPHS_STDERR")) freopen("/dev/null", "w", stderr);
        alarm(60);
        std::string r = body();
        std::ofstream(res) << r;
        std::cout.flush(); fflush(stdout);
        _exit(r.empty() ? 1 : 0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    status = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("timeout") : "signal " + std::to_string(WTERMSIG(st))) : WEXITSTATUS(st) ? "exit " + std::to_string(WEXITSTATUS(st)) : "ok";
    std::ifstream i(res);
    std::string r((std::istreambuf_iterator<char>(i)), {});
    return r;
}
static void quietGrb() {
#if APP != 1
    GrB_init(GrB_BLOCKING);
    double b[GxB_NBITMAP_SWITCH];
    std::fill(b, b + GxB_NBITMAP_SWITCH, 1.0);
    GxB_Global_Option_set(GxB_BITMAP_SWITCH, b);
    GxB_Global_Option_set(GxB_HYPER_SWITCH, GxB_NEVER_HYPER);
    GxB_Global_Option_set(GxB_FORMAT, GxB_BY_ROW);
#endif
}

#if APP == 1
static std::string prepared(const std::string &f) {      // the matrix the triangle counter works on
    CSC<long, unsigned long> a;
    std::string name = f;
    ReadASCII(name, a);
    preprocessInput(a);
    std::vector<long long> p, r, v;
    for (long i = 0; i <= a.cols; i++) p.push_back(a.colptr[i]);
    for (long i = 0; i < a.nnz; i++) { r.push_back(a.rowids[i]); v.push_back((long long) a.values[i]); }
    return "{\"rows\":" + std::to_string(a.rows) + ",\"cols\":" + std::to_string(a.cols) + ",\"nnz\":" + std::to_string(a.nnz) + ",\"ptr\":" + jsonInts(p) + ",\"ids\":" + jsonInts(r) + ",\"vals\":" + jsonInts(v) + "}";
}
#endif

#if APP == 3
using IT = uint64_t;
using NT = int64_t;
static std::string steps;
static int nsteps = 0;
static std::string patternJ(const CSR<IT, NT> &a, bool values) {
    std::string o = "[";
    bool first = true;
    for (IT i = 0; i < a.rows; i++) for (IT k = a.rowptr[i]; k < a.rowptr[i + 1]; k++) {
        o += (first ? "[" : ",[") + std::to_string(i) + "," + std::to_string(a.colids[k]) + (values ? "," + std::to_string(tlcInt(a.values[k])) : "") + "]";
        first = false;
    }
    return o + "]";
}
static const CSR<IT, NT> &rowsOf(const CSR<IT, NT> &b) { return b; }
template<class F, F *inner, class B>
static void recording(const CSR<IT, NT> &A, const B &b, CSR<IT, NT> &C, const CSR<IT, NT> &M, NT (*mul)(NT &, NT &), std::plus<NT> add, unsigned t) {
    std::string in = patternJ(A, false), mask = patternJ(M, false);
    inner(A, b, C, M, mul, add, t);
    steps += std::string(nsteps++ ? "," : "") + "{\"t\":" + in + ",\"m\":" + mask + ",\"c\":" + patternJ(C, true) + "}";
}
using RowFn = void(const CSR<IT, NT> &, const CSR<IT, NT> &, CSR<IT, NT> &, const CSR<IT, NT> &, NT (*)(NT &, NT &), std::plus<NT>, unsigned);
using ColFn = void(const CSR<IT, NT> &, const CSC<IT, NT> &, CSR<IT, NT> &, const CSR<IT, NT> &, NT (*)(NT &, NT &), std::plus<NT>, unsigned);
static std::string sweeps(const std::string &f, int which, int k, int threads, int again) {
    quietGrb();
    GrB_Matrix A = nullptr;
    read_grb_mtx<NT>(&A, (char *) f.c_str(), true, true, true);
    vector<int> tn = {threads};
#define SWEEP(...) msp_ktruss<IT, NT, CSR, CSR, CSR, CSR>(f, "x", &recording<RowFn, __VA_ARGS__, CSR<IT, NT>>, again, 1, tn, A, k, 1)
#define SWEEPC(...) msp_ktruss<IT, NT, CSR, CSC, CSR, CSR>(f, "x", &recording<ColFn, __VA_ARGS__, CSC<IT, NT>>, again, 1, tn, A, k, 1)
    switch (which % 7) {
        case 0: SWEEP(MaskedSpGEMM1p<MSA2A<false, false>::Impl>); break;
        case 1: SWEEP(MaskedSpGEMM2p<MSA1A<false, false>::Impl>); break;
        case 2: SWEEP(MaskedSpGEMM1p<MaskedHash<false, false>::Impl>); break;
        case 3: SWEEP(MaskedSpGEMM2p<MaskedHeap<false, true, 1>::Impl>); break;
        case 4: SWEEP(MaskedSpGEMM1p<MCA<false, false>::Impl>); break;
        case 5: SWEEPC(MaskedSpGEMM1p<MaskedInner>); break;
        default: SWEEPC(MaskedSpGEMM2p<MaskedInner>); break;
    }
    std::string left;
    {                                                          // the graph itself is still the caller's
        GrB_Index nv;
        GrB_Matrix_nvals(&nv, A);
        left = std::to_string((long long) nv);
    }
    return "{\"left\":" + left + ",\"steps\":[" + steps + "]}";
}
#endif

#if APP == 4
using IT = uint64_t;
using NT = float;
using Fn = void(const CSR<IT, NT> &, const CSR<IT, NT> &, CSR<IT, NT> &, const CSR<IT, NT> &, NT (*)(NT &, NT &), std::plus<NT>, unsigned);
static std::string fwd, bwd;
static std::string cellsJ(const CSR<IT, NT> &a, double by) {
    std::string o = "[";
    bool first = true;
    for (IT i = 0; i < a.rows; i++) for (IT k = a.rowptr[i]; k < a.rowptr[i + 1]; k++) {
        o += (first ? "[" : ",[") + std::to_string(i) + "," + std::to_string(a.colids[k]) + "," + scaled(a.values[k], by) + "]";
        first = false;
    }
    return o + "]";
}
template<Fn *inner, bool forward>
static void recording(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C, const CSR<IT, NT> &M, NT (*mul)(NT &, NT &), std::plus<NT> add, unsigned t) {
    std::string mask = cellsJ(M, 1);
    inner(A, B, C, M, mul, add, t);
    std::string &s = forward ? fwd : bwd;
    s += std::string(s.empty() ? "" : ",") + (forward ? cellsJ(C, 1) : mask);
}
static std::string sweeps(const std::string &f, int which, int threads, std::vector<GrB_Index> srcs) {
    quietGrb();
    GrB_Matrix A = nullptr;
    read_grb_mtx<NT>(&A, (char *) f.c_str(), true, false, true);
    GrB_Vector d = nullptr;
    stats_bc st;
#define SWEEP(P, Q) msp_bc_internal<IT, NT, CSR, CSR, CSR, CSR>(&recording<P, false>, &recording<Q, true>, &d, A, srcs, st, threads)
    bool swept = true;
    switch (which % 8) {
        case 0: SWEEP((MaskedSpGEMM1p<MaskedHeap<false, true, 0>::Impl>), (MaskedSpGEMM1p<MaskedHeap<true, true, 0>::Impl>)); break;
        case 1: SWEEP((MaskedSpGEMM2p<MaskedHeap<false, true, 0>::Impl>), (MaskedSpGEMM2p<MaskedHeap<true, true, 0>::Impl>)); break;
        case 2: SWEEP((MaskedSpGEMM1p<MaskedHash<false, false>::Impl>), (MaskedSpGEMM1p<MaskedHash<true, true>::Impl>)); break;
        case 3: SWEEP((MaskedSpGEMM2p<MaskedHash<false, false>::Impl>), (MaskedSpGEMM2p<MaskedHash<true, true>::Impl>)); break;
        case 4: SWEEP((MaskedSpGEMM1p<MSA1A<false, false>::Impl>), (MaskedSpGEMM1p<MSA1A<true, true>::Impl>)); break;
        case 5: SWEEP((MaskedSpGEMM2p<MSA2A<false, false>::Impl>), (MaskedSpGEMM2p<MSA2A<true, true>::Impl>)); break;
        case 6: SWEEP((MaskedSpGEMM1p<MSA2A<false, false>::Impl>), (MaskedSpGEMM1p<MSA2A<true, true>::Impl>)); break;
        default: swept = false; grb_bc_internal<IT, NT>(&d, A, srcs, st, which % 3 == 0 ? GxB_DEFAULT : which % 3 == 1 ? GxB_AxB_SAXPY : GxB_AxB_DOT); break;
    }
    GrB_Index n, nv;
    GrB_Matrix_nrows(&n, A);
    GrB_Matrix_nvals(&nv, A);
    std::string v = "[";
    for (GrB_Index i = 0; i < n; i++) { float x = 0; GrB_Vector_extractElement_FP32(&x, d, i); v += (i ? "," : "") + scaled(x, 1000); }
    std::vector<long long> s(srcs.begin(), srcs.end());
    return std::string("{\"swept\":") + (swept ? "true" : "false") + ",\"left\":" + std::to_string((long long) nv) + ",\"srcs\":" + jsonInts(s) + ",\"fwd\":[" + fwd + "],\"bwd\":[" + bwd + "],\"delta\":" + v + "]}";
}
#endif

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    std::string dir = argv[2];
    int shard = atoi(argv[3]), nshards = atoi(argv[4]), ncases = atoi(argv[5]);
#if APP == 1
    const std::vector<std::string> modes = {"inner", "msa", "hash", "heap", "intersect", "all", "all1p", "all2p", "dot", "All"};
#elif APP == 2
    const std::vector<std::string> modes = {"grb", "inner", "msa", "hash", "heap", "all", "all1p", "all2p", "benchmark", "all1p"};
#elif APP == 3
    const std::vector<std::string> modes = {"grb", "msa", "hash", "heap", "all", "all1p", "all2p", "benchmark", "all1p"};
#else
    const std::vector<std::string> modes = {"grb", "msa", "hash", "heap", "all", "benchmark", "all"};
#endif
    int bad = 0;
    for (int c = shard; c < ncases && bad < 12; c += nshards) {
        Rng g(seedFromEnv() * 1000003 + c * 7 + APP);
        Graph q;
        bool tiny = exhaustive(c, q);
        bool inner = tiny ? (c % 2) : g.chance(APP == 1 ? 30 : APP == 2 ? 0 : 45);
        if (APP == 2) inner = false;
        if (!tiny) q = random(g, g.upto(1 << 20), inner && APP != 1 ? true : false);
        std::string f = dir + "/g.mtx", extra, status;
        write(q, f, g);
        std::string mode = g.pick(modes), th = std::to_string(g.in(1, 5)), th2 = std::to_string(g.in(1, 8));
        int k = g.chance(15) ? 2 : g.in(3, 6), inneriters = g.chance(70) ? 1 : 2, warm = g.upto(2);
        int srcs = q.n;
        std::string kind = inner ? "inner" : "tool";
        std::string res;
        if (inner) {
            int which = g.upto(56), threads = g.in(1, 4), again = g.upto(2);
            std::vector<size_t> src;
            for (int i = 0; i < q.n; i++) if (g.chance(60)) src.push_back(i);
            if (src.empty()) src.push_back(g.upto(q.n));
            g.shuffle(src);
            mode = "sweeps " + std::to_string(which);
#if APP == 1
            res = isolated(dir, [&]() { return prepared(f); }, status);
#elif APP == 3
            res = isolated(dir, [&]() { return sweeps(f, which, k, threads, again); }, status);
            extra = ",\"again\":" + std::to_string(again);
#elif APP == 4
            std::vector<GrB_Index> ss(src.begin(), src.end());
            res = isolated(dir, [&]() { return sweeps(f, which, threads, ss); }, status);
#endif
        } else {
            std::vector<std::string> args = {"app", f};
            if (APP == 3) args.push_back(std::to_string(k));
            if (APP == 4) {
                int w = g.upto(4);
                if (w == 0 && q.n > 1) { srcs = g.in(1, q.n); args.push_back(std::to_string(srcs)); }
                else if (w == 1 && q.n > 1) { srcs = (q.n + 1) / 2; args.push_back("0.5"); if (q.n % 2) args.back() = std::to_string(srcs); }
                else args.push_back(std::to_string(w == 2 ? q.n : std::max(q.n, 1) + 5));
            }
            args.push_back(th);
            if (APP != 1 && g.chance(30)) args.push_back(th2);
            setenv("MODE", mode.c_str(), 1);
            setenv("INNER_ITERS", std::to_string(inneriters).c_str(), 1);
            setenv("OUTER_ITERS", g.chance(90) ? "1" : "2", 1);
            if (g.chance(30)) setenv("WARMUP_ITERS", std::to_string(warm).c_str(), 1); else unsetenv("WARMUP_ITERS");
            isolated(dir, [&]() {
                std::vector<char *> a;
                for (auto &s : args) a.push_back((char *) s.c_str());
                a.push_back(nullptr);
                return app_main((int) args.size(), a.data()) == 0 ? std::string("done") : std::string();
            }, status);
            res = logs(dir + "/stdout");
        }
        if (status != "ok" && !std::all_of(q.lines.begin(), q.lines.end(), [](const std::pair<int, int> &p) { return p.first == p.second; })) { bad++; }
        if (res.empty()) res = "[]";
        std::string rec = "{\"id\":" + jsonStr("a" + std::to_string(APP) + "." + std::to_string(c)) + ",\"app\":" + std::to_string(APP) + ",\"kind\":" + jsonStr(kind) + ",\"status\":" + jsonStr(status == "ok" ? "ok" : status + " in " + mode) + ",\"mode\":" + jsonStr(mode) +
                          ",\"n\":" + std::to_string(q.n) + ",\"sym\":" + (q.sym ? "true" : "false") + ",\"lines\":" + pairsJ(q.lines) + ",\"k\":" + std::to_string(k) + ",\"s\":" + std::to_string(srcs) + extra + ",\"res\":" + (status == "ok" ? res : "[]") + "}\n";
        fwrite(rec.data(), 1, rec.size(), out);
        fflush(out);
    }
    fclose(out);
    return 0;
}
