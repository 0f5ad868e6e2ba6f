// Conformance harness for C25: runs a benchmark driver (its main, renamed, in a process of its own per
// run) on generated files and records its LOG lines.   usage: drivers OUT SCRATCHDIR SHARD NSHARDS NCASES
#include <cmath>
#include <numeric>
#include <omp.h>
#include <tuple>
#include <typeinfo>
#include "common.h"
extern "C" {
#include "GraphBLAS.h"
}
#define main app_main
#if APP == 1
#include "benchmarks/MaskedAllSpGEMM.cpp"
#else
#include "CSC.h"
#include "CSR.h"
#include "benchmarks/ComplementMaskedSpGEMM.cpp"
#endif
#undef main
using namespace vh;

static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static std::vector<std::string> split(const std::string &s, char d) { std::vector<std::string> v; std::string x; std::istringstream i(s); while (std::getline(i, x, d)) v.push_back(trim(x)); return v; }
static std::string num(const std::string &s) {
    char *e; errno = 0;
    double v = strtod(s.c_str(), &e);
    if (s.empty() || *e || errno || v != std::floor(v) || std::fabs(v) > 2e9) return std::to_string(BADVAL);
    return std::to_string((long long) v);
}
static std::string logs(const std::string &file) {
    std::ifstream in(file);
    std::string l, o = "[";
    int k = 0;
    while (std::getline(in, l)) {
        l = trim(l);
        if (l.compare(0, 4, "LOG,")) continue;
        auto f = split(l, ',');
        int z = (int) f.size(), tail = 7;
        std::string name = "?", src = "?", th = "-1", nnz = std::to_string(BADVAL), sum = "-1", ptr = "-1", vals = "-1", ids = "-1";
        if (z >= tail + 3) {
            src = f[1];
            name = f[2];
            for (int i = 3; i < z - 7; i++) name += "," + f[i];
            auto c = split(f[z - 1], '|');
            nnz = num(f[z - (APP == 1 ? 2 : 3)]);
            th = num(f[z - (APP == 1 ? 5 : 6)]);
            if (APP == 2) sum = num(f[z - 2]);
            if (APP == 1 && c.size() == 2) { vals = num(c[0]); ids = num(c[1]); }
            if (APP == 2 && c.size() == 3) { ptr = num(c[0]); vals = num(c[1]); ids = num(c[2]); }
        }
        o += (k++ ? ",{" : "{") + ("\"name\":" + jsonStr(name)) + ",\"file\":" + jsonStr(src) + ",\"threads\":" + th + ",\"nnz\":" + nnz + ",\"sum\":" + sum + ",\"ptr\":" + ptr + ",\"vals\":" + vals + ",\"ids\":" + ids + "}";
    }
    return o + "]";
}
static std::string isolated(const std::string &tmp, const std::function<void()> &body) {
    std::string log = tmp + "/stdout";
    pid_t pid = fork();
    if (pid == 0) {
        freopen(log.c_str(), "w", stdout);
        freopen("/dev/null", "w", stderr);
        alarm(60);
        body();
        std::cout.flush(); fflush(stdout);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("timeout") : "signal " + std::to_string(WTERMSIG(st))) : WEXITSTATUS(st) ? "exit " + std::to_string(WEXITSTATUS(st)) : "ok";
}
static void write(const Mat &a, const std::string &f, Rng &g, bool pattern, bool symmetric) {
    std::vector<std::array<int, 3>> e;
    for (int i = 0; i < a.m; i++) for (auto &x : a.r[i]) if (!symmetric || x.first <= i) e.push_back({i + 1, x.first + 1, x.second});
    if (g.chance(70)) g.shuffle(e);
    FILE *o = fopen(f.c_str(), "w");
    fprintf(o, "%%%%MatrixMarket matrix coordinate %s %s\n", pattern ? "pattern" : "integer", symmetric ? "symmetric" : "general");
    if (g.chance(50)) fprintf(o, "%% a comment\n");
    fprintf(o, "%d %d %zu\n", a.m, a.n, e.size());
    for (auto &x : e) { if (pattern) fprintf(o, "%d %d\n", x[0], x[1]); else fprintf(o, "%d %d %d\n", x[0], x[1], x[2]); }
    fclose(o);
}
static Mat matrix(Rng &g, int m, int n, bool pattern, bool symmetric) {
    Mat a(m, n);
    int pct = g.pick(std::vector<int>{0, 8, 20, 40, 70, 100}), empty = g.pick(std::vector<int>{0, 0, 30});
    if (m * n > 900) pct = std::min(pct, 20);
    for (int i = 0; i < m; i++) { if (g.chance(empty)) continue; for (int j = 0; j < n; j++) if (g.chance(pct) && (!symmetric || j <= i)) a.add(i, j, pattern ? 1 : g.chance(5) ? 0 : g.in(1, 30)); }
    if (symmetric) { Mat t = a.transposed(); for (int i = 0; i < m; i++) for (auto &x : t.r[i]) if (x.first != i) a.r[i].push_back(x); a.sortRows(); }
    return a;
}

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    std::string dir = argv[2];
    int shard = atoi(argv[3]), nshards = atoi(argv[4]), ncases = atoi(argv[5]), bad = 0;
    for (int c = shard; c < ncases && bad < 10; c += nshards) {
        Rng g(seedFromEnv() * 999983 + c * 11 + APP);
        bool big = c % 9 == 4;
        int m = big ? g.in(20, 60) : g.in(1, 9), k = APP == 2 ? m : big ? g.in(20, 60) : g.in(1, 9), n = APP == 2 ? m : big ? g.in(20, 60) : g.in(1, 9);
        bool pat = g.chance(30), sym = APP == 2 && g.chance(40);
        Mat A = matrix(g, m, k, pat, sym), B = APP == 2 ? A : matrix(g, k, n, pat, false), M = APP == 2 ? A : matrix(g, m, n, pat, false);
        write(A, dir + "/a.mtx", g, pat, sym);
        if (APP == 1) { write(B, dir + "/b.mtx", g, pat, false); write(M, dir + "/m.mtx", g, pat, false); }
        std::vector<int> threads = {g.in(1, 7)};
        std::vector<std::string> args = {"app", dir + "/a.mtx"};
        int outer = g.chance(80) ? 1 : 2;
        std::string mode = g.pick(std::vector<std::string>{"heap", "hash", "msa", "all", "ALL"});
        if (APP == 1) {
            args.push_back(dir + "/b.mtx"); args.push_back(dir + "/m.mtx");
            if (c % 10 == 3) threads = {4, 8, 16, 32, 64}; else args.push_back(std::to_string(threads[0]));
        } else args.push_back(std::to_string(threads[0]));
        setenv("MODE", mode.c_str(), 1);
        setenv("INNER_ITERS", g.chance(60) ? "1" : "2", 1);
        setenv("OUTER_ITERS", std::to_string(outer).c_str(), 1);
        if (g.chance(30)) setenv("WARMUP_ITERS", std::to_string(g.upto(3)).c_str(), 1); else unsetenv("WARMUP_ITERS");
        std::string status = isolated(dir, [&]() {
            std::vector<char *> av;
            for (auto &s : args) av.push_back((char *) s.c_str());
            av.push_back(nullptr);
            if (app_main((int) args.size(), av.data()) != 0) _exit(3);
        });
        std::string rows, bj, mj;
        jsonRows(rows, A); jsonRows(bj, B); jsonCols(mj, M);
        std::string l = status == "ok" ? logs(dir + "/stdout") : "[]";
        if (status != "ok") bad++;
        std::string rec = "{\"id\":" + jsonStr((APP == 1 ? "masked-all." : "complement-masked-all." + mode + ".") + std::to_string(c)) + ",\"status\":" + jsonStr(status) + ",\"mode\":" + jsonStr(APP == 1 ? "mask" : "comp") + ",\"n\":" + std::to_string(n) +
            ",\"double\":" + (APP == 1 ? "true" : "false") + ",\"outer\":" + std::to_string(outer) + ",\"counted\":" + (threads.size() == 1 ? "1" : "0") + ",\"threads\":" + jsonInts(threads) + ",\"A\":" + rows + ",\"B\":" + bj + ",\"M\":" + mj + ",\"logs\":" + l + "}\n";
        fwrite(rec.data(), 1, rec.size(), out);
        fflush(out);
    }
    fclose(out);
    return 0;
}
