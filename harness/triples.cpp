// Duplicate removal, random triples and the GTgraph R-MAT generator.   triples OUT
// The generator's random numbers come from here: streams with a lot of structure (constant
// stretches, values at the quadrant boundaries, few distinct values) besides plain random ones.
#include "common.h"
#include <algorithm>
#include "util/triple-util.h"
extern "C" {
#include "GTgraph/R-MAT/init.h"
#include "GTgraph/R-MAT/graph.h"
}
#undef bits
using namespace vh;

struct Draws { Rng g{1}; int mode = 0; long k = 0; double d() {
    k++;
    double r = (g.next() >> 11) * (1.0 / 9007199254740992.0);
    if (k > 200000) return r;                                   // whatever the plan, let it finish
    switch (mode) {
        case 1: return (k / 97) % 3 ? r : 0.0;                  // stretches of zeros: self loops
        case 2: return (k / 97) % 3 ? r : 0.9999999;
        case 3: return g.upto(21) / 20.0 * 0.9999999;  // quadrant boundaries
        case 4: return g.upto(4) * 0.25;
        default: return r;
    }
} } draws[5];
static int opened = 0;
extern "C" {
#undef get_rn_dbl
#undef init_rng
int *init_rng(int, int, int, int, int) { int *p = (int *) malloc(sizeof(int)); *p = opened++ % 4; return p; }
double get_rn_dbl(int *s) { return draws[*s].d(); }
}

static std::string trip(long r, long c, long v) { return "[" + std::to_string(r) + "," + std::to_string(c) + "," + std::to_string(v) + "]"; }
template<class IT, class NT> static std::string list(const Triple<IT, NT> *t, size_t n) {
    std::string o = "[";
    for (size_t i = 0; i < n; i++) o += (i ? "," : "") + trip(long(t[i].row), long(t[i].col), long(t[i].val));
    return o + "]";
}
static std::string head(const std::string &id, const char *call, const std::string &type, const std::string &crash = "") {
    return "{\"id\":" + jsonStr(id) + ",\"call\":\"" + call + "\",\"type\":" + jsonStr(type) + ",\"crash\":" + jsonStr(crash);
}
template<class IT, class NT> static std::string dedup(const std::string &id, const char *type, const std::vector<std::array<int, 2>> &co) {
    size_t n = co.size();
    auto *t = new Triple<IT, NT>[n];                            // exactly as long as the list
    for (size_t i = 0; i < n; i++) t[i] = Triple<IT, NT>(IT(co[i][0]), IT(co[i][1]), NT(i % 100 + 1));
    std::string inp = list(t, n);
    IT k = removeDuplicates<IT, NT>(IT(n), t);
    std::string out = k >= 0 && size_t(k) <= n ? list(t, k) : "[[-1,-1,-1]]";
    delete[] t;
    return head(id, "dedup", type) + ",\"inp\":" + inp + ",\"out\":" + out + "}\n";
}
template<class IT, class NT> static std::string random(const std::string &id, const char *type, int rows, int cols, int num) {
    Triple<IT, NT> *t = nullptr;
    IT k = generateRandomTriples<IT, NT>(IT(rows), IT(cols), IT(num), t);
    std::string out = k >= 0 && k <= IT(num) ? list(t, k) : "[[-1,-1,-1]]";
    delete[] t;
    return head(id, "random", type) + ",\"rows\":" + std::to_string(rows) + ",\"cols\":" + std::to_string(cols) + ",\"num\":" + std::to_string(num) + ",\"out\":" + out + "}\n";
}
static std::string rmat(const std::string &id, Rng &g) {
    getParams();
    int scale = g.in(1, 6), ef = g.in(0, 8), how = g.upto(3);
    static const double P[][4] = {{0.57, 0.19, 0.19, 0.05}, {0.25, 0.25, 0.25, 0.25}, {0.45, 0.15, 0.15, 0.25}, {0.05, 0.45, 0.45, 0.05}, {0.1, 0.7, 0.1, 0.1}};
    const double *p = P[g.upto(5)];
    setGTgraphParams(scale, ef, p[0], p[1], p[2], p[3]);
    long wantN = 1L << scale, wantM = wantN * ef;
    if (how == 2) { wantN = n = g.in(2, 50); wantM = m = g.in(0, 300); }     // any number of vertices
    SELF_LOOPS = g.chance(40);
    SORT_EDGELISTS = g.chance(70);
    SORT_TYPE = g.upto(2);
    STORE_IN_MEMORY = SORT_EDGELISTS || g.chance(60);
    if (g.chance(50)) { MIN_WEIGHT = g.in(0, 5); MAX_WEIGHT = MIN_WEIGHT + g.in(1, 9); }
    opened = 0;
    int mode = g.upto(5);
    for (int i = 0; i < 5; i++) { draws[i].g = Rng(g.next()); draws[i].k = 0; draws[i].mode = i == 1 || g.chance(50) ? mode : 0; }
    std::string out = "[";
    long gotN = wantN, gotM = 0;
    graph G{};
    char dir[] = "/tmp/verif-rmat-XXXXXX", here[4096];
    if (!STORE_IN_MEMORY && (!mkdtemp(dir) || !getcwd(here, sizeof here) || chdir(dir))) abort();
    graphGen(&G);
    if (STORE_IN_MEMORY) {
        gotN = G.n; gotM = G.m;
        for (long i = 0; i < G.m; i++) out += (i ? "," : "") + trip(G.start[i], G.end[i], G.w[i]);
        free(G.start); free(G.end); free(G.w);
    } else {                                                     // written on the fly: one based
        std::ifstream f(OUTFILE);
        std::string line;
        while (std::getline(f, line)) {
            long x, y, z;
            if (sscanf(line.c_str(), "p sp %ld %ld", &x, &y) == 2) gotN = x, gotM = y;
            if (sscanf(line.c_str(), "a %ld %ld %ld", &x, &y, &z) == 3) out += (out.size() > 1 ? "," : "") + trip(x - 1, y - 1, z);
        }
        f.close();
        unlink(OUTFILE);
        if (chdir(here)) abort();
        rmdir(dir);
    }
    auto B = [](bool b) { return b ? "true" : "false"; };
    return head(id, "rmat", STORE_IN_MEMORY ? (SORT_EDGELISTS ? (SORT_TYPE ? "heap sorted" : "sorted") : "unsorted") : "file") + ",\"n\":" + std::to_string(wantN) + ",\"m\":" + std::to_string(wantM) +
           ",\"gotn\":" + std::to_string(gotN) + ",\"gotm\":" + std::to_string(gotM) + ",\"loops\":" + B(SELF_LOOPS) + ",\"sorted\":" + B(SORT_EDGELISTS) +
           ",\"minw\":" + std::to_string(MIN_WEIGHT) + ",\"maxw\":" + std::to_string(MAX_WEIGHT) + ",\"out\":" + out + "]}\n";
}

static std::string body(int c, const std::set<int> &) {
    std::string id = "t" + std::to_string(c), r;
    Rng g(c * 7919 + 3 + seedFromEnv());
    if (!freopen("/dev/null", "w", stderr)) abort();
    if (c < 64) {                                                // every list of up to three coordinates out of 2 x 2 (and more, at random)
        std::vector<std::array<int, 2>> co;
        for (int x = 0; x < 85; x++) {
            int k = 0, cnt = 1, y = x;
            while (y >= cnt) { y -= cnt; k++; cnt *= 4; }
            co.clear();
            for (int i = 0; i < k; i++, y /= 4) co.push_back({y % 4 / 2, y % 2});
            if (x % 64 != c && k < 3) continue;
            if (k == 3 && y % 64 != c) { if (x % 16 != c % 16) continue; }
            r += dedup<int, double>(id + "." + std::to_string(x), "int/double", co);
            r += dedup<uint32_t, long unsigned>(id + "." + std::to_string(x), "uint32/ulong", co);
        }
        return r;
    }
    if (c % 3 == 0) {
        int n = g.chance(4) ? g.in(400, 1500) : g.chance(20) ? g.in(100, 400) : g.upto(30), R = g.in(1, g.chance(30) ? 2 : 40), C = g.in(1, g.chance(30) ? 2 : 40);
        std::vector<std::array<int, 2>> co;
        for (int i = 0; i < n; i++) {
            if (!co.empty() && g.chance(30)) co.push_back(g.pick(co));
            else co.push_back({g.upto(R) * (g.chance(5) ? 3000 : 1), g.upto(C)});
        }
        if (g.chance(20)) std::sort(co.begin(), co.end());
        if (g.chance(10)) std::reverse(co.begin(), co.end());
        switch (g.upto(4)) {
            case 0: return dedup<int, int>(id, "int/int", co);
            case 1: return dedup<long, long unsigned>(id, "long/ulong", co);
            case 2: return dedup<uint32_t, float>(id, "uint32/float", co);
            default: return dedup<int64_t, double>(id, "int64/double", co);
        }
    }
    if (c % 3 == 1) {
        int R = g.in(1, g.chance(30) ? 2 : 60), C = g.in(1, g.chance(30) ? 2 : 60), n = g.chance(5) ? 0 : g.chance(20) ? g.in(100, 500) : g.in(1, 40);
        switch (g.upto(4)) {
            case 0: return random<int, int>(id, "int/int", R, C, n);
            case 1: return random<long, long unsigned>(id, "long/ulong", R, C, n);
            case 2: return random<uint32_t, float>(id, "uint32/float", R, C, n);
            default: return random<int64_t, double>(id, "int64/double", R, C, n);
        }
    }
    return rmat(id, g);
}
int main(int, char **argv) {
    FILE *f = fopen(argv[1], "w");
    Runner run(f);
    run.caseTimeout = 20;
    run.run(thorough() ? 4000 : 900, body, [](int c, const std::string &, const std::string &why) { return head("t" + std::to_string(c), "dedup", "", why) + ",\"inp\":[],\"out\":[]}\n"; });
    fclose(f);
}
