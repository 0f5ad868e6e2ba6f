// C04: histories of masked multiplications on a pool of objects, with every alias pattern.
#include <numeric>
#include <omp.h>
#include <tuple>
#include "common.h"
extern "C" {
#include "GraphBLAS.h"
}
#include "CSC.h"
#include "CSR.h"
#include "utility.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"
#include "spgemm-blocks/masked-spgemm-poly.h"
#include "mats.h"
#define WITH_BLOCKS
#include "algs.h"

struct Obj { CSRt *x; };

static bool rowsSorted(const CSRt &c) {
    for (IT i = 0; i < c.rows; i++)
        for (IT p = c.rowptr[i] + 1; p < c.rowptr[i + 1]; p++) if (!(c.colids[p - 1] < c.colids[p])) return false;
    return true;
}
static std::string objJson(const CSRt &c) {
    if (c.rows == 0) return "{\"rows\":0,\"cols\":" + std::to_string((long long) c.cols) + ",\"nnz\":" + std::to_string((long long) c.nnz) + ",\"rowptr\":[0],\"colids\":[],\"values\":[],\"zb\":" + (c.zerobased ? "true" : "false") + "}";
    return "{" + outJson(c) + ",\"zb\":" + (c.zerobased ? "true" : "false") + "}";
}
static Mat asMat(const CSRt &c) {
    Mat a((int) c.rows, (int) c.cols);
    for (IT i = 0; i < c.rows; i++) for (IT p = c.rowptr[i]; p < c.rowptr[i + 1]; p++) a.r[i].push_back({(int) c.colids[p], C1::dec(c.values[p])});
    return a;
}

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    registerBlocks(true, true);
    Runner runner(out);
    const int NH = thorough() ? 4000 : (VT == 0 ? 420 : 200);
    auto idOf = [&](int h) { return "h" + std::to_string(VT) + "." + std::to_string(h); };
    std::vector<int> srs = {MAX_MIN, OR_AND, XOR_AND, PLUS_PAIR, MIN_FIRST, MAX_SECOND, MIN_PLUS};
    auto body = [&](int h, const std::set<int> &) -> std::string {
        Rng g(seedFromEnv() * 7919 + h * 31 + VT);
        const int K = 4;
        int d[3];
        bool square = g.chance(70);
        int n = h % 23 == 0 ? g.in(20, 40) : g.in(1, 7);
        for (int &x : d) x = square ? n : g.in(1, 7);
        CSRt *o[K];
        // dims of pool objects: rectangular pools cycle through d
        auto fresh = [&](int k) -> CSRt * {
            int r = d[g.upto(3)], c = d[g.upto(3)];
            if (g.chance(8)) { CSRt *x = new CSRt(); x->rowptr = nullptr; x->colids = nullptr; x->values = nullptr; return x; }
            static const int pc[] = {0, 10, 30, 60, 100};
            Mat a(r, c);
            int p = pc[g.upto(5)];
            if (n > 15) p = g.in(3, 25);
            for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (g.chance(p)) a.add(i, j, g.in(0, 9));
            CSRt *x = toCSR(a);
            if (g.chance(6)) x->ConvertOneBased();       // such an object is only ever used as an output
            return x;
        };
        std::string rec = "{\"id\":" + jsonStr(idOf(h)) + ",\"status\":\"ok\",\"types\":" + jsonStr(C1::name) + ",\"init\":[";
        for (int k = 0; k < K; k++) { o[k] = fresh(k); if (k) rec += ","; rec += objJson(*o[k]); }
        rec += "],\"steps\":[";
        int len = g.in(3, thorough() ? 24 : 12), made = 0;
        unsigned T = g.chance(50) ? 1 : g.in(2, 5);      // mostly one team size per history
        for (int s = 0; s < len; s++) {
            std::string st;
            int a = g.upto(K), b = g.upto(K), m = g.upto(K), c = g.upto(K);
            if (g.chance(35)) c = a;
            if (g.chance(35)) c = m;
            if (g.chance(20)) { c = a; m = a; }
            bool compat = o[a]->zerobased && o[b]->zerobased && o[m]->zerobased && o[a]->rows > 0 && o[b]->rows > 0 && o[m]->rows > 0 && o[a]->cols == o[b]->rows && o[m]->rows == o[a]->rows && o[m]->cols == o[b]->cols;
            if (!compat || g.chance(8)) {
                int k = g.upto(K);
                delete o[k];
                o[k] = fresh(k);
                st = "{\"op\":\"fresh\",\"alg\":\"-\",\"mode\":\"-\",\"sr\":\"-\",\"a\":1,\"b\":1,\"m\":1,\"c\":" + std::to_string(k + 1) + ",\"sorted\":false,\"objs\":[";
            } else {
                bool srt = rowsSorted(*o[a]) && rowsSorted(*o[b]) && rowsSorted(*o[m]);
                const Alg *al;
                do al = &algs[g.upto((int) algs.size())]; while (al->needSorted && !srt);
                int sr = g.pick(srs);
                unsigned t = g.chance(15) ? (unsigned) g.upto(7) : T;
                CSCt *Bc = al->inner ? toCSC(asMat(*o[b])) : nullptr;
                In in{o[a], o[b], o[m], nullptr, Bc, 0};
                runner.mark(s, al->name + "/t" + std::to_string(t) + " A=o" + std::to_string(a) + " B=o" + std::to_string(b) + " M=o" + std::to_string(m) + " C=o" + std::to_string(c));
                vhTrackOn(true);
                al->f(in, *o[c], Mul{sr}, Add{sr}, t);
                vhTrackOn(false);
                delete Bc;
                st = "{\"op\":\"mul\",\"alg\":" + jsonStr(al->name + "/t" + std::to_string(t)) + ",\"mode\":" + (al->comp ? "\"comp\"" : "\"mask\"") + ",\"sr\":" + jsonStr(srName(sr)) +
                     ",\"a\":" + std::to_string(a + 1) + ",\"b\":" + std::to_string(b + 1) + ",\"m\":" + std::to_string(m + 1) + ",\"c\":" + std::to_string(c + 1) +
                     ",\"sorted\":" + (al->sortedOut && srt ? "true" : "false") + ",\"objs\":[";
            }
            for (int k = 0; k < K; k++) { if (k) st += ","; st += objJson(*o[k]); }
            rec += (made++ ? "," : "") + st + "]}";
        }
        for (int k = 0; k < K; k++) delete o[k];
        return rec + "],\"left\":" + std::to_string(vhLeft()) + "}\n";
    };
    auto onCrash = [&](int h, const std::string &label, const std::string &why) -> std::string {
        return "{\"id\":" + jsonStr(idOf(h)) + ",\"status\":" + jsonStr(why + " in " + label) + ",\"types\":" + jsonStr(C1::name) + ",\"init\":[],\"steps\":[],\"left\":0}\n";
    };
    runner.maxSkips = 0;
    runner.run(NH, body, onCrash);
    fclose(out);
    return 0;
}
