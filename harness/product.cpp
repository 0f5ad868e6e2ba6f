// Conformance harness for the multiplication algorithms (C01, C02, C11, C12).
//   -DGROUP=1 plain masked, 2 complemented, 12 baseline masked, 111 unmasked hash/heap (CSR),
//           112 unmasked heap (CSC), 113 outer product, 114 outer product (second version)
//   -DVT=0..5 the (index type, value type) pair
// Usage: product OUT MODE   (records, one JSON object per line)
#include <numeric>
#include <omp.h>
#include <tuple>
#if GROUP == 113 || GROUP == 114
#define NATIVE_ARITHMETIC
#endif
#include "common.h"
extern "C" {
#include "GraphBLAS.h"
}
#include "CSC.h"
#include "CSR.h"
#include "utility.h"
#include "mats.h"
#include "algs.h"

struct Case {
    std::string tag;
    Mat A, B, M;
    int sr = PLUS_TIMES;
    std::vector<unsigned> threads;
    bool sorted = true;
    int aux = 0;
    int family = 0;
};

#include "gen.h"

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    int vt = VT;
    registerAlgs();
    std::vector<Case> cases;
    Rng rng(seedFromEnv() * 1000 + vt * 17 + GROUP);
    genCases(cases, rng, vt, thorough());
    Runner runner(out);
    auto header = [&](const Case &c, const std::string &names, bool sortedOut) {
        std::string o = "{\"id\":";
        o += jsonStr(std::string("g") + std::to_string(GROUP) + "v" + std::to_string(vt) + "." + c.tag);
        o += ",\"mode\":" + jsonStr(modeName) + ",\"sr\":" + jsonStr(srName(c.sr)) + ",\"types\":" +
             jsonStr(std::string(sizeof(IT) == 8 ? "i64," : "i32,") + C1::name) + ",\"algs\":" + jsonStr(names) + ",\"sorted\":" + (sortedOut ? "true" : "false") +
             ",\"fam\":" + std::to_string(c.family);
#if GROUP == 112
        // C = A*B column-wise is C^T = B^T * A^T row-wise, with mult's operands exchanged
        Mat At = c.B.transposed(), Bt = c.A.transposed();
        o += ",\"swap\":true,\"m\":" + std::to_string(At.m) + ",\"k\":" + std::to_string(At.n) + ",\"n\":" + std::to_string(Bt.n);
        o += ",\"A\":"; jsonRows(o, At); o += ",\"B\":"; jsonRows(o, Bt); o += ",\"M\":[]";
#else
        o += ",\"swap\":false,\"m\":" + std::to_string(c.A.m) + ",\"k\":" + std::to_string(c.A.n) + ",\"n\":" + std::to_string(c.B.n);
        o += ",\"A\":"; jsonRows(o, c.A); o += ",\"B\":"; jsonRows(o, c.B); o += ",\"M\":"; jsonCols(o, c.M);
#endif
        return o;
    };
    long runs = 0;
    auto body = [&](int ci, const std::set<int> &skip) -> std::string {
        const Case &c = cases[ci];
        std::map<std::pair<bool, std::string>, std::vector<std::string>> groups;
        CSRt *A = toCSR(c.A), *B = toCSR(c.B), *M = toCSR(c.M);
        CSCt *Ac = toCSC(c.A), *Bc = toCSC(c.B);
        In in{A, B, M, Ac, Bc, c.aux};
        int sub = 0;
        for (unsigned t : c.threads) {       // outer loop: changing the team size is what costs time
            omp_set_num_threads(c.aux % 8 == 7 && ci % 4 == 0 ? 3 : std::max(1u, t));   // mostly the same team size for regions without num_threads
            for (auto &al : algs) {
                if (al.needSorted && !c.sorted) continue;
                if (al.ptOnly && c.sr != PLUS_TIMES) continue;
                if (al.square && (c.A.m != c.A.n || c.A.n != c.B.n)) continue;
                int s = sub++;
                if (skip.count(s)) continue;
                std::string label = al.name + "/t" + std::to_string(t);
                runner.mark(s, label);
                CSRt *C = new CSRt();
                C->rowptr = nullptr; C->colids = nullptr; C->values = nullptr;
                if (c.aux % 3 == 1 && GROUP != 112) { delete C; C = toCSR(c.M.m == 0 ? c.B : c.M); }    // an output that already holds something
                al.f(in, *C, Mul{c.sr}, Add{c.sr}, t);
                std::string o = outJson(*C);
                bool intact = sameCSR(*A, c.A) && sameCSR(*B, c.B) && sameCSR(*M, c.M);
                o += std::string(",\"intact\":") + (intact ? "true" : "false");
                bool so = al.sortedOut && c.sorted;
                groups[{so, o}].push_back(label);
                delete C;
                if (!intact) { fillCSR(*A, c.A); fillCSR(*B, c.B); fillCSR(*M, c.M); }
            }
        }
        delete A; delete B; delete M; delete Ac; delete Bc;
        std::string res;
        for (auto &g : groups) {
            // a sorted result that also appeared among the unsorted algorithms is checked once
            if (!g.first.first && groups.count({true, g.first.second})) continue;
            std::string names;
            for (size_t i = 0; i < g.second.size() && i < 6; i++) names += (i ? " " : "") + g.second[i];
            if (g.second.size() > 6) names += " +" + std::to_string(g.second.size() - 6);
            long cnt = (long) g.second.size();
            if (g.first.first) { auto it = groups.find({false, g.first.second}); if (it != groups.end()) cnt += (long) it->second.size(); }
            res += header(c, names, g.first.first) + ",\"runs\":" + std::to_string(cnt) + ",\"status\":\"ok\"," + g.first.second + "}\n";
        }
        return res;
    };
    auto onCrash = [&](int ci, const std::string &label, const std::string &why) -> std::string {
        return header(cases[ci], label, false) + ",\"runs\":1,\"status\":" + jsonStr(why) +
               ",\"rows\":0,\"cols\":0,\"nnz\":0,\"rowptr\":[],\"colids\":[],\"values\":[],\"intact\":true}\n";
    };
    runner.run((int) cases.size(), body, onCrash);
    fclose(out);
    (void) runs;
    return 0;
}
