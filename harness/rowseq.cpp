// C06/C07: one row-algorithm object, one buffer, arbitrary sequences of rows and phases.
//   -DVT value types, -DROWALGS=0 hash 1 sparse accumulators 2 mask-compressed
#include <numeric>
#include <omp.h>
#include <tuple>
#include "common.h"
extern "C" {
#include "GraphBLAS.h"
}
#include "CSC.h"
#include "CSR.h"
#include "utility.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "mats.h"


struct Job { Mat A, B, M; int sr; std::vector<int> flops, nvals; };

template<class Alg> static std::string drive(Rng &g, const Job &j, CSRt &A, CSRt &B, CSRt &M) {
    const int m = j.A.m, n = j.B.n;
    int mxA = 0, mxM = 0, mxF = 0;
    std::vector<int> rows;
    for (int i = 0; i < m; i++) {
        mxA = std::max(mxA, (int) j.A.r[i].size());
        mxM = std::max(mxM, (int) j.M.r[i].size());
        mxF = std::max(mxF, j.flops[i]);
        if (j.flops[i] > 0 && (Alg::COMPLEMENTED || !j.M.r[i].empty())) rows.push_back(i);   // rows the drivers hand over
    }
    std::string steps;
    auto *alg = new Alg((IT) n, (IT) mxA, (IT) mxM, (IT) mxF);
    auto [bufSize, align] = alg->getMemoryRequirement();
    if (g.chance(30)) bufSize += g.upto(64);
    auto *buf = mallocAligned(bufSize, align);
    memset(buf, g.chance(50) ? 1 : 0, bufSize);
    size_t dirty = bufSize;
    if (g.chance(40)) { dirty = g.chance(50) ? 0 : g.upto((int) bufSize + 1); memset(buf + dirty, 0xFF, bufSize - dirty); }
    std::vector<IT> rowNvals(m, IT(-1));
    bool symbolic = g.chance(60);
    int phases = g.in(1, 5);
    for (int ph = 0; ph < phases && !rows.empty(); ph++, symbolic = g.chance(75) ? !symbolic : symbolic) {
        steps += std::string(ph ? "," : "") + "{\"op\":\"phase\",\"row\":1,\"count\":0,\"cols\":[],\"vals\":[]}";
        if (symbolic) alg->getSymbolicAccumulator().setBuffer(buf, bufSize, dirty);
        else alg->getNumericAccumulator().setBuffer(buf, bufSize, dirty);
        for (int q = g.in(1, 10); q > 0; q--) {
            int i = g.pick(rows);
            std::string head = ",{\"op\":\"" + std::string(symbolic ? "symbolic" : "numeric") + "\",\"row\":" + std::to_string(i + 1);
            if (symbolic) {
                IT f = j.flops[i];
                rowNvals[i] = -1;
                alg->symbolicRow(A, B, M, (IT) i, rowNvals.data(), f);
                steps += head + ",\"count\":" + std::to_string((long long) rowNvals[i]) + ",\"cols\":[],\"vals\":[]}";
                continue;
            }
            const bool twoPhase = g.chance(50);
            if (twoPhase && j.nvals[i] == 0) continue;        // the two-phase driver skips such rows
            IT f = twoPhase ? j.nvals[i] : j.flops[i];
            const int cap = j.nvals[i];                       // ASan guards the end of the row
            IT *cs = new IT[cap], *cp = cs;
            NT *vs = new NT[cap], *vp = vs;
            alg->numericRow(A, B, M, Mul{j.sr}, Add{j.sr}, (IT) i, cp, vp, f);
            const long c = cp - cs, v = vp - vs;
            steps += head + ",\"count\":" + std::to_string(c) + ",\"cols\":[";
            for (long x = 0; x < c; x++) steps += (x ? "," : "") + std::to_string((long long) cs[x]);
            steps += "],\"vals\":[";
            for (long x = 0; x < v; x++) steps += (x ? "," : "") + std::to_string(C1::dec(vs[x]));
            steps += "]}";
            delete[] cs; delete[] vs;
        }
        dirty = symbolic ? alg->getSymbolicAccumulator().releaseBuffer() : alg->getNumericAccumulator().releaseBuffer();
    }
    delete alg;
    freeAligned(buf);
    return steps;
}

struct RowAlg { std::string name; bool comp, sorted; std::function<std::string(Rng &, const Job &, CSRt &, CSRt &, CSRt &)> f; };
#define ROW(NAME, COMP, SORTED, ...) rowAlgs.push_back({NAME, COMP, SORTED, [](Rng &g, const Job &j, CSRt &A, CSRt &B, CSRt &M) { return drive<__VA_ARGS__>(g, j, A, B, M); }})

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    std::vector<RowAlg> rowAlgs;
#if ROWALGS == 0
    ROW("hash", false, false, typename MaskedHash<false, false>::template Impl<IT, NT>);
    ROW("hash-c", true, false, typename MaskedHash<true, false>::template Impl<IT, NT>);
    ROW("hash-c-sorted", true, true, typename MaskedHash<true, true>::template Impl<IT, NT>);
#elif ROWALGS == 1
    ROW("msa1a", false, false, typename MSA1A<false, false>::template Impl<IT, NT>);
    ROW("msa2a", false, false, typename MSA2A<false, false>::template Impl<IT, NT>);
    ROW("msa1a-c", true, false, typename MSA1A<true, false>::template Impl<IT, NT>);
    ROW("msa2a-c", true, false, typename MSA2A<true, false>::template Impl<IT, NT>);
    ROW("msa1a-c-sorted", true, true, typename MSA1A<true, true>::template Impl<IT, NT>);
    ROW("msa2a-c-sorted", true, true, typename MSA2A<true, true>::template Impl<IT, NT>);
#else
    ROW("mca", false, true, typename MCA<false, false>::template Impl<IT, NT>);
#endif
    Runner runner(out);
    const int N = thorough() ? 2500 : ROWALGS == 2 ? 250 : 120;
    const int nsr = C1::name[0] == 'i' || C1::name[0] == 'd' ? (int) NSR : (int) NSR;
    auto body = [&](int c, const std::set<int> &skip) -> std::string {
        std::string res;
        for (int a = 0; a < (int) rowAlgs.size(); a++) {
            if (skip.count(a)) continue;
            Rng g(seedFromEnv() * 104729 + c * 13);
            Job j;
            const bool wide = c % 5 == 4;
            int m = g.in(1, 6), k = g.in(1, wide ? 12 : 7), n = wide ? g.in(20, 60) : g.in(1, 9);
            j.sr = g.upto(nsr);
            auto val = [&]() { return j.sr == OR_AND || j.sr == XOR_AND ? g.in(0, 1) : g.in(-9, 12); };
            int pa = 10 + g.upto(91), pb = wide ? 5 + g.upto(30) : 10 + g.upto(91), pm = wide ? 10 + g.upto(60) : g.upto(101);
            j.A = Mat(m, k); j.B = Mat(k, n); j.M = Mat(m, n);
            for (int i = 0; i < m; i++) for (int x = 0; x < k; x++) if (g.chance(pa)) j.A.add(i, x, val());
            for (int i = 0; i < k; i++) for (int x = 0; x < n; x++) if (g.chance(pb)) j.B.add(i, x, val());
            for (int i = 0; i < m; i++) { int p = g.chance(60) ? pm : g.upto(101); for (int x = 0; x < n; x++) if (g.chance(p)) j.M.add(i, x, 1); }
            if (ROWALGS != 2 && g.chance(50)) for (auto *x : {&j.A, &j.B, &j.M}) for (auto &r : x->r) g.shuffle(r);
            for (int i = 0; i < m; i++) {
                int f = 0;
                std::set<int> got, mk;
                for (auto &e : j.M.r[i]) mk.insert(e.first);
                for (auto &e : j.A.r[i]) for (auto &b : j.B.r[e.first]) { f++; if ((mk.count(b.first) > 0) != rowAlgs[a].comp) got.insert(b.first); }
                j.flops.push_back(f);
                j.nvals.push_back((int) got.size());
            }
            CSRt *A = toCSR(j.A), *B = toCSR(j.B), *M = toCSR(j.M);
            std::string id = "r" + std::to_string(VT) + "." + std::to_string(c) + " " + rowAlgs[a].name;
            runner.mark(a, id);
            std::string steps = rowAlgs[a].f(g, j, *A, *B, *M);
            delete A; delete B; delete M;
            std::string o = "{\"id\":" + jsonStr(id) + ",\"status\":\"ok\",\"types\":" + jsonStr(C1::name) + ",\"mode\":\"" + (rowAlgs[a].comp ? "comp" : "mask") + "\",\"sorted\":" + (rowAlgs[a].sorted ? "true" : "false") +
                            ",\"sr\":" + jsonStr(srName(j.sr)) + ",\"n\":" + std::to_string(n) + ",\"A\":";
            jsonRows(o, j.A); o += ",\"B\":"; jsonRows(o, j.B); o += ",\"M\":"; jsonCols(o, j.M);
            res += o + ",\"steps\":[" + steps + "]}\n";
        }
        return res;
    };
    auto onCrash = [&](int c, const std::string &label, const std::string &why) -> std::string {
        return "{\"id\":" + jsonStr(label) + ",\"status\":" + jsonStr(why) + ",\"types\":" + jsonStr(C1::name) + ",\"mode\":\"mask\",\"sorted\":false,\"sr\":\"plus_times\",\"n\":1,\"A\":[],\"B\":[],\"M\":[],\"steps\":[]}\n";
    };
    runner.caseTimeout = 20;
    runner.run(N, body, onCrash);
    fclose(out);
    return 0;
}
