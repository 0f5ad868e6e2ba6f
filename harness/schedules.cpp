// Conformance harness for C03: parallel masked multiplications under controlled schedules.
// The OpenMP runtime is fsched.cpp: team members are fibers and every switch is decided here.
//   -DGROUP=1|2|12|111.. -DVT=n;  usage: schedules OUT PLANS PART NPARTS
// PLANS: one schedule per line, "NT t t t ..." (behaviours of MaskedDriver.tla)
#define VH_MAX_NNZ 2000
#include "fsched.h"
#define VH_POINT() sched::point()
#include <fstream>
#include <numeric>
#include <omp.h>
#include <tuple>
#if GROUP == 113 || GROUP == 114
#define NATIVE_ARITHMETIC
#endif
#include "common.h"
extern "C" {
#include "GraphBLAS.h"
}
#include "CSC.h"
#include "CSR.h"
#include "utility.h"
#include "mats.h"
#include "algs.h"

struct Case {
    std::string tag;
    Mat A, B, M;
    int sr, T, alias;        // alias: 0 fresh output, 1 C is A, 2 C is M, 3 C is A and M, 4 C is B
    bool sorted = true;
    uint64_t seed;
};
static const int CAN_ALIAS = GROUP == 1 || GROUP == 2;

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    std::map<int, std::vector<std::vector<int>>> plans;
    {
        std::ifstream f(argv[2]);
        std::string l;
        while (std::getline(f, l)) {
            std::istringstream is(l);
            int n, x;
            is >> n;
            std::vector<int> p;
            while (is >> x) p.push_back(x);
            if (!p.empty()) plans[n].push_back(p);
        }
    }
    int part = atoi(argv[3]), parts = atoi(argv[4]);
    registerAlgs();
    Rng g(seedFromEnv() * 991 + GROUP * 7 + VT);
    std::vector<Case> cases;
    int N = (thorough() ? 1500 : 200);
    std::vector<int> srs = {PLUS_TIMES, PLUS_FIRST, MIN_PLUS, PLUS_MINUS, XOR_AND};
    for (int x = 0; x < N; x++) {
        Case c;
        c.alias = CAN_ALIAS ? g.upto(5) : 0;
        int m = g.in(1, 7), k = g.in(1, 6), n = g.in(1, 7);
        if (x % 9 == 8) { m = g.in(10, 24); }
        if (c.alias || GROUP == 114) k = n = m;
        static const int pc[] = {0, 15, 40, 70, 100};
        c.sr = GROUP > 112 ? (int) PLUS_TIMES : g.pick(srs);
        auto rnd = [&](int r, int q, int pct, int lo) { Mat a(r, q); for (int i = 0; i < r; i++) { if (g.chance(12)) continue; for (int j = 0; j < q; j++) if (g.chance(pct)) a.add(i, j, c.sr == XOR_AND ? g.in(0, 1) : g.in(lo, 9)); } return a; };
        c.A = rnd(m, k, pc[g.in(1, 4)], -9);
        c.B = rnd(k, n, pc[g.in(1, 4)], -9);
        c.M = rnd(m, n, pc[g.in(x % 6 == 0 ? 0 : 1, 4)], 0);
        if (c.alias == 3) c.M = c.A;
        c.T = x % 5 == 4 ? m + g.in(1, 4) : g.in(2, 5);
        c.seed = g.next();
        c.tag = "sc" + std::to_string(x);
        if (x % parts == part) cases.push_back(c);
    }
    Runner runner(out);
    auto idOf = [&](const Case &c) { return "g" + std::to_string(GROUP) + "v" + std::to_string(VT) + "." + c.tag; };
    auto header = [&](const Case &c, const std::string &names, bool so) {
        std::string o = "{\"id\":" + jsonStr(idOf(c)) + ",\"mode\":" + jsonStr(modeName) + ",\"sr\":" + jsonStr(srName(c.sr)) + ",\"types\":" + jsonStr(C1::name) +
                        ",\"algs\":" + jsonStr(names) + ",\"sorted\":" + (so ? "true" : "false") + ",\"fam\":9";
#if GROUP == 112
        Mat At = c.B.transposed(), Bt = c.A.transposed();
        o += ",\"swap\":true,\"m\":" + std::to_string(At.m) + ",\"k\":" + std::to_string(At.n) + ",\"n\":" + std::to_string(Bt.n);
        o += ",\"A\":"; jsonRows(o, At); o += ",\"B\":"; jsonRows(o, Bt); o += ",\"M\":[]";
#else
        o += ",\"swap\":false,\"m\":" + std::to_string(c.A.m) + ",\"k\":" + std::to_string(c.A.n) + ",\"n\":" + std::to_string(c.B.n);
        o += ",\"A\":"; jsonRows(o, c.A); o += ",\"B\":"; jsonRows(o, c.B); o += ",\"M\":"; jsonCols(o, c.M);
#endif
        return o;
    };
    long regions = 0, syncs = 0, switches = 0, conflicts = 0, accesses = 0, nruns = 0, maxTeam = 0;
    auto body = [&](int ci, const std::set<int> &skip) -> std::string {
        const Case &c = cases[ci];
        std::map<std::pair<bool, std::string>, std::vector<std::string>> groups;
        int sub = 0;
        for (auto &al : algs) {
            if (c.alias == 4 && al.inner) continue;
            if (al.ptOnly && c.sr != PLUS_TIMES) continue;
            Rng q(c.seed + sub);
            sched::forgetHot();
            // schedules: 0 in turn; 1 random sync + conflict detection; planned; random; preemptive; hot spots
            int nplan = plans.count(c.T) ? (thorough() ? 8 : 3) : 0, nrand = thorough() ? 8 : 3, npre = thorough() ? 6 : 2, nhot = thorough() ? 16 : 6;
            int total = 2 + nplan + nrand + npre + nhot;
            for (int v = 0; v < total; v++) {
                sched::Config cfg;
                cfg.seed = q.next();
                std::string kind;
                if (v == 0) { cfg.randomSync = false; kind = "turn"; }
                else if (v == 1) { cfg.detect = true; kind = "detect"; }
                else if (v < 2 + nplan) { cfg.plan = q.pick(plans[c.T]); kind = "plan"; }
                else if (v < 2 + nplan + nrand) { kind = "random"; }
                else if (v < 2 + nplan + nrand + npre) { cfg.preemptPerMille = v % 2 ? 30 : 4; kind = "preempt"; }
                else { if (!sched::hot()) break; cfg.hotPerMille = v % 3 ? 300 : 60; kind = "conflict"; }
                int s = sub++;
                if (skip.count(s)) continue;
                std::string label = al.name + "/t" + std::to_string(c.T) + "/alias" + std::to_string(c.alias) + "/" + kind + std::to_string(v);
                runner.mark(s, label);
                CSRt *A = toCSR(c.A), *B = toCSR(c.B), *M = toCSR(c.M);
                CSCt *Ac = toCSC(c.A), *Bc = toCSC(c.B);
                CSRt *C, *Mx = M;
                if (c.alias == 0) { C = new CSRt(); C->rowptr = nullptr; C->colids = nullptr; C->values = nullptr; if (v % 3 == 0 && GROUP != 112) { delete C; C = toCSR(c.B); } }
                else if (c.alias == 1) C = A;
                else if (c.alias == 2) C = M;
                else if (c.alias == 3) { C = A; Mx = A; }
                else C = B;
                In in{A, B, Mx, Ac, Bc, ci};
                omp_set_num_threads(c.T);
                sched::begin(cfg);
                al.f(in, *C, Mul{c.sr}, Add{c.sr}, (unsigned) c.T);
                auto st = sched::stats();
                regions += st.regions; syncs += st.syncs; switches += st.switches; conflicts += st.conflicts; accesses += st.accesses; nruns++; maxTeam = std::max(maxTeam, st.maxTeam);
                sched::end();
                std::string o = outJson(*C);
                bool intact = (C == A || sameCSR(*A, c.A)) && (C == B || sameCSR(*B, c.B)) && (C == M || sameCSR(*M, c.M));
                o += std::string(",\"intact\":") + (intact ? "true" : "false");
                groups[{al.sortedOut, o}].push_back(label);
                if (c.alias == 0) delete C;
                delete A; delete B; delete M; delete Ac; delete Bc;
                sched::releaseQuarantine();
            }
        }
        std::string res;
        for (auto &gr : groups) {
            if (!gr.first.first && groups.count({true, gr.first.second})) continue;
            std::string names;
            for (size_t i = 0; i < gr.second.size() && i < 5; i++) names += (i ? " " : "") + gr.second[i];
            res += header(c, names, gr.first.first) + ",\"runs\":" + std::to_string(gr.second.size()) + ",\"status\":\"ok\"," + gr.first.second + "}\n";
        }
        if (getenv("VERIF_STATS"))
            fprintf(stderr, "%s runs=%ld regions=%ld syncs=%ld switches=%ld accesses=%ld conflicts=%ld team=%ld\n", idOf(c).c_str(), nruns, regions, syncs, switches, accesses, conflicts, maxTeam);
        return res;
    };
    auto onCrash = [&](int ci, const std::string &label, const std::string &why) -> std::string {
        return header(cases[ci], label, false) + ",\"runs\":1,\"status\":" + jsonStr(why) +
               ",\"rows\":0,\"cols\":0,\"nnz\":0,\"rowptr\":[],\"colids\":[],\"values\":[],\"intact\":true}\n";
    };
    runner.caseTimeout = 12;
    runner.run((int) cases.size(), body, onCrash);
    fclose(out);
    return 0;
}
