// Conformance harness for C15: writes files of known content (as lines of ReadFile.tla) in a
// scratch directory and records what the readers deliver.  usage: readers OUT SCRATCHDIR
#include <numeric>
#include <omp.h>
#include <tuple>
#include "common.h"
extern "C" {
#include "GraphBLAS.h"
}
#include "CSC.h"
#include "CSR.h"
#include "IO.h"
#include "utility.h"
#include "mats.h"

struct E3 { int r, c, v; };
struct File { std::string tag, format; int m, n; bool sym, pattern; std::vector<E3> e; uint64_t seed; };

template<class I> static std::string arrays(long long maj, long long min, long long nnz, const I *ptr, const I *ids, const NT *vals) {
    std::vector<long long> p, d, v;
    if (maj >= 0 && maj < 1000000) for (long long i = 0; i <= maj; i++) p.push_back(tlcInt((long long) ptr[i]));
    long long top = nnz > 0 && nnz < 1000000 ? nnz : 0;
    for (long long i = 0; i < top; i++) { d.push_back(tlcInt((long long) ids[i])); v.push_back(C1::dec(vals[i])); }
    return "{\"maj\":" + std::to_string(tlcInt(maj)) + ",\"min\":" + std::to_string(tlcInt(min)) + ",\"nnz\":" + std::to_string(tlcInt(nnz)) + ",\"ptr\":" + jsonInts(p) + ",\"ids\":" + jsonInts(d) + ",\"vals\":" + jsonInts(v) + "}";
}
static const char *EMPTY = "{\"maj\":0,\"min\":0,\"nnz\":0,\"ptr\":[0],\"ids\":[],\"vals\":[]}";
static std::string num(Rng &g, int v) {
    NT x = C1::enc(v);
    char b[64];
    if (std::is_floating_point<NT>::value) {
        if (g.chance(25)) snprintf(b, sizeof b, "%.17e", (double) x);
        else snprintf(b, sizeof b, "%.15g", (double) x);
    } else snprintf(b, sizeof b, "%lld", (long long) x);
    return b;
}
static std::string writeText(const File &f, const std::string &path, std::string &lines, bool mirrorFirst) {
    Rng g(f.seed);
    std::string sep = g.pick(std::vector<std::string>{" ", " ", " ", "  ", "\t"});
    std::string lead = g.chance(15) ? " " : "", trail = g.chance(20) ? " " : "", nl = g.chance(12) ? "\r\n" : "\n";
    std::string o = std::string("%%MatrixMarket matrix coordinate ") + (f.pattern ? "pattern" : std::is_floating_point<NT>::value ? "real" : "integer") + (f.sym ? " symmetric" : " general") + nl;
    lines = std::string("[[\"banner\",") + (f.sym ? "true" : "false") + "]";
    int nc = g.upto(4);
    for (int i = 0; i < nc; i++) {
        static const char *c[] = {"%", "% a comment", "%-------------------------------", "% general remarks: this graph is not symmetric", "% 3 3 3"};
        o += g.chance(12) ? "% " + std::string(g.in(200, 1000), 'x') : c[g.upto(5)];
        o += nl;
        lines += ",[\"comment\"]";
    }
    o += lead + std::to_string(f.m) + sep + std::to_string(f.n) + sep + std::to_string(f.e.size()) + trail;
    lines += ",[\"size\"," + std::to_string(f.m) + "," + std::to_string(f.n) + "," + std::to_string(f.e.size()) + "]";
    for (auto &e : f.e) {
        o += nl + lead + std::to_string(e.r) + sep + std::to_string(e.c);
        if (f.pattern) lines += ",[\"pattern\"," + std::to_string(e.r) + "," + std::to_string(e.c) + "]";
        else { o += sep + num(g, e.v); lines += ",[\"entry\"," + std::to_string(e.r) + "," + std::to_string(e.c) + "," + std::to_string(e.v) + "]"; }
        o += trail;
    }
    if (!g.chance(20)) o += nl;
    if (g.chance(8)) o += nl;
    lines += "]";
    FILE *fp = fopen(path.c_str(), "wb");
    fwrite(o.data(), 1, o.size(), fp);
    fclose(fp);
    return std::string(f.sym ? "symmetric" : "general") + (f.pattern ? " pattern" : " values") + " sep" + (sep == " " ? "1" : sep == "\t" ? "tab" : "2") + (lead.empty() ? "" : " lead") + (trail.empty() ? "" : " trail") + (nl == "\n" ? "" : " crlf");
}
static std::string rec(const std::string &id, const std::string &kind, const std::string &format, const std::string &lines, bool nodiag, bool anyval, const std::string &out, const std::string &list, long long tm, long long tn, const std::string &status = "ok") {
    auto B = [](bool b) { return b ? std::string("true") : std::string("false"); };
    return "{\"id\":" + jsonStr(id) + ",\"kind\":" + jsonStr(kind) + ",\"format\":" + jsonStr(format) + ",\"status\":" + jsonStr(status) + ",\"one\":" + std::to_string(C1::dec(NT(1))) +
           ",\"nodiag\":" + B(nodiag) + ",\"anyval\":" + B(anyval) + ",\"lines\":" + lines + ",\"out\":" + out + ",\"list\":" + list + ",\"tm\":" + std::to_string(tlcInt(tm)) + ",\"tn\":" + std::to_string(tlcInt(tn)) + "}\n";
}

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    std::string dir = argv[2];
    freopen("/dev/null", "w", stdout);
    Rng g0(seedFromEnv() * 3571 + VT);
    std::vector<File> fs;
    int N = thorough() ? 5000 : 420;
    for (int x = 0; x < N; x++) {
        bool sym = g0.chance(45);
        int m = g0.in(1, 8), n = sym ? m : g0.in(1, 8);
        if (x % 30 == 4) { m = g0.in(30, 200); n = sym ? m : g0.in(30, 200); }
        int k = g0.chance(12) ? 0 : g0.in(1, std::min(m * n, 150));
        if (x % 210 == 9) { m = 65536 + g0.in(1, 300); n = sym ? m : x % 420 == 9 ? 131072 + g0.in(1, 300) : g0.in(1, 9); k = 40; }   // dimensions beyond 2^16
        if (x % 210 == 10) { m = g0.in(60, 90); n = sym ? m : g0.in(60, 90); k = 2500; }                                              // many entries
        File f{"f" + std::to_string(x), "", m, n, sym, g0.chance(30), {}, g0.next()};
        std::set<std::pair<int, int>> seen;
        for (int i = 0; i < k; i++) {
            int r = g0.in(1, m), c = g0.in(1, n);
            if (m > 5000 && i > 0 && g0.chance(50)) { r = (f.e.back().r + 65535) % m + 1; c = g0.chance(50) ? f.e.back().c : c; }
            if (g0.chance(20)) c = std::min(r, n);
            if (sym && r < c) std::swap(r, c);
            if (!seen.insert({r, c}).second) continue;
            f.e.push_back({r, c, g0.chance(5) ? 0 : g0.in(-900000, 900000)});
        }
        if (g0.chance(40)) std::sort(f.e.begin(), f.e.end(), [](const E3 &a, const E3 &b) { return std::make_pair(a.c, a.r) < std::make_pair(b.c, b.r); });
        fs.push_back(f);
    }
    Runner runner(out);
    auto body = [&](int ci, const std::set<int> &skip) -> std::string {
        File f = fs[ci];
        Rng g(f.seed + 5);
        omp_set_num_threads(g.in(1, 4));
        std::string path = dir + "/m" + std::to_string(VT) + ".mtx", lines, o;
        f.format = writeText(f, path, lines, false);
        std::string id = f.tag + "." + std::to_string(VT);
        int sub = 0;
        auto step = [&](const std::string &how, const std::function<std::string()> &fn) { int s = sub++; if (skip.count(s)) return; runner.mark(s, how); o += fn(); };
        step("ReadASCII", [&] {
            CSCt x;
            if (g.chance(50)) { Mat a(2, 2); a.add(0, 1, 5); CSCt *y = toCSC(a); x = *y; delete y; }      // an object in use before
            ReadASCII(path, x);
            return rec(id + ".csc", "csc", f.format, lines, false, false, arrays<IT>(x.cols, x.rows, x.nnz, x.colptr, x.rowids, x.values), "[]", 0, 0);
        });
        step("CSR(file)", [&] {
            CSRt x(path);
            return rec(id + ".csr", "csr", f.format, lines, false, false, arrays<IT>(x.rows, x.cols, x.nnz, x.rowptr, x.colids, x.values), "[]", 0, 0);
        });
        for (int q = 0; q < 3; q++) {
            bool nodiag = q >= 1, rnd = q == 2;
            step("ReadASCII_Triples", [&] {
                IT nr = -1, nc = -1, nv = -1, *r = nullptr, *c = nullptr; NT *v = nullptr;
                ReadASCII_Triples<IT, NT>(path, nr, nc, nv, r, c, v, nodiag, rnd);
                std::string l = "[";
                for (IT i = 0; i < nv && i < 1000000; i++) l += std::string(i ? "," : "") + "[" + std::to_string(tlcInt(r[i])) + "," + std::to_string(tlcInt(c[i])) + "," + std::to_string(rnd ? 0 : C1::dec(v[i])) + "]";
                delete[] r; delete[] c; delete[] v;
                return rec(id + ".tri" + std::to_string(q), "triples", f.format, lines, nodiag, rnd, EMPTY, l + "]", nr, nc);
            });
        }
        if (!f.sym && !f.e.empty()) step("ReadBinary", [&] {
            std::string bp = dir + "/b" + std::to_string(VT) + ".bin";
            FILE *fp = fopen(bp.c_str(), "wb");
            IT h[3] = {(IT) f.m, (IT) f.n, (IT) f.e.size()};
            fwrite(h, sizeof(IT), 3, fp);
            for (auto &e : f.e) { IT v = e.r - 1; fwrite(&v, sizeof v, 1, fp); }
            for (auto &e : f.e) { IT v = e.c - 1; fwrite(&v, sizeof v, 1, fp); }
            for (auto &e : f.e) { NT v = C1::enc(e.v); fwrite(&v, sizeof v, 1, fp); }
            fclose(fp);
            std::string bl = "[[\"size\"," + std::to_string(f.m) + "," + std::to_string(f.n) + "," + std::to_string(f.e.size()) + "]";
            for (auto &e : f.e) bl += ",[\"entry\"," + std::to_string(e.r) + "," + std::to_string(e.c) + "," + std::to_string(e.v) + "]";
            CSCt x;
            int rc = ReadBinary(bp, x);
            return rec(id + ".bin", "bin", "binary", bl + "]", false, false, arrays<IT>(x.cols, x.rows, x.nnz, x.colptr, x.rowids, x.values), "[]", 0, 0, rc == 1 ? "ok" : "return code");
        });
        return o;
    };
    auto onCrash = [&](int ci, const std::string &label, const std::string &why) -> std::string {
        return rec(fs[ci].tag + "." + std::to_string(VT) + "." + label, label, "", "[]", false, false, EMPTY, "[]", 0, 0, why + " in " + label);
    };
    runner.run((int) fs.size(), body, onCrash);
    fclose(out);
    return 0;
}
