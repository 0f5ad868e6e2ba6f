// C05: multiplications over opaque values; every call of mult and add is recorded.
//   -DGROUP as in product.cpp, -DTOK=1|12|24 size of the value type
#include <mutex>
#include <numeric>
#include <omp.h>
#include <tuple>
#include "common.h"
extern "C" {
#include "GraphBLAS.h"
}
#include "CSC.h"
#include "CSR.h"
#include "utility.h"

// No arithmetic, no conversion from numbers: anything but mult/add/copy does not compile or shows in the ids.
// With -DEAGER (used only if the code does not compile for the plain type) it has everything numbers have,
// so that what is done with it can still be recorded.
#ifdef EAGER
#define EXTRAS(...) Token() = default; Token(double); __VA_ARGS__ \
    friend bool operator==(const Token &a, const Token &b) { return a.id == b.id; } friend bool operator!=(const Token &a, const Token &b) { return a.id != b.id; } \
    friend bool operator<(const Token &a, const Token &b) { return a.id < b.id; } friend bool operator>(const Token &a, const Token &b) { return a.id > b.id; } \
    friend Token operator+(const Token &a, const Token &b); friend Token operator*(const Token &a, const Token &b); friend Token operator-(const Token &a, const Token &b); \
    Token &operator+=(const Token &b); explicit operator bool() const { return id != 0; }
#else
#define EXTRAS(...)
#endif
#if TOK == 1
struct Token { unsigned char id; EXTRAS(Token(unsigned char i) : id(i) {}) };
static int maxIds = 250;
#elif TOK == 12
struct Token { int32_t id, tag, inv; EXTRAS(Token(int32_t i, int32_t t, int32_t v) : id(i), tag(t), inv(v) {}) };
static int maxIds = 100000;
#else
struct Token { int64_t tag; int32_t id; int64_t inv; EXTRAS(Token(int64_t t, int32_t i, int64_t v) : tag(t), id(i), inv(v) {}) };
static int maxIds = 100000;
#endif
#define CUSTOM_VALUES
#define VT 9
using IT = TOKIT;
using NT = Token;
namespace vh {
template<> struct Codec<Token> {
    static Token enc(int x) {
#if TOK == 1
        return Token{(unsigned char) x};
#elif TOK == 12
        return Token{x, x ^ 0x1234567, ~x};
#else
        return Token{x ^ 0x1234567, x, ~int64_t(x)};
#endif
    }
    static int dec(const Token &t) {
#if TOK == 1
        return t.id;
#else
        return t.tag == (t.id ^ 0x1234567) && t.inv == ~t.id ? (int) t.id : -1;
#endif
    }
    static constexpr const char *name = TOK == 1 ? "token1" : TOK == 12 ? "token12" : "token24";
};
}
static std::mutex logMutex;
static std::vector<std::array<int, 3>> calls;
static int nextId = 0;
static Token record(int kind, const Token &x, const Token &y) {
    std::lock_guard<std::mutex> l(logMutex);
    calls.push_back({kind, vh::Codec<Token>::dec(x), vh::Codec<Token>::dec(y)});
    return vh::Codec<Token>::enc(nextId++);
}
#ifdef EAGER
Token::Token(double) : Token(vh::Codec<Token>::enc(0)) {}
Token operator+(const Token &a, const Token &b) { return record(2, a, b); }
Token operator*(const Token &a, const Token &b) { return record(2, a, b); }
Token operator-(const Token &a, const Token &b) { return record(2, a, b); }
Token &Token::operator+=(const Token &b) { return *this = record(2, *this, b); }
#endif
struct Mul { Token operator()(const Token &a, const Token &b) const { return record(0, a, b); } };
struct Add { Token operator()(const Token &a, const Token &b) const { return record(1, a, b); } };
#include "mats.h"
#include "algs.h"

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    registerAlgs();
    Runner runner(out);
    const int N = thorough() ? 1500 : NCASES;
    struct Tc { Mat A, B, M; bool sorted; };
    auto make = [&](int c) {
        Rng g(seedFromEnv() * 131 + c * 977 + GROUP * 7 + TOK);
        Tc t;
        int m = g.in(1, 5), k = g.in(1, 6), n = g.in(1, 6);
        if (c % 4 == 0) { m = 1; n = g.in(1, 3); k = g.in(2, 8); }           // long sums
        if (c % 9 == 3) { m = 2; k = 3; n = TOK == 1 ? 14 : 40; }             // wide rows: collisions, heaps
        int p = 10 + g.upto(80), id = 1;
        t.A = Mat(m, k); t.B = Mat(k, n); t.M = Mat(m, n);
        for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) if (g.chance(p)) t.A.add(i, j, id++);
        for (int i = 0; i < k; i++) for (int j = 0; j < n; j++) if (g.chance(p)) t.B.add(i, j, id++);
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (g.chance(60)) t.M.add(i, j, 201);
        t.sorted = !g.chance(25);
        if (!t.sorted) { for (auto *x : {&t.A, &t.B, &t.M}) for (auto &r : x->r) g.shuffle(r); }
        return t;
    };
    auto body = [&](int c, const std::set<int> &skip) -> std::string {
        Tc t = make(c);
        std::string res;
        std::map<int, std::pair<int, int>> pos;
        int nA = (int) t.A.nnz(), nB = (int) t.B.nnz();
        long flops = 0;
        for (auto &r : t.A.r) for (auto &e : r) flops += (long) t.B.r[e.first].size();
        if (2 * flops + nA + nB > maxIds) return "";
        for (int i = 0; i < t.A.m; i++) for (auto &e : t.A.r[i]) pos[e.second] = {i, e.first};
        for (int i = 0; i < t.B.m; i++) for (auto &e : t.B.r[i]) pos[e.second] = {i, e.first};
        std::string leaf = "[";
        for (int x = 1; x <= nA + nB; x++) leaf += (x > 1 ? ",[" : "[") + std::to_string(pos[x].first) + "," + std::to_string(pos[x].second) + "]";
        leaf += "]";
        CSRt *A = toCSR(t.A), *B = toCSR(t.B), *M = toCSR(t.M);
        CSCt *Ac = toCSC(t.A), *Bc = toCSC(t.B);
        In in{A, B, M, Ac, Bc, c};
        int sub = 0;
        Rng g(c + 5);
        unsigned th = c % 3 == 2 ? g.in(2, 4) : 1;
        omp_set_num_threads(th);
        for (auto &al : algs) {
            int s = sub++;
            if ((al.needSorted && !t.sorted) || al.ptOnly || skip.count(s)) continue;
            std::string id = "k" + std::to_string(GROUP) + "." + std::to_string(TOK) + "." + std::to_string(c) + " " + al.name + "/t" + std::to_string(th);
            runner.mark(s, id);
            CSRt *C = new CSRt();
            C->rowptr = nullptr; C->colids = nullptr; C->values = nullptr;
            calls.clear();
            nextId = nA + nB + 1;
            al.f(in, *C, Mul(), Add(), th);
            std::string o = "{\"id\":" + jsonStr(id) + ",\"status\":\"ok\",\"types\":" + jsonStr(C1::name) + ",\"mode\":" + jsonStr(modeName) + ",\"m\":" + std::to_string(t.A.m) +
                            ",\"n\":" + std::to_string(t.B.n) + ",\"nA\":" + std::to_string(nA) + ",\"leaf\":" + leaf + ",\"M\":";
            jsonCols(o, t.M);
            o += ",\"calls\":[";
            for (size_t q = 0; q < calls.size(); q++) o += (q ? ",[" : "[") + std::to_string(calls[q][0]) + "," + std::to_string(calls[q][1]) + "," + std::to_string(calls[q][2]) + "]";
            o += "],\"C\":[";
            bool first = true;
            for (IT i = 0; i < C->rows; i++) for (IT p = C->rowptr[i]; p < C->rowptr[i + 1]; p++) {
                long long r = i, cc = C->colids[p];
                if (GROUP == 112) std::swap(r, cc);
                o += (first ? "[" : ",[") + std::to_string(r) + "," + std::to_string(cc) + "," + std::to_string(C1::dec(C->values[p])) + "]";
                first = false;
            }
            bool intact = sameCSR(*A, t.A) && sameCSR(*B, t.B) && sameCSR(*M, t.M);
            o += std::string("],\"intact\":") + (intact ? "true" : "false") + "}\n";
            res += o;
            delete C;
        }
        delete A; delete B; delete M; delete Ac; delete Bc;
        return res;
    };
    auto onCrash = [&](int c, const std::string &label, const std::string &why) -> std::string {
        return "{\"id\":" + jsonStr(label) + ",\"status\":" + jsonStr(why) + ",\"types\":" + jsonStr(C1::name) +
               ",\"mode\":\"full\",\"m\":0,\"n\":0,\"nA\":0,\"leaf\":[],\"M\":[],\"calls\":[],\"C\":[],\"intact\":true}\n";
    };
#ifdef EAGER
    fprintf(out, "%s", onCrash(0, "k" + std::to_string(GROUP) + "." + std::to_string(TOK) + " values", "the multiplications do not compile for a plain struct").c_str());
#endif
    runner.run(N, body, onCrash);
    fclose(out);
    return 0;
}
