// Shared pieces of the conformance harnesses: seeded randomness, plain matrices, value
// codecs, run-time semirings, and a forked runner that turns crashes/hangs into records.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <utility>
#include <vector>

#ifndef VH_POINT
#define VH_POINT() ((void) 0)      // a place where a controlled scheduler may switch
#endif
#ifdef GARBAGE_MALLOC
// Memory is handed out filled with plausible garbage (small numbers, addresses, bit patterns), so that
// results that depend on memory nobody wrote to show.  Linked with --wrap.
extern "C" {
void *__real_malloc(size_t); void *__real__Znwm(size_t); void *__real__Znam(size_t);
static inline void *vhGarbage(void *p, size_t n) {
    static thread_local uint64_t s = 0x1234567;
    if (!p || n > (1u << 24)) return p;
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    uint32_t how = (s >> 59) & 7;
    if (how == 0) memset(p, 0, n);
    else if (how == 1) memset(p, 0xFF, n);
    else {
        uint32_t x = uint32_t(s >> 20) | 1, lim = how < 4 ? 8 : how < 6 ? 200 : 0;
        size_t w = how & 1 ? 8 : 4;
        unsigned char *c = (unsigned char *) p;
        for (size_t i = 0; i + w <= n; i += w) {
            x ^= x << 13; x ^= x >> 17; x ^= x << 5;
            uint64_t v = lim ? (x >> 8) % lim : x * 0x9E3779B97F4A7C15ull;
            memcpy(c + i, &v, w);
        }
    }
    return p;
}
#ifdef TRACK_LIVE
// Storage obtained while tracking is on and not yet given back (requests for nothing do not count).
void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void __real__ZdlPv(void *); void __real__ZdlPvm(void *, size_t); void __real__ZdaPv(void *); void __real__ZdaPvm(void *, size_t);
static bool vhTracking = false;
static char vhLock = 0;
static void *vhLive[1 << 16];
static long vhLiveCount = 0;
static inline void vhTake() { while (__atomic_test_and_set(&vhLock, __ATOMIC_ACQUIRE)) {} }
static inline void vhGive() { __atomic_clear(&vhLock, __ATOMIC_RELEASE); }
static inline void *vhTrack(void *p, size_t n) {
    if (!vhTracking || !p || !n || vhLiveCount > 60000) return p;
    vhTake();
    size_t h = ((size_t) p >> 4) & 65535;
    while (vhLive[h] && vhLive[h] != (void *) 1) h = (h + 1) & 65535;
    vhLive[h] = p; vhLiveCount++;
    vhGive();
    return p;
}
static inline void vhUntrack(void *p) {
    if (!p || !vhLiveCount) return;
    vhTake();
    size_t h = ((size_t) p >> 4) & 65535;
    for (int k = 0; vhLive[h] && k < 65536; k++, h = (h + 1) & 65535) if (vhLive[h] == p) { vhLive[h] = (void *) 1; vhLiveCount--; break; }
    vhGive();
}
static inline void vhTrackOn(bool on) { vhTracking = on; }
static inline long vhLeft() { long n = vhLiveCount; memset(vhLive, 0, sizeof vhLive); vhLiveCount = 0; return n; }
void __wrap_free(void *p) { vhUntrack(p); __real_free(p); }
void *__wrap_calloc(size_t a, size_t b) { return vhTrack(__real_calloc(a, b), a * b); }
void *__wrap_realloc(void *p, size_t n) { vhUntrack(p); return vhTrack(__real_realloc(p, n), n); }
void __wrap__ZdlPv(void *p) { vhUntrack(p); __real__ZdlPv(p); }
void __wrap__ZdlPvm(void *p, size_t n) { vhUntrack(p); __real__ZdlPvm(p, n); }
void __wrap__ZdaPv(void *p) { vhUntrack(p); __real__ZdaPv(p); }
void __wrap__ZdaPvm(void *p, size_t n) { vhUntrack(p); __real__ZdaPvm(p, n); }
#else
static inline void *vhTrack(void *p, size_t) { return p; }
#endif
void *__wrap_malloc(size_t n) { return vhTrack(vhGarbage(__real_malloc(n), n), n); }
void *__wrap__Znwm(size_t n) { return vhTrack(vhGarbage(__real__Znwm(n), n), n); }
void *__wrap__Znam(size_t n) { return vhTrack(vhGarbage(__real__Znam(n), n), n); }
}
#endif
#ifndef TRACK_LIVE
static inline void vhTrackOn(bool) {}
static inline long vhLeft() { return 0; }
#endif
namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int upto(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }     // [0,n)
    int in(int lo, int hi) { return lo + upto(hi - lo + 1); }              // [lo,hi]
    bool chance(int pct) { return upto(100) < pct; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[upto((int) v.size())]; }
    template<class T> void shuffle(std::vector<T> &v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[upto((int) i)]);
    }
};

inline uint64_t seedFromEnv() {
    const char *s = getenv("VERIF_SEED");
    return s ? strtoull(s, nullptr, 10) : 1;
}
inline bool thorough() {
    const char *s = getenv("VERIF_TIER");
    return s && std::string(s) == "thorough";
}

// ---------------------------------------------------------------- plain matrices
struct Mat {
    int m = 0, n = 0;
    std::vector<std::vector<std::pair<int, int>>> r;
    Mat() {}
    Mat(int m_, int n_) : m(m_), n(n_), r(m_) {}
    long nnz() const { long s = 0; for (auto &x : r) s += (long) x.size(); return s; }
    void add(int i, int j, int v) { r[i].push_back({j, v}); }
    void sortRows() { for (auto &x : r) std::sort(x.begin(), x.end()); }
    Mat transposed() const {
        Mat t(n, m);
        for (int i = 0; i < m; i++) for (auto &e : r[i]) t.r[e.first].push_back({i, e.second});
        return t;
    }
};

inline void jsonRows(std::string &o, const Mat &a) {
    o += '[';
    for (int i = 0; i < a.m; i++) {
        if (i) o += ',';
        o += '[';
        for (size_t k = 0; k < a.r[i].size(); k++) {
            if (k) o += ',';
            o += '['; o += std::to_string(a.r[i][k].first); o += ','; o += std::to_string(a.r[i][k].second); o += ']';
        }
        o += ']';
    }
    o += ']';
}
inline void jsonCols(std::string &o, const Mat &a) {     // columns only (mask pattern)
    o += '[';
    for (int i = 0; i < a.m; i++) {
        if (i) o += ',';
        o += '[';
        for (size_t k = 0; k < a.r[i].size(); k++) { if (k) o += ','; o += std::to_string(a.r[i][k].first); }
        o += ']';
    }
    o += ']';
}
template<class V> std::string jsonInts(const V &v) {
    std::string o = "[";
    bool f = true;
    for (auto x : v) { if (!f) o += ','; f = false; o += std::to_string((long long) x); }
    return o + "]";
}
inline std::string jsonStr(const std::string &s) {
    std::string o = "\"";
    for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((unsigned char) c >= 32) o += c; }
    return o + "\"";
}
// A value that TLC (32-bit integers) cannot represent is never allowed to wrap silently.
inline long long tlcInt(long long x) { return (x > 2147483000LL || x < -2147483000LL) ? -2147483001LL : x; }

// ---------------------------------------------------------------- value types
struct P12 { int32_t v, tag, inv; };                 // 12 bytes, not a power of two
struct P24 { int64_t v; int32_t tag; int64_t inv; }; // 24 bytes
struct P1  { signed char v; };                       // one byte
inline bool operator==(const P12 &a, const P12 &b) { return a.v == b.v; }
inline bool operator==(const P24 &a, const P24 &b) { return a.v == b.v; }

static const int BADVAL = -987654321;
template<class NT> struct Codec;
template<> struct Codec<int> {
    static int enc(int x) { return x; }
    static int dec(int v) { return v; }
    static constexpr const char *name = "int";
};
template<> struct Codec<int64_t> {
    static constexpr int64_t unit = (int64_t(1) << 38) + 1;      // more bits than an int, a float or (for larger values) a double keeps
    static int64_t enc(int x) { return int64_t(x) * unit; }
    static int dec(int64_t v) { return v % unit ? BADVAL : int(v / unit); }
    static constexpr const char *name = "int64";
};
template<> struct Codec<uint64_t> {
    static uint64_t enc(int x) { return uint64_t(x) + 0x8000000000000000ull; }
    static int dec(uint64_t v) { int64_t d = int64_t(v - 0x8000000000000000ull); return d > 2000000000 || d < -2000000000 ? BADVAL : int(d); }
    static constexpr const char *name = "uint64";
};
template<> struct Codec<double> {
#ifdef NATIVE_ARITHMETIC      // the code under test multiplies the values itself
    static constexpr double scale = 1.0;
#else
    static constexpr double scale = 1024.0;
#endif
    static double enc(int x) { return x / scale; }
    static int dec(double v) {
        double d = v * scale;
        if (!(d > -2e9 && d < 2e9) || d != double(int64_t(d))) return BADVAL;
        return int(d);
    }
    static constexpr const char *name = "double";
};
template<> struct Codec<float> {
    static float enc(int x) { return x / 4.0f; }
    static int dec(float v) {
        double d = double(v) * 4.0;
        if (!(d > -2e9 && d < 2e9) || d != double(int64_t(d))) return BADVAL;
        return int(d);
    }
    static constexpr const char *name = "float";
};
template<> struct Codec<P12> {
    static P12 enc(int x) { return P12{x, x ^ 0x5a5a5a5a, ~x}; }
    static int dec(const P12 &p) { return p.tag == (p.v ^ 0x5a5a5a5a) && p.inv == ~p.v ? p.v : BADVAL; }
    static constexpr const char *name = "struct12";
};
template<> struct Codec<P24> {
    static P24 enc(int x) { return P24{x, x ^ 0x5a5a5a5a, ~int64_t(x)}; }
    static int dec(const P24 &p) { return p.tag == (int(p.v) ^ 0x5a5a5a5a) && p.inv == ~p.v ? int(p.v) : BADVAL; }
    static constexpr const char *name = "struct24";
};
template<> struct Codec<P1> {      // only for semirings that stay in [-100,100]
    static P1 enc(int x) { return P1{(signed char) x}; }
    static int dec(P1 p) { return p.v; }
    static constexpr const char *name = "byte";
};

// ---------------------------------------------------------------- semirings (names match Semiring.tla)
enum Sr { PLUS_TIMES, MIN_PLUS, MAX_PLUS, MAX_MIN, OR_AND, XOR_AND, PLUS_FIRST, PLUS_SECOND, PLUS_PAIR, MIN_FIRST, MAX_SECOND, PLUS_MINUS, NSR };
inline const char *srName(int s) {
    static const char *n[] = {"plus_times", "min_plus", "max_plus", "max_min", "or_and", "xor_and", "plus_first",
                              "plus_second", "plus_pair", "min_first", "max_second", "plus_minus"};
    return n[s];
}
inline int srMul(int s, int a, int b) {
    switch (s) {
        case PLUS_TIMES: return a * b;
        case MIN_PLUS: case MAX_PLUS: return a + b;
        case MAX_MIN: return std::min(a, b);
        case OR_AND: return (a != 0 && b != 0) ? 1 : 0;
        case XOR_AND: return ((a % 2 != 0) && (b % 2 != 0)) ? 1 : 0;
        case PLUS_FIRST: case MIN_FIRST: return a;
        case PLUS_SECOND: case MAX_SECOND: return b;
        case PLUS_PAIR: return 1;
        case PLUS_MINUS: return a - b;
    }
    return 0;
}
inline int srAdd(int s, int x, int y) {
    switch (s) {
        case PLUS_TIMES: case PLUS_FIRST: case PLUS_SECOND: case PLUS_PAIR: case PLUS_MINUS: return x + y;
        case MIN_PLUS: case MIN_FIRST: return std::min(x, y);
        case MAX_PLUS: case MAX_MIN: case MAX_SECOND: return std::max(x, y);
        case OR_AND: return (x != 0 || y != 0) ? 1 : 0;
        case XOR_AND: return (x != y) ? 1 : 0;
    }
    return 0;
}
template<class NT> struct MulOp {
    int s;
    NT operator()(const NT &a, const NT &b) const {
        VH_POINT();
        int x = Codec<NT>::dec(a), y = Codec<NT>::dec(b);
        if (x == BADVAL || y == BADVAL) return Codec<NT>::enc(-987654);
        return Codec<NT>::enc(srMul(s, x, y));
    }
};
template<class NT> struct AddOp {
    int s;
    NT operator()(const NT &a, const NT &b) const {
        int x = Codec<NT>::dec(a), y = Codec<NT>::dec(b);
        if (x == BADVAL || y == BADVAL) return Codec<NT>::enc(-987654);
        return Codec<NT>::enc(srAdd(s, x, y));
    }
};

// ---------------------------------------------------------------- forked runner
struct Shared { volatile int caseIdx; volatile int sub; char label[400]; };

struct Runner {
    FILE *out;
    Shared *sh;
    int caseTimeout = 30;
    int maxSkips = 4;
    int crashes = 0;
    explicit Runner(FILE *o) : out(o) {
        sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void *) sh, 0, sizeof(Shared));
    }
    // Called by the child before each variant of a case.
    void mark(int sub, const std::string &label) {
        sh->sub = sub;
        strncpy(sh->label, label.c_str(), sizeof(sh->label) - 1);
        sh->label[sizeof(sh->label) - 1] = 0;
    }
    // body(caseIdx, skip) runs one case and returns the records it wants to emit;
    // onCrash(caseIdx, label, status) returns the record of a crashed/hung variant.
    void run(int ncases, const std::function<std::string(int, const std::set<int> &)> &body,
             const std::function<std::string(int, const std::string &, const std::string &)> &onCrash) {
        int start = 0;
        std::map<int, std::set<int>> skips;
        while (start < ncases) {
            fflush(out);
            pid_t pid = fork();
            if (pid == 0) {
                setpgid(0, 0);
                for (int c = start; c < ncases; c++) {
                    sh->caseIdx = c;
                    sh->sub = -1;
                    sh->label[0] = 0;
                    alarm(caseTimeout);
                    std::string rec = body(c, skips[c]);
                    alarm(0);
                    fwrite(rec.data(), 1, rec.size(), out);
                    fflush(out);
                }
                _exit(0);
            }
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
            std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("timeout") : "signal " + std::to_string(WTERMSIG(st)))
                                              : "exit " + std::to_string(WEXITSTATUS(st));
            int c = sh->caseIdx;
            crashes += why == "timeout" ? 14 : 1;      // a few hangs are proof enough
            std::string rec = onCrash(c, sh->label, why);
            fwrite(rec.data(), 1, rec.size(), out);
            fflush(out);
            if (sh->sub < 0 || (int) skips[c].size() >= maxSkips || why == "timeout") start = c + 1;
            else { skips[c].insert((int) sh->sub); start = c; }
            if (crashes > 40) return;
        }
    }
};
} // namespace vh
