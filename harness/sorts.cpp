// Runs the sorting routines of the repository on arrays planned by the specification and
// records what came out: identity tags where the elements carry them, plain values otherwise.
//   sorts OUT PLANS      -DGROUP: 0 key-value merge sort + radix sort, 1 gfx timsort, 2 tim timsort, 3 pdqsort, 4 vergesort
#include <array>
#include <deque>
#include <list>
#include "common.h"
#if GROUP == 0
#include "utility.h"
#include "radix_sort/radix_sort.hpp"
#elif GROUP == 1
#include "cpp-TimSort/include/gfx/timsort.hpp"
#elif GROUP == 2
#include "timsort-cpp/include/tim/timsort.h"
#elif GROUP == 3
#include "pdqsort/pdqsort.h"
#elif GROUP == 4
#include "vergesort/include/vergesort/vergesort.h"
#elif GROUP >= 5
extern "C" {
#include "utils.h"
}
#endif
using namespace vh;

// ------------------------------------------------------------------ element types
static long live = 0;
struct Tg { int key, tag; bool operator<(const Tg &o) const { return key < o.key; } };
struct Big { int key, tag; char pad[80]; bool operator<(const Big &o) const { return key < o.key; } };
struct Mv {                          // owns memory; what it was moved from holds no key any more
    int key; int *tag;
    Mv() : key(-77777), tag(nullptr) { live++; }
    Mv(int k, int t) : key(k), tag(new int(t)) { live++; }
    Mv(const Mv &o) : key(o.key), tag(o.tag ? new int(*o.tag) : nullptr) { live++; }
    Mv(Mv &&o) noexcept : key(o.key), tag(o.tag) { live++; o.tag = nullptr; o.key = -77777; }
    Mv &operator=(const Mv &o) { if (this != &o) { delete tag; key = o.key; tag = o.tag ? new int(*o.tag) : nullptr; } return *this; }
    Mv &operator=(Mv &&o) noexcept { if (this != &o) { delete tag; key = o.key; tag = o.tag; o.tag = nullptr; o.key = -77777; } return *this; }
    ~Mv() { delete tag; live--; }
    bool operator<(const Mv &o) const { return key < o.key; }
};
template<int P> struct Sm {          // four or six bytes, not trivially destructible
    short key; unsigned short tag; unsigned short pad[P];
    Sm() : Sm(-30000, 0) {}
    Sm(int k, int t) : key(k), tag(t) { for (auto &p : pad) p = t; live++; }
    Sm(const Sm &o) { copy(o); live++; }
    Sm(Sm &&o) noexcept { copy(o); live++; o.key = -30000; }
    Sm &operator=(const Sm &o) { copy(o); return *this; }
    Sm &operator=(Sm &&o) noexcept { if (this != &o) { copy(o); o.key = -30000; } return *this; }
    ~Sm() { live--; }
    bool operator<(const Sm &o) const { return key < o.key; }
    void copy(const Sm &o) { key = o.key; tag = o.tag; for (int i = 0; i < P; i++) pad[i] = o.pad[i]; }
    int out() const { for (auto p : pad) if (p != tag) return -1; return key == -30000 ? -1 : tag; }
};
typedef Sm<0> S4;
typedef Sm<1> S6;
template<class T> struct El;         // how a (key, tag) pair is stored
template<class T> struct Tagged { static constexpr bool tagged = true; static int key(const T &e) { return e.key; } };
template<> struct El<Tg> : Tagged<Tg> { static Tg make(int k, int t) { return Tg{k, t}; } static int out(const Tg &e) { return e.tag; } static constexpr const char *name = "pair"; };
template<> struct El<Big> : Tagged<Big> { static Big make(int k, int t) { Big b{k, t}; memset(b.pad, t, 80); return b; } static constexpr const char *name = "big";
    static int out(const Big &e) { for (char c : e.pad) if (c != (char) e.tag) return -1; return e.tag; } };
template<> struct El<Mv> : Tagged<Mv> { static Mv make(int k, int t) { return Mv(k, t); } static int out(const Mv &e) { return e.tag ? *e.tag : -1; } static constexpr const char *name = "owner"; };
template<> struct El<S4> : Tagged<S4> { static S4 make(int k, int t) { return S4(k, t); } static int out(const S4 &e) { return e.out(); } static constexpr const char *name = "small"; };
template<> struct El<S6> : Tagged<S6> { static S6 make(int k, int t) { return S6(k, t); } static int out(const S6 &e) { return e.out(); } static constexpr const char *name = "small6"; };
template<> struct El<std::string> : Tagged<std::string> {
    static std::string make(int k, int t) { char b[40]; snprintf(b, 40, "%07d %07d-long-enough", k + 1000000, t); return b; }
    static int key(const std::string &e) { return e.size() < 15 ? -1 : atoi(e.substr(0, 7).c_str()) - 1000000; }
    static int out(const std::string &e) { return e.size() < 15 ? -1 : atoi(e.substr(8, 7).c_str()); }
    static constexpr const char *name = "string";
};
template<class T> struct Plain { static constexpr bool tagged = false; };
template<> struct El<int> : Plain<int> { static int make(int k, int) { return k * 1000003; } static int key(int v) { return v / 1000003; } static int out(int v) { return v % 1000003 ? BADVAL : v / 1000003; } static constexpr const char *name = "int"; };
template<> struct El<unsigned> : Plain<unsigned> { static unsigned make(int k, int) { return 0x80000000u + k * 1000003; } static int key(unsigned v) { return int(v - 0x80000000u) / 1000003; } static int out(unsigned v) { return key(v); } static constexpr const char *name = "unsigned"; };
template<> struct El<double> : Plain<double> { static double make(int k, int) { return k * 0.375; } static int key(double v) { return int(v / 0.375); } static int out(double v) { return v / 0.375 == key(v) ? key(v) : BADVAL; } static constexpr const char *name = "double"; };
template<> struct El<float> : Plain<float> { static float make(int k, int) { return k * 0.375f; } static int key(float v) { return int(v / 0.375f); } static int out(float v) { return key(v); } static constexpr const char *name = "float"; };
template<> struct El<int64_t> : Plain<int64_t> { static int64_t make(int k, int) { return int64_t(k) * 1000000007ll * 997; } static int key(int64_t v) { return int(v / (1000000007ll * 997)); } static int out(int64_t v) { return v % (1000000007ll * 997) ? BADVAL : key(v); } static constexpr const char *name = "int64"; };
template<> struct El<uint64_t> : Plain<uint64_t> { static uint64_t make(int k, int) { return 0x8000000000000000ull + int64_t(k) * 1000000007ll * 997; } static int key(uint64_t v) { return El<int64_t>::key(int64_t(v - 0x8000000000000000ull)); } static int out(uint64_t v) { return key(v); } static constexpr const char *name = "uint64"; };
template<> struct El<short> : Plain<short> { static short make(int k, int) { return short(k * 13); } static int key(short v) { return v / 13; } static int out(short v) { return v % 13 ? BADVAL : v / 13; } static constexpr const char *name = "short"; };
template<> struct El<unsigned short> : Plain<unsigned short> { static unsigned short make(int k, int) { return (unsigned short) (32768 + k * 13); } static int key(unsigned short v) { return (int(v) - 32768) / 13; } static int out(unsigned short v) { return key(v); } static constexpr const char *name = "ushort"; };
typedef std::pair<short, int> PK;    // lexicographic
template<> struct El<PK> : Plain<PK> { static PK make(int k, int) { k += 70000; return PK(short(k / 11 - 6000), (k % 11 - 5) * 70001); } static int key(const PK &p) { return (p.first + 6000) * 11 + p.second / 70001 + 5 - 70000; } static int out(const PK &p) { return key(p); } static constexpr const char *name = "pairkey"; };
typedef std::tuple<signed char, unsigned char, int64_t> TK;
template<> struct El<TK> : Plain<TK> { static TK make(int k, int) { k += 70000; return TK((signed char) (k / 1100 - 63), (unsigned char) (k % 1100 / 5), int64_t(k % 5 - 2) << 40); }
    static int key(const TK &p) { return (std::get<0>(p) + 63) * 1100 + std::get<1>(p) * 5 + int(std::get<2>(p) >> 40) + 2 - 70000; } static int out(const TK &p) { return key(p); } static constexpr const char *name = "tuplekey"; };
typedef std::array<unsigned char, 3> AK;
template<> struct El<AK> : Plain<AK> { static AK make(int k, int) { k += 70000; return AK{(unsigned char) (k >> 16), (unsigned char) (k >> 8), (unsigned char) k}; }
    static int key(const AK &p) { return p[0] * 65536 + p[1] * 256 + p[2] - 70000; } static int out(const AK &p) { return key(p); } static constexpr const char *name = "arraykey"; };

// ------------------------------------------------------------------ plans
struct Seg { int kind, len, par, base; };
static std::vector<std::vector<Seg>> plans;
static std::vector<int> keysOf(const std::vector<Seg> &p) {
    std::vector<int> k;
    Rng g(p.size() * 131 + (p.empty() ? 0 : p[0].len * 7 + p[0].par));
    for (auto &s : p) {
        int b = s.base * 25;
        for (int i = 0; i < s.len; i++) switch (s.kind) {
            case 1: k.push_back(b + i * (s.par % 3 + 1) / 2); break;                  // ascending, with or without ties
            case 2: k.push_back(b - i * (s.par % 3 + 1) / 2); break;                  // descending
            case 3: k.push_back(b); break;                                           // all equal
            case 4: k.push_back(b + g.upto(s.par + 1)); break;                        // few keys
            case 5: k.push_back(g.in(-900, 900)); break;                             // many keys
            case 6: k.push_back(b + i % (s.par * 5 + 2)); break;                      // saw
            case 7: k.push_back(b + (i < s.len / 2 ? i : s.len - i)); break;           // up and down
            case 8: k.push_back(b + (i / (s.par * 3 + 1)) * 2); break;                // blocks of equal keys (galloping)
            case 9: k.push_back(g.chance(4) ? g.in(-300, 300) : b + i); break;        // nearly sorted
            case 10: k.push_back(g.chance(4) ? g.in(-300, 300) : b - i); break;       // nearly reversed
            default: k.push_back(-b - i);
        }
    }
    return k;
}
struct Rec {
    std::string o;
    void put(const std::string &id, const char *sort, const char *type, const char *box, int cmp, bool tagged, bool stable, const std::vector<int> &keys, const std::vector<int> &out, long alive) {
        o += "{\"id\":" + jsonStr(id) + ",\"sort\":\"" + sort + "\",\"type\":\"" + type + "\",\"box\":\"" + box + "\",\"cmp\":" + std::to_string(cmp) +
             ",\"tagged\":" + (tagged ? "true" : "false") + ",\"stable\":" + (stable ? "true" : "false") + ",\"live\":" + std::to_string(alive) +
             ",\"crash\":\"\",\"keys\":" + jsonInts(keys) + ",\"out\":" + jsonInts(out) + "}\n";
    }
};
static int ord(int cmp, int k) { return cmp == 1 ? -k : cmp == 2 ? (k + 8000) / 8 : k; }
template<class T> struct Less { int cmp; bool operator()(const T &a, const T &b) const { return ord(cmp, El<T>::key(a)) < ord(cmp, El<T>::key(b)); } };

// A comparator that makes a quicksort go wrong (McIlroy): it decides the keys while it is asked.
struct Killer { std::vector<int> val; int solid = 0, cand = 0, gas; explicit Killer(int n) : val(n, n), gas(n) {}
    bool less(int x, int y) {
        if (val[x] == gas && val[y] == gas) val[x == cand ? x : y] = solid++;
        if (val[x] == gas) cand = x; else if (val[y] == gas) cand = y;
        return val[x] < val[y];
    }
};

template<class F> static void killer(std::vector<int> &keys, F sort) {
    Killer k((int) keys.size());
    std::vector<int> ix(keys.size());
    for (size_t i = 0; i < ix.size(); i++) ix[i] = (int) i;
    sort(ix, [&k](int a, int b) { return k.less(a, b); });
    for (size_t i = 0; i < keys.size(); i++) keys[i] = k.val[i];
}

template<class Box, class T, class F> static void one(Rec &r, const std::string &id, const char *sort, const char *box, int cmp, bool stable, const std::vector<int> &keys, F f) {
    std::vector<int> out;
    live = 0;
    {
        Box c;
        for (size_t i = 0; i < keys.size(); i++) c.push_back(El<T>::make(keys[i], (int) i));
        long before = live;
        f(c);
        long after = live - before;
        for (auto &e : c) out.push_back(El<T>::out(e));
        if (after == 0) after = 0; else live += 0;
        r.put(id, sort, El<T>::name, box, cmp, El<T>::tagged, stable && El<T>::tagged, keys, out, after);
    }
}
#define VEC(T, NAME, CMP, STABLE, CALL) one<std::vector<T>, T>(r, id, NAME, "vector", CMP, STABLE, keys, [&](std::vector<T> &c) { auto b = c.begin(), e = c.end(); CALL; })
#define DEQ(T, NAME, CMP, STABLE, CALL) one<std::deque<T>, T>(r, id, NAME, "deque", CMP, STABLE, keys, [&](std::deque<T> &c) { auto b = c.begin(), e = c.end(); CALL; })
#define PTR(T, NAME, CMP, STABLE, CALL) one<std::vector<T>, T>(r, id, NAME, "pointer", CMP, STABLE, keys, [&](std::vector<T> &c) { auto b = c.data(), e = c.data() + c.size(); CALL; })
#define LST(T, NAME, CMP, STABLE, CALL) one<std::list<T>, T>(r, id, NAME, "list", CMP, STABLE, keys, [&](std::list<T> &c) { auto b = c.begin(), e = c.end(); CALL; })
// sorting backwards: the front of the range is the back of the container; tags and keys are mirrored
#define REV(T, NAME, CMP, STABLE, CALL) do { std::vector<int> mk(keys.rbegin(), keys.rend()), out; int n_ = (int) keys.size(); std::vector<T> c; \
    for (int i = 0; i < n_; i++) c.push_back(El<T>::make(keys[n_ - 1 - i], n_ - 1 - i)); long before = live; { auto b = c.rbegin(), e = c.rend(); CALL; } long after = live - before; \
    for (int i = n_ - 1; i >= 0; i--) out.push_back(El<T>::out(c[i])); r.put(id, NAME, El<T>::name, "reverse", CMP, El<T>::tagged, (STABLE) && El<T>::tagged, keys, out, after); } while (0)

#if GROUP == 0
template<class T> static void radixPlain(Rec &r, const std::string &id, const std::vector<int> &keys, int how) {
    std::vector<int> out;
    std::vector<T> a, buf(keys.size());
    for (int k : keys) a.push_back(El<T>::make(k, 0));
    bool inBuf = how == 2 ? linear_sort(a.begin(), a.end(), buf.begin()) : radix_sort(a.begin(), a.end(), buf.begin());
    for (auto &e : inBuf ? buf : a) out.push_back(El<T>::out(e));
    r.put(id, how == 2 ? "linear_sort" : "radix_sort", El<T>::name, "vector", 0, false, false, keys, out, 0);
}
template<class T> static void radixKey(Rec &r, const std::string &id, const std::vector<int> &keys) {
    std::vector<int> out;
    std::vector<Tg> a, buf(keys.size());
    for (size_t i = 0; i < keys.size(); i++) a.push_back(Tg{keys[i], (int) i});
    bool inBuf = radix_sort(a.data(), a.data() + a.size(), buf.data(), [](const Tg &t) { return El<T>::make(t.key, 0); });
    for (auto &e : inBuf ? buf : a) out.push_back(e.tag);
    r.put(id, "radix_sort by key", El<T>::name, "pointer", 0, true, true, keys, out, 0);
}
template<class IT, class NT> static void keyValue(Rec &r, const std::string &id, const std::vector<int> &keys, const char *ty) {
    std::vector<IT> k; std::vector<NT> v; std::vector<int> out;
    for (size_t i = 0; i < keys.size(); i++) { k.push_back((IT) (keys[i] + (std::is_signed<IT>::value ? 0 : 70000))); v.push_back(Codec<NT>::enc((int) i)); }
    cpu_sorting_key_value<IT, NT>(k.data(), v.data(), (IT) k.size());
    for (size_t i = 0; i < k.size(); i++) {      // the value must still be with its key
        int t = Codec<NT>::dec(v[i]);
        out.push_back(t >= 0 && t < (int) keys.size() && (long) k[i] == keys[t] + (std::is_signed<IT>::value ? 0 : 70000) ? t : -1);
    }
    r.put(id, "cpu_sorting_key_value", ty, "arrays", 0, true, false, keys, out, 0);
}
#endif

#if GROUP >= 5
// the edge-list sorts of the R-MAT generator: start vertices with their end vertices and weights
static void edgeSort(Rec &r, const std::string &id, const std::vector<int> &keys, int how) {
    size_t m = keys.size();
    std::vector<int> out;
    long *k = new long[m], *a = new long[m], *w = new long[m];
    for (size_t i = 0; i < m; i++) k[i] = (8000L + keys[i]) * (how ? 200000 : 1), a[i] = i, w[i] = 3 * i + 1;
    (how % 2 ? heapSort : countingSort)(k, a, w, m);
    for (size_t i = 0; i < m; i++)
        out.push_back(a[i] >= 0 && a[i] < (long) m && w[i] == 3 * a[i] + 1 && k[i] == (8000L + keys[a[i]]) * (how ? 200000 : 1) ? (int) a[i] : -1);
    delete[] k; delete[] a; delete[] w;
    r.put(id, how % 2 ? "heapSort" : "countingSort", "edges", "arrays", 0, true, false, keys, out, 0);
}
#endif

static std::string body(int c, const std::set<int> &skip) {
    Rec r;
    Rng g(c * 977 + 5);
    std::vector<int> keys;
    if (c < (int) plans.size()) keys = keysOf(plans[c]);
    else if (c < (int) plans.size() + 364) {            // every sequence of up to five keys out of three
        int x = c - (int) plans.size(), len = 0, cnt = 1;
        while (x >= cnt) { x -= cnt; len++; cnt *= 3; }
        for (int i = 0; i < len; i++, x /= 3) keys.push_back(x % 3);
    } else {
        keys.assign(150 + 170 * (c - (int) plans.size() - 364), 0);
#if GROUP == 3
        killer(keys, [](std::vector<int> &v, auto cmp) { pdqsort(v.begin(), v.end(), cmp); });
#elif GROUP == 4
        killer(keys, [](std::vector<int> &v, auto cmp) { vergesort::vergesort(v.begin(), v.end(), cmp); });
#else
        for (auto &k : keys) k = g.in(-3, 3);
#endif
    }
    bool tiny = c >= (int) plans.size() && c < (int) plans.size() + 364;
    std::string id = "s" + std::to_string(GROUP) + "." + std::to_string(c);
    int cmp = g.upto(3), nv = 0, rot = c;
    auto turn = [&](int k, int of) { return tiny ? (c + k) % 3 == 0 : (rot + k) % of == 0; };
#if GROUP == 0
    if (turn(0, 2)) keyValue<int, int>(r, id, keys, "int/int");
    if (turn(1, 3)) keyValue<int, double>(r, id, keys, "int/double");
    if (turn(2, 3)) keyValue<int, P12>(r, id, keys, "int/struct");
    if (turn(0, 3)) keyValue<int, int64_t>(r, id, keys, "int/int64");
    if (turn(0, 4)) radixPlain<int>(r, id, keys, 1);
    if (turn(1, 4)) radixPlain<unsigned>(r, id, keys, 1);
    if (turn(2, 4)) radixPlain<int64_t>(r, id, keys, 1);
    if (turn(3, 4)) radixPlain<uint64_t>(r, id, keys, 1);
    if (turn(0, 5)) radixPlain<double>(r, id, keys, 1);
    if (turn(1, 5)) radixPlain<float>(r, id, keys, 1);
    if (turn(2, 5)) radixPlain<PK>(r, id, keys, 1);
    if (turn(3, 5)) radixPlain<TK>(r, id, keys, 1);
    if (turn(4, 5)) radixPlain<AK>(r, id, keys, 1);
    if (turn(1, 5)) radixPlain<int>(r, id, keys, 2);
    if (turn(0, 3)) radixKey<int>(r, id, keys);
    if (turn(1, 6)) radixKey<uint64_t>(r, id, keys);
    if (turn(2, 6)) radixKey<PK>(r, id, keys);
    if (turn(3, 6)) radixKey<double>(r, id, keys);
    if (turn(4, 6)) radixKey<TK>(r, id, keys);
    if (turn(5, 6)) radixKey<AK>(r, id, keys);
    bool sh = true;
    for (int k : keys) sh = sh && k > -2400 && k < 2400;
    if (sh && turn(0, 2)) radixKey<short>(r, id, keys);
    if (sh && turn(1, 2)) radixKey<unsigned short>(r, id, keys);
    if (sh && turn(0, 4)) radixPlain<short>(r, id, keys, 1);
#elif GROUP == 1
#define S(T) gfx::timsort(b, e, Less<T>{cmp})
    if (turn(0, 2)) VEC(Tg, "gfx", cmp, true, S(Tg));
    if (turn(1, 2)) VEC(Mv, "gfx", cmp, true, S(Mv));
    if (turn(0, 3)) DEQ(Tg, "gfx", cmp, true, S(Tg));
    if (turn(1, 3)) PTR(std::string, "gfx", cmp, true, S(std::string));
    if (turn(2, 3)) REV(Mv, "gfx", cmp, true, S(Mv));
    if (turn(0, 4)) VEC(int, "gfx", cmp, true, S(int));
    if (turn(1, 4)) VEC(S4, "gfx", cmp, true, S(S4));
    if (turn(2, 4)) PTR(Big, "gfx", cmp, true, S(Big));
    if (turn(3, 4)) VEC(Tg, "gfx", 0, true, gfx::timsort(b, e));
#elif GROUP == 2
#undef S
#define S(T) tim::timsort(b, e, Less<T>{cmp})
    if (turn(0, 2)) VEC(Tg, "tim", cmp, true, S(Tg));
    if (turn(1, 2)) VEC(Mv, "tim", cmp, true, S(Mv));
    if (turn(0, 3)) DEQ(Tg, "tim", cmp, true, S(Tg));
    if (turn(1, 3)) PTR(std::string, "tim", cmp, true, S(std::string));
    if (turn(2, 3)) REV(Mv, "tim", cmp, true, S(Mv));
    if (turn(0, 3)) REV(Tg, "tim", cmp, true, S(Tg));
    if (turn(0, 4)) VEC(int, "tim", cmp, true, S(int));
    for (int cmp = 0; cmp < 3; cmp++) if (keys.size() > 700 || turn(cmp, 4)) {
        VEC(S4, "tim", cmp, true, S(S4));
        VEC(S6, "tim", cmp, true, S(S6));
    }
    if (turn(2, 4)) PTR(Big, "tim", cmp, true, S(Big));
    if (turn(3, 4)) VEC(Tg, "tim", 0, true, tim::timsort(b, e));
    if (turn(2, 4)) DEQ(Mv, "tim", cmp, true, S(Mv));
#elif GROUP == 3
#undef S
#define S(T) pdqsort(b, e, Less<T>{cmp})
    if (turn(0, 2)) VEC(Tg, "pdqsort", cmp, false, S(Tg));
    if (turn(1, 2)) VEC(Mv, "pdqsort", cmp, false, S(Mv));
    if (turn(0, 3)) DEQ(Tg, "pdqsort", cmp, false, S(Tg));
    if (turn(1, 3)) PTR(std::string, "pdqsort", cmp, false, S(std::string));
    if (turn(2, 3)) REV(Mv, "pdqsort", cmp, false, S(Mv));
    if (turn(0, 2)) VEC(int, "pdqsort", 0, false, pdqsort(b, e));
    if (turn(1, 2)) VEC(int, "pdqsort", 1, false, pdqsort(b, e, std::greater<int>()));
    if (turn(0, 3)) PTR(double, "pdqsort", 0, false, pdqsort(b, e, std::less<double>()));
    if (turn(1, 3)) VEC(Tg, "pdqsort_branchless", cmp, false, pdqsort_branchless(b, e, Less<Tg>{cmp}));
    if (turn(2, 3)) VEC(S4, "pdqsort_branchless", cmp, false, pdqsort_branchless(b, e, Less<S4>{cmp}));
    if (turn(3, 4)) VEC(Big, "pdqsort", 0, false, pdqsort(b, e));
    if (turn(1, 4)) VEC(Mv, "pdqsort_branchless", cmp, false, pdqsort_branchless(b, e, Less<Mv>{cmp}));
#elif GROUP == 4
#undef S
#define S(T) vergesort::vergesort(b, e, Less<T>{cmp})
    if (turn(0, 2)) VEC(Tg, "vergesort", cmp, false, S(Tg));
    if (turn(1, 2)) VEC(Mv, "vergesort", cmp, false, S(Mv));
    if (turn(0, 3)) DEQ(Tg, "vergesort", cmp, false, S(Tg));
    if (turn(1, 3)) PTR(std::string, "vergesort", cmp, false, S(std::string));
    if (turn(2, 3)) REV(Mv, "vergesort", cmp, false, S(Mv));
    if (turn(0, 2)) LST(Tg, "vergesort", cmp, false, S(Tg));
    if (turn(1, 2)) LST(Mv, "vergesort", cmp, false, S(Mv));
    if (turn(0, 3)) LST(int, "vergesort", 0, false, vergesort::vergesort(b, e));
    if (turn(1, 3)) VEC(int, "vergesort", 0, false, vergesort::vergesort(b, e));
    if (turn(2, 3)) LST(S4, "vergesort", cmp, false, S(S4));
    if (turn(3, 4)) VEC(Big, "vergesort", 0, false, vergesort::vergesort(b, e));
#elif GROUP >= 5
    for (int how = 0; how < 3; how++) edgeSort(r, id, keys, how);
#endif
    return r.o;
}
int main(int argc, char **argv) {
    std::ifstream in(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ss(line);
        std::vector<Seg> p;
        Seg s;
        while (ss >> s.kind >> s.len >> s.par >> s.base) p.push_back(s);
        plans.push_back(p);
    }
    FILE *f = fopen(argv[1], "w");
    Runner run(f);
    run.caseTimeout = 20;
    run.run((int) plans.size() + 364 + 6, body, [](int c, const std::string &, const std::string &why) {
        std::vector<int> keys;
        if (c < (int) plans.size()) keys = keysOf(plans[c]);
        return "{\"id\":\"s" + std::to_string(GROUP) + "." + std::to_string(c) + "\",\"sort\":\"group " + std::to_string(GROUP) + "\",\"type\":\"\",\"box\":\"\",\"cmp\":0,\"tagged\":true,\"stable\":false,\"live\":0,\"crash\":" +
               jsonStr(why) + ",\"keys\":" + jsonInts(keys) + ",\"out\":[]}\n";
    });
    fclose(f);
}
