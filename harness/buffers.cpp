// C08: carving of work buffers, accumulators sharing one buffer, aligned allocation.
#include <numeric>
#include "common.h"
#include "CSR.h"
#include "spgemm-blocks/util.h"
#include "spgemm-blocks/hash/HashAccumulator.h"
#include "spgemm-blocks/msa/MaskedSparseAccumulator1A.h"
#include "spgemm-blocks/msa/MaskedSparseAccumulator2A.h"
#include "spgemm-blocks/heap/Heap.h"
#include "spgemm-blocks/mca/MaskCompressedAccumulator.h"
using namespace vh;

template<int N> struct S { uint8_t a[N]; };
static const std::vector<int> sizes = {1, 2, 3, 4, 8, 12, 16, 24};

struct Buf {             // a buffer with guard bytes on both sides
    size_t n;
    std::vector<std::byte> raw;
    std::byte *p;
    Buf(size_t n_, size_t align, Rng &g) : n(n_), raw(n_ + 2 * align + 128) {
        memset(raw.data(), 0xA7, raw.size());
        auto u = reinterpret_cast<uintptr_t>(raw.data() + 64);
        p = raw.data() + 64 + (align - u % align) % align;
        if (g.chance(50) && (p + align - raw.data()) + n + 16 < raw.size()) p += align;
    }
    bool guardsOk() const {
        for (size_t i = 0; i < raw.size(); i++) {
            if (raw.data() + i >= p && raw.data() + i < p + n) continue;
            if (raw[i] != std::byte(0xA7)) return false;
        }
        return true;
    }
    void fill(size_t dirty, Rng &g) {
        memset(p, 0xFF, n);
        for (size_t i = 0; i < dirty; i++) p[i] = std::byte(g.upto(255));
    }
    std::string runs() const {
        std::string o = "[";
        for (size_t i = 0; i < n;) {
            if (p[i] == std::byte(0xFF)) { i++; continue; }
            size_t j = i;
            while (j < n && p[j] != std::byte(0xFF)) j++;
            o += (o.size() > 1 ? ",[" : "[") + std::to_string(i) + "," + std::to_string(j - i) + "]";
            i = j;
        }
        return o + "]";
    }
};

struct Carved { long doff, coff; size_t dirty; };
template<int D, int C> static Carved carve(Buf &b, size_t dirty, size_t dn, size_t cn, bool viaClean) {
    S<D> *d = nullptr;
    S<C> *c = nullptr;
    if (viaClean) { getCleanMemory(b.p, b.n, dirty, c, cn); d = reinterpret_cast<S<D> *>(b.p); }
    else splitMemory(b.p, b.n, dirty, d, dn, c, cn);
    return {long(reinterpret_cast<std::byte *>(d) - b.p), long(reinterpret_cast<std::byte *>(c) - b.p), dirty};
}
template<int D> static Carved carveD(int cs, Buf &b, size_t dirty, size_t dn, size_t cn, bool v) {
    switch (cs) {
        case 1: return carve<D, 1>(b, dirty, dn, cn, v);
        case 2: return carve<D, 2>(b, dirty, dn, cn, v);
        case 3: return carve<D, 3>(b, dirty, dn, cn, v);
        case 4: return carve<D, 4>(b, dirty, dn, cn, v);
        case 8: return carve<D, 8>(b, dirty, dn, cn, v);
        case 12: return carve<D, 12>(b, dirty, dn, cn, v);
        case 16: return carve<D, 16>(b, dirty, dn, cn, v);
        default: return carve<D, 24>(b, dirty, dn, cn, v);
    }
}
static Carved carveAny(int ds, int cs, Buf &b, size_t dirty, size_t dn, size_t cn, bool v) {
    switch (ds) {
        case 1: return carveD<1>(cs, b, dirty, dn, cn, v);
        case 2: return carveD<2>(cs, b, dirty, dn, cn, v);
        case 3: return carveD<3>(cs, b, dirty, dn, cn, v);
        case 4: return carveD<4>(cs, b, dirty, dn, cn, v);
        case 8: return carveD<8>(cs, b, dirty, dn, cn, v);
        case 12: return carveD<12>(cs, b, dirty, dn, cn, v);
        case 16: return carveD<16>(cs, b, dirty, dn, cn, v);
        default: return carveD<24>(cs, b, dirty, dn, cn, v);
    }
}
static std::string stepJson(const char *op, int ds, size_t dn, int cs, size_t cn, Carved r, const std::string &runs, const std::string &blocks = "[]") {
    return std::string("{\"op\":\"") + op + "\",\"ds\":" + std::to_string(ds) + ",\"dn\":" + std::to_string(dn) + ",\"cs\":" + std::to_string(cs) + ",\"cn\":" + std::to_string(cn) +
           ",\"doff\":" + std::to_string(tlcInt(r.doff)) + ",\"coff\":" + std::to_string(tlcInt(r.coff)) + ",\"dirty\":" + std::to_string(tlcInt((long long) r.dirty)) + ",\"runs\":" + runs + ",\"blocks\":" + blocks + "}";
}

static std::string carveCase(Rng &g, size_t &n) {
    n = g.in(1, g.chance(30) ? 30 : 220);
    int ds = g.pick(sizes), cs = g.pick(sizes);
    Buf b(n, 48, g);
    size_t dirty = g.chance(30) ? n : g.upto((int) n + 1);
    b.fill(dirty, g);
    std::string o;
    int len = g.in(1, 12);
    for (int s = 0; s < len; s++) {
        if (s && g.chance(60)) { ds = g.pick(sizes); cs = g.pick(sizes); }
        bool viaClean = g.chance(30);
        size_t dn = viaClean ? 0 : g.upto((int) (n / ds) + 1);
        long room = long(n / cs * cs) - long((dn * ds + cs - 1) / cs * cs);
        if (room < 0) { dn = 0; room = n / cs * cs; }
        size_t cn = g.chance(30) ? room / cs : g.upto((int) (room / cs) + 1);
        Carved r = carveAny(ds, cs, b, dirty, dn, cn, viaClean);
        if (!b.guardsOk()) r.dirty = n + 1000000;         // wrote outside the buffer
        o += (s ? "," : "") + stepJson("carve", ds, dn, cs, cn, r, b.runs());
        if (r.dirty > n || r.doff < 0 || r.coff < 0 || r.doff + long(ds * dn) > long(n) || r.coff + long(cs * cn) > long(n)) break;
        // use it, and report what was left behind
        size_t wd = g.chance(40) ? dn * ds : g.upto((int) (dn * ds) + 1), wc = g.upto((int) cn + 1) * cs;
        for (size_t i = 0; i < wd; i++) b.p[r.doff + i] = std::byte(g.upto(255));
        for (size_t i = 0; i < wc; i++) b.p[r.coff + i] = std::byte(g.upto(255));
        dirty = r.dirty;
        if (wd) dirty = std::max<size_t>(dirty, r.doff + wd);
        if (wc) dirty = std::max<size_t>(dirty, r.coff + wc);
    }
    return o;
}

// ---- accumulators sharing one buffer; each is left the way its users leave it
struct User { size_t size, align; std::function<size_t(std::byte *, size_t, size_t, Rng &)> use; };
template<class K> static User hashKey(int cap) {
    using Acc = HashAccumulator<K, void, void>;
    Acc probe(cap);
    auto [s, a] = probe.getMemoryRequirement();
    return {s, a, [cap](std::byte *p, size_t n, size_t dirty, Rng &g) {
        Acc acc(cap);
        acc.setBuffer(p, n, dirty);
        for (int r = g.in(1, 3); r > 0; r--) {
            int sz = g.in(1, cap);
            acc.resize(sz);
            for (int i = 0; i < sz; i++) acc.template insert<true>(K(g.upto(1000)));
            if (r > 1 || g.chance(60)) acc.resetStatesList();
        }
        return acc.releaseBuffer();
    }};
}
template<class K, class V> static User hashKvv(int cap) {
    using Acc = HashAccumulator<K, V, bool>;
    Acc probe(cap);
    auto [s, a] = probe.getMemoryRequirement();
    return {s, a, [cap](std::byte *p, size_t n, size_t dirty, Rng &g) {
        Acc acc(cap);
        acc.setBuffer(p, n, dirty);
        std::vector<K> ks(cap);
        std::vector<V> vs(cap);
        for (int r = g.in(1, 3); r > 0; r--) {
            int sz = g.in(1, cap);
            acc.resize(sz);
            for (int i = 0; i < sz; i++) acc.template insert<true>(K(g.upto(1000)), Codec<V>::enc(g.upto(9)), g.chance(70));
            K *kp = ks.data();
            V *vp = vs.data();
            if (r > 1 || g.chance(60)) acc.template gatherList<false>(kp, vp);
        }
        return acc.releaseBuffer();
    }};
}
template<class Acc, class K, class V, bool Compl> static User msa(int size) {
    Acc probe(size);
    auto [s, a] = probe.getMemoryRequirement();
    return {s, a, [size](std::byte *p, size_t n, size_t dirty, Rng &g) {
        Acc acc(size);
        acc.setBuffer(p, n, dirty);
        for (int r = g.in(0, 3); r > 0; r--) {
            std::vector<K> mask;
            for (int k = 0; k < size; k++) if (g.chance(40)) { mask.push_back(k); if (Compl) acc.setNotAllowed(k); else acc.setAllowed(k); }
            for (int k = 0; k < size; k++) if (acc.getState(k) == Acc::ALLOWED && g.chance(50)) {
                if constexpr (!std::is_void_v<V>) acc.getValue(k) = Codec<V>::enc(g.in(1, 9));
                acc.setInitialized(k);
            }
            if constexpr (!std::is_void_v<V>) {
                std::vector<K> ks(size + 1);
                std::vector<V> vs(size + 1);
                K *kp = ks.data();
                V *vp = vs.data();
                if (g.chance(60)) acc.template gather<false>(kp, vp);
            }
            acc.resetStates(mask.begin(), mask.end());
        }
        return acc.releaseBuffer();
    }};
}
template<class K, class V> static User mca(int size) {
    using Acc = MaskCompressedAccumulator<K, V>;
    Acc probe(size);
    auto [s, a] = probe.getMemoryRequirement();
    return {s, a, [size](std::byte *p, size_t n, size_t dirty, Rng &g) {
        Acc acc(size);
        acc.setBuffer(p, n, dirty);
        for (int r = g.in(0, 3); r > 0; r--) {
            int used = g.in(0, size);
            for (int k = 0; k < used; k++) if (g.chance(60)) {
                acc[k].state = Acc::INITIALIZED;
                if constexpr (!std::is_void_v<V>) acc[k].value = Codec<V>::enc(g.in(1, 9));
            }
            if (g.chance(30)) for (int k = 0; k < used; k++) acc.clear(k);
            else if (g.chance(50)) acc.clearAll();
            else acc.clearAll(used);
        }
        return acc.releaseBuffer();
    }};
}
template<class K> static User heapOf(int cap) {
    Heap<K> probe(cap);
    auto [s, a] = probe.getMemoryRequirement();
    return {s, a, [cap](std::byte *p, size_t n, size_t dirty, Rng &g) {
        Heap<K> h(cap);
        h.setBuffer(p, n, dirty);
        for (int r = g.in(0, 3); r > 0; r--) {
            int used = g.in(0, cap);
            for (int i = 0; i < used; i++) h.append(K(g.upto(500)), K(i), K(g.upto(500)));
            h.make();
            for (int i = g.in(0, 2 * used); i > 0 && !h.isEmpty(); i--) if (g.chance(40)) { h.top().key += K(g.in(1, 40)); h.sinkRoot(); } else h.pop();
            if (g.chance(50)) while (!h.isEmpty()) h.pop();
            else h.clear();
        }
        return h.releaseBuffer();
    }};
}
static std::string shareCase(Rng &g, size_t &n) {
    std::vector<User> users;
    int cnt = g.in(2, 4);
    for (int i = 0; i < cnt; i++) {
        int c = g.in(1, 12);
        switch (g.upto(19)) {
            case 0: users.push_back(hashKey<int>(c)); break;
            case 1: users.push_back(hashKey<int64_t>(c)); break;
            case 2: users.push_back(hashKvv<int, int>(c)); break;
            case 3: users.push_back(hashKvv<int, P12>(c)); break;
            case 4: users.push_back(hashKvv<int64_t, P24>(c)); break;
            case 5: users.push_back(hashKvv<int, double>(c)); break;
            case 6: users.push_back(msa<MaskedSparseAccumulator1A<int, void, false>, int, void, false>(c * 5)); break;
            case 7: users.push_back(msa<MaskedSparseAccumulator1A<int, int, true>, int, int, true>(c * 5)); break;
            case 8: users.push_back(msa<MaskedSparseAccumulator1A<int64_t, P12, false>, int64_t, P12, false>(c * 5)); break;
            case 9: users.push_back(msa<MaskedSparseAccumulator2A<int, void, true>, int, void, true>(c * 5)); break;
            case 10: users.push_back(msa<MaskedSparseAccumulator2A<int, double, false>, int, double, false>(c * 5)); break;
            case 11: users.push_back(msa<MaskedSparseAccumulator2A<int, P12, true>, int, P12, true>(c * 5)); break;
            case 12: users.push_back(msa<MaskedSparseAccumulator2A<int64_t, P24, true>, int64_t, P24, true>(c * 5)); break;
            case 13: users.push_back(mca<int, void>(c * 3)); break;
            case 14: users.push_back(mca<int, P12>(c * 3)); break;
            case 15: case 16: users.push_back(heapOf<int>(c)); break;
            case 17: users.push_back(heapOf<int64_t>(c)); break;
            default: users.push_back(mca<int64_t, int64_t>(c * 3)); break;
        }
    }
    size_t align = 1;
    n = 0;
    for (auto &u : users) { n = std::max(n, u.size); align = std::lcm(align, u.align); }
    if (g.chance(50)) n += g.upto((int) n);
    Buf b(n, align, g);
    size_t dirty = g.chance(40) ? n : g.upto((int) n + 1);
    b.fill(dirty, g);
    std::string o;
    int len = g.in(2, 8);
    for (int s = 0; s < len; s++) {
        dirty = g.pick(users).use(b.p, n, dirty, g);
        Carved r{0, 0, dirty};
        if (!b.guardsOk()) r.dirty = n + 1000000;
        o += (s ? "," : "") + stepJson("give", 1, 0, 1, 0, r, b.runs());
        if (r.dirty > n) break;
    }
    return o;
}

// ---- aligned allocation: many live blocks, freed in any order (ASan checks the rest)
template<class T> static void oneAlloc(std::vector<std::array<long long, 2>> &, Rng &) {}
static std::string allocCase(Rng &g, size_t &n) {
    n = 0;
    struct Blk { std::byte *p; size_t align, bytes; unsigned char pat; bool live = true; };
    std::vector<Blk> bl;
    static const size_t aligns[] = {1, 2, 3, 4, 8, 12, 16, 24, 36, 64, 128, 4096};
    auto intact = [](const Blk &b) { for (size_t i = 0; i < b.bytes; i++) if (b.p[i] != std::byte(b.pat)) return false; return true; };
    int cnt = g.in(1, 14);
    bool bad = false;
    uintptr_t lo = UINTPTR_MAX;
    for (int i = 0; i < cnt; i++) {
        Blk b;
        size_t ne = g.chance(15) ? g.upto(3) : g.upto(700);
        switch (g.upto(5)) {
            case 0: b.align = aligns[g.upto(12)]; b.bytes = ne; b.p = mallocAligned(ne, b.align); break;
            case 1: b.align = 4; b.bytes = ne * 4; b.p = (std::byte *) mallocAligned<int>(ne); break;
            case 2: b.align = 12; b.bytes = ne * 12; b.p = (std::byte *) mallocAligned<P12>(ne); break;
            case 3: b.align = aligns[g.upto(12)]; b.bytes = ne * 24; b.p = (std::byte *) mallocAligned<P24>(ne, b.align); break;
            default: b.align = 8; b.bytes = ne * 8; b.p = (std::byte *) mallocAligned<double>(ne); break;
        }
        b.pat = (unsigned char) g.upto(256);
        memset(b.p, b.pat, b.bytes);
        bl.push_back(b);
        if (g.chance(30)) {
            Blk &f = bl[g.upto((int) bl.size())];
            if (f.live) { if (!intact(f)) bad = true; freeAligned(f.p); f.live = false; }
        }
    }
    std::string o = "[";
    std::vector<const Blk *> live;
    for (auto &b : bl) if (b.live) { live.push_back(&b); lo = std::min(lo, (uintptr_t) b.p); }
    std::sort(live.begin(), live.end(), [](auto *a, auto *b) { return a->p < b->p; });
    uintptr_t prev = 0;
    long long pos = 0;
    for (auto *b : live) {      // positions relative to the previous block, kept small for TLC
        long long gap = prev ? (long long) ((uintptr_t) b->p - prev) : 0;
        pos += std::min<long long>(gap, 1000000);
        o += (o.size() > 1 ? ",[" : "[") + std::to_string((uintptr_t) b->p % b->align) + "," + std::to_string(pos) + "," + std::to_string(b->bytes) + "," + (intact(*b) && !bad ? "1" : "0") + "]";
        prev = (uintptr_t) b->p;
    }
    o += "]";
    for (auto &b : bl) if (b.live) { freeAligned(b.p); b.live = false; }
    return stepJson("alloc", 1, 0, 1, 0, Carved{0, 0, 0}, "[]", o);
}

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    Runner runner(out);
    const int part = atoi(argv[2]), N = (thorough() ? 40000 : 6000) / (part == 2 ? 4 : 1);
    static const char *nm[] = {"carve", "share", "alloc"};
    auto idOf = [&](int c) { return std::string("b.") + nm[part] + "." + std::to_string(c); };
    auto body = [&](int c, const std::set<int> &) -> std::string {
        Rng g(seedFromEnv() * 6151 + c * 3 + part);
        runner.mark(-1, idOf(c));
        size_t n = 0;
        std::string s = part == 0 ? carveCase(g, n) : part == 1 ? shareCase(g, n) : allocCase(g, n);
        return "{\"id\":" + jsonStr(idOf(c)) + ",\"status\":\"ok\",\"n\":" + std::to_string(n) + ",\"steps\":[" + s + "]}\n";
    };
    auto onCrash = [&](int c, const std::string &, const std::string &why) -> std::string {
        return "{\"id\":" + jsonStr(idOf(c)) + ",\"status\":" + jsonStr(why) + ",\"n\":0,\"steps\":[]}\n";
    };
    runner.run(N, body, onCrash);
    fclose(out);
    return 0;
}
