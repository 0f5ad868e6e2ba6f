// C06: replays behaviours of HashAcc.tla (and recorded protocols) against the real accumulator.
//   argv: output, operation file.   -DKT key type, -DVTYPE value type (void: key-only table)
#include <limits>
#include <numeric>
#include <fstream>
#include "common.h"
#include "CSR.h"
#include "spgemm-blocks/util.h"
#include "spgemm-blocks/hash/HashAccumulator.h"
using namespace vh;
using K = KT;
#ifdef KEYONLY
using Acc = HashAccumulator<K, void, void>;
static const char *tname = "key-only";
#else
using V = VTYPE;
using Cd = Codec<V>;
using Acc = HashAccumulator<K, V, bool>;
static const char *tname = Cd::name;
#endif

struct Op { std::string o; int k, v, f; };
struct Hist { int univ, cap; std::vector<Op> ops; };

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    std::vector<Hist> hists;
    {
        std::ifstream in(argv[2]);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream is(line);
            Hist h; int n;
            is >> h.univ >> h.cap >> n;
            h.ops.resize(n);
            for (auto &o : h.ops) is >> o.o >> o.k >> o.v >> o.f;
            hists.push_back(h);
        }
    }
    Runner runner(out);
    auto idOf = [&](int c) { return std::string("h.") + tname + (sizeof(K) == 8 ? "64." : "32.") + argv[3] + "." + std::to_string(c); };
    auto body = [&](int c, const std::set<int> &) -> std::string {
        Hist &h = hists[c];
        runner.mark(-1, idOf(c));
        Rng g(seedFromEnv() * 7919 + c);
        size_t bufSize = 0, align = 1;
        Acc *acc = new Acc(h.cap);
        std::tie(bufSize, align) = acc->getMemoryRequirement();
        size_t slack = g.chance(50) ? 0 : g.upto(3 * (int) bufSize);
        bufSize += slack;
        std::byte *buf = mallocAligned(bufSize, align);
        memset(buf, 0x5A, bufSize);
        size_t dirty = bufSize;
        if (g.chance(30)) { dirty = g.upto((int) bufSize + 1); memset(buf + dirty, 0xFF, bufSize - dirty); }
        acc->setBuffer(buf, bufSize, dirty);
        std::vector<K> key(h.univ);
        std::map<K, int> back;
        std::set<int> present, tracked;     // mirrors only to honour the protocol of gather-by-keys
        auto rekey = [&]() {
            back.clear();
            int style = g.upto(5);
            const long long top = (long long) std::numeric_limits<K>::max() - 1;
            long long base = g.upto(1000), stride = style == 0 ? 1 : style == 1 ? 4096 : style == 2 ? 65536 : 3;
            if (style == 4) base = top - h.univ * 2;
            std::vector<long long> homes;
            if (style == 3) {     // crowd the slots at the end of the table (asks the empty table where keys live)
                long long x = 0, tries = 0;
                size_t far = 0;
                for (int q = 0; q < 4096; q++) far = std::max<size_t>(far, acc->findIdx((K) q));
                for (int i = 0; i < h.univ; i++) {
                    while (true) {
                        size_t s = acc->findIdx((K) x);
                        bool good = (s + 3 > far || s < 2) || ++tries > 20000;
                        x++;
                        if (good) break;
                    }
                    key[i] = K(x - 1);
                }
            } else {
                if (style == 4) stride = 1;
                for (int i = 0; i < h.univ; i++) key[i] = K(base + stride * i);
            }
            for (int i = 0; i < h.univ; i++) back[key[i]] = i;
        };
        for (int i = 0; i < h.univ; i++) { key[i] = i; back[i] = i; }
        std::string rec = "{\"id\":" + jsonStr(idOf(c)) + ",\"status\":\"ok\",\"types\":\"" + tname + "\",\"steps\":[";
        bool big = h.univ > 20, first = true, sized = false;
        int stepNo = 0;
        for (auto &o : h.ops) {
            int res = 1;
            std::vector<std::pair<K, int>> got;
            bool asc = true;
            K k = (o.k >= 0 && o.k < h.univ) ? key[o.k] : K(0);
            auto collect = [&](auto f) {
#ifndef KEYONLY
                std::vector<K> ks(h.univ + 4, K(-5));
                std::vector<V> vs(h.univ + 4);
                K *kp = ks.data();
                V *vp = vs.data();
                f(kp, vp);
                long n = kp - ks.data(), nv = vp - vs.data();
                if (n != nv || n < 0 || n > h.univ + 3) n = 0, res = -9;
                for (long i = 0; i < n; i++) got.push_back({ks[i], Cd::dec(vs[i])});
                if (o.o == "gathersorted") for (long i = 1; i < n; i++) if (!(ks[i - 1] < ks[i])) asc = false;
#endif
            };
            if (o.o == "resize") { acc->resize(o.k); rekey(); sized = true; present.clear(); tracked.clear(); }
            else if (o.o == "find") res = acc->find(k) != Acc::NOT_FOUND;
            else if (o.o == "erase") { res = acc->erase(k); present.erase(o.k); }
            else if (o.o == "reset") { acc->resetStates(); present.clear(); }
#ifdef KEYONLY
            else if (o.o == "insertv") { res = acc->template insert<false>(k); present.insert(o.k); }
            else if (o.o == "track") { res = acc->template insert<true>(k); if (present.insert(o.k).second) tracked.insert(o.k); }
            else if (o.o == "resetlist") { acc->resetStatesList(); present.clear(); tracked.clear(); }
#else
            else if (o.o == "insert") { res = acc->insert(k); present.insert(o.k); }
            else if (o.o == "insertv") { res = acc->template insert<false>(k, Cd::enc(o.v), o.f); present.insert(o.k); }
            else if (o.o == "track") { res = acc->template insert<true>(k, Cd::enc(o.v), o.f); if (present.insert(o.k).second) tracked.insert(o.k); }
            else if (o.o == "trackidx") { res = acc->template insert<true>(acc->findIdx(k), k, Cd::enc(o.v), o.f); present.insert(o.k); tracked.insert(o.k); }
            else if (o.o == "set") {
                auto idx = acc->find(k);
                if (idx == Acc::NOT_FOUND) res = 0;
                else { (*acc)[idx].value1 = Cd::enc(o.v); (*acc)[idx].value2 = true; }
            }
            else if (o.o == "gather") { collect([&](K *&kp, V *&vp) { acc->gather(kp, vp); }); present.clear(); }
            else if (o.o == "gatherkeys") {
                std::vector<K> ks;
                for (int x : present) ks.push_back(key[x]);
                g.shuffle(ks);
                collect([&](K *&kp, V *&vp) { acc->gather(kp, vp, ks.begin(), ks.end()); });
                present.clear();
            }
            else if (o.o == "gatherlist" || o.o == "gathersorted") {
                if (o.o == "gatherlist") collect([&](K *&kp, V *&vp) { acc->template gatherList<false>(kp, vp); });
                else collect([&](K *&kp, V *&vp) { acc->template gatherList<true>(kp, vp); });
                for (int x : tracked) present.erase(x);
                tracked.clear();
            }
#endif
            else if (o.o == "rebuffer") {      // the next accumulator on the same memory must start empty
                size_t d = acc->releaseBuffer();
                if (d > bufSize) res = -8;
                delete acc;
                acc = new Acc(h.cap);
                acc->setBuffer(buf, bufSize, std::min(d, bufSize));
                sized = false;
                present.clear(); tracked.clear();
            }
            else res = -7;
            if (!first) rec += ',';
            first = false;
            rec += "{\"o\":[\"" + o.o + "\"," + std::to_string(o.k) + "," + std::to_string(o.v) + "," + std::to_string(o.f) + "],\"res\":" + std::to_string(res) + ",\"asc\":" + (asc ? "true" : "false") + ",\"out\":[";
            for (size_t i = 0; i < got.size(); i++)
                rec += (i ? ",[" : "[") + std::to_string(back.count(got[i].first) ? back[got[i].first] : -7) + "," + std::to_string(got[i].second) + "]";
            bool dump = sized && (!big || stepNo % 7 == 0 || o.o[0] == 'g' || o.o == "reset" || o.o == "resetlist" || o.o == "resize");
            rec += std::string("],\"dump\":") + (dump ? "true" : "false") + ",\"found\":[";
            bool f2 = true;
            if (dump) for (int x = 0; x < h.univ; x++) {
                auto idx = acc->find(key[x]);
                if (idx == Acc::NOT_FOUND) continue;
                int v = 0, f = 0;
#ifndef KEYONLY
                v = Cd::dec((*acc)[idx].value1); f = (*acc)[idx].value2 ? 1 : 0;
#endif
                rec += (f2 ? "[" : ",[") + std::to_string(x) + "," + std::to_string(v) + "," + std::to_string(f) + "]";
                f2 = false;
            }
            rec += "]}";
            stepNo++;
        }
        freeAligned(buf);
        delete acc;
        return rec + "]}\n";
    };
    auto onCrash = [&](int c, const std::string &label, const std::string &why) -> std::string {
        return "{\"id\":" + jsonStr(label) + ",\"status\":" + jsonStr(why) + ",\"types\":\"" + tname + "\",\"steps\":[]}\n";
    };
    runner.caseTimeout = 20;
    runner.run((int) hists.size(), body, onCrash);
    fclose(out);
    return 0;
}
