// C07: replays behaviours of MaskAcc.tla against the mask-driven accumulators.
//   argv: output, operation file     -DKIND=0 plain 1 complemented 2 mask-compressed
//   -DARRAYS=1|2  -DKT key type  -DVTYPE value type / -DKEYONLY (symbolic accumulators)
#include <fstream>
#include <limits>
#include <numeric>
#include "common.h"
#include "CSR.h"
#include "spgemm-blocks/util.h"
#include "spgemm-blocks/msa/MaskedSparseAccumulator1A.h"
#include "spgemm-blocks/msa/MaskedSparseAccumulator2A.h"
#include "spgemm-blocks/mca/MaskCompressedAccumulator.h"
using namespace vh;
using K = KT;
#ifdef KEYONLY
using V = void;
static const char *tname = "void";
#else
using V = VTYPE;
using Cd = Codec<V>;
static const char *tname = Cd::name;
#endif
#if KIND == 2
using Acc = MaskCompressedAccumulator<K, V>;
#elif ARRAYS == 1
using Acc = MaskedSparseAccumulator1A<K, V, KIND == 1>;
#else
using Acc = MaskedSparseAccumulator2A<K, V, KIND == 1>;
#endif

struct Op { std::string o; int a, b; };
struct Hist { int n; std::vector<Op> ops; };

int main(int argc, char **argv) {
    FILE *out = fopen(argv[1], "w");
    std::vector<Hist> hists;
    {
        std::ifstream in(argv[2]);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream is(line);
            Hist h; int n;
            is >> h.n >> n;
            h.ops.resize(n);
            for (auto &o : h.ops) is >> o.o >> o.a >> o.b;
            hists.push_back(h);
        }
    }
    Runner runner(out);
    const std::string kind = KIND == 0 ? "plain" : KIND == 1 ? "compl" : "mca";
    auto idOf = [&](int c) { return "m." + kind + std::to_string(ARRAYS) + "." + tname + (sizeof(K) == 8 ? "64." : "32.") + std::to_string(c); };
    auto head = [&](int c, const std::string &status, int n) {
#ifdef KEYONLY
        const char *valued = "false";
#else
        const char *valued = "true";
#endif
        return "{\"id\":" + jsonStr(idOf(c)) + ",\"status\":" + jsonStr(status) + ",\"types\":\"" + tname + "\",\"kind\":\"" + kind + "\",\"valued\":" + valued + ",\"n\":" + std::to_string(n) + ",\"steps\":[";
    };
    auto body = [&](int c, const std::set<int> &) -> std::string {
        Hist &h = hists[c];
        runner.mark(-1, idOf(c));
        Rng g(seedFromEnv() * 7919 + c);
        Acc *acc = new Acc(h.n);
        auto [bufSize, align] = acc->getMemoryRequirement();
        bufSize += g.chance(50) ? 0 : g.upto(2 * (int) bufSize);
        std::byte *buf = mallocAligned(bufSize, align);
        memset(buf, g.chance(50) ? 0x01 : 0x00, bufSize);
        size_t dirty = bufSize;
        if (g.chance(30)) { dirty = g.upto((int) bufSize + 1); memset(buf + dirty, 0xFF, bufSize - dirty); }
        acc->setBuffer(buf, bufSize, dirty);
#if KIND == 2
        auto state = [&](int k) -> auto & { return (*acc)[k].state; };
#else
        auto state = [&](int k) -> auto & { return acc->getState(k); };
#endif
#ifndef KEYONLY
#if KIND == 2
        auto value = [&](int k) -> V & { return (*acc)[k].value; };
#else
        auto value = [&](int k) -> V & { return acc->getValue(k); };
#endif
#endif
        std::string rec = head(c, "ok", h.n);
        bool first = true;
        for (auto &o : h.ops) {
            int res = 1;
            std::vector<std::pair<long long, int>> got;
            auto collect = [&](auto f) {
#ifndef KEYONLY
                std::vector<K> ks(2 * h.n + 4, K(-5));
                std::vector<V> vs(2 * h.n + 4);
                K *kp = ks.data();
                V *vp = vs.data();
                f(kp, vp);
                long n = kp - ks.data(), nv = vp - vs.data();
                if (n != nv) res = -9;
                for (long i = 0; i < n; i++) got.push_back({(long long) ks[i], Cd::dec(vs[i])});
#endif
            };
            if (o.o == "rebuffer") {
                size_t d = acc->releaseBuffer();
                if (d > bufSize) res = -8;
                delete acc;
                acc = new Acc(h.n);
                acc->setBuffer(buf, bufSize, std::min(d, bufSize));
            }
            else if (o.o == "erase") res = acc->erase(o.a);
            else if (o.o == "clear") acc->clear(o.a);
#if KIND == 2
            else if (o.o == "clearall") acc->clearAll();
            else if (o.o == "clearn") acc->clearAll(o.a);
            else if (o.o == "acc" || o.o == "mark") {
                if (state(o.a) != Acc::INITIALIZED) {
                    if (!acc->isEmpty(o.a)) res = -6;
#ifndef KEYONLY
                    value(o.a) = Cd::enc(o.b);
#endif
                    state(o.a) = Acc::INITIALIZED;
                }
#ifndef KEYONLY
                else value(o.a) = Cd::enc(Cd::dec(value(o.a)) + o.b);
#endif
            }
#else
            else if (o.o == "allow") acc->setAllowed(o.a);
            else if (o.o == "forbid") acc->setNotAllowed(o.a);
            else if (o.o == "mark") acc->setInitialized(o.a);
            else if (o.o == "reset") acc->resetStates();
            else if (o.o == "resetrange") {
                std::vector<K> ks;
                for (int x = o.a; x <= o.b; x++) ks.push_back(x);
                g.shuffle(ks);
                acc->resetStates(ks.begin(), ks.end());
            }
            else if (o.o == "check") res = acc->isInitialized();
            else if (o.o == "clearall") acc->clearAll();
#ifndef KEYONLY
            else if (o.o == "acc" || o.o == "accd") {
                if (state(o.a) == Acc::ALLOWED) {
                    value(o.a) = Cd::enc(o.b);
                    if (o.o == "acc") acc->setInitialized(o.a); else state(o.a) = Acc::INITIALIZED;
                } else if (state(o.a) == Acc::INITIALIZED) value(o.a) = Cd::enc(Cd::dec(value(o.a)) + o.b);
            }
            else if (o.o == "gather") collect([&](K *&kp, V *&vp) { acc->template gather<false>(kp, vp); });
            else if (o.o == "gathersorted") collect([&](K *&kp, V *&vp) { acc->template gather<true>(kp, vp); });
#endif
#endif
            else res = -7;
            if (!first) rec += ',';
            first = false;
            rec += "{\"o\":[\"" + o.o + "\"," + std::to_string(o.a) + "," + std::to_string(o.b) + "],\"res\":" + std::to_string(res) + ",\"out\":[";
            for (size_t i = 0; i < got.size(); i++) rec += (i ? ",[" : "[") + std::to_string(got[i].first) + "," + std::to_string(got[i].second) + "]";
            rec += "],\"s\":[";
            std::string vals;
            for (int k = 0; k < h.n; k++) {
                auto s = state(k);
#if KIND == 2
                const char *t = s == Acc::EMPTY ? "A" : s == Acc::INITIALIZED ? "I" : "?";
#else
                const char *t = s == Acc::NOT_ALLOWED ? "N" : s == Acc::ALLOWED ? "A" : s == Acc::INITIALIZED ? "I" : "?";
#endif
                rec += std::string(k ? "," : "") + "\"" + t + "\"";
                int v = 0;
#ifndef KEYONLY
                if (s == Acc::INITIALIZED) v = Cd::dec(value(k));
#endif
                vals += (k ? "," : "") + std::to_string(v);
            }
            rec += "],\"v\":[" + vals + "]}";
        }
        delete acc;
        freeAligned(buf);
        return rec + "]}\n";
    };
    auto onCrash = [&](int c, const std::string &label, const std::string &why) -> std::string { return head(c, why, 1) + "]}\n"; };
    runner.caseTimeout = 20;
    runner.run((int) hists.size(), body, onCrash);
    fclose(out);
    return 0;
}
