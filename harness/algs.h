// Table of the masked algorithms of spgemm-blocks.
#pragma once
#if GROUP == 1 || GROUP == 2
#define WITH_BLOCKS
#endif
#ifdef WITH_BLOCKS
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"
#include "spgemm-blocks/masked-spgemm-poly.h"
#elif GROUP == 12
#include "hash_mult_hw.h"
#include "heap_mult_generic.h"
#include "inner_mult.h"
#include "mask_hash_mult.h"
#include "spa_mult.h"
#elif GROUP == 111
#include "hash_mult_hw.h"
#include "heap_mult_generic.h"
#elif GROUP == 112
#include "heap_mult.h"
#elif GROUP == 113
#include "outer_mult.h"
#elif GROUP == 114
#include "outer_mult2.h"
#endif

struct In {
    const CSRt *A, *B, *M;
    const CSCt *Ac, *Bc;
    int aux;
};
struct Alg {
    std::string name;
    bool needSorted;       // the algorithm only supports sorted rows
    bool sortedOut;        // the algorithm advertises / implies ascending columns
    bool ptOnly;           // plus-times only
    bool square;
    std::function<void(const In &, CSRt &, Mul, Add, unsigned)> f;
    bool comp = false;
    bool inner = false;      // takes B by columns
};
static std::vector<Alg> algs;

#ifdef WITH_BLOCKS
template<template<class, class> class RA> void reg2(const std::string &n, bool needSorted, bool sortedOut) {
    algs.push_back({n + ".1p", needSorted, sortedOut, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { MaskedSpGEMM1p<RA>(*x.A, *x.B, C, *x.M, m, a, t); }});
    algs.push_back({n + ".2p", needSorted, sortedOut, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { MaskedSpGEMM2p<RA>(*x.A, *x.B, C, *x.M, m, a, t); }});
}
static void registerMasked() {
    reg2<MSA1A<false, false>::Impl>("MSA1A", false, false);
    reg2<MSA2A<false, false>::Impl>("MSA2A", false, false);
    reg2<MSA1A_old>("MSA1A_old", false, false);
    reg2<MSA2A_old>("MSA2A_old", false, false);
    reg2<MaskedHash<false, false>::Impl>("MaskedHash", false, false);
    reg2<MCA<false, false>::Impl>("MCA", true, true);
    reg2<MaskedHeap_v0>("MaskedHeap_v0", true, true);
    reg2<MaskedHeap_v1>("MaskedHeap_v1", true, true);
    reg2<MaskedHeap_v2>("MaskedHeap_v2", true, true);
    reg2<MaskedHeap<false, true, 0>::Impl>("MaskedHeap0", true, true);
    reg2<MaskedHeap<false, true, 1>::Impl>("MaskedHeap1", true, true);
    reg2<MaskedHeap<false, true, 8>::Impl>("MaskedHeap8", true, true);
    reg2<MaskedHeap<false, true, 64>::Impl>("MaskedHeap64", true, true);
    reg2<MaskedHeap<false, true, 512>::Impl>("MaskedHeap512", true, true);
    reg2<MaskedHeap<false, true, MaskedHeapDot>::Impl>("MaskedHeapDot", true, true);
    algs.push_back({"Inner.1p", true, true, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { MaskedSpGEMM1p<MaskedInner>(*x.A, *x.Bc, C, *x.M, m, a, t); }});
    algs.push_back({"Inner.2p", true, true, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { MaskedSpGEMM2p<MaskedInner>(*x.A, *x.Bc, C, *x.M, m, a, t); }});
    algs.push_back({"InnerInlined.1p", true, true, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { MaskedSpGEMM1pInnerProduct(*x.A, *x.Bc, C, *x.M, m, a, t); }});
    algs.push_back({"InnerInlined.2p", true, true, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { MaskedSpGEMM2pInnerProduct(*x.A, *x.Bc, C, *x.M, m, a, t); }});
    algs.push_back({"Poly.1p", true, true, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { MaskedSpGEMM1p(*x.A, *x.B, C, *x.M, m, a, t); }});
}
static void registerComp() {
    reg2<MSA1A<true, false>::Impl>("MSA1A.c", false, false);
    reg2<MSA1A<true, true>::Impl>("MSA1A.c.sorted", false, true);
    reg2<MSA2A<true, false>::Impl>("MSA2A.c", false, false);
    reg2<MSA2A<true, true>::Impl>("MSA2A.c.sorted", false, true);
    reg2<MaskedHash<true, false>::Impl>("MaskedHash.c", false, false);
    reg2<MaskedHash<true, true>::Impl>("MaskedHash.c.sorted", false, true);
    reg2<MaskedHeap<true, true, 0>::Impl>("MaskedHeap.c", true, true);
}
static void registerBlocks(bool masked, bool comp) {
    if (masked) registerMasked();
    size_t k = algs.size();
    if (comp) registerComp();
    for (size_t i = k; i < algs.size(); i++) algs[i].comp = true;
    for (auto &a : algs) a.inner = a.name.compare(0, 5, "Inner") == 0;
}
#endif

#if GROUP == 1
static void registerAlgs() { registerBlocks(true, false); }
static const char *modeName = "mask";
#elif GROUP == 2
static void registerAlgs() { registerBlocks(false, true); }
static const char *modeName = "comp";
#elif GROUP == 12
static void registerAlgs() {
    algs.push_back({"mxm_hash_mask", true, false, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { mxm_hash_mask(*x.A, *x.B, C, *x.M, m, a, t); }});
    algs.push_back({"mxm_hash_mask_wobin", true, false, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { mxm_hash_mask_wobin(*x.A, *x.B, C, *x.M, m, a, t); }});
    algs.push_back({"MaskedSPASpGEMM", true, false, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { MaskedSPASpGEMM(*x.A, *x.B, C, *x.M, m, a, t); }});
#if VT < 3
    algs.push_back({"innerSpGEMM_nohash", true, false, true, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { innerSpGEMM_nohash<false, false>(*x.A, *x.Bc, C, *x.M, m, a, t); }});
#endif
#define HG(R) algs.push_back({"HeapSpGEMM." #R, true, true, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { HeapSpGEMM<rowAlg::R>(*x.A, *x.B, C, *x.M, m, a, t); }})
    HG(MaskedHeap_v0); HG(MaskedHeap_v1); HG(MaskedHeap_v2); HG(MCA_v1); HG(MCA_v2); HG(MCA_v3);
}
static const char *modeName = "mask";
#elif GROUP == 111
static void registerAlgs() {
    algs.push_back({"HashSpGEMM.sorted", false, true, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { HashSpGEMM<true>(*x.A, *x.B, C, m, a, t); }});
    algs.push_back({"HashSpGEMM", false, false, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { HashSpGEMM<false>(*x.A, *x.B, C, m, a, t); }});
    algs.push_back({"BasicHeap", true, true, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { HeapSpGEMM<rowAlg::BasicHeap>(*x.A, *x.B, C, m, a, t); }});
    algs.push_back({"HeapLinear0", true, true, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { HeapSpGEMM<rowAlg::HeapLinear<0>>(*x.A, *x.B, C, m, a, t); }});
    algs.push_back({"HeapLinear3", true, true, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { HeapSpGEMM<rowAlg::HeapLinear<3>>(*x.A, *x.B, C, m, a, t); }});
    algs.push_back({"HeapLinear16", true, true, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) { HeapSpGEMM<rowAlg::HeapLinear<16>>(*x.A, *x.B, C, m, a, t); }});
}
static const char *modeName = "full";
#elif GROUP == 112
// CSC x CSC -> CSC; the result is re-read by rows (well-formedness of the columns is part of the record)
static std::string cscExtra;
static void registerAlgs() {
    algs.push_back({"HeapSpGEMM.CSC", true, true, false, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) {
        CSCt R;
        omp_set_num_threads(t ? (int) t : 4);
        HeapSpGEMM(*x.Ac, *x.Bc, R, m, a);
        // hand the raw arrays over as the CSR of the transpose; the caller emits a transposed problem
        C.rows = R.cols; C.cols = R.rows; C.nnz = R.nnz; C.rowptr = R.colptr; C.colids = R.rowids; C.values = R.values;
        R.nnz = 0; R.cols = 0;
    }});
}
static const char *modeName = "full";
#elif GROUP == 113
static void registerAlgs() {
    algs.push_back({"OuterSpGEMM", true, true, true, false, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) {
        omp_set_num_threads(t ? (int) t : 4);
        static const int nb[] = {1, 2, 3, 7, 16, 64}; static const int bw[] = {1, 2, 5, 8, 64};
        OuterSpGEMM(*x.Ac, *x.B, C, nb[x.aux % 6], bw[x.aux / 6 % 5], 0);
    }});
}
static const char *modeName = "full";
#elif GROUP == 114
static void registerAlgs() {
    algs.push_back({"OuterSpGEMM2", true, true, true, true, [](const In &x, CSRt &C, Mul m, Add a, unsigned t) {
        omp_set_num_threads(t ? (int) t : 4);
        static const int nb[] = {1, 2, 3, 7, 16, 64}; static const int bw[] = {1, 2, 5, 8, 64};
        OuterSpGEMM(*x.Ac, *x.B, C, nb[x.aux % 6], bw[x.aux / 6 % 5]);
    }});
}
static const char *modeName = "full";
#endif
