// Value/index types of a harness (VT) and plain matrices <-> library objects.
#pragma once
#ifdef CUSTOM_VALUES
#elif VT == 0
using IT = int; using NT = int;
#elif VT == 1
using IT = int64_t; using NT = int64_t;
#elif VT == 2
using IT = int; using NT = double;
#elif VT == 3
using IT = int64_t; using NT = vh::P24;
#elif VT == 4
using IT = int; using NT = vh::P12;
#elif VT == 5
using IT = int; using NT = vh::P1;
#endif
#ifndef VH_MAX_NNZ
#define VH_MAX_NNZ 2000000
#endif
using namespace vh;
using CSRt = CSR<IT, NT>;
using CSCt = CSC<IT, NT>;
#ifndef CUSTOM_VALUES
using Mul = MulOp<NT>;
using Add = AddOp<NT>;
#endif
using C1 = Codec<NT>;

static void fillCSR(CSRt &x, const Mat &a) {
    IT p = 0;
    for (int i = 0; i < a.m; i++) {
        x.rowptr[i] = p;
        for (auto &e : a.r[i]) { x.colids[p] = e.first; x.values[p] = C1::enc(e.second); p++; }
    }
    x.rowptr[a.m] = p;
}
static CSRt *toCSR(const Mat &a) { CSRt *x = new CSRt((IT) a.nnz(), (IT) a.m, (IT) a.n); fillCSR(*x, a); return x; }
static CSCt *toCSC(const Mat &a) {       // filled by hand: the conversions have their own check
    CSCt *x = new CSCt();
    Mat t = a.transposed();
    x->rows = a.m; x->cols = a.n; x->nnz = a.nnz();
    x->colptr = my_malloc<IT>(a.n + 1);
    x->rowids = my_malloc<IT>(x->nnz);
    x->values = my_malloc<NT>(x->nnz);
    IT p = 0;
    for (int j = 0; j < a.n; j++) {
        x->colptr[j] = p;
        for (auto &e : t.r[j]) { x->rowids[p] = e.first; x->values[p] = C1::enc(e.second); p++; }
    }
    x->colptr[a.n] = p;
    return x;
}
static bool sameCSR(const CSRt &x, const Mat &a) {
    if (x.rows != a.m || x.cols != a.n || x.nnz != a.nnz()) return false;
    IT p = 0;
    for (int i = 0; i < a.m; i++) {
        if (x.rowptr[i] != p) return false;
        for (auto &e : a.r[i]) { if (x.colids[p] != e.first || C1::dec(x.values[p]) != e.second) return false; p++; }
    }
    return x.rowptr[a.m] == p;
}
static std::string outJson(const CSRt &c) {
    std::string o = "\"rows\":" + std::to_string((long long) c.rows) + ",\"cols\":" + std::to_string((long long) c.cols) +
                    ",\"nnz\":" + std::to_string(tlcInt(c.nnz));
    std::vector<long long> rp, ci, va;
    if (c.rows >= 0 && c.rows < 10000000) for (IT i = 0; i <= c.rows; i++) rp.push_back(tlcInt(c.rowptr[i]));
    IT top = c.nnz >= 0 && c.nnz < VH_MAX_NNZ ? c.nnz : 0;      // more is a broken result: without its arrays the record is rejected
    for (IT i = 0; i < top; i++) { ci.push_back(tlcInt(c.colids[i])); va.push_back(C1::dec(c.values[i])); }
    return o + ",\"rowptr\":" + jsonInts(rp) + ",\"colids\":" + jsonInts(ci) + ",\"values\":" + jsonInts(va);
}

