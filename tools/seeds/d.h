// Small helpers of the demonstrations: random sparse matrices and a brute-force masked product.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <numeric>
#include <random>
#include <set>
#include <vector>
#include "CSR.h"
#include "CSC.h"
#include "utility.h"
typedef std::map<std::pair<long, long>, double> Ent;
template<class IT, class NT> Ent entries(const CSR<IT, NT> &m) {
    Ent e;
    for (IT i = 0; i < m.rows; i++) for (IT k = m.rowptr[i]; k < m.rowptr[i + 1]; k++) {
        if (e.count({i, m.colids[k]})) e[{-1, (long) e.size()}] = 1;
        e[{i, m.colids[k]}] = m.values[k];
    }
    return e;
}
template<class IT, class NT> void make(CSR<IT, NT> &c, IT rows, IT cols, const Ent &e) {
    c.make_empty();
    c.rows = rows; c.cols = cols; c.nnz = e.size(); c.zerobased = true;
    c.rowptr = my_malloc<IT>(rows + 1); c.colids = my_malloc<IT>(c.nnz); c.values = my_malloc<NT>(c.nnz);
    for (IT i = 0; i <= rows; i++) c.rowptr[i] = 0;
    IT k = 0;
    for (auto &x : e) { c.rowptr[x.first.first + 1]++; c.colids[k] = x.first.second; c.values[k++] = x.second; }
    for (IT i = 0; i < rows; i++) c.rowptr[i + 1] += c.rowptr[i];
}
inline Ent rnd(std::mt19937 &g, long rows, long cols, double p) {
    Ent e;
    for (long i = 0; i < rows; i++) for (long j = 0; j < cols; j++) if (g() % 100000 < p * 100000) e[{i, j}] = 1 + g() % 9;
    return e;
}
inline Ent product(const Ent &a, const Ent &b, const Ent &m, bool compl_,
                   std::function<double(double, double)> mul = [](double x, double y) { return x * y; },
                   std::function<double(double, double)> add = [](double x, double y) { return x + y; }) {
    std::map<long, std::vector<std::pair<long, double>>> rb;
    for (auto &x : b) rb[x.first.first].push_back({x.first.second, x.second});
    Ent c;
    for (auto &x : a) for (auto &y : rb[x.first.second]) {
        std::pair<long, long> at{x.first.first, y.first};
        if ((m.count(at) != 0) == compl_) continue;
        double v = mul(x.second, y.second);
        c[at] = c.count(at) ? add(c[at], v) : v;
    }
    return c;
}
