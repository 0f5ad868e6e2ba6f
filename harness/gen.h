// Input families for the product harness.
static int genVal(Rng &g, int sr) {
    switch (sr) {
        case OR_AND: return g.chance(15) ? 0 : 1;
        case XOR_AND: return g.in(0, 1);
        default: break;
    }
    if (C1::name[0] == 'b') return g.in(-2, 3);                // byte values: keep results small
    return g.chance(6) ? 0 : g.in(-9, 12);
}
static std::vector<int> srFor(int vt) {
    if (vt == 5) return {MIN_PLUS, MAX_PLUS, OR_AND, XOR_AND, MAX_MIN, MIN_FIRST, MAX_SECOND};
    std::vector<int> v;
    for (int i = 0; i < NSR; i++) v.push_back(i);
    return v;
}
static Mat randMat(Rng &g, int m, int n, int pct, int sr) {
    Mat a(m, n);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (g.chance(pct)) a.add(i, j, genVal(g, sr));
    return a;
}
// row i gets about len distinct columns
static void randRow(Rng &g, Mat &a, int i, int len, int sr) {
    std::set<int> s;
    len = std::min(len, a.n);
    if (len * 2 > a.n) { std::vector<int> p(a.n); for (int j = 0; j < a.n; j++) p[j] = j; g.shuffle(p); for (int j = 0; j < len; j++) s.insert(p[j]); }
    else while ((int) s.size() < len) s.insert(g.upto(a.n));
    a.r[i].clear();
    for (int j : s) a.add(i, j, genVal(g, sr));
}
static void shuffleRows(Rng &g, Mat &a) { for (auto &x : a.r) g.shuffle(x); }

static void genCases(std::vector<Case> &cs, Rng &g, int vt, bool thor) {
    std::vector<int> srs = srFor(vt);
    const bool pt = GROUP == 113 || GROUP == 114;
    auto nextSr = [&]() { return pt ? (int) PLUS_TIMES : g.chance(35) && vt != 5 ? (int) PLUS_TIMES : g.pick(srs); };
    const bool square = GROUP == 114;
    // F1: exhaustive small patterns (values fixed and pairwise "prime-like" so that sums identify products)
    {
        static const int va[] = {2, 3, 5, 7, 11, 13, 17, 19, 23}, vb[] = {29, 31, 37, 41, 43, 47, 53, 59, 61};
        struct D { int m, k, n; };
        std::vector<D> dims;
        if (vt == 0 || pt) { dims.push_back({2, 2, 2}); if (!square) { dims.push_back({1, 2, 3}); if (thor) { dims.push_back({1, 3, 3}); dims.push_back({2, 3, 2}); } } }
        const bool masked = GROUP == 1 || GROUP == 2 || GROUP == 12;
        for (auto d : dims) {
            int na = d.m * d.k, nb = d.k * d.n, nm = masked ? d.m * d.n : 0;
            for (int x = 0; x < (1 << (na + nb + nm)); x++) {
                Case c;
                c.family = 1;
                c.A = Mat(d.m, d.k); c.B = Mat(d.k, d.n); c.M = Mat(d.m, d.n);
                int bit = 0;
                for (int i = 0; i < d.m; i++) for (int j = 0; j < d.k; j++) if (x >> bit++ & 1) c.A.add(i, j, va[i * d.k + j]);
                for (int i = 0; i < d.k; i++) for (int j = 0; j < d.n; j++) if (x >> bit++ & 1) c.B.add(i, j, vb[i * d.n + j]);
                if (masked) for (int i = 0; i < d.m; i++) for (int j = 0; j < d.n; j++) if (x >> bit++ & 1) c.M.add(i, j, 1);
                c.sr = PLUS_TIMES;
                c.threads = {unsigned(1 + x / 256 % 3)};
                if (x % 64 == 0) c.threads = {1, 2, 3};
                c.aux = x;
                c.tag = "ex" + std::to_string(d.m) + std::to_string(d.k) + std::to_string(d.n) + "." + std::to_string(x);
                cs.push_back(c);
            }
        }
    }
    // F2: random small
    int n2 = (vt == 0 || pt ? 260 : 120) * (thor ? 12 : 1);
    for (int x = 0; x < n2; x++) {
        Case c;
        c.family = 2;
        c.sr = nextSr();
        int m = g.in(1, 9), k = g.in(1, 9), n = g.in(1, 9);
        if (square || g.chance(30)) k = n = m;
        static const int pc[] = {0, 8, 25, 50, 80, 100};
        c.A = randMat(g, m, k, pc[g.in(1, 5)], c.sr);
        c.B = randMat(g, k, n, pc[g.in(1, 5)], c.sr);
        c.M = randMat(g, m, n, pc[g.in(0, 5)], c.sr);
        if (g.chance(25)) for (auto &r : c.M.r) for (auto &e : r) e.second = 0;   // mask values are ignored
        if (g.chance(15)) { c.B = randMat(g, k, n, 60, c.sr); for (auto &r : c.B.r) if (g.chance(50)) r.clear(); }
        if (g.chance(25)) { c.sorted = false; shuffleRows(g, c.A); shuffleRows(g, c.B); shuffleRows(g, c.M); }
        c.threads = {1, unsigned(g.in(2, 4)), unsigned(m + g.in(1, 6))};
        if ((GROUP == 1 || GROUP == 2) && g.chance(20)) c.threads.push_back(0);
        c.aux = g.upto(1000);
        c.tag = "rs" + std::to_string(x);
        cs.push_back(c);
    }
    // F3: medium, several densities, many threads
    int n3 = (vt == 0 ? 28 : 12) * (thor ? 8 : 1);
    for (int x = 0; x < n3; x++) {
        Case c;
        c.family = 3;
        c.sr = nextSr();
        int m = g.in(10, 60), k = g.in(10, 50), n = g.in(10, 70);
        if (square || g.chance(30)) k = n = m;
        c.A = randMat(g, m, k, g.in(2, 25), c.sr);
        c.B = randMat(g, k, n, g.in(2, 25), c.sr);
        c.M = randMat(g, m, n, g.in(1, 60), c.sr);
        if (g.chance(20)) { c.sorted = false; shuffleRows(g, c.A); shuffleRows(g, c.B); shuffleRows(g, c.M); }
        c.threads = {1, unsigned(g.in(2, 8)), 16};
        c.aux = g.upto(1000);
        c.tag = "md" + std::to_string(x);
        cs.push_back(c);
    }
    // F4: skewed rows: empty prefixes/suffixes, one heavy row, hash-capacity and inspection boundaries
    int n4 = (vt == 0 ? 36 : 14) * (thor ? 6 : 1);
    static const int lens[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129};
    for (int x = 0; x < n4; x++) {
        Case c;
        c.family = 4;
        c.sr = nextSr();
        int m = g.in(2, 12), k = g.in(3, 14), n = g.in(130, 700);
        if (square) m = k = n = g.in(130, 260);
        c.A = Mat(m, k); c.B = Mat(k, n); c.M = Mat(m, n);
        int heavy = g.upto(m);
        for (int i = 0; i < m; i++) {
            if (g.chance(25)) continue;
            randRow(g, c.A, i, square ? g.in(0, 3) : (i == heavy ? k : g.in(1, 4)), c.sr);
        }
        for (int i = 0; i < k; i++) if (!g.chance(15)) randRow(g, c.B, i, lens[g.upto(square ? 10 : 20)], c.sr);
        for (int i = 0; i < m; i++) {
            if (g.chance(15)) continue;
            randRow(g, c.M, i, lens[g.upto(20)], c.sr);
        }
        if (g.chance(30)) { c.sorted = false; shuffleRows(g, c.A); shuffleRows(g, c.B); shuffleRows(g, c.M); }
        c.threads = {1, unsigned(g.in(2, 5))};
        c.aux = g.upto(1000);
        c.tag = "sk" + std::to_string(x);
        cs.push_back(c);
    }
    // F5: colliding columns: strides of the table size, columns at the end of the table (wrap-around)
    int n5 = (vt <= 1 ? 24 : 8) * (thor ? 6 : 1);
    for (int x = 0; x < n5; x++) {
        Case c;
        c.family = 5;
        c.sr = nextSr();
        int cap = 16 << g.upto(3);
        int n = cap * g.in(8, 24) + g.upto(cap);
        int m = g.in(1, 5), k = g.in(2, 6);
        if (square) { n = cap * 4; m = k = n; }
        c.A = Mat(m, k); c.B = Mat(k, n); c.M = Mat(m, n);
        int base = g.upto(cap);
        auto collideRow = [&](Mat &a, int i, int len) {
            std::set<int> s;
            for (int q = 0; q < len; q++) {
                int col = base + cap * g.upto(std::max(1, n / cap));
                if (g.chance(30)) col += g.in(0, 3);
                if (col < n) s.insert(col);
            }
            for (int j : s) a.add(i, j, genVal(g, c.sr));
        };
        for (int i = 0; i < m; i++) { if (square && i % 9) continue; randRow(g, c.A, i, square ? 3 : g.in(1, k), c.sr); collideRow(c.M, i, g.in(1, cap / 4 + 3)); }
        for (int i = 0; i < k; i++) collideRow(c.B, i, g.in(1, 16));
        if (g.chance(40)) { c.sorted = false; shuffleRows(g, c.A); shuffleRows(g, c.B); shuffleRows(g, c.M); }
        c.threads = {1, 2};
        c.aux = g.upto(1000);
        c.tag = "co" + std::to_string(x);
        cs.push_back(c);
    }
    // F6: many rows, few entries (work distribution), power-law
    int n6 = (vt == 0 ? 6 : 3) * (thor ? 5 : 1);
    for (int x = 0; x < n6; x++) {
        Case c;
        c.family = 6;
        c.sr = nextSr();
        int m = g.in(150, 400), k = g.in(20, 60), n = g.in(20, 60);
        if (square) { m = k = n = g.in(150, 300); }
        c.A = Mat(m, k); c.B = Mat(k, n); c.M = Mat(m, n);
        for (int i = 0; i < m; i++) {
            int z = g.upto(100);
            if (x % 3 == 0 && i < m / 2) z = 0;
            if (x % 3 == 1 && i > m / 2) z = 0;
            if (z < 40) continue;
            randRow(g, c.A, i, z > 96 ? 12 : g.in(1, 3), c.sr);
            randRow(g, c.M, i, z > 90 ? 20 : g.in(0, 4), c.sr);
        }
        for (int i = 0; i < k; i++) randRow(g, c.B, i, g.in(0, 5), c.sr);
        c.threads = {1, 3, 8, 16, 37};
        c.aux = g.upto(1000);
        c.tag = "mr" + std::to_string(x);
        cs.push_back(c);
    }
    // F7: long rows against long masks (inspection window of 512, large hash tables)
    int n7 = (vt == 0 ? 5 : 2) * (thor ? 5 : 1);
    for (int x = 0; x < n7; x++) {
        Case c;
        c.family = 7;
        c.sr = nextSr();
        int m = 3, k = 4, n = g.in(1400, 2600);
        if (square) break;
        c.A = Mat(m, k); c.B = Mat(k, n); c.M = Mat(m, n);
        for (int i = 0; i < m; i++) randRow(g, c.A, i, g.in(2, k), c.sr);
        for (int i = 0; i < k; i++) {
            randRow(g, c.B, i, g.in(3, 90), c.sr);
            if (i == 1) { c.B.r[i].clear(); c.B.add(i, n - 2, 3); c.B.add(i, n - 1, 4); }
        }
        for (int i = 0; i < m; i++) randRow(g, c.M, i, i == 0 ? n - 5 : g.in(500, n), c.sr);
        if (x % 2) { for (auto &e : c.B.r[0]) (void) e; std::sort(c.M.r[0].begin(), c.M.r[0].end()); }
        c.threads = {1, 2};
        c.aux = g.upto(1000);
        c.tag = "lg" + std::to_string(x);
        cs.push_back(c);
    }
    // F8: wide, deep and tall matrices: indices beyond 2^16 (and, for columns, beyond 2^17 and near 2^19)
    const bool widthOk = !square && GROUP != 112;
    int n8 = widthOk ? (vt <= 1 ? 5 : 2) * (thor ? 5 : 1) : 0;
    for (int x = 0; x < n8; x++) {
        Case c;
        c.family = 8;
        c.sr = nextSr();
        static const int wid[] = {65537, 66000, 131200, 200000, 524300};
        int n = wid[(x + vt) % (thor || vt == 0 ? 5 : 4)], m = g.in(2, 4), k = g.in(3, 6);
        c.A = Mat(m, k); c.B = Mat(k, n); c.M = Mat(m, n);
        std::vector<int> pool;
        int lows = g.in(3, 9);
        for (int q = 0; q < lows; q++) {
            int low = q == 0 ? 0 : q == 1 ? 65535 : g.upto(65536);
            for (int h = 0; h <= n / 65536; h++) if (h * 65536 + low < n) pool.push_back(h * 65536 + low);
            if (g.chance(50)) pool.push_back(g.upto(n));
        }
        pool.push_back(n - 1);
        auto wideRow = [&](Mat &a, int i, int pct) {
            std::set<int> s;
            for (int j : pool) if (g.chance(pct)) s.insert(j);
            for (int j : s) a.add(i, j, genVal(g, c.sr));
        };
        for (int i = 0; i < m; i++) { randRow(g, c.A, i, g.in(1, k), c.sr); wideRow(c.M, i, g.in(10, 80)); }
        for (int i = 0; i < k; i++) wideRow(c.B, i, g.in(10, 70));
        if (g.chance(30)) { c.sorted = false; shuffleRows(g, c.A); shuffleRows(g, c.B); shuffleRows(g, c.M); }
        c.threads = {1, 2};
        c.aux = g.upto(1000);
        c.tag = "wd" + std::to_string(x);
        cs.push_back(c);
    }
    if (widthOk && (vt <= 1 || thor)) {
        for (int x = 0; x < 2; x++) {                       // x = 0: deep (inner dimension), x = 1: tall (rows)
            Case c;
            c.family = 8;
            c.sr = nextSr();
            int big = (x && vt == 0 ? 131072 : 65536) + g.in(1, 300), m = x ? big : 4, k = x ? 5 : big, n = 9;
            c.A = Mat(m, k); c.B = Mat(k, n); c.M = Mat(m, n);
            std::vector<int> at;
            for (int q = 0; q < 6; q++) { int low = q ? g.upto(big - 65536) : 0; at.push_back(low); at.push_back(65536 + low); at.push_back(g.upto(big)); }
            std::set<int> ats(at.begin(), at.end());
            if (x) for (int i : ats) randRow(g, c.A, i, g.in(1, k), c.sr), randRow(g, c.M, i, g.in(1, n), c.sr);
            else for (int i = 0; i < m; i++) { for (int j : ats) if (g.chance(60)) c.A.add(i, j, genVal(g, c.sr)); randRow(g, c.M, i, g.in(1, n), c.sr); }
            if (x) for (int i = 0; i < k; i++) randRow(g, c.B, i, g.in(1, 5), c.sr);
            else for (int i : ats) randRow(g, c.B, i, g.in(1, 5), c.sr);
            c.threads = {1, 8};
            c.aux = g.upto(1000);
            c.tag = x ? "tall" : "deep";
            cs.push_back(c);
        }
    }
    // F9: more threads than any machine here has
    for (int x = 0; x < (vt == 0 ? 2 : 0); x++) {
        Case c;
        c.family = 9;
        c.sr = nextSr();
        int m = g.in(140, 200), k = 20, n = 40;
        if (square) k = n = m;
        c.A = Mat(m, k); c.B = Mat(k, n); c.M = Mat(m, n);
        for (int i = 0; i < m; i++) { randRow(g, c.A, i, g.in(0, 4), c.sr); randRow(g, c.M, i, g.in(0, 9), c.sr); }
        for (int i = 0; i < k; i++) randRow(g, c.B, i, g.in(0, 5), c.sr);
        c.threads = {64, 65, 130};
        c.aux = g.upto(1000);
        c.tag = "mt" + std::to_string(x);
        cs.push_back(c);
    }
    // F10: long rows of A: many rows of B merged at once (beyond 1024)
    for (int x = 0; x < (vt <= 1 ? 2 : 1); x++) {
        Case c;
        c.family = 10;
        c.sr = nextSr();
        int m = 2, k = g.in(1100, 1500), n = g.in(300, 1300);
        if (square) m = n = k;
        c.A = Mat(m, k); c.B = Mat(k, n); c.M = Mat(m, n);
        for (int i = 0; i < 2; i++) { randRow(g, c.A, i, g.in(1030, k), c.sr); randRow(g, c.M, i, g.in(n / 4, n), c.sr); }
        for (int i = 0; i < k; i++) randRow(g, c.B, i, g.in(0, 2), c.sr);
        if (x) { c.sorted = false; shuffleRows(g, c.A); shuffleRows(g, c.B); shuffleRows(g, c.M); }
        c.threads = {1, 2};
        c.aux = g.upto(1000);
        c.tag = "lr" + std::to_string(x);
        cs.push_back(c);
    }
}
