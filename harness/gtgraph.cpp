// The GTgraph programs, run as programs: gtgraph OUT DIR PROGDIR FIRST STEP LAST
// Every case writes a configuration file or not, gives the options in some order, and reads
// the graph file and the log back.
#include "common.h"
#include <algorithm>
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;
static std::string progs, scratch;
typedef std::vector<std::string> Args;
static std::string S(long x) { return std::to_string(x); }
static std::string num(double x) { char b[32]; snprintf(b, sizeof b, "%g", x); return b; }

struct Case {
    std::string prog, kind, type, out = "sample.gr";
    Args args;
    std::vector<std::string> cfg;                                // lines of the configuration file
    bool useCfg = false;
    long n = 0, m = 0, minw = 0, maxw = 100, maxc = 0, par = 0;
    int p = 1;
    bool sorted = false, loops = false, far = false;
    std::string how = "mixed";
    bool log = false;
};
static void set(Case &c, const std::string &k, const std::string &v) { c.cfg.push_back(k + " " + v); }
static void layout(Case &c, Rng &g, int keep = 0) {              // the order of the lines is free but for the first `keep`
    for (size_t i = c.cfg.size(); i > size_t(keep) + 1; i--) std::swap(c.cfg[i - 1], c.cfg[keep + g.upto(i - keep)]);
    std::vector<std::string> l{"# parameters"};
    for (auto &s : c.cfg) {
        if (g.chance(15)) l.push_back("# " + s + "1");
        if (g.chance(15)) l.push_back("");
        l.push_back(s);
    }
    c.cfg = l;
}
static void shuffle(std::vector<Args> &o, Rng &g) { for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[g.upto(i)]); }
static void join(Case &c, const std::vector<Args> &o) { for (auto &a : o) for (auto &s : a) c.args.push_back(s); }
static void weights(Case &c, Rng &g) {
    c.minw = g.in(0, 5); c.maxw = c.minw + g.in(0, 9);
    set(c, "MIN_WEIGHT", S(c.minw)); set(c, "MAX_WEIGHT", S(c.maxw));
}
static void outfile(Case &c, Rng &g, std::vector<Args> &o) {
    c.out = "g" + S(g.in(0, 99)) + ".gr";
    o.push_back({"-o", c.out});
}
// a configuration file given before the output file may say that nothing is to be written
static void finish(Case &c, Rng &g, int keep, bool byDefault, std::vector<Args> more) {
    std::vector<Args> o{{"-c", "cfg"}};
    bool file = g.chance(60);
    if (file) outfile(c, g, o);
    if (g.chance(50) && o.size() == 2) std::swap(o[0], o[1]);
    bool last = file && o[1][0] == "-o";
    if (last && g.chance(50)) set(c, "WRITE_TO_FILE", "0");
    else if (!byDefault || g.chance(50)) set(c, "WRITE_TO_FILE", "1");
    for (auto &m : more) o.insert(o.begin() + g.upto((int) o.size() + 1), m);
    layout(c, g, keep);
    join(c, o);
}
static Case makeRmat(Rng &g) {
    Case c; c.prog = "rmat"; c.kind = "rmat";
    c.n = g.chance(50) ? 1L << g.in(1, 5) : g.in(2, 40);
    c.m = g.in(0, 120);
    std::vector<Args> o;
    c.useCfg = g.chance(60);
    if (!c.useCfg) {                                             // sizes and file on the command line, the rest as documented
        c.type = "options"; c.sorted = true; c.out = "g" + S(g.in(0, 9));
        o = {{"-n", S(c.n)}, {"-m", S(c.m)}, {"-o", c.out}};
        shuffle(o, g);
        join(c, o);
        return c;
    }
    static const double P[][4] = {{0.57, 0.19, 0.19, 0.05}, {0.25, 0.25, 0.25, 0.25}, {0.05, 0.45, 0.45, 0.05}, {0.1, 0.7, 0.1, 0.1}};
    const double *p = P[g.upto(4)];
    set(c, "n", S(c.n)); set(c, "m", S(c.m)); set(c, "a", num(p[0])); set(c, "b", num(p[1])); set(c, "c", num(p[2])); set(c, "d", num(p[3]));
    weights(c, g);
    c.loops = g.chance(40); set(c, "SELF_LOOPS", S(c.loops));
    c.sorted = g.chance(60); set(c, "SORT_EDGELISTS", S(c.sorted));
    int type = g.upto(2); set(c, "SORT_TYPE", S(type));
    bool mem = c.sorted || g.chance(50); set(c, "STORE_IN_MEMORY", S(mem));
    if (g.chance(30)) finish(c, g, 0, false, {{"-n", S(c.n + 3)}});           // the configuration file has the last word
    else finish(c, g, 0, false, {});
    c.type = !mem ? "on the fly" : c.sorted ? (type ? "heap sorted" : "sorted") : "unsorted";
    return c;
}
static Case makeRandom(Rng &g) {
    Case c; c.prog = "random";
    bool gnm = g.chance(45);
    c.kind = gnm ? "gnm" : "gnp";
    c.n = g.in(1, 14); c.m = c.n == 1 ? 0 : g.in(0, 60);
    static const double P[] = {0, 0.02, 0.1, 0.3, 0.5, 0.8, 0.95, 1};
    double p = P[g.upto(8)];
    c.p = p == 0 ? 0 : p == 1 ? 2 : 1;
    std::vector<Args> o;
    c.useCfg = g.chance(65);
    if (!c.useCfg) {
        c.type = "options"; c.sorted = true;
        o = {{"-n", S(c.n)}, gnm ? Args{"-m", S(c.m)} : Args{"-p", num(p)}};
        shuffle(o, g);
        o.insert(o.begin(), {"-t", gnm ? "1" : "0"});
        if (g.chance(70)) { c.out = "g" + S(g.in(0, 9)); o.insert(o.begin() + g.upto(4), {"-o", c.out}); }
        join(c, o);
        return c;
    }
    set(c, "GRAPH_MODEL", gnm ? "1" : "0"); set(c, "n", S(c.n));
    if (gnm || g.chance(30)) set(c, "m", S(c.m));
    if (!gnm || g.chance(30)) set(c, "p", num(p));
    weights(c, g);
    c.loops = g.chance(50); set(c, "SELF_LOOPS", S(c.loops));
    bool sort = g.chance(60); set(c, "SORT_EDGELISTS", S(sort));
    c.sorted = sort || !gnm;
    int type = g.upto(2); set(c, "SORT_TYPE", S(type));
    bool mem = sort || g.chance(50); set(c, "STORE_IN_MEMORY", S(mem));
    finish(c, g, 0, true, {});
    c.type = !mem ? "on the fly" : sort ? (type ? "heap sorted" : "sorted") : "unsorted";
    return c;
}
static Case makeCliques(Rng &g) {
    Case c; c.prog = "ssca2"; c.kind = "cliques"; c.log = true;
    std::vector<Args> o;
    c.useCfg = g.chance(75);
    int scale = g.in(0, 5);
    c.n = 1L << scale; c.maxc = 1;
    while ((c.maxc + 1) * (c.maxc + 1) * (c.maxc + 1) <= c.n) c.maxc++;   // the cube root, rounded down
    c.par = 3; c.maxw = c.n; c.far = true; c.sorted = true;
    if (!c.useCfg) {
        c.type = "options";
        o = {{"-s", S(scale)}};
        if (g.chance(60)) outfile(c, g, o);
        shuffle(o, g);
        join(c, o);
        return c;
    }
    bool first = g.chance(60);
    if (first) set(c, "SCALE", S(scale));
    if (!first || g.chance(30)) { c.n = g.in(1, 24); set(c, "TotVertices", S(c.n)); }
    if (!first || g.chance(50)) { c.maxc = g.in(1, 8); set(c, "MaxCliqueSize", S(c.maxc)); }
    if (!first || g.chance(50)) { c.minw = g.in(0, 5); c.maxw = c.minw + g.in(0, 9); set(c, "MinWeight", S(c.minw)); set(c, "MaxWeight", S(c.maxw)); }
    if (g.chance(70)) { c.par = g.in(1, 4); set(c, "MaxParallelEdges", S(c.par)); }
    static const double P[] = {0, 1, 0.2, 0.7};
    double u = 0.2, f = 0.5;
    if (g.chance(80)) { u = P[g.upto(4)]; set(c, "ProbUnidirectional", num(u)); }
    if (g.chance(85)) { static const double F[] = {0, 0, 0, 0.3, 0.9, 1}; f = F[g.upto(6)]; set(c, g.chance(60) ? "ProbIntercliqueEdges" : "ProbInterClEdges", num(f)); }
    c.how = u == 0 ? "both" : u == 1 ? "one" : "mixed";
    c.far = f > 0;
    if (g.chance(60)) { c.sorted = g.chance(60); set(c, "SORT_EDGELISTS", S(c.sorted)); }
    int type = 0;
    if (g.chance(60)) { type = g.upto(2); set(c, "SORT_TYPE", S(type)); }
    if (g.chance(20)) {                                          // a scale is without effect beside a file that says it all
        if (g.chance(40)) set(c, "WRITE_TO_FILE", "1");
        layout(c, g, first ? 1 : 0);
        o = {{"-c", "cfg"}, {"-s", S(scale)}};
        if (first) shuffle(o, g);
        join(c, o);
    } else finish(c, g, first ? 1 : 0, true, {});
    c.type = std::string(c.sorted ? (type ? "heap sorted" : "sorted") : "unsorted") + (c.far ? " connected" : "");
    return c;
}
static std::string head(const std::string &id, const Case &c, const std::string &crash) {
    auto B = [](bool b) { return b ? "true" : "false"; };
    return "{\"id\":" + jsonStr(id) + ",\"kind\":\"" + c.kind + "\",\"type\":" + jsonStr(c.type) + ",\"crash\":" + jsonStr(crash) + ",\"n\":" + S(c.n) + ",\"m\":" + S(c.m) +
           ",\"minw\":" + S(c.minw) + ",\"maxw\":" + S(c.maxw) + ",\"sorted\":" + B(c.sorted) + ",\"loops\":" + B(c.loops) + ",\"p\":" + S(c.p) +
           ",\"maxc\":" + S(c.maxc) + ",\"par\":" + S(c.par) + ",\"how\":\"" + c.how + "\",\"far\":" + B(c.far);
}
static Case makeCase(int k) {
    Rng g(k * 6007 + 11 + seedFromEnv());
    return k % 3 == 0 ? makeRmat(g) : k % 3 == 1 ? makeRandom(g) : makeCliques(g);
}
static std::string runCase(int k) {
    Case c = makeCase(k);
    std::string id = "g" + S(k), dir = scratch + "/" + id;
    if (mkdir(dir.c_str(), 0755)) abort();
    if (chdir(dir.c_str())) abort();
    if (c.useCfg) { std::ofstream f("cfg"); for (auto &l : c.cfg) f << l << "\n"; }
    pid_t pid = fork();
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open("err", O_WRONLY | O_CREAT, 0644);
        dup2(fd, 1); dup2(fd, 2);
        setenv("GT_SEED", S(k + 1).c_str(), 1);
        setenv("GT_MODE", S(k / 3 % 6).c_str(), 1);
        std::string prog = progs + "/gt" + c.prog;
        std::vector<char *> a{(char *) prog.c_str()};
        for (auto &s : c.args) a.push_back((char *) s.c_str());
        a.push_back(nullptr);
        alarm(20);
        execv(prog.c_str(), a.data());
        _exit(127);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::string crash, out = "[", line;
    if (WIFSIGNALED(st)) crash = "signal " + S(WTERMSIG(st));
    else if (WEXITSTATUS(st)) crash = "exit status " + S(WEXITSTATUS(st));
    long gotn = -1, gotm = -1, hdr = -1, cl = -1, ins = -1, outs = -1;
    std::ifstream f(c.out);
    if (crash.empty() && !f) crash = "no graph file";
    while (std::getline(f, line)) {
        long x, y, z;
        if (sscanf(line.c_str(), "p sp %ld %ld", &x, &y) == 2) gotn = x, gotm = y;
        else if (sscanf(line.c_str(), "a %ld %ld %ld", &x, &y, &z) == 3) out += (out.size() > 1 ? "," : "") + ("[" + S(x - 1) + "," + S(y - 1) + "," + S(z) + "]");
        else if ((line.rfind("c No. of directed edges", 0) == 0 || line.rfind("c No. of edges", 0) == 0) && line.find(':') != std::string::npos) hdr = atol(line.c_str() + line.find(':') + 1);
    }
    if (c.log) {
        std::ifstream l("log");
        while (std::getline(l, line)) {
            size_t p = line.find(':');
            if (p == std::string::npos) continue;
            long v = atol(line.c_str() + p + 1);
            if (line.rfind("No. of clusters", 0) == 0) cl = v;
            if (line.rfind("No. of intra-cluster edges", 0) == 0) ins = v;
            if (line.rfind("No. of inter-cluster edges", 0) == 0) outs = v;
        }
    }
    if (chdir("/")) abort();
    if (!getenv("VERIF_KEEP")) {
        for (const char *n : {"cfg", "err", "log"}) unlink((dir + "/" + n).c_str());
        unlink((dir + "/" + c.out).c_str());
        rmdir(dir.c_str());
    }
    return head(id, c, crash) + ",\"gotn\":" + S(gotn) + ",\"gotm\":" + S(gotm) + ",\"hdr\":" + S(hdr) + ",\"cl\":" + S(cl) + ",\"ins\":" + S(ins) + ",\"outs\":" + S(outs) + ",\"out\":" + out + "]}\n";
}
int main(int argc, char **argv) {
    if (argc < 7) return 2;
    scratch = argv[2]; progs = argv[3];
    std::ofstream o(argv[1]);
    for (int k = atoi(argv[4]); k < atoi(argv[6]); k += atoi(argv[5])) o << runCase(k);
    return 0;
}
