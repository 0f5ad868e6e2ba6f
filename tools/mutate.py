"""Development aid: random small changes of the sources in scratch copies; which checks notice?
   mutate.py SEED COUNT OUT FILE:IDS[:FIRST-LAST] ...     appends one line per change to OUT"""
import os, random, re, shutil, subprocess, sys, tempfile
seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
R = random.Random(seed)
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" = 0;", " = 1;"), (r" \+= ", " = "), (r"\brows\b", "cols"), (r"\bcols\b", "rows"),
       (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"\bA\.", "B."), (r"\bB\.", "A."), (r"\bM\.", "A."),
       (r"\bnumThreads\b", "1"), (r" \* ", " + "), (r" \+ ", " - "), (r" - ", " + "), (r"\+\+(\w+)", r"\1"), (r"(\w+)\+\+", r"\1"), (r"\bcontinue;", ";"), (r"\bbreak;", ";"),
       (r"\bif \((.*)\) ?\{", r"if (!(\1)) {"), (r"\bif \((.*)\) ?\{", r"if (true) {"), (r"^(\s+)([\w\[\]\.>-]+(\(.*\)|\s[-+|]?=\s.*|\+\+|--));", r"\1;"), (r"^(\s*)\+\+\S+;", r"\1;"), (r"\[i\]", "[0]"),
       (r" % ", " / "), (r" / ", " * "), (r"<< 1", "<< 0"), (r"#pragma omp barrier", ""), (r"\bIT\b(?= \w+ = )", "unsigned char")]
SKIP = re.compile(r"^\s*(//|\*|/\*|#include|#ifndef|#define|#endif|assert|cout|std::cout|printf|template|using|typedef|throw|static_assert)|cerr|fprintf|omp_get_wtime|chrono")
cands = []
for a in sys.argv[4:]:
    f, ids, *rg = a.split(":")
    lines = open("/repo/" + f, newline="").read().split("\n")
    lo, hi = (int(x) for x in rg[0].split("-")) if rg else (1, len(lines))
    here = []
    incom = False
    for n, l in enumerate(lines):
        if "/*" in l and "*/" not in l: incom = True
        if incom:
            if "*/" in l: incom = False
            continue
        if not lo <= n + 1 <= hi or SKIP.search(l): continue
        for o, (p, r) in enumerate(OPS):
            for m in re.finditer(p, l):
                nl = l[:m.start()] + m.expand(r) + l[m.end():]
                if nl != l: here.append((f, ids, n, nl, l))
    R.shuffle(here)
    cands.append(here)
# spread over the files
order = []
while any(cands):
    for c in cands:
        if c: order.append(c.pop())
for f, ids, n, nl, l in order[:count]:
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("_build", ".git", "_*", "results", "notes"), symlinks=True)
    lines = open(os.path.join(r, f), newline="").read().split("\n")
    lines[n] = nl
    open(os.path.join(r, f), "w", newline="").write("\n".join(lines))
    res = []
    for i in ids.split(","):
        p = subprocess.run(["nice", "python3", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "run.py"), i], env=dict(os.environ, VERIF_REPO=r, VERIF_SKIP_MODELS="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        s = {0: "MISSED", 1: "caught"}.get(p.returncode, "rc%d" % p.returncode)
        if p.returncode > 1: s += "(nocompile)" if "error:" in p.stdout else "(%s)" % p.stdout.strip()[-150:].replace("\n", " ")
        res.append("%s:%s" % (i, s))
        if "nocompile" in s: break
    shutil.rmtree(d)
    with open(out, "a") as o:
        o.write("%s %s:%d  `%s` => `%s`\n" % (" ".join(res), f, n + 1, l.strip(), nl.strip()))
