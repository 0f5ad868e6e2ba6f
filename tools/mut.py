"""Development aid: try a change in a scratch copy and run checks on it.
   mut.py ID[,ID] FILE OLD NEW [FILE OLD NEW ...]"""
import os, shutil, subprocess, sys, tempfile
ids, rest = sys.argv[1].split(","), sys.argv[2:]
d = tempfile.mkdtemp(prefix="mut-")
r = os.path.join(d, "repo")
shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("_build", ".git", "_*"), symlinks=True)
for f, o, n in zip(rest[::3], rest[1::3], rest[2::3]):
    p = os.path.join(r, f)
    s = open(p).read()
    if s.count(o) < 1:
        sys.exit("not found in %s: %s" % (f, o))
    open(p, "w").write(s.replace(o, n, 1))
for i in ids:
    p = subprocess.run(["python3", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "run.py"), i], env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = [l for l in p.stdout.splitlines() if l.startswith(("VIOLATION", "ERROR", "C"))]
    print("%s rc=%d %s" % (i, p.returncode, " | ".join(x[:150] for x in out[:4])), "" if p.returncode < 2 else p.stdout[-1500:])
shutil.rmtree(d)
