"""Plumbing shared by the checks: build a harness from /repo's working tree, run it, let TLC
explore a model or validate recorded traces, write the evidence file, report violations."""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARN = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
INC = ["-I", REPO, "-I", os.path.join(REPO, "GTgraph/sprng2.0-lite/include"), "-I", HARN]
BASE = ["-std=c++17", "-DCPP", "-include", "cstdint", "-w", "-g"]
RUN_ENV = {
    "OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "0", "OMP_DYNAMIC": "false",
    "ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=100000000:malloc_fill_byte=190:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0",
    "MALLOC_PERTURB_": "165",      # (harnesses on fsched.cpp fill memory themselves)
}


class CheckError(Exception):
    pass


def listed_findings(pid):
    """The unrepaired defects listed for a property: key -> what fails.  A trace specification describes
    exactly how the execution deviates, and accepts that only while the key is listed (KNOWN_<key> is set)."""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out or \
                  ("Finished in" in out and "Error:" not in out and rc == 0)
        self.violated = bool(re.search(r"Error: (Invariant|Action property|Temporal propert|Deadlock|Property|The postcondition)", out)
                             or "is violated" in out or "Error: Deadlock reached" in out)
        # TLC wraps long printed values over several lines: join them again
        self.rejected, self.findings = [], set()
        buf = None
        for l in out.splitlines():
            if buf is None:
                if l.startswith("<<"):
                    buf = l
            else:
                buf += " " + l.strip()
            if buf is not None and buf.count("<<") == buf.count(">>"):
                if '"REJECTED"' in buf:
                    self.rejected.append(buf)
                elif '"FINDING"' in buf:
                    self.findings.add(buf.split('"')[3])
                buf = None

    def tail(self, n=60):
        return "\n".join(self.out.splitlines()[-n:])


def tlaval(s, i=0):
    """Parse a printed TLA+ value made of tuples, sets, integers, strings and booleans."""
    while s[i].isspace():
        i += 1
    if s.startswith("<<", i) or s[i] == "{":
        end = ">>" if s[i] == "<" else "}"
        i += len(end)
        out = []
        while True:
            while s[i].isspace() or s[i] == ",":
                i += 1
            if s.startswith(end, i):
                return out, i + len(end)
            v, i = tlaval(s, i)
            out.append(v)
    if s[i] == '"':
        j = s.index('"', i + 1)
        return s[i + 1:j], j + 1
    m = re.compile(r"-?\d+|TRUE|FALSE|[A-Za-z_]\w*").match(s, i)
    t = m.group(0)
    return (int(t) if t.lstrip("-").isdigit() else True if t == "TRUE" else False if t == "FALSE" else t), m.end()


def printed(out, tag):
    pos = 0
    pat = re.compile(r'^<<\s*"%s"' % re.escape(tag), re.M)
    while True:
        m = pat.search(out, pos)
        if not m:
            return
        v, pos = tlaval(out, m.start())
        yield v[1:]


class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.dir = os.path.join(VERIF, ".build", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.ev = os.path.join(VERIF, "evidence")
        os.makedirs(self.ev, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.nviol = 0
        self.notes = []
        self.viols = []
        self.deferred = []
        self.known = listed_findings(pid)
        self.seen = set()
        self.lock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        return os.path.join(self.dir, name)

    # ------------------------------------------------------------ building and running
    def cxx(self, out, srcs, flags=(), libs=("-lgraphblas", "-lpthread"), asan=True, omp=True, opt="-O1", cc="g++", timeout=600):
        if isinstance(srcs, str):
            srcs = [srcs]
        if asan and cc == "g++":
            flags = list(flags) + ["-DGARBAGE_MALLOC", "-Wl,--wrap=malloc,--wrap=_Znwm,--wrap=_Znam"]
            if "-DTRACK_LIVE" in flags:
                flags += ["-Wl," + ",".join("--wrap=" + f for f in ("free", "calloc", "realloc", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"))]
        srcs = [s if os.path.isabs(s) else os.path.join(HARN, s) for s in srcs]
        cmd = [cc] + (BASE if cc == "g++" else ["-w", "-g"]) + [opt] + (["-fopenmp"] if omp else []) + (["-fsanitize=address"] if asan else []) + INC + list(flags) + srcs + \
              ["-o", self.path(out)] + list(libs)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if p.returncode != 0:
            raise CheckError("cannot build %s:\n%s" % (out, p.stdout[-4000:]))
        return self.path(out)

    def cobj(self, out, src, flags=(), opt="-O1"):
        """An object file of one of the repository's own C or C++ sources."""
        o = self.path(out + ".o")
        cmd = ["gcc", "-w", "-g", opt, "-fsanitize=address"] + INC + list(flags) + ["-c", os.path.join(REPO, src), "-o", o]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if p.returncode != 0:
            raise CheckError("cannot build %s:\n%s" % (out, p.stdout[-4000:]))
        return o

    def controlled(self, out, src, flags=(), opt="-O1", timeout=600, extra_objs=()):
        """Like cxx, but OpenMP is served by harness/fsched.cpp: every interleaving is decided by the harness."""
        lib = self.path("libfsched.so")
        with self.lock:
            if not os.path.exists(lib):
                subprocess.run(["g++", "-O2", "-g", "-shared", "-fPIC", os.path.join(HARN, "fsched.cpp"),
                                "-Wl,--version-script=" + os.path.join(HARN, "fsched.map"), "-o", lib], check=True)
        obj = self.path(out + ".o")
        cmd = ["g++"] + BASE + [opt, "-fopenmp", "-fsanitize=thread"] + INC + list(flags) + ["-c", os.path.join(HARN, src), "-o", obj]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if p.returncode == 0:
            cmd = ["g++", obj] + list(extra_objs) + ["-o", self.path(out)] + ["-Wl,--wrap=" + f for f in ("malloc", "free", "memcpy", "memmove", "memset")] + \
                  ["-L" + self.dir, "-lfsched", "-Wl,-rpath," + self.dir]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if p.returncode != 0:
            raise CheckError("cannot build %s:\n%s" % (out, p.stdout[-4000:]))
        return self.path(out)

    def par(self, fns, n=8):
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            futs = [ex.submit(f) for f in fns]
            return [f.result() for f in futs]

    def run(self, exe, args=(), env=None, timeout=600, stdin=None, check=True, cwd=None):
        e = dict(os.environ)
        e.update(RUN_ENV)
        e["VERIF_SEED"] = str(self.seed)
        e["VERIF_TIER"] = self.tier
        e.update(env or {})
        try:
            p = subprocess.run([exe] + list(args), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               input=stdin, cwd=cwd or self.dir)
        except subprocess.TimeoutExpired:
            raise CheckError("harness %s timed out after %ds" % (exe, timeout))
        if check and p.returncode != 0:
            raise CheckError("harness %s ended with %d:\n%s" % (exe, p.returncode, p.stderr.decode("utf8", "replace")[-3000:]))
        return p

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=8, extra=(), timeout=800, heap="6g", cfgtext=None):
        md = self.path("md-%s-%s-%d" % (module, re.sub(r"\W", "_", str(cfg)), random.randrange(1 << 30)))
        if cfgtext is not None:
            cfg = self.path("cfg-%d.cfg" % random.randrange(1 << 30))
            with open(cfg, "w") as f:
                f.write(cfgtext)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
               "-metadir", md, "-config", cfg] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s timed out after %ds" % (module, timeout))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return Tlc(p.stdout, p.returncode)

    def model(self, module, cfg, expect_violation=False, count=True, **kw):
        """Explore a component specification; its invariants are the property at design level."""
        if os.environ.get("VERIF_SKIP_MODELS"):     # tools/mutate.py: the models do not depend on the code
            return None
        r = self.tlc(module, cfg, **kw)
        if count:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
        name = cfg if kw.get("cfgtext") is None else module + " (generated cfg)"
        if expect_violation:
            if not r.violated:
                raise CheckError("%s: TLC was expected to refute %s but did not:\n%s" % (module, name, r.tail()))
        elif not r.ok:
            raise CheckError("%s/%s: the specification itself fails (the check is broken, not the code):\n%s" % (module, name, r.tail()))
        self.cov.setdefault("models", []).append({"module": module, "cfg": os.path.basename(str(name)), "distinct_states": r.distinct,
                                                  "states_generated": r.generated, "refuted_as_expected": bool(expect_violation)})
        return r

    def generate(self, module, cfgtext, num, depth, tag="GEN", procs=4, timeout=300):
        """Behaviours of a specification (TLC -simulate): the tuples printed as <<tag, ...>>."""
        def one(i):
            r = self.tlc(module, "gen%d" % i, cfgtext=cfgtext, workers=1, heap="3g", timeout=timeout,
                         extra=["-simulate", "num=%d" % ((num + procs - 1) // procs), "-depth", str(depth), "-seed", str(self.seed * 1000 + i)])
            if "Error:" in r.out:
                raise CheckError("%s: generation failed:\n%s" % (module, r.tail()))
            return list(printed(r.out, tag))
        res = [b for part in self.par([lambda i=i: one(i) for i in range(procs)]) for b in part]
        if not res:
            raise CheckError("%s: TLC generated no behaviour" % module)
        if len(res) > 20 and len({repr(b) for b in res}) * 4 < len(res):
            raise CheckError("%s: the generated behaviours are nearly all the same" % module)
        self.cov["states"] += sum(1 for _ in res) * depth
        self.cov.setdefault("generated", []).append({"module": module, "behaviours": len(res), "depth": depth})
        return res

    def trace(self, module, cfg, files, confirm=None, label=None, env=None, workers=8, timeout=800, sample=True, nrec=None):
        """Validate recorded executions (ndjson) with a trace specification."""
        label = label or module
        if isinstance(files, str):
            files = [files]
        for attempt in range(4):
            f = self.path("trace-%s-%d.json" % (label, attempt))
            n, first = 0, None
            with open(f, "w") as o:
                for x in files:
                    with open(x) as i:
                        for line in i:
                            if line.strip():
                                n += 1
                                first = first or line
                                o.write(line)
            if n == 0:
                raise CheckError("%s: no trace records were recorded" % label)
            r = self.tlc(module, cfg, env=dict(env or {}, TRACE=f, **{"KNOWN_" + k: "1" for k in self.known}), workers=workers, timeout=timeout)
            self.seen |= r.findings
            if attempt == 0:
                self.cov["states"] += r.distinct
                self.cov["transitions"] += r.generated
                self.cov["traces_validated_against_impl"] += n
                self.cov.setdefault("trace_specs", []).append({"module": module, "label": label, "records": n, "distinct_states": r.distinct})
                if sample:
                    self.sample(first)
            if r.ok and not r.rejected:
                if attempt:
                    self.notes.append("%s: one rejection was not reproduced on a re-run: %s" % (label, prev))
                    if attempt < 3 and confirm:
                        files = confirm()
                        continue
                return True
            if not r.rejected:
                raise CheckError("%s: TLC gave no verdict on the trace:\n%s" % (label, r.tail()))
            if attempt >= 1 or confirm is None:
                self.report(label, module, f, r)
                return False
            prev = r.rejected[0][:300]
            files = confirm()
            if isinstance(files, str):
                files = [files]
        return True

    def report(self, label, module, tracefile, r):
        rej = r.rejected[0]
        m = re.search(r'"REJECTED",\s*"([^"]*)"', rej)
        rid = m.group(1) if m else None
        rec = None
        with open(tracefile) as f:
            for line in f:
                if rid and ('"id":"%s"' % rid) in line.replace('"id": "', '"id":"'):
                    rec = line
                    break
        self.violation(label, {"specification": module, "rejected": rej, "record": json.loads(rec) if rec else None,
                               "tlc": r.tail(40)}, rej[:300])

    def violation(self, label, obj, text=""):
        self.nviol += 1
        d = os.path.join(self.ev, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.pid, re.sub(r"\W", "_", label)))
        obj = dict(obj, property=self.pid, seed=self.seed, tier=self.tier, check=label)
        with open(p, "w") as f:
            json.dump(obj, f, indent=1)
        self.viols.append("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("%s: %s" % (label, text), flush=True)

    def sample(self, s):
        if isinstance(s, str):
            s = s.strip()
            s = s if len(s) < 1200 else s[:1200] + "..."
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(s)

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": self.nviol, "assumptions": self.assumptions}
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        with open(os.path.join(self.ev, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for n in self.notes:
            print("note: " + n)
        for k in sorted(self.seen):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]), flush=True)
        print("%s tier=%s seed=%d states=%d traces=%d wall=%.1fs violations=%d" % (
            self.pid, self.tier, self.seed, self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0, self.nviol), flush=True)
        for v in self.viols:
            print(v, flush=True)
        return 1 if self.nviol else 0


def main(pid, body, level="model_checking"):
    ctx = Ctx(pid, level)
    try:
        body(ctx)
        rc = ctx.finish()
    except CheckError as e:
        if ctx.nviol:          # something was already shown to be broken: that stands
            rc = ctx.finish()
        else:
            print("ERROR in check %s: %s" % (pid, e), flush=True)
            rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.dir, ignore_errors=True)
    sys.exit(rc)
