"""Driver shared by all checks: builds what is needed from /repo's working tree, runs the symbolic executor on
many harness modules in parallel, replays counterexamples natively and writes the evidence."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1"))
JOBS = int(os.environ.get("VF_JOBS", str(os.cpu_count() or 4)))
T0 = time.time()


def left(budget):
    return budget - (time.time() - T0)


def sh(cmd, timeout=300, cwd=None, env=None, stdin=None, binary=False):
    """run, return (rc, stdout, stderr); rc None on timeout"""
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd,
                           env=env, input=stdin if stdin is not None else b"")
        o, e = p.stdout, p.stderr
        return (p.returncode, o if binary else o.decode("latin1"), e.decode("latin1"))
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return (None, o if binary else o.decode("latin1"), "timeout")


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        h.update(open(p, "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def atomically(target, make):
    """build a directory once; concurrent checks may race"""
    if os.path.isdir(target):
        os.utime(target)
        return target
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=".tmp-", dir=BUILD)
    try:
        make(tmp)
        try:
            os.rename(tmp, target)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return target


def must(cmd, cwd=None, timeout=900):
    rc, o, e = sh(cmd, cwd=cwd, timeout=timeout)
    if rc != 0:
        raise RuntimeError("command failed: %s\n%s\n%s" % (" ".join(cmd), o[-3000:], e[-3000:]))
    return o


def par(fns, jobs=None):
    with cf.ThreadPoolExecutor(jobs or JOBS) as ex:
        return [f.result() for f in [ex.submit(fn) for fn in fns]]


# ---- engine -----------------------------------------------------------------------------------------------------
def engine():
    src = glob.glob(VERIF + "/engine/*.cpp") + glob.glob(VERIF + "/engine/*.h") + [VERIF + "/engine/Makefile"]
    d = os.path.join(BUILD, "engine-" + fhash(src))

    def make(tmp):
        must(["make", "-s", "-j4", "-C", VERIF + "/engine", "OUT=" + tmp])
    atomically(d, make)
    return d + "/symex"


# ---- the code under test ------------------------------------------------------------------------------------------
LACSAP_OBJS = None


def repo_sources():
    fs = glob.glob(REPO + "/*.cpp") + glob.glob(REPO + "/*.h") + glob.glob(REPO + "/runtime/*.c") + \
        glob.glob(REPO + "/runtime/*.h") + [REPO + "/Makefile", REPO + "/runtime/Makefile"]
    return fs


def make_var(path, name):
    t = open(path).read().replace("\\\n", " ")
    m = re.search(r"^%s\s*=\s*(.*)$" % name, t, re.M)
    return m.group(1).split()


CXXFLAGS = ["-DNDEBUG=1", "-std=c++17", "-I" + LLVM + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
            "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-fno-exceptions", "-fno-rtti", "-funwind-tables"]
RTBC = ["-std=c11", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-D__NO_CTYPE", "-w"]
READ_RENAMES = ["__read_int32", "__read_int64", "__read_chr", "__read_bool", "__read_real", "__read_str", "__read_nl"]


def prune():
    ds = sorted((d for d in glob.glob(BUILD + "/repo-*")), key=lambda d: os.path.getmtime(d))
    for d in ds[:-3]:
        shutil.rmtree(d, ignore_errors=True)


class Env:
    pass


def env():
    """lacsap, runtime libraries and runtime bitcode of the current working tree"""
    libsrc = [LIB + "/" + f for f in ("minilibc.c", "minilibc.h", "sym.h", "tv.h", "tv.c", "tv_native.c", "sym_native.c")]
    key = fhash(repo_sources(), fhash(libsrc) + fhash([os.path.abspath(__file__)]))
    d = os.path.join(BUILD, "repo-" + key)
    objs = [o[:-2] for o in make_var(REPO + "/Makefile", "OBJECTS")]
    robjs = [o[:-2] for o in make_var(REPO + "/runtime/Makefile", "OBJECTS")]

    def make(tmp):
        os.makedirs(tmp + "/src/runtime")
        for f in repo_sources():
            shutil.copy(f, os.path.join(tmp, "src", os.path.relpath(f, REPO)))
        os.makedirs(tmp + "/o")
        cmds = []
        for o in objs:
            cmds.append(["clang++", "-O2", "-g0", *CXXFLAGS, "-c", tmp + "/src/%s.cpp" % o, "-o", tmp + "/o/%s.o" % o])
        for m in ("64", "32"):
            for v in ("n", "a"):
                os.makedirs(tmp + "/o/rt%s%s" % (v, m), exist_ok=True)
            os.makedirs(tmp + "/bc%s" % m)
            for o in robjs:
                s = tmp + "/src/runtime/%s.c" % o
                cmds.append(["clang", "-m" + m, "-g", "-std=c11", "-O2", "-fPIC", "-w", "-c", s, "-o", tmp + "/o/rtn%s/%s.o" % (m, o)])
                ren = ["-D%s=__real%s" % (r, r) for r in READ_RENAMES] if o == "read" else []
                if o == "main":
                    ren = ["-Dmain=pascal_rt_main"]
                cmds.append(["clang", "-m" + m, *RTBC, *ren, "-emit-llvm", "-c", s, "-o", tmp + "/bc%s/%s.bc" % (m, o)])
            mlf = ["-O1", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w"]
            cmds.append(["clang", "-m" + m, *mlf, "-emit-llvm", "-c", LIB + "/minilibc.c", "-o", tmp + "/bc%s/ml.bc" % m])
            cmds.append(["clang", "-m" + m, *mlf, "-emit-llvm", "-c", LIB + "/tv.c", "-o", tmp + "/bc%s/tv.bc" % m])
            cmds.append(["clang", "-m" + m, *mlf, "-DTV_RAW", "-emit-llvm", "-c", LIB + "/tv.c", "-o", tmp + "/bc%s/tvraw.bc" % m])
            cmds.append(["clang", "-m" + m, *RTBC, "-emit-llvm", "-c", tmp + "/src/runtime/read.c", "-o", tmp + "/bc%s/readraw.bc" % m])
            cmds.append(["clang", "-m" + m, "-O1", "-w", "-DTV_ORACLE", "-DTV_RAW", "-c", LIB + "/tv_native.c", "-o", tmp + "/o/tvoraw%s.o" % m])
            cmds.append(["clang", "-m" + m, "-O1", "-w", "-c", LIB + "/sym_native.c", "-o", tmp + "/o/symn%s.o" % m])
            cmds.append(["clang", "-m" + m, "-O1", "-w", "-c", LIB + "/tv_native.c", "-o", tmp + "/o/tvn%s.o" % m])
            cmds.append(["clang", "-m" + m, "-O1", "-w", "-DTV_ORACLE", "-c", LIB + "/tv_native.c", "-o", tmp + "/o/tvo%s.o" % m])
        par([lambda c=c: must(c) for c in cmds])
        must(["clang++", "-rdynamic", "-fuse-ld=lld", "-o", tmp + "/lacsap"] + [tmp + "/o/%s.o" % o for o in objs] +
             ["-L" + LLVM + "/lib", "-lLLVM-18"])
        for m, n in (("64", "libruntime.a"), ("32", "libruntime-m32.a")):
            must(["ar", "rc", tmp + "/" + n] + [tmp + "/o/rtn%s/%s.o" % (m, o) for o in robjs])
            link = [LLVM + "/bin/llvm-link", "-o", tmp + "/rt%s.bc" % m]
            link += [tmp + "/bc%s/%s.bc" % (m, o) for o in robjs] + [tmp + "/bc%s/ml.bc" % m, tmp + "/bc%s/tv.bc" % m]
            must(link)
            raw = {"read": "readraw"}
            must([LLVM + "/bin/llvm-link", "-o", tmp + "/rtraw%s.bc" % m] + [tmp + "/bc%s/%s.bc" % (m, raw.get(o, o)) for o in robjs] +
                 [tmp + "/bc%s/ml.bc" % m, tmp + "/bc%s/tvraw.bc" % m])
    atomically(d, make)
    prune()
    e = Env()
    e.dir = d
    e.lacsap = d + "/lacsap"
    e.symex = engine()
    e.runtime_objs = robjs
    e.src = d + "/src"
    return e


def workdir():
    d = os.path.join(BUILD, "work", "%s-%d" % (os.path.basename(sys.argv[0]).replace(".py", ""), os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def sanitize(name):
    return re.sub(r"[^A-Za-z0-9_.-]", "_", name)


# ---- one symbolic run -----------------------------------------------------------------------------------------------
def run_symex(symex, mods, outdir, entry="main", max_time=60, solver_ms=20000, max_paths=20000, max_steps=3000000, extra=()):
    os.makedirs(outdir, exist_ok=True)
    res = outdir + "/result.json"
    if os.path.exists(res):
        os.unlink(res)
    cmd = [symex, "--entry", entry, "--out", res, "--cex-dir", outdir, "--max-time", str(max_time), "--solver-timeout",
           str(solver_ms), "--max-paths", str(max_paths), "--max-steps", str(max_steps), *extra, *mods]
    rc, o, e = sh(cmd, timeout=max_time * 2 + 60)
    if rc not in (0, 1, 3) or not os.path.exists(res):
        return {"engine_error": "rc=%s %s" % (rc, e[-1500:]), "violations": [], "cmd": " ".join(cmd)}
    r = json.load(open(res, encoding="latin1"))
    r["rc"] = rc
    r["stderr"] = e[-500:]
    r["cmd"] = " ".join(cmd)
    return r


AGG = ["paths", "paths_cut", "forks", "instructions", "memory_checks", "queries", "solver_calls", "solver_cache_hits",
       "solver_unsat", "solver_sat", "solver_unknown", "solver_s"]


class Check:
    """collects unit results of one property"""

    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.units = []
        self.viol = []       # dicts: title, replay
        self.known_hits = {}
        self.notes = []
        self.assumptions = []
        self.functions = set()
        self.tot = {k: 0 for k in AGG}
        self.asserts = {}
        self.covers = {}
        self.incomplete = {}
        self.engine_errors = []
        self.unconfirmed = []
        self.samples = []
        self.bounds = {}
        self.max_solver = 0.0

    def add(self, r, name):
        self.units.append(name)
        for k in AGG:
            self.tot[k] += r.get(k, 0)
        self.max_solver = max(self.max_solver, r.get("solver_max_s", 0))
        for d, k in ((self.asserts, "asserts"), (self.covers, "covers"), (self.incomplete, "incomplete")):
            for a, b in r.get(k, {}).items():
                if k == "asserts":
                    a = re.sub(r" line \d+", " line N", a)
                d[a] = d.get(a, 0) + b
        self.functions.update(r.get("functions", {}).keys())
        if r.get("incomplete"):
            self.notes.append("%s incomplete: %s" % (name, r["incomplete"]))
        if "engine_error" in r:
            self.engine_errors.append("%s: %s" % (name, r["engine_error"]))

    def violation(self, title, replay, detail=""):
        self.viol.append({"title": title, "replay": replay, "detail": detail})

    def finish(self, explanation="", extra=None):
        kf = known_findings(self.prop)
        real = []
        for v in self.viol:
            k = [f for f in kf if f["key"] in v["title"]]
            if k:
                self.known_hits.setdefault(k[0]["key"], []).append(v)
            else:
                real.append(v)
        for f in kf:
            if f["key"] in self.known_hits:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, f["text"]))
            else:
                print("note: known finding not reproduced in this run: %s" % f["key"])
        cov = {
            "explanation": explanation,
            "units": len(self.units),
            "functions_encoded": sorted(f for f in self.functions if not f.startswith("sym_"))[:400],
            "bounds": self.bounds,
            **self.tot,
            "solver_s": round(self.tot["solver_s"], 2),
            "longest_query_s": round(self.max_solver, 2),
            "assertions": self.asserts,
            "covered": self.covers,
            "undecided": self.incomplete,
            "engine_errors": self.engine_errors[:20],
            "unconfirmed": self.unconfirmed[:20],
            "incomplete_units": self.notes[:60],
            "samples": self.samples[:6],
            "known_findings": sorted(self.known_hits),
        }
        if extra:
            cov.update(extra)
        if self.level == "translation_validation":
            cov.setdefault("programs", len(self.units))
            cov.setdefault("disagreements_checked", sum(v for v in self.asserts.values()))
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(real)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)
        for v in real[:10]:
            print("VIOLATION property=%s replay=%s" % (self.prop, v["replay"]))
            print("  " + v["title"])
            if v["detail"]:
                print("  " + v["detail"].replace("\n", "\n  ")[:1500])
        if len(real) > 10:
            print("  ... and %d more" % (len(real) - 10))
        print("%s: %d units, %d paths, %d queries, %d solver calls, solver %.1fs, wall %.1fs, undecided %s, engine errors %d, violations %d" %
              (self.prop, len(self.units), self.tot["paths"], self.tot["queries"], self.tot["solver_calls"], self.tot["solver_s"],
               time.time() - T0, self.incomplete or "none", len(self.engine_errors), len(real)))
        for e in self.engine_errors[:5]:
            print("  engine error:", e[:300])
        for u in self.unconfirmed[:5]:
            print("  unconfirmed:", u[:300])
        w = os.path.join(BUILD, "work")
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(workdir(), ignore_errors=True)
        if self.engine_errors and not real:
            # the machinery could not decide anything for a unit: this is no pass
            if os.environ.get("VF_STRICT"):
                sys.exit(1)
            if 2 * len(self.engine_errors) > len(self.units):
                print("the machinery failed on most units: no answer")
                sys.exit(2)
        sys.exit(1 if real else 0)


def known_findings(prop):
    """known_findings.txt: lines 'property=<id> key=<substring of the violation title> :: <text>'"""
    r = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                r.append({"key": m.group(2), "text": m.group(3)})
    return r


# ---- translation validation --------------------------------------------------------------------------------------------
class Prog:
    """a Pascal program with its oracle"""

    def __init__(self, name, pas, oracle, opts=None, expect=None, max_time=None, units=None, tags=(), raw=False, steps=3000000):
        self.steps = steps
        self.name, self.pas, self.oracle = name, pas, oracle
        self.opts = opts
        self.max_time = max_time
        self.tags = tags
        self.raw = raw       # the program runs with the real read routines, see in_text


def opt_name(o):
    return "".join(o).replace("-", "_") or "_default"


def compile_pascal(e, pas, d, name, opts, emit="llvm", timeout=60):
    """returns (rc, stderr, path of output)"""
    os.makedirs(d, exist_ok=True)
    src = d + "/" + name + ".pas"
    if isinstance(pas, dict):
        for k, v in pas.items():
            open(d + "/" + k, "w", encoding="latin1").write(v)
        src = d + "/" + list(pas.keys())[0]
    else:
        open(src, "w", encoding="latin1").write(pas)
    out = src[:-4] + (".ll" if emit == "llvm" else "")
    if os.path.exists(out):
        os.unlink(out)
    rc, o, er = sh([e.lacsap, "-emit=" + emit, *opts, src], timeout=timeout, cwd=d)
    return rc, o + er, out


def tv_flags(opts):
    m = "32" if "-m32" in opts else "64"
    fl = ["-DTV_CR=%d" % ("-Cr" in opts), "-DTV_M32=%d" % (m == "32")]
    return m, fl


def tv_unit(e, prog, opts, wd, max_time=60, solver_ms=20000):
    """one (program, option set).  Returns result dict with violations resolved by replay."""
    name = sanitize(prog.name) + hashlib.sha1(prog.name.encode()).hexdigest()[:4]
    d = wd + "/" + name + opt_name(opts)
    m, fl = tv_flags(opts)
    rc, msg, ll = compile_pascal(e, prog.pas, d, name, opts)
    if rc != 0 or not os.path.exists(ll):
        replay = keep_replay(prog, opts, d, "rejected", None, msg)
        return {"violations": [], "paths": 0, "confirmed": [("%s [%s]: the compiler rejects or fails on a valid program" % (prog.name, " ".join(opts)),
                                                           replay, msg[-600:])]}
    orc = d + "/oracle.c"
    open(orc, "w").write('#include "tv.h"\n' + prog.oracle)
    obc = d + "/oracle.bc"
    rc, o, er = sh(["clang", "-m" + m, "-O0", "-fno-builtin", "-fwrapv", "-ffp-contract=off", "-w", "-I" + LIB,
                    *fl, "-emit-llvm", "-c", orc, "-o", obc])
    if rc != 0:
        return {"engine_error": "oracle does not compile: " + er[-800:], "violations": []}
    r = run_symex(e.symex, [ll, obc, e.dir + "/rt%s%s.bc" % ("raw" if prog.raw else "", m)], d, max_time=prog.max_time or max_time, solver_ms=solver_ms, max_steps=prog.steps, extra=("--nonterm",))
    r["confirmed"] = []
    r["unconfirmed"] = []
    if "engine_error" in r and sh([LLVM + "/bin/opt", "-passes=verify", "-disable-output", ll])[0] not in (0, None):
        er = sh([LLVM + "/bin/opt", "-passes=verify", "-disable-output", ll])[2]
        del r["engine_error"]
        r["confirmed"].append(("%s [%s]: the compiler emits invalid code" % (prog.name, " ".join(opts)), keep_replay(prog, opts, d, "invalid", None, er), er[-600:]))
    for v in dedupe(r.get("violations", [])):
        ok, text = tv_replay(e, d, name, ll, orc, m, fl, v, prog.raw)
        title = "%s [%s]: %s: %s" % (prog.name, " ".join(opts), v["kind"], v["msg"])
        if ok:
            r["confirmed"].append((title, keep_replay(prog, opts, d, v["msg"], v["cex"], text), text))
        else:
            r["unconfirmed"].append(title + " " + v.get("where", "") + " :: " + text)
    if not os.environ.get("VF_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return r


def dedupe(vs):
    seen, out = set(), []
    for v in vs:
        k = (v["kind"], v["msg"], v["where"] if v["kind"] != "assert" else "")
        if k not in seen:
            seen.add(k)
            out.append(v)
    return out


def keep_replay(prog, opts, d, msg, cex, text):
    h = hashlib.sha1((prog.name + " ".join(opts) + msg).encode()).hexdigest()[:10]
    rd = os.path.join(VERIF, "evidence", "replay", sanitize(prog.name) + opt_name(opts) + "-" + h)
    shutil.rmtree(rd, ignore_errors=True)
    os.makedirs(rd)
    if isinstance(prog.pas, dict):
        for k, v in prog.pas.items():
            open(rd + "/" + k, "w", encoding="latin1").write(v)
    else:
        open(rd + "/prog.pas", "w", encoding="latin1").write(prog.pas)
    open(rd + "/oracle.c", "w").write('#include "tv.h"\n' + (prog.oracle or ""))
    if cex and os.path.exists(cex):
        shutil.copy(cex, rd + "/cex.txt")
    open(rd + "/README", "w").write("options: %s\n%s\n%s\n" % (" ".join(opts), msg, text))
    return rd


def tv_replay(e, d, name, ll, orc, m, fl, v, raw=False):
    """Run the compiled program and the oracle natively on the counterexample.  Confirmed when they differ."""
    exe, ora = d + "/prog.exe", d + "/ora.exe"
    if not os.path.exists(ora):
        rc, o, er = sh(["clang", "-m" + m, "-O1", "-fwrapv", "-ffp-contract=off", "-w", "-I" + LIB, *fl, orc, e.dir + "/o/tvo%s%s.o" % ("raw" if raw else "", m), e.dir + "/o/symn%s.o" % m, "-o", ora, "-lm"])
        if rc != 0:
            return False, "oracle link: " + er[-300:]
    lib = "libruntime-m32.a" if m == "32" else "libruntime.a"

    def link(asan):
        x = exe + ("a" if asan else "")
        if os.path.exists(x):
            return x
        src = ll
        san = []
        if asan:
            t = open(ll, encoding="latin1").read()
            t = re.sub(r"^(define .*\)[^{\n]*?)( #\d+)?((?: !dbg !\d+)?) \{$", r"\1 sanitize_address\2\3 {", t, flags=re.M)
            src = d + "/asan.ll"
            open(src, "w", encoding="latin1").write(t)
            san = ["-fsanitize=address"]
        objs = [e.dir + "/" + lib]
        if asan:
            objs = [e.src + "/runtime/%s.c" % o for o in e.runtime_objs]
        rc, o, er = sh(["clang", "-m" + m, "-O0", "-no-pie", "-w", *san, src, *([] if raw else [e.dir + "/o/tvn%s.o" % m, e.dir + "/o/symn%s.o" % m]), *objs, "-o", x, "-lm",
                        "-Wl,--allow-multiple-definition"])
        return x if rc == 0 else None
    env_ = dict(os.environ, SYM_CEX=v["cex"], ASAN_OPTIONS="detect_leaks=0")
    run = d + "/run"
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    orc_, oo, oe = sh([ora], timeout=10, env=env_, cwd=run)
    if orc_ == 77:
        return False, "the oracle's assumptions do not hold natively"
    x = link(False)
    if not x:
        return True, "the generated module does not assemble and link (see the message of the solver run: %s)" % v["msg"]
    inp = open(run + "/stdin.bin", "rb").read() if os.path.exists(run + "/stdin.bin") else b""
    prun = run + ".prog"

    def scratch():
        shutil.rmtree(prun, ignore_errors=True)
        os.makedirs(prun)
        return prun
    prc, po, pe = sh([x], timeout=10, env=env_, cwd=scratch(), stdin=inp)
    text = "inputs: %s\nexpected exit %s output:\n%s\nactual exit %s output:\n%s\n%s" % (
        " ".join("%s=%s" % (a, show(a, b)) for a, b in v["inputs"] if not a.startswith("~"))[:600], orc_, oo[:500], prc, po[:500], pe[-300:])
    for fn in sorted(os.listdir(run)):
        if fn == "stdin.bin":
            continue
        want = open(run + "/" + fn, "rb").read()
        got = open(prun + "/" + fn, "rb").read() if os.path.exists(prun + "/" + fn) else None
        if want != got:
            return True, "file %s: expected %r got %r\n%s" % (fn, want[:300], got if got is None else got[:300], text)
    if prc != orc_ or po != oo:
        i = 0
        a, b = oo.split("\n"), po.split("\n")
        while i < min(len(a), len(b)) and a[i] == b[i]:
            i += 1
        text = "line %d: expected %r got %r\n" % (i + 1, a[i] if i < len(a) else None, b[i] if i < len(b) else None) + text
        return True, text
    if v["kind"] != "assert":
        x = link(True)
        if x:
            prc, po, pe = sh([x], timeout=20, env=env_, cwd=scratch(), stdin=inp)
            if prc != orc_ or po != oo:
                return True, "with AddressSanitizer: exit %s\n%s\n" % (prc, pe[:800]) + text
    return False, "native run agrees with the oracle\n" + text


def show(name, hexs):
    try:
        b = bytes.fromhex(hexs)
        if name == "f64":
            import struct
            return repr(struct.unpack("<d", b)[0])
        if name in ("str",):
            return repr(b)
        return str(int.from_bytes(b, "little", signed=name in ("i32", "i64", "s8", "s16")))
    except Exception:
        return hexs


ALL_OPTS = [["-O0"], ["-O1"], ["-O2"], ["-O3"], ["-O0", "-m32"], ["-O2", "-m32"], ["-O0", "-Cr"], ["-O2", "-Cr"],
            ["-O1", "-no-memcpy"], ["-O0", "-g"]]


def run_tv(prop, progs, default_opts, budget=780, max_time=60, explanation="", bounds=None, assumptions=(), e=None, level="translation_validation", chk=None, finish=True, solver_ms=None):
    try:
        e = e or env()
    except RuntimeError as x:
        # the tree does not build: nothing can be said about the property
        print("the working tree does not build:\n" + str(x)[-3000:])
        sys.exit(2)
    wd = workdir()
    chk = chk or Check(prop, level)
    chk.bounds.update(bounds or {})
    chk.assumptions += list(assumptions)
    jobs = []
    for p in progs:
        for o in (p.opts if p.opts is not None else default_opts):
            jobs.append((p, o))
    skipped = []

    def work(job):
        p, o = job
        if left(budget) < 5:
            skipped.append("%s %s" % (p.name, o))
            return None
        try:
            return tv_unit(e, p, o, wd, max_time=min(max_time, max(5, left(budget))), solver_ms=solver_ms or (30000 if THOROUGH else 8000))
        except Exception as x:  # noqa
            return {"engine_error": "driver: %r" % x, "violations": []}
    only = os.environ.get("VF_ONLY")
    if only:
        jobs = [j for j in jobs if re.search(only, j[0].name)]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [(j, ex.submit(work, j)) for j in jobs]
        for (p, o), f in futs:
            r = f.result()
            if r is None:
                continue
            nm = "%s [%s]" % (p.name, " ".join(o))
            chk.add(r, nm)
            for t, rp, det in r.get("confirmed", []):
                chk.violation(t, rp, det)
            chk.unconfirmed += r.get("unconfirmed", [])
            if os.environ.get("VF_V"):
                print(nm, "paths", r.get("paths"), "q", r.get("queries"), "solver %.1f" % r.get("solver_s", 0), "wall %.1f" % r.get("wall_s", 0),
                      r.get("incomplete") or "", r.get("engine_error", "")[:200])
    for s in skipped[:50]:
        chk.notes.append("not reached in time: " + s)
    if skipped:
        chk.incomplete["units not reached in time"] = len(skipped)
    rnd = random.Random(SEED)
    for p in rnd.sample(progs, min(3, len(progs))):
        chk.samples.append({"program": p.name, "source": (p.pas if isinstance(p.pas, str) else str(p.pas))[:1500], "oracle": p.oracle[:1000]})
    if not finish:
        return chk
    chk.finish(explanation)
