"""Symbolic execution of the compiler's own C++ sources (front end kernels) with a C++ harness."""
import os
import sys
import threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import *  # noqa
import vf

FLAGS = ["-std=c++17", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DNDEBUG=1", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
         "-fno-pic", "-fno-exceptions", "-fno-rtti", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-builtin", "-w", "-I" + LIB, "-I" + LLVM + "/include"]


LOCK = threading.Lock()


class Unit:
    def __init__(self, name, harness, sources, replay, max_time=60, steps=3000000, solver_ms=20000, tags=()):
        self.name, self.harness, self.sources, self.replay = name, harness, tuple(sources), replay
        self.max_time, self.steps, self.solver_ms, self.tags = max_time, steps, solver_ms, tags


def bitcode(e, sources):
    """bitcode of the named source files of the working tree and of the support code; None when one does not compile alone"""
    sup = [LIB + "/cxxstub.cpp", LIB + "/minilibc.c", LIB + "/minilibc.h", LIB + "/sym.h"]
    d = os.path.join(vf.BUILD, "fe-" + fhash(sup, os.path.basename(e.dir) + " ".join(sources) + repr(FLAGS)))

    def make(tmp):
        os.makedirs(tmp, exist_ok=True)
        open(tmp + "/str.cpp", "w").write("#include <string>\nnamespace std { template class __cxx11::basic_string<char>; }\n")
        cmds = [["clang++", *FLAGS, "-I" + e.src, "-emit-llvm", "-c", e.src + "/" + s, "-o", tmp + "/" + s + ".bc"] for s in sources]
        cmds.append(["clang++", *FLAGS, "-emit-llvm", "-c", LIB + "/cxxstub.cpp", "-o", tmp + "/stub.bc"])
        cmds.append(["clang++", *FLAGS, "-emit-llvm", "-c", tmp + "/str.cpp", "-o", tmp + "/str.bc"])
        cmds.append(["clang", "-O1", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w", "-I" + LIB, "-emit-llvm", "-c", LIB + "/minilibc.c", "-o", tmp + "/ml.bc"])
        par([lambda c=c: must(c) for c in cmds])
        must([LLVM + "/bin/llvm-link", "-o", tmp + "/all.bc"] + [tmp + "/" + s + ".bc" for s in sources] + [tmp + "/stub.bc", tmp + "/str.bc", tmp + "/ml.bc"])
    atomically(d, make)
    return d + "/all.bc"


def run_units(chk, e, units, budget=700):
    """Solver runs of all units; a counterexample counts when replay() confirms it on the real compiler."""
    wd = workdir()
    only = os.environ.get("VF_ONLY")
    if only:
        units = [u for u in units if re.search(only, u.name)]

    def work(u):
        if left(budget) < 5:
            return None
        d = wd + "/" + sanitize(u.name)
        os.makedirs(d, exist_ok=True)
        open(d + "/h.cpp", "w").write(u.harness)
        try:
            with LOCK:
                bc = bitcode(e, u.sources)
        except RuntimeError as x:
            return {"skip": str(x)[-400:]}
        rc, o, er = sh(["clang++", *FLAGS, "-I" + e.src, "-emit-llvm", "-c", d + "/h.cpp", "-o", d + "/h.bc"])
        if rc != 0:
            return {"skip": er[-600:]}
        r = run_symex(e.symex, [d + "/h.bc", bc], d, max_time=min(u.max_time, max(5, left(budget))), solver_ms=u.solver_ms, max_steps=u.steps, extra=("--nonterm", "--ctors"))
        r["confirmed"], r["unconfirmed"] = [], []
        for v in dedupe(r.get("violations", [])):
            ok, text, files = u.replay(e, d, v)
            title = "%s: %s: %s" % (u.name, v["kind"], v["msg"])
            if ok:
                rd = os.path.join(VERIF, "evidence", "replay", sanitize(u.name) + "-" + hashlib.sha1(title.encode()).hexdigest()[:10])
                shutil.rmtree(rd, ignore_errors=True)
                os.makedirs(rd)
                for fn, t in files.items():
                    open(rd + "/" + fn, "wb").write(t if isinstance(t, bytes) else t.encode("latin1"))
                open(rd + "/README", "w").write(title + "\n" + text + "\n")
                r["confirmed"].append((title, rd, text))
            else:
                r["unconfirmed"].append("%s :: %s" % (title, text[:500]))
        return r

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for u, f in [(u, ex.submit(work, u)) for u in units]:
            r = f.result()
            if r is None:
                chk.incomplete["units not reached in time"] = chk.incomplete.get("units not reached in time", 0) + 1
                continue
            if "skip" in r:
                # an interface of the front end that the harness relies on has changed: nothing is claimed for this unit
                chk.notes.append("not encoded: %s: %s" % (u.name, r["skip"]))
                print("  not encoded:", u.name, r["skip"].replace("\n", " ")[:200])
                continue
            chk.add(r, u.name)
            for t, rp, det in r["confirmed"]:
                chk.violation(t, rp, det)
            chk.unconfirmed += r["unconfirmed"]
            if os.environ.get("VF_V"):
                print(u.name, "paths", r.get("paths"), "q", r.get("queries"), "solver %.1f" % r.get("solver_s", 0), "wall %.1f" % r.get("wall_s", 0), r.get("incomplete") or "", r.get("engine_error", "")[:200])
    return chk


def run_program(e, d, pas, opts=("-O0",)):
    """(exit status of the compiler, its messages, exit status and output of the program) of a source compiled by the real compiler"""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/r.pas", "wb").write(pas if isinstance(pas, bytes) else pas.encode("latin1"))
    rc, o, er = sh([e.lacsap, *opts, "r.pas"], timeout=60, cwd=d)
    if rc != 0 or not os.path.exists(d + "/r"):
        return rc or 1, o + er, None, ""
    r, po, pe = sh([d + "/r"], timeout=20, cwd=d)
    return 0, o + er, r, po


def inputs(v):
    return {a: b for a, b in v["inputs"]}
