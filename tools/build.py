"""Builds libsim.so and the simulation executable from /repo's current working tree.

Objects are cached by content (source + every file it included + flags), so a rebuild after a
change recompiles what the change reaches.  Nothing under /repo is written or relied on except its
tracked sources."""
import hashlib, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AMPSIM_REPO", "/repo")
OUT = os.environ.get("AMPSIM_BUILD", os.path.join(VERIF, "_build"))
# sources that cannot compile here because they need CERN ROOT's (or Minuit2's) headers
NO_ROOT = set("""BinDT Chi2Estimator CoherentSum DalitzIntegrator DiscreteDistribution ErrorPropagator EventList
EventListSIMD EventType ExpressionParser FastDT FitFraction Generator IncoherentSum Integrator Kinematics LASSO
MatrixElement PartialWidthConstraint PhaseSpace PolarisedSum Projection RecursivePhaseSpace ThreeBodyCalculators
TreePhaseSpace TreeReader Minimiser FitResult""".split())
# of those, the ones the model checks build against stand-ins for ROOT's classes (rootstub/)
MODEL = set("""BinDT Chi2Estimator CoherentSum DiscreteDistribution EventList EventListSIMD EventType ExpressionParser FastDT FitFraction Generator
ErrorPropagator FitResult Minimiser IncoherentSum Integrator MatrixElement PhaseSpace PolarisedSum Projection TreePhaseSpace TreeReader
DalitzIntegrator Kinematics LASSO PartialWidthConstraint RecursivePhaseSpace ThreeBodyCalculators""".split())
# programs run as a whole by the model checks: their main() becomes app_<name>()
APPS = ["AmpGen", "Fitter", "DataConverter"]
CXX = "/usr/bin/g++"

class BuildError(Exception): pass

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def fhash(p, memo={}):
    try:
        st = os.stat(p); k = (p, st.st_mtime_ns, st.st_size)
        if k not in memo: memo[k] = hashlib.sha1(open(p, "rb").read()).hexdigest()
        return memo[k]
    except OSError:
        return "missing"

def repo_defs():
    return ['-DAMPGENROOT="%s"' % REPO, '-DAMPGENROOT_CMAKE="%s"' % OUT, '-DAMPGEN_CXX="%s"' % CXX, '-DAMPGEN_CXX_FLAGS=""',
            '-DAMPGEN_OPENMP_FLAGS=""', '-DENABLE_AVX=1', '-DENABLE_FITTING=OFF', '-DINSTRUCTION_SET=2', '-DUSE_MVEC=1',
            '-DNDEBUG', '-DHAVE_AVX2_INSTRUCTIONS', '-DAMPGEN_SIM=1', '-I' + REPO, '-I' + os.path.join(OUT, "gen")]

SIMFLAGS = ["-std=c++17", "-O2", "-g1", "-fPIC", "-Wno-misleading-indentation", "-Wno-tsan", "-fno-threadsafe-statics"]
REPOFLAGS = ["-std=c++17", "-O1", "-g1", "-fPIC", "-mfma", "-mavx2", "-ffast-math", "-fno-finite-math-only", "-fopenmp",
             "-fsanitize=thread", "-fno-omit-frame-pointer", "-Wno-tsan", "-w"]

def compile_one(src, flags, main=None):
    """object path for src, compiled if no cached object has the same inputs; main: the name its main() gets"""
    tag = hashlib.sha1((src + "\0" + "\0".join(flags) + (main or "")).encode()).hexdigest()[:20]
    d = os.path.join(OUT, "obj"); obj = os.path.join(d, tag + ".o"); dep = obj + ".deps"
    if os.path.exists(obj) and os.path.exists(dep):
        ok = all(fhash(p) == h for h, p in (l.rstrip("\n").split(" ", 1) for l in open(dep)))
        if ok: return obj, False
    mk = obj + ".d"; tmp = obj + ".%d.tmp" % os.getpid()
    rc, out = sh([CXX] + flags + ["-MMD", "-MF", mk, "-c", src, "-o", tmp])
    if rc: raise BuildError("compiling %s failed:\n%s" % (src, out[-4000:]))
    if main:
        rc, out = sh(["objcopy", "--redefine-sym", "main=" + main, tmp])
        if rc: raise BuildError("renaming main() of %s failed:\n%s" % (src, out[-4000:]))
    names = re.sub(r"\\\n", " ", open(mk).read()).split(":", 1)[1].split()
    names = [n for n in names if n.startswith((REPO, VERIF, OUT)) or not n.startswith("/usr")]
    with open(dep, "w") as f:
        for n in sorted(set(names)): f.write("%s %s\n" % (fhash(n), n))
    os.replace(tmp, obj); os.remove(mk)
    return obj, True

def gen_version():
    g = os.path.join(OUT, "gen"); os.makedirs(g, exist_ok=True)
    txt = open(os.path.join(REPO, "AmpGen", "Version.h.in")).read() if os.path.exists(os.path.join(REPO, "AmpGen", "Version.h.in")) else ""
    m = re.search(r"project\(AmpGen[^)]*VERSION\s+(\d+)(?:\.(\d+))?", open(os.path.join(REPO, "CMakeLists.txt")).read())
    a, b = (m.group(1), m.group(2) or "0") if m else ("0", "0")
    txt = re.sub(r"@\w*MAJOR\w*@", a, txt); txt = re.sub(r"@\w*MINOR\w*@", b, txt); txt = re.sub(r"@\w+@", "", txt)
    p = os.path.join(g, "AmpGenVersion.h")
    if not os.path.exists(p) or open(p).read() != txt: open(p, "w").write(txt)

def repo_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if f.endswith((".cpp", ".cc", ".cxx")) and not (d == os.path.join(REPO, "src") and f[:-4] in NO_ROOT): out.append(os.path.join(d, f))
    return sorted(out)

def model_sources():
    return [p for p in (os.path.join(REPO, "src", n + ".cpp") for n in sorted(MODEL)) if os.path.exists(p)]

def app_sources():
    return [p for p in (os.path.join(REPO, "apps", n + ".cpp") for n in APPS) if os.path.exists(p)]

def build(log=lambda s: None, jobs=None, model=False):
    """the executable of the checks; model: of those in checks/model, with the sources that need ROOT"""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True); gen_version()
    simsrc = [os.path.join(VERIF, "sim", f) for f in ("sched.cpp", "sync.cpp", "tsan.cpp", "gomp.cpp", "io.cpp", "driver.cpp")]
    cdir = os.path.join(VERIF, "checks", "model" if model else "")
    checks = sorted(os.path.join(cdir, f) for f in os.listdir(cdir) if f.endswith(".cpp"))
    rf = REPOFLAGS + repo_defs()
    jl = [(s, SIMFLAGS) for s in simsrc] + [(os.path.join(VERIF, "sim", "main.cpp"), SIMFLAGS)]
    stub = "-I" + os.path.join(VERIF, "rootstub"); sources = repo_sources() + (model_sources() + app_sources() if model else [])
    cf = rf + ["-I" + os.path.join(VERIF, "checks"), stub] if model else rf
    jl += [(s, cf + ["-I" + os.path.join(VERIF, "sim")]) for s in checks] + [(s, rf) for s in repo_sources()]
    if model: jl += [(s, rf + [stub]) for s in model_sources()] + [(s, rf + [stub], "app_" + os.path.basename(s)[:-4]) for s in app_sources()]
    big = lambda j: -os.path.getsize(j[0]) - (10**7 if "/checks/" in j[0] else 0)
    jl.sort(key=big)
    with ThreadPoolExecutor(jobs or os.cpu_count()) as ex:
        res = dict(zip([j[0] for j in jl], ex.map(lambda j: compile_one(*j), jl)))
    fresh = any(r[1] for r in res.values())
    lib = os.path.join(OUT, "libsim.so"); exe = os.path.join(OUT, "ampsim_model" if model else "ampsim")
    stamp = hashlib.sha1("\n".join(sorted(fhash(r[0]) for r in res.values())).encode()).hexdigest()
    sp = os.path.join(OUT, "link_model.stamp" if model else "link.stamp")
    if fresh or not os.path.exists(exe) or not os.path.exists(sp) or open(sp).read() != stamp:
        rc, out = sh([CXX, "-shared", "-Wl,-Bsymbolic", "-o", lib] + [res[s][0] for s in simsrc] + ["-ldl", "-lpthread"])
        if rc: raise BuildError("linking libsim.so failed:\n" + out[-4000:])
        ar = os.path.join(OUT, "libampgen_model.a" if model else "libampgen.a")
        if os.path.exists(ar): os.remove(ar)
        rc, out = sh(["ar", "rcs", ar] + [res[s][0] for s in sources])
        if rc: raise BuildError(out)
        rc, out = sh([CXX, "-rdynamic", "-o", exe, res[os.path.join(VERIF, "sim", "main.cpp")][0]] + [res[s][0] for s in checks] +
                     ["-Wl,--no-as-needed", lib, "-Wl,--as-needed", "-Wl,--whole-archive", ar, "-Wl,--no-whole-archive", "-Wl,-rpath," + OUT, "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy",
                      "-lgsl", "-lgslcblas", "-lmvec", "-lm", "-ldl", "-lpthread"])
        if rc: raise BuildError("linking ampsim failed:\n" + out[-4000:])
        open(sp, "w").write(stamp)
    return exe, stamp

if __name__ == "__main__":
    import time; t = time.time()
    try: print(build(model="model" in sys.argv), "%.1fs" % (time.time() - t))
    except BuildError as e: print(e); sys.exit(2)
