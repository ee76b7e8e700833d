#!/usr/bin/env python3
"""Builds AmpGen (from /repo's current working tree) and the harnesses, outside /repo.

Objects are cached by content (source + every header they included + flags), so a rebuild
after any change in /repo recompiles exactly what the change reaches, whatever the mtimes say.
"""
import concurrent.futures as cf, hashlib, json, os, subprocess, sys, threading

REPO = "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "build")
CXX = "/usr/bin/g++"
_hash_cache, _lock = {}, threading.Lock()

# sources that need CERN ROOT (compiled against stubs/root) and are only linked on request
ROOT_SRC = set("""BinDT Chi2Estimator CoherentSum DalitzIntegrator DiscreteDistribution ErrorPropagator
  EventList EventListSIMD FastDT FitFraction Generator IncoherentSum Integrator Kinematics LASSO
  MatrixElement PartialWidthConstraint PhaseSpace PolarisedSum Projection RecursivePhaseSpace
  ThreeBodyCalculators TreePhaseSpace TreeReader FitResult""".split())
SKIP = set()

DEFS = ['-DAMPGENROOT="/repo"', '-DAMPGENROOT_CMAKE="/repo/_build/bin"', '-DAMPGEN_CXX="/usr/bin/g++"',
        '-DAMPGEN_CXX_FLAGS=""', '-DAMPGEN_OPENMP_FLAGS="-fopenmp"', '-DENABLE_AVX=1', '-DENABLE_FITTING=OFF',
        '-DINSTRUCTION_SET=2', '-DUSE_MVEC=1', '-DHAVE_AVX2_INSTRUCTIONS', '-DNDEBUG']
INCS = ["-I" + REPO, "-I" + os.path.join(HERE, "build"), "-I" + os.path.join(HERE, "stubs/root"), "-I" + os.path.join(HERE, "harness")]
BASE = ["-std=c++17", "-fPIC", "-mavx2", "-mfma", "-w", "-fopenmp", "-pthread"]
LIBFLAGS = ["-O1", "-ftree-vectorize", "-ffast-math", "-fno-finite-math-only"]
HARNFLAGS = ["-O1"]
SAN = os.environ.get("VERIF_SAN", "")  # developer option: sanitised build, e.g. VERIF_SAN=address,undefined
if SAN:
    OUT = OUT + "-san"
    BASE += ["-fsanitize=" + SAN, "-fno-sanitize=vptr", "-fno-omit-frame-pointer", "-g1"]


def fhash(path):
    with _lock:
        if path in _hash_cache:
            return _hash_cache[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _lock:
        _hash_cache[path] = h
    return h


def compile_one(src, flags):
    """Returns (object path or None, error text)."""
    cmd = [CXX] + BASE + flags + DEFS + INCS
    key = hashlib.sha256(("\0".join(cmd) + "\0" + src + "\0" + fhash(src)).encode()).hexdigest()[:24]
    objdir = os.path.join(OUT, "obj")
    os.makedirs(objdir, exist_ok=True)
    man = os.path.join(objdir, key + ".json")
    try:
        entries = json.load(open(man))
    except Exception:
        entries = []
    for e in entries:
        if os.path.exists(e["obj"]) and all(fhash(d) == h for d, h in e["deps"].items()):
            return e["obj"], ""
    tag = "%d.%d" % (os.getpid(), threading.get_ident())
    tmpo, tmpd = os.path.join(objdir, tag + ".o"), os.path.join(objdir, tag + ".d")
    p = subprocess.run(cmd + ["-MD", "-MF", tmpd, "-c", src, "-o", tmpo], capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr
    deps = open(tmpd).read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = {os.path.realpath(d): None for d in deps if not d.startswith(("/usr/include", "/usr/lib"))}
    deps = {d: fhash(d) for d in deps}
    ident = hashlib.sha256((key + json.dumps(deps, sort_keys=True)).encode()).hexdigest()[:24]
    obj = os.path.join(objdir, ident + ".o")
    os.replace(tmpo, obj)
    os.unlink(tmpd)
    entries = ([{"obj": obj, "deps": deps}] + [e for e in entries if os.path.exists(e["obj"]) and e["obj"] != obj])[:4]
    with open(man + tag, "w") as f:
        json.dump(entries, f)
    os.replace(man + tag, man)
    return obj, ""


def version_header():
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    p = os.path.join(HERE, "build", "AmpGenVersion.h")
    txt = "#define AMPGEN_MAJOR_VERSION 2\n#define AMPGEN_MINOR_VERSION 1\n"
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)


def sources():
    core, root = [], []
    for d, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if not f.endswith(".cpp"):
                continue
            base = f[:-4]
            if base in SKIP:
                continue
            (root if base in ROOT_SRC and d.endswith("src") else core).append(os.path.join(d, f))
    return sorted(core), sorted(root)


def link_shared(objs, prefix, extra):
    ident = hashlib.sha256("\0".join(objs + extra).encode()).hexdigest()[:20]
    so = os.path.join(OUT, "lib%s-%s.so" % (prefix, ident))
    if not os.path.exists(so):
        tmp = so + ".%d.tmp" % os.getpid()
        subprocess.run([CXX, "-shared", "-fopenmp"] + (["-fsanitize=" + SAN] if SAN else []) + ["-o", tmp] + objs + extra, check=True)
        os.replace(tmp, so)
    return so


def is_root(src_text):
    return "HARNESS_NEEDS_ROOT_PART" in src_text


def build(harness_srcs, verbose=True):
    """Builds the given harness sources; returns {src: exe or None}, list of messages."""
    version_header()
    core, root = sources()
    need_root = any(is_root(open(h).read()) for h in harness_srcs)
    jobs = [(s, LIBFLAGS) for s in core + (root if need_root else [])] + [(h, HARNFLAGS) for h in harness_srcs]
    # big ones first
    jobs.sort(key=lambda j: -(10**9 if j[0] in harness_srcs else os.path.getsize(j[0])))
    msgs, objs = [], {}
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for (s, _), (o, err) in zip(jobs, ex.map(lambda j: compile_one(*j), jobs)):
            objs[s] = o
            if o is None:
                msgs.append("failed to compile %s:\n%s" % (s, err[:4000]))
    libs = ["-ldl", "-lgsl", "-lgslcblas", "-lmvec", "-lm", "-lpthread", "-lstdc++fs"]
    core_objs = [objs[s] for s in core]
    if any(o is None for o in core_objs):
        return {h: None for h in harness_srcs}, msgs
    core_so = link_shared(core_objs, "core", libs)
    root_so = link_shared([objs[s] for s in root if objs.get(s)], "root", [core_so] + libs) if need_root else None
    exes = {}
    for h in harness_srcs:
        if objs[h] is None:
            exes[h] = None
            continue
        l = ([root_so] if root_so and is_root(open(h).read()) else []) + [core_so]
        ident = hashlib.sha256("\0".join([objs[h]] + l).encode()).hexdigest()[:16]
        exe = os.path.join(OUT, os.path.basename(h)[:-4] + "-" + ident)
        if not os.path.exists(exe):
            cmd = [CXX, "-fopenmp"] + (["-fsanitize=" + SAN] if SAN else []) + ["-rdynamic", "-o", exe + ".tmp%d" % os.getpid(), objs[h]] + l + \
                ["-Wl,--no-as-needed,-z,lazy,--unresolved-symbols=ignore-in-shared-libs", "-Wl,-rpath," + OUT] + libs + ["-lutil"]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode != 0:
                msgs.append("failed to link %s:\n%s" % (h, p.stderr[:4000]))
                exes[h] = None
                continue
            os.replace(exe + ".tmp%d" % os.getpid(), exe)
        exes[h] = exe
    return exes, msgs


def all_harnesses():
    d = os.path.join(HERE, "harness")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]


if __name__ == "__main__":
    hs = all_harnesses() if len(sys.argv) < 2 else [os.path.abspath(a) for a in sys.argv[1:]]
    exes, msgs = build(hs)
    for m in msgs:
        print(m, file=sys.stderr)
    for h, e in exes.items():
        print(h, "->", e)
    sys.exit(0 if all(exes.values()) else 2)
