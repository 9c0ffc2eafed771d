"""Builds /repo's working tree (against the overlay and the stand-ins) plus the
harnesses of /verif, with the sanitizers on.  ninja + depfiles, in /verif/build."""
import hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OVERLAY = os.path.join(BUILD, "overlay")

SUBDIRS = ["common", "common/data", "physics", "physics/electromagnetics",
           "physics/fluidflow", "physics/thermal", "utils", "utils/mesh_warper"]

# translation units of /repo that are not in its own CMake lists and cannot be
# compiled (they include headers that are not in the repository)
SKIP = {"common/equation_solver.cpp", "physics/fluidflow/advection.cpp",
        "physics/fluidflow/euler.cpp", "physics/fluidflow/navier_stokes.cpp",
        "physics/thermal/therm_integ.cpp", "physics/thermal/temp_integ.cpp",
        "physics/thermal/thermal_verify.cpp"}

SAN = ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
       "-fno-sanitize=vptr -fno-sanitize-recover=all")
CONFIGS = {
    "san": SAN,
    "plain": "-O1 -g1",
}

def mpi_flags(kind):
    out = subprocess.run(["mpicxx", f"--showme:{kind}"], capture_output=True, text=True)
    return out.stdout.strip()

def env():
    e = dict(os.environ)
    e.update({
        "OMPI_MCA_btl": "self", "OMPI_MCA_btl_base_warn_component_unused": "0",
        "OMPI_MCA_ess_singleton_isolated": "1", "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
        "OMP_NUM_THREADS": "1", "LC_ALL": "C.UTF-8",
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=0:detect_stack_use_after_return=0:detect_odr_violation=0",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    })
    return e

def miso_sources():
    src = os.path.join(REPO, "src")
    res = []
    for d in SUBDIRS:
        p = os.path.join(src, d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            if f.endswith(".cpp") and f"{d}/{f}" not in SKIP:
                res.append(f"{d}/{f}")
    return res

def make_overlay():
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, ".overlay.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(OVERLAY, "OK")
        srcs = [os.path.join(VERIF, "shim", f) for f in ("make_overlay.py", "nonlininteg_odl.hpp")]
        if os.path.exists(stamp) and any(os.path.getmtime(s) > os.path.getmtime(stamp) for s in srcs):
            os.remove(stamp)
        subprocess.run([sys.executable, srcs[0], OVERLAY], check=True)

def inc_flags():
    i = [f"-I{OVERLAY}", f"-I{OVERLAY}/mfem", f"-I{VERIF}/shim", f"-I{VERIF}/vlib", f"-I{VERIF}/h",
         f"-I{REPO}"]
    i += [f"-I{REPO}/src/{d}" for d in SUBDIRS]
    i += ["-isystem /usr/include/hypre"]
    return " ".join(i)

def write_ninja(config, targets, extra_inc=""):
    """targets: {exe: {"main": [abs cpp...], "repo": [rel cpp...] or None for all,
    "flags": str, "libs": str}}.  Returns the path of the ninja file."""
    make_overlay()
    cf = CONFIGS[config]
    bdir = os.path.join(BUILD, config)
    os.makedirs(bdir, exist_ok=True)
    L = []
    L.append(f"builddir = {bdir}")
    L.append(f"cxxflags = -std=c++17 -w -Doverride= -include list {cf} {inc_flags()} {extra_inc} {mpi_flags('compile')}")
    L.append(f"ldflags = {cf} -rdynamic -L/usr/lib/x86_64-linux-gnu -lmfem -lHYPRE {mpi_flags('link')}")
    L.append("rule cxx\n  command = g++ -MMD -MF $out.d $cxxflags $flags -c $in -o $out\n"
             "  depfile = $out.d\n  deps = gcc\n  description = CXX $in")
    L.append("rule ar\n  command = rm -f $out && ar rcs $out $in\n  description = AR $out")
    L.append("rule link\n  command = g++ -o $out $in $libs $ldflags $extra\n  description = LINK $out")
    objs = {}
    def obj(src, flags=""):
        key = (src, flags)
        if key not in objs:
            o = os.path.join(bdir, "o", src.strip("/").replace("/", "__") + ("." + hashlib.md5(flags.encode()).hexdigest()[:6] if flags else "") + ".o")
            objs[key] = o
            L.append(f"build {o}: cxx {src}\n  flags = {flags}")
        return objs[key]
    shim = obj(os.path.join(VERIF, "shim", "mfem_odl.cpp"))
    libs = {}
    for name, t in targets.items():
        rs = t.get("repo")
        rs = miso_sources() if rs is None else [r for r in rs]
        lib = os.path.join(bdir, "lib", ("all" if t.get("repo") is None else name) + ".a")
        if lib not in libs:
            ro = [obj(os.path.join(REPO, "src", r)) for r in rs]
            if ro:
                L.append(f"build {lib}: ar {' '.join(ro)}")
            libs[lib] = bool(ro)
        mo = [obj(m, t.get("flags", "")) for m in t["main"]]
        exe = os.path.join(bdir, "bin", name)
        use = lib if libs[lib] else ""
        L.append(f"build {exe}: link {' '.join(mo)} {shim} | {use}\n  libs = {use}\n  extra = {t.get('libs', '')}")
        L.append(f"build {name}: phony {exe}")
    path = os.path.join(bdir, "build_" + "_".join(sorted(targets))[:80] + ".ninja")
    open(path, "w").write("\n".join(L) + "\n")
    return path

def run_ninja(path, targets, jobs=8, quiet=True):
    cmd = ["ninja", "-f", path, f"-j{jobs}"] + list(targets)
    r = subprocess.run(cmd, capture_output=quiet, text=True, env=env())
    return r.returncode, (r.stdout or "") + (r.stderr or "")

def exe(config, name):
    return os.path.join(BUILD, config, "bin", name)
