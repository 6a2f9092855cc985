"""Build the clang dumper if needed and load resolved ASTs of /repo translation units."""
import hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QSA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(BUILD, "cxxdump")
LLVM = "/usr/lib/llvm-18"


class AnalysisError(Exception):
    """the analysis could not be carried out (not a verdict)"""


def build_tool():
    src = os.path.join(VERIF, "tools", "cxxdump.cpp")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = TOOL + ".key"
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = TOOL + ".%d" % os.getpid()
    cmd = [LLVM + "/bin/clang++", "-std=c++17", "-fno-rtti", "-O1", "-w", "-I" + LLVM + "/include", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so"]
    if not os.path.exists(cmd[0]):
        cmd[0] = "clang++"
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("building cxxdump failed: " + r.stderr[-2000:])
    os.replace(tmp, TOOL)
    open(stamp, "w").write(key)


def base_flags():
    return ["-std=gnu++17", "-resource-dir", LLVM + "/lib/clang/18", "-w", "-DEIGEN_DONT_VECTORIZE", "-D_GUN_SOURCE",
            "-I" + REPO + "/include", "-I/usr/include/eigen3", "-I/usr/include/eigen3/unsupported"]


PYF = ["-isystem", "/usr/include/python3.12", "-isystem", "/opt/vp/deps/pybind11-2.10.3/pybind11/include", "-DpyQDD_EXPORTS"]
MPIF = ["-DisMPI", "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]

UNITS = {
    "def": ("src/dd.cpp", ["-DNDEBUG"]),
    "mt": ("src/dd.cpp", ["-DNDEBUG", "-DisMT"]),
    "mtt": ("src/task.cpp", ["-DNDEBUG", "-DisMT"]),
    "mpi": ("src/dd.cpp", MPIF),
    "defb": ("qdd/bindings.cpp", ["-DNDEBUG"] + PYF),
    "mtb": ("qdd/bindings.cpp", ["-DNDEBUG", "-DisMT"] + PYF),
    "mpib": ("qdd/bindings.cpp", PYF + MPIF),
}


def _key(unit):
    h = hashlib.sha256()
    rel, fl = UNITS[unit]
    h.update(open(os.path.join(VERIF, "tools", "cxxdump.cpp"), "rb").read())
    h.update(repr((REPO, rel, fl)).encode())
    files = [os.path.join(REPO, rel)]
    inc = os.path.join(REPO, "include")
    for d, _, fs in sorted(os.walk(inc)):
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def load_units(names):
    """-> {unit: json}; dumps run in parallel, results cached by source hash in build/"""
    build_tool()
    procs = {}
    paths = {}
    for u in names:
        rel, fl = UNITS[u]
        src = os.path.join(REPO, rel)
        if not os.path.exists(src):
            raise AnalysisError("missing source " + src)
        p = os.path.join(BUILD, f"{u}-{_key(u)}.json")
        paths[u] = p
        if not os.path.exists(p):
            for old in os.listdir(BUILD):
                if old.startswith(u + "-") and old.endswith(".json"):
                    try:
                        if time.time() - os.path.getmtime(os.path.join(BUILD, old)) > 3600:
                            os.unlink(os.path.join(BUILD, old))
                    except OSError:
                        pass
            tmp = p + f".{os.getpid()}.tmp"
            procs[u] = (tmp, subprocess.Popen([TOOL, tmp, REPO + "/", src, "--"] + base_flags() + fl,
                                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    for u, (tmp, pr) in procs.items():
        out, err = pr.communicate()
        if pr.returncode or not os.path.exists(tmp):
            raise AnalysisError(f"parsing {UNITS[u][0]} ({u}) failed: {err[-1500:]}")
        os.replace(tmp, paths[u])
    return {u: json.load(open(p)) for u, p in paths.items()}
