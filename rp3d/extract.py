"""Builds the extractor (once) and dumps the resolved program of /repo's *current* source for one configuration."""
import hashlib, json, os, subprocess, sys, glob, fcntl, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RP3D_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL_SRC = os.path.join(VERIF, "tool", "rp3dx.cpp")
LLVM = "/usr/lib/llvm-18"

CONFIGS = {
    "single": [],
    "double": ["-DIS_RP3D_DOUBLE_PRECISION_ENABLED"],
    "ndebug": ["-DNDEBUG"],
    "profile": ["-DIS_RP3D_PROFILING_ENABLED"],
}
BASEFLAGS = ["-std=c++17", "-resource-dir", LLVM + "/lib/clang/18", "-fno-exceptions", "-w"]
BASEFLAGS.remove("-fno-exceptions")

class AnalysisBroken(Exception):
    pass

def _lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(TOOL_SRC, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "rp3dx-" + h)
    if os.path.exists(exe):
        return exe
    with _lock("tool"):
        if os.path.exists(exe):
            return exe
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = ["/usr/bin/g++", "-std=c++17", "-O1", "-w", "-fno-rtti", "-I" + LLVM + "/include", TOOL_SRC, "-o", tmp,
               LLVM + "/lib/libclang-cpp.so.18.1", "-L" + LLVM + "/lib", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisBroken("cannot build the extractor:\n" + r.stdout[-3000:])
        os.replace(tmp, exe)
    return exe

def sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx")):
                out.append(os.path.join(root, f))
    return out

def tree_hash():
    h = hashlib.sha256()
    for base in ("src", "include"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:20]

def dump(config, extra_tu=True):
    """returns the list of dump files"""
    exe = build_tool()
    tag = hashlib.sha256((tree_hash() + config + os.path.basename(exe) + REPO).encode())
    inst = os.path.join(VERIF, "tool", "instantiate.cpp")
    if os.path.exists(inst):
        tag.update(open(inst, "rb").read())
    tag = tag.hexdigest()[:20]
    cdir = os.path.join(BUILD, "facts", config + "-" + tag)
    done = os.path.join(cdir, "done")
    if not os.path.exists(done):
        with _lock("facts-" + config):
            if not os.path.exists(done):
                # drop older dumps of this configuration (disk)
                for old in sorted(glob.glob(os.path.join(BUILD, "facts", config + "-*")), key=os.path.getmtime)[:-3]:
                    shutil.rmtree(old, ignore_errors=True)
                os.makedirs(cdir, exist_ok=True)
                files = sources()
                if os.path.exists(inst):
                    files.append(inst)
                n = min(8, max(1, os.cpu_count() or 1))
                # balance by size
                bins = [[0, []] for _ in range(n)]
                for f in sorted(files, key=lambda p: -os.path.getsize(p)):
                    b = min(bins, key=lambda x: x[0]); b[0] += os.path.getsize(f) + 20000; b[1].append(f)
                procs = []
                for i, (_, fl) in enumerate(bins):
                    if not fl: continue
                    outp = os.path.join(cdir, "part%d.jsonl" % i)
                    cmd = [exe, REPO, outp] + fl + ["--"] + BASEFLAGS + CONFIGS[config] + ["-I" + REPO + "/include"]
                    procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), fl))
                for p, fl in procs:
                    o, _ = p.communicate()
                    if p.returncode:
                        raise AnalysisBroken("extractor failed on %s:\n%s" % (fl, o[-3000:]))
                with open(done, "w") as f:
                    f.write("\n".join(files))
    return sorted(glob.glob(os.path.join(cdir, "part*.jsonl"))), open(done).read().split("\n")

if __name__ == "__main__":
    build_tool()
    if len(sys.argv) > 1 and sys.argv[1] != "--setup":
        for c in sys.argv[1:]:
            t = time.time(); dump(c); print(c, "%.1fs" % (time.time() - t))
