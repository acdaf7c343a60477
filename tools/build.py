#!/usr/bin/env python3
"""Builds build/<key>/tsim from /repo's working tree and /verif/sim.

Objects are named by a hash of everything that goes into them (the preprocessed
source and the command), so what is unchanged is not compiled again and what is
changed always is."""
import concurrent.futures as cf, fcntl, hashlib, os, re, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TSIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "/usr/bin/clang++"
JNI = "/usr/lib/jvm/java-17-openjdk-amd64/include"
JNI_SRC = "android/tokenizers_android/src/main/cpp"

class BuildError(Exception):
    pass

def sources():
    """the sources of /repo's library target, and the Android binding"""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    names = []
    for m in re.finditer(r"src/[\w./*-]+\.(?:cpp|cc|cxx)", txt):
        for p in sorted(glob.glob(os.path.join(REPO, m.group(0)))):
            if os.path.basename(p) not in ("run.cpp",) and p not in names:
                names.append(p)
    have = set(names)
    for p in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
        if os.path.basename(p) not in ("run.cpp", "main.cpp") and p not in have:
            names.append(p)
    for p in sorted(glob.glob(os.path.join(REPO, JNI_SRC, "*.cpp"))):
        names.append(p)
    return [p for p in names if not re.search(r"\bint\s+main\s*\(", open(p, errors="replace").read())]

def sh(cmd, what):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (what, (r.stderr or r.stdout)[-4000:]))
    return r.stdout

def compile_one(src, flags, odir):
    pre = subprocess.run([CXX] + flags + ["-E", src], capture_output=True)
    if pre.returncode:
        raise BuildError("preprocessing %s failed:\n%s" % (src, pre.stderr.decode(errors="replace")[-4000:]))
    h = hashlib.sha256(pre.stdout + "\0".join(flags + [src]).encode()).hexdigest()[:24]
    o = os.path.join(odir, os.path.basename(src) + "." + h + ".o")
    if not os.path.exists(o):
        tmp = o + ".tmp%d" % os.getpid()
        sh([CXX] + flags + ["-c", src, "-o", tmp], "compiling " + src)
        os.rename(tmp, o)
    return o

def locales():
    d = os.path.join(BUILD, "locale")
    os.makedirs(d, exist_ok=True)
    for name, inp, cm in (("tr_TR.UTF-8", "tr_TR", "UTF-8"), ("de_DE.UTF-8", "de_DE", "UTF-8"), ("tr_TR.ISO-8859-9", "tr_TR", "ISO-8859-9")):
        # glibc looks for the normalised codeset too
        if os.path.isdir(os.path.join(d, name)):
            continue
        subprocess.run(["/usr/bin/localedef", "--no-archive", "-c", "-i", inp, "-f", cm, os.path.join(d, name)], capture_output=True)
    src = "/usr/lib/locale/C.utf8"
    if os.path.isdir(src) and not os.path.exists(os.path.join(d, "C.utf8")):
        os.symlink(src, os.path.join(d, "C.utf8"))

def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    sh([sys.executable, os.path.join(VERIF, "tools", "mkshim.py"), os.path.join(BUILD, "shim")], "writing the patched headers")
    odir = os.path.join(BUILD, "o")
    os.makedirs(odir, exist_ok=True)
    inc = ["-I", os.path.join(BUILD, "shim"), "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src")]
    jni = ["-I", JNI, "-I", JNI + "/linux"]
    sut = ["-std=c++17", "-O1", "-gline-tables-only", "-fsanitize=thread", "-DTOKENIZERS_SIM", "-w"] + inc + jni
    har = ["-std=c++17", "-O1", "-g1", "-w", "-I", os.path.join(VERIF, "sim")] + inc + jni
    rtf = ["-std=c++17", "-O2", "-g1", "-w", "-I", os.path.join(VERIF, "sim")]
    jobs = [(s, sut) for s in sources()]
    nsut = len(jobs)
    for f in ("rt.cpp", "simfs.cpp"):
        jobs.append((os.path.join(VERIF, "sim", f), rtf))
    for f in ("world.cpp", "gen.cpp", "props.cpp", "jni_sim.cpp", "locale.cpp", "main.cpp"):
        jobs.append((os.path.join(VERIF, "sim", f), har))
    simd = os.path.join(BUILD, "o", "simdjson_found")
    with cf.ThreadPoolExecutor(8) as ex:
        loc = ex.submit(locales)
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], odir), jobs))
        loc.result()
    key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, "tsim-" + key)
    if not os.path.exists(exe):
        wraps = ["memcmp", "bcmp", "strlen", "memchr", "wmemcpy", "wmemmove", "wmemcmp", "wcslen"]
        cmd = [CXX, "-no-pie", "-rdynamic", "-Wl," + ",".join("--wrap=" + w for w in wraps), "-o", exe + ".tmp"]
        cmd += objs + ["/usr/lib/x86_64-linux-gnu/libsimdjson.a" if os.path.exists("/usr/lib/x86_64-linux-gnu/libsimdjson.a") else "-lsimdjson", "-licui18n", "-licuuc", "-ldl", "-lpthread"]
        sh(cmd, "linking")
        os.rename(exe + ".tmp", exe)
        old = sorted((p for p in glob.glob(os.path.join(BUILD, "tsim-*")) if not p.endswith(".tmp") and os.path.isfile(p)), key=os.path.getmtime)
        for p in old[:-6]:
            os.remove(p)
        keep = sorted(glob.glob(os.path.join(odir, "*.o")), key=os.path.getmtime)
        for p in keep[:-200]:
            os.remove(p)
    lock.close()
    return exe

if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
