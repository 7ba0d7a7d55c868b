#!/usr/bin/env python3
"""build.py FLAVOUR HARNESS.cpp [EXTRA.cpp ...]  -> prints the path of the linked explorer.

Compiles the library sources of /repo's working tree (the list is read from the CMakeLists files
under src/) and the harness.  Objects are cached by content (source + every header + flags), so a
change anywhere in /repo or /verif/lib is always seen.
"""
import fcntl, hashlib, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("HX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "build")
CXX, CC = "g++-11", "gcc-11"
MPI_INC = ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]

BASE = ["-DDEBUG", "-DHXHIM_HAVE_LEVELDB=1", "-DHXHIM_HAVE_ROCKSDB=1", "-DSYSTEM_BIG_ENDIAN=0",
        "-DHXHIM_VERIF=1", "-DOMPI_SKIP_MPICXX=1", "-w", "-fno-omit-frame-pointer", "-fPIC", "-pthread"]
FLAVOUR = {
    # repo flags, harness flags, link flags
    "asan":  (["-O1", "-g1", "-fsanitize=address"], ["-O1", "-g1", "-fsanitize=address"], ["-fsanitize=address"]),
    "mc":    (["-O1", "-g1", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-fno-builtin-memcmp"], ["-O1", "-g1"],
              ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp"]),
    "plain": (["-O1", "-g1"], ["-O1", "-g1"], []),
}

def sources():
    srcs = []
    top = os.path.join(REPO, "src")
    for d, dirs, files in os.walk(top):
        if "Thallium" in d.split(os.sep): continue
        if "CMakeLists.txt" not in files: continue
        text = open(os.path.join(d, "CMakeLists.txt"), errors="replace").read()
        text = re.sub(r"#.*", "", text)
        for m in re.finditer(r"[\w$\{\}/.\-]+\.(?:cpp|cc|cxx|c)\b", text):
            t = m.group(0).replace("${CMAKE_CURRENT_SOURCE_DIR}/", "")
            t = t.replace("${CMAKE_CURRENT_LIST_DIR}/", "")
            if "$" in t or "Thallium" in t: continue
            p = os.path.normpath(os.path.join(d, t))
            if os.path.exists(p) and p not in srcs: srcs.append(p)
    return sorted(srcs)

def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()

def headers(root):
    r = []
    for d, _, files in os.walk(root):
        for f in files:
            if re.search(r"\.(h|hpp|tpp|hh|inl|ipp)$", f): r.append(os.path.join(d, f))
    return r

def compile_one(args):
    cmd, out, src = args
    if os.path.exists(out):
        os.utime(out)
        return None
    tmp = out + ".tmp%d.o" % os.getpid()
    p = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        return "compiling %s:\n%s" % (src, p.stdout.decode(errors="replace")[-4000:])
    os.rename(tmp, out)
    return None

def prune(objdir, keep=1500):
    fs = [os.path.join(objdir, f) for f in os.listdir(objdir)]
    if len(fs) <= keep: return
    fs.sort(key=lambda p: os.path.getmtime(p))
    for p in fs[:len(fs) - keep]:
        try: os.unlink(p)
        except OSError: pass

def self_test():
    srcs = sources()
    assert len(srcs) > 20, srcs
    for t in (CXX, CC): subprocess.check_call([t, "--version"], stdout=subprocess.DEVNULL)
    print("toolchain present; %d library sources" % len(srcs))

def main():
    if sys.argv[1:] == ["--self-test"]: return self_test()
    flavour, harness, extra = sys.argv[1], sys.argv[2], sys.argv[3:]
    repo_flags, h_flags, link = FLAVOUR[flavour]
    objdir = os.path.join(OUT, "obj"); bindir = os.path.join(OUT, "bin")
    os.makedirs(objdir, exist_ok=True); os.makedirs(bindir, exist_ok=True)
    lock = open(os.path.join(OUT, "lock." + flavour), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    repo_hdr = filehash(headers(os.path.join(REPO, "include")) + headers(os.path.join(REPO, "src")))
    lib_hdr = filehash(headers(os.path.join(VERIF, "lib")) + headers(os.path.join(VERIF, "checks")))
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")] + sum((["-isystem", i] for i in MPI_INC), [])
    jobs, objs = [], []
    nolog = any(os.path.basename(e) == "fakelog.cpp" for e in extra)
    for s in sources():
        if nolog and os.path.basename(s).startswith("mlog2"): continue
        cxx = not s.endswith(".c")
        cmd = ([CXX, "-std=c++17"] if cxx else [CC]) + BASE + repo_flags + inc
        key = hashlib.sha256((" ".join(cmd) + repo_hdr + filehash([s])).encode()).hexdigest()[:24]
        o = os.path.join(objdir, key + ".o")
        jobs.append((cmd, o, s)); objs.append(o)
    mine = [harness] + extra
    for s in mine:
        cmd = [CXX, "-std=c++17"] + BASE + h_flags + inc + ["-I" + os.path.join(VERIF, "lib")]
        key = hashlib.sha256((" ".join(cmd) + repo_hdr + lib_hdr + filehash([s])).encode()).hexdigest()[:24]
        o = os.path.join(objdir, key + ".o")
        jobs.append((cmd, o, s)); objs.append(o)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        sys.stderr.write("\n".join(errs) + "\n"); sys.exit(2)
    key = hashlib.sha256((" ".join(objs) + flavour).encode()).hexdigest()[:24]
    exe = os.path.join(bindir, os.path.splitext(os.path.basename(harness))[0] + "-" + flavour + "-" + key)
    if not os.path.exists(exe):
        cmd = [CXX, "-pthread", "-rdynamic"] + link + objs + ["-o", exe + ".tmp", "-L/usr/lib/x86_64-linux-gnu", "-lleveldb", "-lsnappy", "-lrocksdb", "-ldl", "-lm"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            sys.stderr.write(p.stdout.decode(errors="replace")[-6000:]); sys.exit(2)
        os.rename(exe + ".tmp", exe)
    else:
        os.utime(exe)
    prune(objdir); prune(bindir, 60)
    print(exe)

if __name__ == "__main__":
    main()
