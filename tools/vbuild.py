"""Builds instrumented variants of Field3D from /repo's working tree, plus the harnesses.

Objects are cached under /verif/build (git-ignored) keyed by a hash of every source file
that can influence them, so an edit anywhere in /repo/src, export, include or apps rebuilds.
"""
import concurrent.futures as cf, fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GUARD = "FIELD3D_VERIF_HOOKS"

COMMON = ["-std=gnu++14", "-w", "-g1", "-fPIC", "-DREQUIRE_IOSTREAM",
          "-DBOOST_TIMER_ENABLE_DEPRECATED", "-D" + GUARD, "-fno-omit-frame-pointer"]
VARIANTS = {
    # memory + undefined behaviour monitors
    "asan": dict(cxx="clang++", flags=["-O0", "-fsanitize=address,undefined",
                 "-fno-sanitize-recover=all", "-fno-sanitize=vptr,pointer-overflow,shift-base"]),
    # data race monitor
    "tsan": dict(cxx="clang++", flags=["-O1" if False else "-O0", "-fsanitize=thread"]),
    # no sanitizer: behavioural monitors only (fast, real timing)
    "plain": dict(cxx="clang++", flags=["-O1"]),
    "plain0": dict(cxx="clang++", flags=["-O0"]),
}
LIBS = ["-lhdf5", "-lIex", "-lIlmThread", "-lImath", "-lboost_regex", "-lboost_thread",
        "-lboost_program_options", "-lboost_system", "-lpthread", "-ldl", "-lz"]
HDF5_LIBDIR = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
SLOW = ["MIPFieldIO", "SparseFieldIO", "Field3DFile", "DenseFieldIO", "Field3DFileHDF5",
        "SparseFile", "MACFieldIO"]


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def walk(d, exts):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(r, f))
    return out


def includes():
    inc = os.path.join(BUILD, "inc")
    os.makedirs(inc, exist_ok=True)
    link = os.path.join(inc, "Field3D")
    if os.path.islink(link) and os.readlink(link) != REPO + "/export":
        os.unlink(link)
    if not os.path.islink(link):
        os.symlink(REPO + "/export", link)
    return [inc, REPO, REPO + "/src", REPO + "/export", REPO + "/include",
            "/opt/vp/compat/include", "/usr/include/hdf5/serial", "/usr/include/Imath"]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


class BuildError(Exception):
    pass


def build(targets, jobs=8):
    """targets: list of dict(variant, sources=[harness .cpp], app=None|name, link=[extra], defs=[]).
    Returns list of binary paths, in order."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(targets, jobs)


def _build(targets, jobs):
    incs = []
    for i in includes():
        incs += ["-I", i]
    libsrc = walk(REPO + "/src", (".cpp",))
    dep = walk(REPO + "/src", (".cpp", ".h")) + walk(REPO + "/export", (".h",)) + \
        walk(REPO + "/include", (".h",))
    tree = sha(dep)
    compile_jobs, links = {}, []
    hdr = walk(VERIF + "/harness", (".h",))
    keep = set()
    for t in targets:
        v = VARIANTS[t["variant"]]
        flags = COMMON + v["flags"] + t.get("defs", [])
        fk = sha([], " ".join(flags) + v["cxx"] + tree)
        ld = os.path.join(BUILD, t["variant"], "lib-" + fk)
        keep.add(ld)
        os.makedirs(ld, exist_ok=True)
        objs = []
        for s in ([] if t.get("nolib") else libsrc):
            o = os.path.join(ld, os.path.basename(s)[:-4] + ".o")
            objs.append(o)
            if not os.path.exists(o):
                compile_jobs[o] = [v["cxx"]] + flags + incs + ["-c", s, "-o", o + ".tmp"]
        srcs = [os.path.join(VERIF, "harness", s) for s in t.get("sources", [])]
        if t.get("app"):
            srcs = [os.path.join(REPO, "apps", t["app"], "main.cpp")]
        hk = sha(srcs + hdr, fk + " ".join(t.get("link", [])))
        hd = os.path.join(BUILD, t["variant"], "bin-" + hk)
        keep.add(hd)
        os.makedirs(hd, exist_ok=True)
        hobjs = []
        for s in srcs:
            o = os.path.join(hd, os.path.basename(s)[:-4] + ".o")
            hobjs.append(o)
            if not os.path.exists(o):
                compile_jobs[o] = [v["cxx"]] + flags + incs + \
                    ["-I", VERIF + "/harness", "-c", s, "-o", o + ".tmp"]
        exe = os.path.join(hd, "exe")
        links.append((exe, [v["cxx"]] + v["flags"] + hobjs + objs + t.get("link", []) +
                      ["-L", HDF5_LIBDIR, "-rdynamic", "-o", exe + ".tmp"] + LIBS))

    def cost(o):
        b = os.path.basename(o)[:-2]
        if "/bin-" in o:
            return -1
        return SLOW.index(b) if b in SLOW else 99
    order = sorted(compile_jobs, key=cost)

    def comp(o):
        rc, out = run(compile_jobs[o])
        if rc == 0:
            os.rename(o + ".tmp", o)
        return rc, o, out
    with cf.ThreadPoolExecutor(jobs) as ex:
        for rc, o, out in ex.map(comp, order):
            if rc != 0:
                raise BuildError("compile failed: %s\n%s" % (o, out[-4000:]))

        def link(l):
            exe, cmd = l
            if os.path.exists(exe):
                return 0, exe, ""
            rc, out = run(cmd)
            if rc == 0:
                os.rename(exe + ".tmp", exe)
            return rc, exe, out
        uniq = {e: (e, c) for e, c in links}
        for rc, o, out in ex.map(link, uniq.values()):
            if rc != 0:
                raise BuildError("link failed: %s\n%s" % (o, out[-4000:]))
    now = time.time()
    for d in keep:
        os.utime(d, (now, now))
    for v in VARIANTS:
        vd = os.path.join(BUILD, v)
        if not os.path.isdir(vd):
            continue
        ds = sorted((os.path.join(vd, d) for d in os.listdir(vd)), key=os.path.getmtime)
        for d in ds[:-60]:
            if d not in keep:
                shutil.rmtree(d, ignore_errors=True)
    return [l[0] for l in links]
