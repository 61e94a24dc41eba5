#!/usr/bin/env python3
"""Builds the harness of one property from /repo's current working tree.

The library sources are compiled in a few unity chunks (as the project itself does),
the harness in one or more translation units of its own.  Objects are reused
only when the content of every file they were compiled from is unchanged.
Everything is written below /verif/build (ignored by git); nothing in /repo is written.
"""
import hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = REPO + "/src/library/natrium"
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/build")
COMPAT = "/opt/vp/compat/dealii_compat.h"

SYS_INC = ["/usr/include/boost"]
SYS_ISYS = ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
            "/usr/include/petsc", "/usr/include/trilinos", "/usr/include/hdf5/openmpi", "/usr/include/scotch",
            "/usr/include/suitesparse", "/usr/include/opencascade", "/usr/include/slepc"]
DEFS = ["-DBOOST_ATOMIC_DYN_LINK", "-DBOOST_ATOMIC_NO_LIB", "-DBOOST_FILESYSTEM_DYN_LINK",
        "-DBOOST_FILESYSTEM_NO_LIB", "-DBOOST_PROGRAM_OPTIONS_DYN_LINK", "-DBOOST_PROGRAM_OPTIONS_NO_LIB",
        "-DBOOST_SYSTEM_DYN_LINK", "-DBOOST_SYSTEM_NO_LIB", "-DNDEBUG"]
CXXFLAGS = ["-std=gnu++17", "-w", "-O1", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"]
LDFLAGS = ["-rdynamic", "-fuse-ld=gold", "-Wl,--allow-shlib-undefined",
           "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/openmpi:/usr/lib/x86_64-linux-gnu/openmpi/lib"]
LDLIBS = ["/usr/lib/x86_64-linux-gnu/libdeal.ii.so.9.5.1", "-lboost_system", "-lboost_filesystem",
          "-lboost_program_options", "-lboost_serialization", "-ltrilinos_epetra", "-ltrilinos_epetraext", "-ltrilinos_teuchoscore", "-ltrilinos_teuchosnumerics", "-ltrilinos_teuchosparameterlist", "-ltrilinos_teuchoscomm", "-ltrilinos_aztecoo", "-ltrilinos_ml", "-ltrilinos_amesos", "-ltrilinos_ifpack", "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi_cxx", "-lmpi", "-ltbb", "-lpthread", "-lz"]

# not compilable with the installed deal.II; left out by the project's build here too
LEFT_OUT = ["utilities/ContinuousBoundaryGradient.cpp"]

# rough compile cost (s) beyond parsing the headers; only used to balance the chunks
COST = {}
try:
    COST = json.load(open(VERIF + "/lib/cost.json"))
except Exception:
    pass


def sources(groups):
    out = []
    for d, _, fs in os.walk(LIB):
        for f in fs:
            if f.endswith(".cpp"):
                rel = os.path.relpath(os.path.join(d, f), LIB)
                if rel in LEFT_OUT:
                    continue
                if groups is None or any(rel == g or rel.startswith(g + "/") for g in groups):
                    out.append(rel)
    return sorted(out)


def cost(rel):
    if rel in COST:
        return COST[rel]
    return 0.15 + sum(1 for _ in open(os.path.join(LIB, rel), errors="replace")) / 900.0


def chunk(files, n):
    bins = [[0.0, []] for _ in range(max(1, min(n, len(files))))]
    for f in sorted(files, key=lambda f: (-cost(f), f)):
        b = min(bins, key=lambda b: b[0])
        b[0] += cost(f)
        b[1].append(f)
    return [sorted(b[1]) for b in bins if b[1]]


def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha1(f.read()).hexdigest()
    except OSError:
        return None


_cmd_env = dict(os.environ, LC_ALL="C")
for v in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "CPLUS_INCLUDE_PATH"):
    _cmd_env.pop(v, None)


def compile_tu(src, obj, extra=(), compiler="/usr/bin/g++"):
    """compile src -> obj unless an up to date object exists; returns (ok, message, seconds)"""
    stamp = obj + ".stamp"
    cmd = [compiler] + CXXFLAGS + list(extra) + ["-I" + d for d in SYS_INC] + ["-I" + REPO + "/src/library",
          "-I" + VERIF + "/harness"] + [a for d in SYS_ISYS for a in ("-isystem", d)] + DEFS + [
          "-include", COMPAT, "-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    if os.path.exists(obj) and os.path.exists(stamp):
        try:
            st = json.load(open(stamp))
            if st["cmd"] == cmd and all(sha(p) == h for p, h in st["deps"].items()):
                return True, "cached", 0.0
        except Exception:
            pass
    for p in (stamp, obj):
        if os.path.exists(p):
            os.remove(p)
    t = time.time()
    r = subprocess.run(cmd, env=_cmd_env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    dt = time.time() - t
    if r.returncode != 0:
        return False, r.stdout[-6000:], dt
    deps = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = {p: sha(p) for p in deps if p.startswith(REPO) or p.startswith(VERIF) or p.startswith(BUILD)}
    deps[src] = sha(src)
    with open(stamp + ".tmp", "w") as f:
        json.dump({"cmd": cmd, "deps": deps}, f)
    os.rename(stamp + ".tmp", stamp)
    return True, "compiled", dt


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def build(name, harness_srcs, groups=None, chunks=7, verbose=True, extra=(), tag=""):
    """build_once with only the needed part of the library; when that does not link, with all of it"""
    if groups is not None:
        try:
            return build_once(name, harness_srcs, groups, chunks, verbose, extra, tag)
        except RuntimeError as e:
            if verbose:
                print("  [build] part of the library is not enough: %s" % str(e)[-400:], file=sys.stderr)
    return build_once(name, harness_srcs, None, chunks, verbose, extra, tag)


def chunk_text(part):
    return "#include </opt/vp/compat/natrium_preamble.h>\n" + "".join("#include <%s/%s>\n" % (LIB, f) for f in part)


def build_once(name, harness_srcs, groups=None, chunks=7, verbose=True, extra=(), tag=""):
    """returns the path of the executable; raises RuntimeError when something does not compile"""
    bdir = BUILD + "/" + (tag or "o")
    os.makedirs(bdir, exist_ok=True)
    files = sources(groups)
    jobs = []
    if groups is None:
        gtag = "all"
    else:
        gtag = "g" + hashlib.sha1(" ".join(sorted(groups)).encode()).hexdigest()[:8]
    for i, part in enumerate(chunk(files, chunks)):
        src = "%s/lib_%s_%d.cpp" % (bdir, gtag, i)
        write_if_changed(src, chunk_text(part))
        jobs.append((src, src[:-4] + ".o", part))
    for h in harness_srcs:
        src = os.path.join(VERIF, "harness", h)
        # the harness first: it usually is the longest
        jobs.insert(0, (src, "%s/h_%s.o" % (bdir, h.replace("/", "_").replace(".cpp", ""))))
    t = time.time()

    def one(job):
        src, obj = job[0], job[1]
        ok, msg, dt = compile_tu(src, obj, extra=extra)
        if ok or len(job) < 3 or len(job[2]) < 2:
            return [((src, obj), ok, msg, dt)]
        # names of two files may clash in a unity chunk: compile its halves
        out = [((src, None), True, "split", dt)]
        h = len(job[2]) // 2
        for k, part in enumerate((job[2][:h], job[2][h:])):
            s2 = "%s_%d.cpp" % (src[:-4], k)
            write_if_changed(s2, chunk_text(part))
            out += one((s2, s2[:-4] + ".o", part))
        return out

    with ThreadPoolExecutor(8) as ex:
        res = [r for rs in ex.map(one, jobs) for r in rs]
    if verbose:
        for j, ok, msg, dt in res:
            print("  [build] %-28s %-8s %.1fs" % (os.path.basename(j[0]), msg if ok else "FAILED", dt), file=sys.stderr)
    bad = [(j, msg) for j, ok, msg, dt in res if not ok]
    if bad:
        raise RuntimeError("compilation failed: %s\n%s" % (bad[0][0][0], bad[0][1]))
    jobs = [j for j, ok, msg, dt in res if j[1]]
    exe = "%s/%s" % (bdir, name)
    key = hashlib.sha1(json.dumps([sha(j[1]) for j in jobs] + list(extra) + LDFLAGS + LDLIBS).encode()).hexdigest()
    try:
        if open(exe + ".key").read() == key and os.path.exists(exe):
            return exe
    except OSError:
        pass
    r = subprocess.run(["/usr/bin/g++"] + list(extra) + [j[1] for j in jobs] + LDFLAGS + LDLIBS + ["-o", exe + ".tmp"], env=_cmd_env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("link failed\n" + r.stdout[-6000:])
    os.rename(exe + ".tmp", exe)
    with open(exe + ".key", "w") as f:
        f.write(key)
    if verbose:
        print("  [build] total %.1fs" % (time.time() - t), file=sys.stderr)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:]))
