#!/usr/bin/env python3
"""Builds a driver from /repo's current working tree into $VERIF_BUILD (default /verif/build)."""
import fcntl, glob, hashlib, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

BASE = ("-std=c++17 -O1 -g1 -w -include %s/rt/prelude.h -DMAF_MIN_ALLOWED_LOG_LEVEL=1 "
        "-DMAF_STATIC_LIBRARY -DMAF_VERIF_HOOKS -I%s/include -I%s/src/common -I%s/src/platforms/unix -I%s/rt -I%s/harness -pthread"
        % (VERIF, REPO, REPO, REPO, VERIF, VERIF))
TSAN = "-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0"

# which of the library's sources a driver links (globs relative to src/); None: header only
LIB = "common/maf/**/*.cpp platforms/unix/maf/**/*.cpp"
CORE = "common/maf/messaging/*.cpp common/maf/logging/*.cpp common/maf/utils/*.cpp platforms/unix/maf/utils/*.cpp"

def sources(globs):
    out = []
    for g in globs.split():             # !glob: without these
        found = glob.glob(os.path.join(REPO, "src", g.lstrip("!")), recursive=True)
        out = [f for f in out if f not in found] if g[0] == "!" else out + found
    return sorted(set(out))

def plain_flags(driver):
    """Drivers without threads are built without the scheduler, with the sanitizers they name."""
    with open(os.path.join(VERIF, "harness", driver + ".cpp")) as f:
        for l in f:
            if l.startswith("// plain:"):
                return l.split(":", 1)[1].strip()
    return None

def extra_flags(driver):
    with open(os.path.join(VERIF, "harness", driver + ".cpp")) as f:
        for l in f:
            if l.startswith("// flags:"):
                return l.split(":", 1)[1].strip()
    return ""

def lib_globs(driver):
    with open(os.path.join(VERIF, "harness", driver + ".cpp")) as f:
        for l in f:
            if l.startswith("// lib:"):
                w = l.split(":", 1)[1].strip()
                return " ".join({"all": LIB, "core": CORE, "none": ""}.get(x, x) for x in w.split())
    return LIB

def tree_hash(driver):
    """Content of everything a build depends on (time stamps are not trusted)."""
    h = hashlib.sha1()
    fs = []
    for top in (REPO + "/include", REPO + "/src", VERIF + "/rt"):
        for dp, _, fn in os.walk(top):
            fs += [os.path.join(dp, f) for f in fn]
    fs += glob.glob(VERIF + "/harness/*.h") + [VERIF + "/harness/%s.cpp" % driver, os.path.abspath(__file__)]
    for f in sorted(fs):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()

def build(driver, verbose=False):
    d = os.path.join(BUILD, driver)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_locked(driver, d)

def build_locked(driver, d):
    stamp, hv = os.path.join(d, "stamp"), tree_hash(driver)
    exe = os.path.join(d, driver)
    if os.path.exists(stamp) and open(stamp).read() == hv and os.path.exists(exe):
        return exe
    for f in glob.glob(d + "/*.o") + [stamp]:
        if os.path.exists(f):
            os.unlink(f)
    exe = os.path.join(BUILD, driver, driver)
    ef = extra_flags(driver)
    plain = plain_flags(driver)
    base, tsan = (BASE, TSAN) if plain is None else (
        BASE.replace("-include %s/rt/prelude.h" % VERIF, "-include cstdint"), plain)
    lines = ["cxx = clang++-18",
             "rule cc\n  command = $cxx %s %s $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (base, ef),
             "rule rt\n  command = $cxx -std=c++17 -O2 -g1 -w -I%s/rt -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % VERIF,
             "rule link\n  command = $cxx $in -o $out %s -pthread -rdynamic -ldl" % (plain or "")]
    objs = []
    rto = os.path.join(d, "vsched.o")
    if plain is None:
        lines.append("build %s: rt %s/rt/vsched.cpp" % (rto, VERIF))
        objs.append(rto)
    for s in sources(lib_globs(driver)):
        o = os.path.join(d, "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
        lines.append("build %s: cc %s\n  flags = %s" % (o, s, tsan))
        objs.append(o)
    dro = os.path.join(d, "driver.o")
    lines.append("build %s: cc %s/harness/%s.cpp\n  flags = %s" % (dro, VERIF, driver, tsan))
    objs.append(dro)
    lines.append("build %s: link %s" % (exe, " ".join(objs)))
    lines.append("default " + exe)
    nf = os.path.join(d, "build.ninja")
    txt = "\n".join(lines) + "\n"
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    r = subprocess.run(["ninja", "-C", d, "-f", nf], capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:] + r.stderr[-2000:])
        raise SystemExit("BUILD-FAILED driver=%s" % driver)
    open(stamp, "w").write(hv)
    return exe

if __name__ == "__main__":
    for d in sys.argv[1:]:
        print(build(d))
