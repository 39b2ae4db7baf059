#!/usr/bin/env python3
"""Builds the instrumented eckit objects from /repo's working tree, the simulator and the scenario executables (all under /verif/build)."""
import fcntl, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DST_REPO", "/repo")
B = os.path.join(VERIF, "build")
E = os.path.join(B, "eckit")
LIBS = ("eckit", "eckit_codec", "eckit_distributed", "eckit_linalg", "eckit_openfam_mock", "eckit_option")
TSAN = "-fsanitize=thread --param tsan-instrument-func-entry-exit=0"
CXX = "/usr/bin/g++"
GUARD = "ECKIT_DST_SIM"


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        sys.stdout.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd)[:300], r.stdout[-6000:]))
        sys.exit(3)
    return r.stdout


def env():
    e = dict(os.environ)
    e.update(CC="/usr/bin/gcc", CXX=CXX, LC_ALL="C.UTF-8", TMPDIR="/tmp")
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS"):
        e.pop(k, None)
    return e


def configure():
    if os.path.exists(os.path.join(E, "build.ninja")) and os.path.exists(os.path.join(E, "compile_commands.json")):
        return
    os.makedirs(E, exist_ok=True)
    off = "TESTS BUILD_TOOLS MPI ECKIT_GEO ECKIT_SQL ECKIT_SPEC PROJ OMP PYTHON AEC EIGEN MKL ECKIT_CMD DOCS".split()
    run(["cmake", "-S", REPO, "-B", E, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
         "-DCMAKE_CXX_FLAGS=-O1 -g1 %s -D%s -fPIC -w" % (TSAN, GUARD), "-DCMAKE_C_FLAGS=-O1 -w", "-DCMAKE_MODULE_PATH=/opt/vp/cmake",
         "-DENABLE_EXPERIMENTAL=OFF", "-DENABLE_SSL=ON"] + ["-DENABLE_%s=OFF" % o for o in off], env=env())


def objects():
    run(["ninja", "-C", E, "build.ninja"], env=env())
    objs, flags = [], None
    for c in json.load(open(os.path.join(E, "compile_commands.json"))):
        m = re.search(r" -o (\S+)", c["command"])
        if not m:
            continue
        o = m.group(1)
        for l in LIBS:
            if "/CMakeFiles/%s.dir/" % l in "/" + o:
                objs.append(o)
                if l == "eckit" and flags is None and c["file"].endswith(".cc"):
                    flags = re.findall(r"-(?:I|D|isystem )\S+", c["command"])
    flags += ["-I%s/src" % E, "-I%s/src" % REPO, "-I%s/src/eckit/distributed" % REPO, "-I%s/src/eckit/io/fam/openfam_mock" % REPO]
    seen = []
    for f in flags:
        for w in f.split():
            if w not in seen or w == "-isystem":
                seen.append(w)
    return objs, seen


def stale(out, *ins):
    if not os.path.exists(out):
        return True
    t = os.path.getmtime(out)
    return any(os.path.getmtime(i) > t for i in ins)


def depstale(out, dep):
    if not os.path.exists(out) or not os.path.exists(dep):
        return True
    t = os.path.getmtime(out)
    for w in open(dep).read().replace("\\\n", " ").split(":", 1)[1].split():
        if not os.path.exists(w) or os.path.getmtime(w) > t:
            return True
    return False


def contents():
    h = {}
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            p = os.path.join(d, f)
            try:
                h[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
            except OSError:
                pass
    return h


def refresh():
    """A source whose contents differ from those last built, but whose time stamp is not newer, gets a new time stamp."""
    h, saved = contents(), os.path.join(B, "hashes.json")
    if os.path.exists(saved):
        old, t = json.load(open(saved)), os.path.getmtime(saved)
        for p, v in h.items():
            if old.get(p, v) != v and os.path.getmtime(p) <= t:
                os.utime(p)
    return h


def build(ids):
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    h = refresh()
    sim = ["alloc", "core", "fs", "net", "run"]
    hdr = [os.path.join(VERIF, "sim", h) for h in ("dst.h", "internal.h", "net.h")]
    procs = []
    for s in sim:
        src, obj = os.path.join(VERIF, "sim", s + ".cc"), os.path.join(B, s + ".o")
        if stale(obj, src, *hdr):
            procs.append(subprocess.Popen([CXX, "-std=c++17", "-O2", "-g1", "-w", "-fno-threadsafe-statics", "-c", src, "-o", obj]))
    configure()
    objs, flags = objects()
    gen = re.findall(r"^build (\S+\.b) ", open(os.path.join(E, "build.ninja")).read(), re.M)
    if gen:
        run(["ninja", "-C", E] + gen, env=env())   # headers that headers include
    # scenarios compile beside the library: start them first, headers come from /repo and the configured tree
    scen = []
    for i in ids:
        src, obj = os.path.join(VERIF, "scen", i + ".cc"), os.path.join(B, i + ".o")
        dep = os.path.join(B, i + ".d")
        if depstale(obj, dep):
            procs.append(subprocess.Popen([CXX, "-std=c++17", "-O1", "-g1", "-w"] + TSAN.split() + ["-D" + GUARD, "-MMD", "-MF", dep, "-I" + VERIF + "/sim", "-I" + VERIF + "/scen"] + flags + ["-c", src, "-o", obj]))
    run(["ninja", "-C", E] + objs, env=env())
    bad = [p for p in procs if p.wait()]
    if bad:
        print("BUILD FAILED: %s" % bad[0].args[-3])
        sys.exit(3)
    rsp = os.path.join(B, "objs.rsp")
    txt = "\n".join(os.path.join(E, o) for o in objs)
    if not os.path.exists(rsp) or open(rsp).read() != txt:
        open(rsp, "w").write(txt)
    newest = max(os.path.getmtime(os.path.join(E, o)) for o in objs)
    links = []
    for i in ids:
        exe, obj = os.path.join(B, i + ".exe"), os.path.join(B, i + ".o")
        if not os.path.exists(exe) or os.path.getmtime(exe) < newest or stale(exe, obj, rsp, *[os.path.join(B, s + ".o") for s in sim]):
            links.append(subprocess.Popen([CXX, "-o", exe, obj] + [os.path.join(B, s + ".o") for s in sim] + ["@" + rsp, "-static-libstdc++", "-static-libgcc", "-rdynamic", "-Wl,--gc-sections",
                         "-luuid", "-lssl", "-lcrypto", "-lcurl", "-llz4", "-lbz2", "-lsnappy", "-lxxhash", "-lrt", "-ldl", "-lpthread", "-lm", "-fuse-ld=gold"] if False else
                         [CXX, "-o", exe, obj] + [os.path.join(B, s + ".o") for s in sim] + ["@" + rsp, "-static-libstdc++", "-static-libgcc", "-rdynamic"] + extlibs()))
            if len(links) >= 4:
                if links.pop(0).wait():
                    sys.exit(3)
    for l in links:
        if l.wait():
            print("BUILD FAILED: link")
            sys.exit(3)
    with open(os.path.join(B, "hashes.json.tmp"), "w") as f:
        json.dump(h, f)
    os.rename(os.path.join(B, "hashes.json.tmp"), os.path.join(B, "hashes.json"))
    fcntl.flock(lock, fcntl.LOCK_UN)
    return time.time() - t0


def extlibs():
    """The external libraries the configured tree links with."""
    txt = open(os.path.join(E, "build.ninja")).read()
    libs = []
    for m in re.finditer(r"^  LINK_LIBRARIES = (.*)$", txt, re.M):
        for w in m.group(1).split():
            if w.startswith("-Wl,-rpath") or w.startswith("lib/") or "libeckit" in w:
                continue
            if w not in libs:
                libs.append(w)
    return libs + ["-ldl", "-lpthread", "-lrt"]


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, "scen")) if f.endswith(".cc"))
    print("built in %.1f s" % build(ids))
