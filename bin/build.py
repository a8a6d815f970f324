"""Builds the scenario driver from /repo's current working tree (objects are
cached by content under /verif/build)."""
import fcntl, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")
CXX, CC = "g++-11", "gcc-11"
DEFS = ["-DHXHIM_HAVE_LEVELDB=1", "-DHXHIM_HAVE_ROCKSDB=1", "-DSYSTEM_BIG_ENDIAN=0", "-DOMPI_SKIP_MPICXX"]
MPI = ["-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu", "-lleveldb", "-lsnappy", "-lrocksdb", "-lpthread", "-lm", "-ldl"]
SKIP_DIRS = ("Thallium",)
SKIP = ("mlog2.c",)
STUBS = ("unit.cpp", "wire.cpp", "peek_")


def repo_sources():
    out = []
    for d, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        if any(s in d for s in SKIP_DIRS) or "CMakeLists.txt" not in files:
            continue
        with open(os.path.join(d, "CMakeLists.txt")) as f:
            cm = re.sub(r"#.*", "", f.read())
        names = set(os.path.basename(x) for x in re.findall(r"[\w./]+\.(?:cpp|c)\b", cm))
        for n in sorted(names):
            p = os.path.join(d, n)
            if any(s in n for s in SKIP_DIRS) or os.path.basename(n) in SKIP:
                continue
            if os.path.exists(p):
                out.append(p)
    return out


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree(d, exts):
    out = []
    for dd, dirs, files in sorted(os.walk(d)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(dd, f))
    return out


class BuildError(Exception):
    pass


def build(sanitize="address"):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hdr = tree(os.path.join(REPO, "include"), (".h", ".hpp", ".tpp")) + tree(os.path.join(REPO, "src"), (".h", ".hpp", ".tpp"))
        hh = sha(*[x for p in hdr for x in (os.path.relpath(p, REPO), read(p))])
        hk = sha(*[x for p in tree(H, (".hpp", ".h")) for x in (os.path.relpath(p, H), read(p))])
        # without HX_FULL only syntax relevant options are used
        common = DEFS + MPI + ["-I" + os.path.join(REPO, "include"), "-I" + H, "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-pthread"]
        san = ["-fsanitize=" + sanitize] if sanitize else []
        jobs = []
        srcs = [(s, False) for s in repo_sources()] + [(os.path.join(H, f), True) for f in sorted(os.listdir(H)) if f.endswith((".c", ".cpp"))]
        objs = []
        for s, mine in srcs:
            key = sha(s, read(s), hh, hk if mine else "", sanitize or "", " ".join(common))
            o = os.path.join(BUILD, "obj", os.path.basename(s) + "-" + key + ".o")
            objs.append(o)
            if not os.path.exists(o):
                c = s.endswith(".c")
                jobs.append(([CC if c else CXX] + ([] if c else ["-std=c++17"]) + common + san + ["-c", s, "-o", o + ".tmp"], o))
        # big translation units first
        jobs.sort(key=lambda j: "driver" not in j[1] and "unit" not in j[1])

        def run(j):
            r = subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode and os.path.basename(j[1]).startswith(STUBS):
                # these use parts of the library that may change: without them the rest still works
                r = subprocess.run(j[0] + ["-DHX_STUB"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError(" ".join(j[0]) + "\n" + r.stdout[-6000:])
            os.rename(j[1] + ".tmp", j[1])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        exe = os.path.join(BUILD, "driver-" + sha(*objs))
        if not os.path.exists(exe):
            def link(objs):
                return subprocess.run([CXX] + san + ["-pthread", "-rdynamic"] + objs + ["-o", exe + ".tmp"] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r = link(objs)
            if r.returncode:
                # internal functions the harness calls directly may be gone
                some = []
                for (s, mine), o in zip(srcs, objs):
                    if mine and os.path.basename(s).startswith(STUBS):
                        o += ".stub.o"
                        subprocess.run([CXX, "-std=c++17"] + common + san + ["-DHX_STUB", "-c", s, "-o", o])
                    some.append(o)
                r = link(some)
            if r.returncode:
                raise BuildError(r.stdout[-6000:])
            os.rename(exe + ".tmp", exe)
            # keep the cache small
            for d in (BUILD, os.path.join(BUILD, "obj")):
                fs = [os.path.join(d, f) for f in os.listdir(d) if (f.startswith("driver-") or f.endswith(".o"))]
                fs = [f for f in fs if os.path.isfile(f) and f not in objs and f != exe]
                fs.sort(key=os.path.getmtime)
                for f in fs[:-400] if d.endswith("obj") else fs[:-6]:
                    os.unlink(f)
        return exe


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(e)
        sys.exit(2)
