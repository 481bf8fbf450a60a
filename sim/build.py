#!/usr/bin/env python3
"""Builds the simulators from /repo's current sources into /verif/build (content-addressed objects).

usage: build.py [fast|fine|comp|all] ..."""
import fcntl, glob, hashlib, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("NDT_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
GEN = os.path.join(OUT, "gen")

COMMON = ["-std=c++17", "-fno-pie", "-g1", "-Wall", "-Wno-unused-parameter", "-D_GLIBCXX_ASSERTIONS", "-fno-strict-aliasing",
          "-DRCUTILS_ENABLE_FAULT_INJECTION=0"]


def incs():
    return ["-I" + os.path.join(HERE, "kernel"), "-I" + os.path.join(HERE, "ros"), "-I" + os.path.join(HERE, "shim", "include"),
            "-I" + GEN, "-I" + os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3"]


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def generate():
    os.makedirs(GEN, exist_ok=True)
    subprocess.check_call([sys.executable, os.path.join(HERE, "tools", "genmsgs.py"), GEN, REPO])
    # nanoflann as of the ROS distribution the project targets: result items are pairs, SearchParams exists
    t = open("/usr/include/nanoflann.hpp").read()
    t, n = re.subn(r"struct ResultItem\n\{.*?\n\};\n", "using ResultItem = std::pair<IndexType, DistanceType>;\n", t, count=1, flags=re.S)
    t, m = re.subn(r"(struct SearchParameters\n\{.*?\n\};\n)", r"\1using SearchParams = SearchParameters;\n", t, count=1, flags=re.S)
    if n != 1 or m != 1:
        sys.exit("cannot adapt nanoflann.hpp")
    write_if_changed(os.path.join(GEN, "nanoflann.hpp"), t)


def fhash(path, memo={}):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in memo:
        with open(path, "rb") as f:
            memo[k] = hashlib.sha256(f.read()).hexdigest()
    return memo[k]


def compile_one(job):
    src, obj, flags, post = job
    cmd = ["g++"] + flags + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    key = hashlib.sha256(json.dumps([cmd, post]).encode()).hexdigest()
    kf = obj + ".key"
    try:
        old = json.load(open(kf))
        if old["cmd"] == key and os.path.exists(obj) and all(os.path.exists(d) and fhash(d) == h for d, h in old["deps"].items()):
            return None
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return "%s\n%s" % (" ".join(cmd), r.stderr[-6000:])
    if r.stderr.strip() and os.environ.get("NDT_WARN"):
        print(r.stderr, file=sys.stderr)
    for p in post:
        r = subprocess.run(p, capture_output=True, text=True)
        if r.returncode:
            return "%s\n%s" % (" ".join(p), r.stderr)
    t = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = {d: fhash(d) for d in t}
    with open(kf, "w") as f:
        json.dump({"cmd": key, "deps": deps}, f)
    return ""


REDEF = ["--redefine-sym", "memcpy=sim_memcpy", "--redefine-sym", "memmove=sim_memmove", "--redefine-sym", "memset=sim_memset"]


def flavor(name):
    """(objects in link order, jobs)"""
    d = os.path.join(OUT, name)
    fine = name == "fine"
    jobs, objs = [], []
    base = COMMON + (["-DSIM_FINE"] if fine else [])

    def add(src, flags, sub, post=()):
        obj = os.path.join(d, sub, os.path.basename(src) + ".o")
        jobs.append((src, obj, base + flags + incs(), [[x if x != "OBJ" else obj for x in p] for p in post]))
        objs.append(obj)

    if fine:
        sut = ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-DNDT_SUT"]
        post = [["objcopy"] + REDEF + ["OBJ"]]
    else:
        sut = ["-O2", "-DNDT_SUT"]
        post = []
    # the <random> header's own assertions concern parameters the C++ standard leaves undefined but which are
    # harmless in practice (zero standard deviation); everything else of the library is checked
    sut += ["-include", os.path.join(HERE, "shim", "sut_prefix.hpp")]
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    if name == "comp":
        srcs = [s for s in srcs if os.path.basename(s) != "ndt_mapper.cpp"]
    for s in srcs:
        add(s, sut, "sut", post)
    if name != "comp":
        add(os.path.join(HERE, "harness", "script_matcher.cpp"), sut, "sut", post)
    for s in sorted(glob.glob(os.path.join(HERE, "kernel", "*.cpp"))):
        add(s, ["-O2"], "kernel")
    add(os.path.join(HERE, "ros", "simros.cpp"), ["-O2"], "ros")
    hs = sorted(glob.glob(os.path.join(HERE, "harness", "*.cpp")))
    for s in hs:
        b = os.path.basename(s)
        if b == "script_matcher.cpp":
            continue
        if name == "comp" and not (b.startswith("comp") or b in ("main.cpp", "plan.cpp")):
            continue
        if name != "comp" and b.startswith("comp"):
            continue
        add(s, ["-O1"] + (["-DSIM_COMP"] if name == "comp" else []), "harness")
    return objs, jobs


def build(names, quiet=True):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        generate()
        bins = {}
        alljobs, links = [], []
        for n in names:
            objs, jobs = flavor(n)
            alljobs += jobs
            links.append((n, objs))
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(compile_one, alljobs))
        errs = [r for r in res if r]
        if errs:
            raise RuntimeError("compilation failed:\n" + "\n".join(errs[:4]))
        for n, objs in links:
            exe = os.path.join(OUT, "sim_" + n)
            key = hashlib.sha256("".join(o + fhash(o) for o in objs).encode()).hexdigest()
            kf = exe + ".key"
            if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
                cmd = ["g++", "-no-pie", "-o", exe] + objs + \
                    ["-Wl,--wrap=_ZN5ceres5SolveERKNS_6Solver7OptionsEPNS_7ProblemEPNS0_7SummaryE",
                     "-lceres", "-lglog", "-lpthread", "-ldl", "-rdynamic"]
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode:
                    raise RuntimeError("link of %s failed:\n%s" % (n, r.stderr[-6000:]))
                with open(kf, "w") as f:
                    f.write(key)
            bins[n] = exe
    return bins


if __name__ == "__main__":
    a = sys.argv[1:] or ["all"]
    try:
        print(build(["fast", "fine", "comp"] if a == ["all"] else a))
    except RuntimeError as e:
        sys.exit(str(e))
