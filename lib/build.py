"""Build driver: compiles /repo's sources and the harnesses of /verif into
content-addressed objects below /verif/build and links them.

The key of an object is a hash of its compiler flags, of the text of its source
file and of every header it may include, with comments and white space at line
ends removed: a change of what the code says rebuilds it, a comment does not.
"""
import concurrent.futures
import fcntl
import hashlib
import os
import re
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GCP_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
JOBS = 8

SYSTEM = """/usr/lib/x86_64-linux-gnu/openmpi/include
/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi
/usr/include/petsc /usr/include/trilinos /usr/include/hdf5/openmpi
/usr/include/scotch /usr/include/suitesparse /usr/include/opencascade
/usr/include/slepc""".split()

COMMON = ["-std=c++17", "-O0", "-g1", "-DDEBUG", "-w", "-fno-access-control",
          "-I" + REPO + "/include", "-I" + VERIF + "/harness"]
for d in SYSTEM:
    COMMON += ["-isystem", d]

VARIANTS = {
    "plain": ("g++", ["-O1"], []),
    "san": ("g++",
            ["-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
             "-ftrivial-auto-var-init=pattern"],
            ["-fsanitize=address,undefined"]),
    # the compiler's race hooks, answered by harness/race/runtime.cc
    "race": ("g++", ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer",
                     "-I" + VERIF + "/harness/race"], []),
}


class BuildError(Exception):
    pass


_TOKENS = re.compile(
    r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', re.S)


def normalise(text):
    def repl(m):
        t = m.group(0)
        if t.startswith("//"):
            return " "
        if t.startswith("/*"):
            return " "
        return t
    text = _TOKENS.sub(repl, text)
    return "\n".join(l for l in (re.sub(r"[ \t]+", " ", x).strip()
                                 for x in text.split("\n")) if l)


_texts = {}


def norm_file(path):
    if path not in _texts:
        with open(path, encoding="utf-8", errors="replace") as f:
            _texts[path] = normalise(f.read())
    return _texts[path]


def find(root, ext):
    res = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if not x.startswith((".", "_")))
        for f in sorted(files):
            if f.endswith(ext):
                res.append(os.path.join(d, f))
    return res


def headers_hash(root):
    h = hashlib.sha256()
    for f in find(root, (".h", ".hpp")):
        h.update(os.path.relpath(f, root).encode() + b"\0")
        h.update(norm_file(f).encode() + b"\0")
    return h.hexdigest()


def repo_sources():
    return find(os.path.join(REPO, "source"), ".cc")


_hh = {}
_hh_lock = threading.Lock()


def object_for(src, variant, extra=()):
    """(key path, command) of the object of one source file."""
    cxx, cflags, _ = VARIANTS[variant]
    with _hh_lock:
        if not _hh:
            _hh["repo"] = headers_hash(os.path.join(REPO, "include"))
            _hh["verif"] = headers_hash(os.path.join(VERIF, "harness"))
    flags = COMMON + cflags + list(extra)
    if src.endswith("/race/runtime.cc"):
        flags = ["-std=c++17", "-O2", "-g1", "-fno-builtin-malloc"]
    h = hashlib.sha256()
    h.update(" ".join([cxx] + flags).encode())
    h.update(norm_file(src).encode())
    h.update(_hh["repo"].encode())
    if src.startswith(VERIF):
        h.update(_hh["verif"].encode())
        for inc in re.findall(r'#include\s+"(/repo/[^"]+)"', norm_file(src)):
            h.update(norm_file(inc.replace("/repo", REPO, 1)).encode())
    base = os.path.basename(src)[:-3]
    obj = os.path.join(OUT, "obj", "%s-%s-%s.o" % (base, variant,
                                                   h.hexdigest()[:20]))
    return obj, [cxx] + flags + ["-c", src]


def run_locked(target, make):
    """make(tmp) produces target, at most once at a time."""
    os.makedirs(os.path.dirname(target), exist_ok=True)
    if os.path.exists(target):
        os.utime(target)
        return
    with open(target + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(target):
            return
        tmp = target + ".tmp%d" % os.getpid()
        try:
            make(tmp)
            os.rename(tmp, target)
        finally:
            if os.path.exists(tmp):
                os.unlink(tmp)
    try:
        os.unlink(target + ".lock")
    except OSError:
        pass


def sh(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (what, p.stdout[-6000:]))


def compile_one(src, variant, extra=()):
    obj, cmd = object_for(src, variant, extra)
    run_locked(obj, lambda tmp: sh(cmd + ["-o", tmp], "compiling " + src))
    return obj


# the slowest files first
_ORDER = ["assembly.cc", "fe_field.cc", "constitutive_laws.cc",
          "postprocessing.cc", "solve.cc", "setup.cc"]


def _rank(src):
    b = os.path.basename(src)
    if src.startswith(VERIF):
        return -1
    return _ORDER.index(b) if b in _ORDER else len(_ORDER)


def build_many(programs):
    """programs: list of (name, variant, [sources], only) -> {name: binary}.
    `only` is None for every source of the library, or a list of base names."""
    jobs = {}
    plan = []
    for name, variant, srcs, only in programs:
        lib = [s for s in repo_sources()
               if only is None or os.path.basename(s) in only]
        # a source may come with flags of its own
        todo = [s[:1] + (variant,) + s[1:] if isinstance(s, tuple) else (s, variant)
                for s in list(srcs) + lib]
        plan.append((name, variant, todo))
        for j in todo:
            jobs[j] = None
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        fut = {j: ex.submit(compile_one, *j)
               for j in sorted(jobs, key=lambda j: (_rank(j[0]), j[0]))}
        for j in fut:
            jobs[j] = fut[j].result()
        res = {}
        links = {}
        for name, variant, todo in plan:
            links[name] = ex.submit(link, name, variant,
                                    [jobs[j] for j in todo])
        for name in links:
            res[name] = links[name].result()
    return res


# calls that a harness intercepts at link time
LINK = {"strip": ["-Wl,--wrap=_ZN3gCP31GradientCrystalPlasticitySolverILi%dEE22solve_nonlinear_systemEb" % d
                  for d in (2, 3)]}


def link(name, variant, objs):
    cxx, _, lflags = VARIANTS[variant]
    lflags = lflags + LINK.get(name, [])
    h = hashlib.sha256("\n".join([os.path.basename(o) for o in objs]
                                 + lflags).encode()).hexdigest()[:20]
    out = os.path.join(OUT, "bin", "%s-%s-%s" % (name, variant, h))
    with open(os.path.join(VERIF, "lib", "link_libs.txt")) as f:
        libs = f.read().split()
    cmd = [cxx] + lflags + objs + libs + ["-fuse-ld=gold"]
    run_locked(out, lambda tmp: sh(cmd + ["-o", tmp], "linking " + name))
    return out


def prune(limit=3 << 30):
    files = []
    for sub in ("obj", "bin"):
        d = os.path.join(OUT, sub)
        if os.path.isdir(d):
            for f in os.listdir(d):
                p = os.path.join(d, f)
                st = os.stat(p)
                files.append((st.st_mtime, st.st_size, p))
    total = sum(s for _, s, _ in files)
    for m, s, p in sorted(files):
        if total <= limit:
            break
        if time.time() - m > 1800:
            os.unlink(p)
            total -= s


H = os.path.join(VERIF, "harness")
# the part of the library that the material harness needs; if it stops being
# enough, everything is linked
MATERIAL = ["constitutive_laws.cc", "crystal_data.cc", "line_search.cc",
            "run_time_parameters.cc", "quadrature_point_history.cc",
            "utilities.cc", "boundary_conditions.cc"]


def program(name):
    return {
        "material": ("material", "san", [H + "/material.cc"], MATERIAL),
        "fem": ("fem", "plain", [H + "/fem.cc"], None),
        "femsan": ("femsan", "san", [H + "/fem.cc"], None),
        "strip": ("strip", "plain",
                  [H + "/strip.cc", (REPO + "/applications/simple_shear.cc", ("-Dmain=simple_shear_main",))], None),
        "app": ("app", "plain", [REPO + "/applications/simple_shear.cc"], None),
        "apprace": ("apprace", "race",
                    [REPO + "/applications/simple_shear.cc",
                     H + "/race/runtime.cc"], None),
        "femrace": ("femrace", "race",
                    [H + "/fem.cc", H + "/race/runtime.cc"], None),
        "appsan": ("appsan", "san",
                   [REPO + "/applications/simple_shear.cc"], None),
    }[name]


def build(names):
    progs = [program(n) for n in names]
    progs = [p for p in progs if all(os.path.exists(s[0] if isinstance(s, tuple) else s) for s in p[2])]
    try:
        return build_many(progs)
    except BuildError as e:
        if any(p[3] is not None for p in progs) and "undefined reference" in str(e):
            return build_many([(n, v, s, None) for n, v, s, _ in progs])
        raise


if __name__ == "__main__":
    t = time.time()
    prune()
    for k, v in build(sys.argv[1:] or ["material", "fem", "app"]).items():
        print(k, v)
    print("built in %.1f s" % (time.time() - t))
