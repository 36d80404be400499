"""Builds the library from the /repo working tree (never from a copy) in several instrumented variants,
and the monitors against it.  Mirrors what the project's CMakeLists does: version, source list, header templates."""
import os, re, subprocess, sys, shutil, concurrent.futures as cf

REPO = os.environ.get("RX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WARN = ["-w"]
VARIANTS = {
    # name: (cc, cxx, common flags)
    "plain": ("clang", "clang++", ["-O2", "-g1"]),
    "asan": ("clang", "clang++", ["-O1", "-g1", "-fno-omit-frame-pointer",
              "-fsanitize=address,undefined", "-fno-sanitize=alignment,function,vptr", "-fno-sanitize-recover=all"]),
    "msan": ("clang", "clang++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins=1",
              "-fno-sanitize-recover=all"]),
    "tsan": ("clang", "clang++", ["-O1", "-g1", "-fsanitize=thread"]),
    "tsanO2": ("gcc", "g++", ["-O2", "-g1", "-fsanitize=thread"]),
    "cov": ("clang", "clang++", ["-O1", "-g1", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fsanitize-coverage=trace-pc-guard"]),
    "gcc": ("gcc", "g++", ["-O2", "-g1"]),
}

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def read(p):
    with open(p, encoding="utf-8", errors="surrogateescape") as f:
        return f.read()

def project():
    top = read(os.path.join(REPO, "CMakeLists.txt"))
    m = re.search(r"project\(cppp-reiconv\s+VERSION\s+(\d+)\.(\d+)\.(\d+)", top)
    if not m: raise BuildError("no version in CMakeLists.txt")
    s = re.search(r"\nset\(SOURCES([^)]*)\)", top)
    if not s: raise BuildError("no SOURCES in CMakeLists.txt")
    src = [x.strip('"') for x in s.group(1).replace("${CMAKE_CURRENT_SOURCE_DIR}", REPO).split()]
    src = [x for x in src if x]
    return m.groups(), src

def configure(text, env):
    text = re.sub(r"@(\w+)@", lambda m: env.get(m.group(1), ""), text)
    text = re.sub(r"\$\{(\w+)\}", lambda m: env.get(m.group(1), ""), text)
    return text

def write(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(t)

def headers(out):
    inc = os.path.join(out, "include")
    ver, _ = project()
    base = {"CPPP_API": "", "PROJECT_VERSION": ".".join(ver), "PROJECT_VERSION_MAJOR": ver[0],
            "PROJECT_VERSION_MINOR": ver[1], "PROJECT_VERSION_PATCH": ver[2]}
    def conf(src, dst, **extra):
        e = dict(base); e.update(extra)
        write(os.path.join(inc, dst), configure(read(os.path.join(REPO, src)), e))
    conf("include/cppp/reiconv.hpp.in", "cppp/reiconv.hpp")
    conf("include/cppp/reiconv.h.in", "cppp/reiconv.h")
    conf("include/cppp/encodings/reiconv.hpp.in", "cppp/encodings/reiconv.hpp",
         INDEXES_CODE=read(os.path.join(REPO, "lib/generated/indexes.hpp.shippet")).strip())
    conf("include/cppp/encodings/reiconv.h.in", "cppp/encodings/reiconv.h",
         INDEXES_CODE=read(os.path.join(REPO, "lib/generated/indexes.h.shippet")).strip())
    conf("include/iconv.h.in", "compat/iconv.h")
    return inc

def defs():
    ver, _ = project()
    return ["-DVERSION_MAJOR=" + ver[0], "-DVERSION_MINOR=" + ver[1], "-DVERSION_PATCH=" + ver[2]]

def lib_jobs(out, inc, variant, extra=()):
    """list of (cmd, object)"""
    cc, cxx, fl = VARIANTS[variant]
    _, src = project()
    jobs = []
    d = os.path.join(out, "obj-" + variant)
    os.makedirs(d, exist_ok=True)
    for s in src:
        if os.path.basename(s) == "locale_charset.c":
            continue        # needs cppp-platform; C20 builds it with stub platform headers
        o = os.path.join(d, os.path.basename(s) + ".o")
        comp, std = (cxx, "-std=c++20") if s.endswith((".cpp", ".cc", ".cxx")) else (cc, "-std=gnu17")
        jobs.append(([comp, std] + WARN + fl + list(extra) + defs() + ["-fPIC", "-I" + os.path.join(REPO, "lib"), "-I" + inc, "-c", s, "-o", o], o))
    return jobs

def build(out, variants, harness, libs=(), cflags=(), keep=False):
    """Compile library variants and harness sources. harness: {exe: (variant, [sources], [extra flags])}."""
    if os.path.isdir(out) and not keep:
        shutil.rmtree(out)
    os.makedirs(out, exist_ok=True)
    inc = headers(out)
    jobs = []; libobjs = {}
    for v in variants:
        js = lib_jobs(out, inc, v)
        libobjs[v] = [o for _, o in js]
        jobs += [c for c, _ in js]
    links = []
    for exe, (v, srcs, ex) in harness.items():
        cc, cxx, fl = VARIANTS[v]
        objs = []
        for s in srcs:
            o = os.path.join(out, "h-%s-%s.o" % (exe, os.path.basename(s)))
            f = [x for x in fl]
            jobs.append([cxx, "-std=c++20"] + WARN + f + list(cflags) + list(ex) + ["-I" + os.path.join(VERIF, "vf/h"), "-I" + inc, "-c", s, "-o", o])
            objs.append(o)
        links.append([cxx] + fl + objs + libobjs[v] + ["-lpthread", "-ldl"] + list(libs) + [x for x in ex if x.startswith("-l") or x.startswith("-Wl")] + ["-o", os.path.join(out, exe)])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
        list(ex.map(run, links))
    return {e: os.path.join(out, e) for e in harness}
