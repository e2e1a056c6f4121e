"""Builds the library from /repo's working tree, in the variants the monitors need, plus the harnesses.

Objects are cached under build/ by content, so a rebuild costs only what changed."""
import hashlib, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
H = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")

COMMON = ["-g", "-pthread", "-fno-omit-frame-pointer", "-DHAVE_CONFIG_H=1"]
SAN_AU = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
VARIANTS = {
    # what build.sh builds
    "rel": dict(lib=["-O3", "-march=x86-64-v3", "-ffast-math"], har=["-O2", "-march=x86-64-v3"], link=[]),
    # address + undefined behaviour sanitizers, fatal; local variables start from a pattern instead of stale content
    "asan": dict(lib=["-O1", "-march=x86-64-v3", "-ffast-math", "-ftrivial-auto-var-init=pattern"] + SAN_AU, har=["-O1", "-march=x86-64-v3"] + SAN_AU, link=SAN_AU),
    # for valgrind memcheck: use of indeterminate memory
    "vg": dict(lib=["-O1", "-march=x86-64-v3", "-ffast-math"], har=["-O2", "-march=x86-64-v3"], link=[]),
    # thread sanitizer
    "tsan": dict(lib=["-O1", "-march=x86-64-v3", "-ffast-math", "-fsanitize=thread"], har=["-O1", "-march=x86-64-v3", "-fsanitize=thread"], link=["-fsanitize=thread"]),
}


# harnesses made of several objects
ALL = ["vec", "blas2", "blas3", "mat", "lu", "sym", "qr", "red", "eig", "svd", "elem", "ext"]
COMBINE = {"conc": ALL + ["sp", "spmv", "spit", "io"], "cfg": ALL, "flt": ALL + ["sp", "spmv", "spit", "io"], "mis": ALL + ["sp", "spmv", "spit"]}


class BuildError(Exception):
    pass


def sources():
    """Source lists of src/Makefile.am for the configured options: (file, extra flags)."""
    txt = open(os.path.join(SRC, "Makefile.am")).read().replace("\\\n", " ")
    lists = {}
    for m in re.finditer(r"^(COMMON|BLAS|EBLAS|ACCEL|LAPACK|SPARSE|COMPAT)\s*\+?=(.*)$", txt, re.M):
        lists.setdefault(m.group(1), []).extend(re.findall(r"\S+\.c\b", m.group(2)))
    out = []
    for k, fl in lists.items():
        for f in fl:
            out.append((f, ["-DFLOAT64"] if k != "COMMON" else
                        ['-DCONFIG_SETTINGS="x"', '-DCOMPILER="x"', '-DCOMPILE_TIME="x"']))
    if len(out) < 100:
        raise BuildError("only %d sources found in src/Makefile.am" % len(out))
    return out


_mem = {}


def _tree_hash():
    """Hash of everything a translation unit may include: every header, and any .c that is included."""
    if "t" in _mem:
        return _mem["t"]
    h = hashlib.sha256()
    for base in (SRC,):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".inc", ".hpp")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    for f in ("config.h",):
        h.update(open(os.path.join(H, f), "rb").read())
    _mem["t"] = h.hexdigest()
    return _mem["t"]


def _har_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(H)):
        if f.endswith((".hpp", ".h")):
            h.update(open(os.path.join(H, f), "rb").read())
    return h.hexdigest()


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def _compile(cc, flags, src, extra_hash=""):
    body = open(src, "rb").read()
    # sources that include other .c files depend on those as well
    incs = re.findall(rb'#\s*include\s+"([^"]+\.c)"', body)
    h = hashlib.sha256()
    for i in incs:
        p = os.path.join(os.path.dirname(src), i.decode())
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    h.update(body); h.update(" ".join([cc] + flags).encode()); h.update(src.encode())
    h.update(_tree_hash().encode()); h.update(extra_hash.encode())
    key = h.hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key[:2], key + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        _run([cc] + flags + ["-c", src, "-o", tmp])
        os.replace(tmp, obj)
    return obj, key


def build(variant, harnesses, lib_defs=(), extra_link=(), jobs=8):
    """Returns {harness: binary path} for one variant."""
    v = VARIANTS[variant]
    inc = ["-I" + H, "-I" + os.path.join(SRC, "include"), "-I" + SRC]
    cflags = COMMON + inc + ["-w"] + v["lib"] + list(lib_defs)
    xflags = COMMON + inc + ["-std=c++17", "-fpermissive", "-w", "-DFLOAT64"] + v["har"] + list(lib_defs)
    with ThreadPoolExecutor(jobs) as ex:
        futs = []
        hh = _har_hash()
        hf = {}
        for n in sorted(set(list(harnesses) + ["main"] + [x for h in harnesses for x in COMBINE.get(h, [])])):
            hf[n] = ex.submit(_compile, "g++", xflags, os.path.join(H, n + ".cpp"), hh)
        for f, fl in sources():
            futs.append(ex.submit(_compile, "gcc", cflags + fl, os.path.join(SRC, f)))
        objs = [f.result() for f in futs]
        lib_key = hashlib.sha256("".join(k for _, k in objs).encode()).hexdigest()[:24]
        os.makedirs(os.path.join(BUILD, "lib"), exist_ok=True)
        lib = os.path.join(BUILD, "lib", "libarmas-%s-%s.a" % (variant, lib_key))
        if not os.path.exists(lib):
            tmp = lib + ".%d.tmp" % os.getpid()
            _run(["ar", "rcs", tmp] + sorted(set(o for o, _ in objs)))
            os.replace(tmp, lib)
        hobj = {n: f.result() for n, f in hf.items()}

        def link(n):
            own = [hobj[x] for x in [n] + COMBINE.get(n, [])]
            key = hashlib.sha256((lib_key + "".join(k for _, k in own) + hobj["main"][1] + " ".join(extra_link)).encode()).hexdigest()[:24]
            os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
            out = os.path.join(BUILD, "bin", "%s-%s-%s" % (n, variant, key))
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                _run(["g++"] + v["link"] + ["-g", "-pthread"] + [o for o, _ in own] + [hobj["main"][0], lib, "-o", tmp,
                      "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"] + list(extra_link) + ["-lm"])
                os.replace(tmp, out)
            return out
        lf = {n: ex.submit(link, n) for n in harnesses}
        return {n: f.result() for n, f in lf.items()}


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1], sys.argv[2:]))
    print("%.1fs" % (time.time() - t))
