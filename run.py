#!/usr/bin/env python3
"""Driver of the monitors.

    run.py setup                 build everything once (optional; checks build on demand)
    run.py PROP [--tier T] [--seed N]
    run.py replay FILE           re-run the job that produced a violation

Exit 0: held on everything explored; 1: violated (VIOLATION line); other: no answer.
"""
import collections
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MON = os.path.join(HERE, "mon")
CACHE = os.path.join(HERE, ".build")
JOBS = max(2, min(8, os.cpu_count() or 2))
KEEP = 6  # cached builds of each kind

BASE = ["-D_ISOC99_SOURCE", "-std=c99"]


class NoAnswer(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise NoAnswer("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def files_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.c")))


def lib_inputs():
    return lib_sources() + glob.glob(os.path.join(REPO, "src", "*.h")) + \
        glob.glob(os.path.join(REPO, "*.h"))


def pmap(f, xs):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(f, xs))


def cached(kind, key, build):
    """build(dir) fills a directory once per content key"""
    os.makedirs(CACHE, exist_ok=True)
    d = os.path.join(CACHE, "%s-%s" % (kind, key))
    with open(os.path.join(CACHE, ".lock-" + kind), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, ".ok")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            build(d)
            open(os.path.join(d, ".ok"), "w").close()
        os.utime(d)
        olds = sorted((x for x in glob.glob(os.path.join(CACHE, kind + "-*"))),
                      key=os.path.getmtime)
        for o in olds[:-KEEP]:
            if time.time() - os.path.getmtime(o) > 3600:
                shutil.rmtree(o, ignore_errors=True)
    return d


def compile_lib(d, cc, flags):
    def one(src):
        o = os.path.join(d, os.path.basename(src)[:-2] + ".o")
        sh([cc] + BASE + flags + ["-c", src, "-o", o])
        return o
    return pmap(one, lib_sources())


def lib(kind, cc, flags):
    key = files_hash(lib_inputs(), " ".join([cc] + flags))

    def build(d):
        objs = compile_lib(d, cc, flags)
        sh(["ar", "rcs", os.path.join(d, "libtakum.a")] + objs)
    return os.path.join(cached(kind, key, build), "libtakum.a")


def harness():
    srcs = sorted(f for f in glob.glob(os.path.join(MON, "*.cpp")) if not f.endswith("_main.cpp"))
    key = files_hash(srcs + glob.glob(os.path.join(MON, "*.h")) + [os.path.join(REPO, "takum.h")])

    def build(d):
        def one(src):
            o = os.path.join(d, os.path.basename(src)[:-4] + ".o")
            sh(["g++", "-std=gnu++17", "-O2", "-I" + REPO, "-c", src, "-o", o])
        pmap(one, srcs)
    return sorted(glob.glob(os.path.join(cached("harness", key, build), "*.o")))


def gcc_libdir():
    return os.path.dirname(sh(["gcc", "-print-file-name=libquadmath.so"]).strip())


def link(kind, cc, archive, extra):
    objs = harness()
    key = hashlib.sha256((archive + "|" + objs[0] + "|" + cc + " ".join(extra)).encode()).hexdigest()[:24]

    def build(d):
        sh([cc] + extra + ["-o", os.path.join(d, "mon")] + objs + [archive, "-L" + gcc_libdir(),
                                                                  "-lquadmath", "-lm", "-ldl", "-lpthread"])
    return os.path.join(cached("bin" + kind, key, build), "mon")


SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-omit-frame-pointer"]


def bin_plain():
    return link("plain", "g++", lib("plain", "gcc", ["-Os"]), [])


def bin_hooked():
    """the plain library with calls into its surroundings redirected to the monitor's stand-ins"""
    with open(os.path.join(MON, "p_calls.cpp")) as f:
        t = f.read()
    names = re.findall(r"^MON_SOURCE_HOOK\([^,]+, (\w+),", t, re.M) + \
        re.findall(r"X\((\w+), -?\d+\)", t[t.index("#define MON_EFFECT_HOOKS"):t.index("enum { EFFECT_NONE")])
    arc = lib("plain", "gcc", ["-Os"])
    key = hashlib.sha256((arc + " ".join(names)).encode()).hexdigest()[:24]

    def build(d):
        fl = []
        for n in names:
            fl += ["--redefine-sym", "%s=mon_%s" % (n, n)]
        sh(["objcopy"] + fl + [arc, os.path.join(d, "libtakum.a")])
    return link("hooked", "g++", os.path.join(cached("hookedlib", key, build), "libtakum.a"), [])


def bin_nopie():
    return link("nopie", "g++", lib("nopie", "gcc", ["-Os", "-fno-pie"]), ["-no-pie"])


def bin_asan():
    return link("asan", "clang++", lib("asan", "clang", ["-O1", "-g"] + SAN), ["-fsanitize=address,undefined"])


def bin_gsan():
    f = ["-O2", "-g", "-fsanitize=address,undefined,float-cast-overflow,bounds-strict"]
    return link("gsan", "g++", lib("gsan", "gcc", f), ["-fsanitize=address,undefined"])


def bin_tsan():
    return link("tsan", "clang++", lib("tsan", "clang", ["-O1", "-g", "-fsanitize=thread"]), ["-fsanitize=thread"])


def bin_msan():
    fl = ["-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer"]
    arc = lib("msan", "clang", fl)
    key = files_hash([os.path.join(MON, f) for f in ("types.cpp", "types.h", "msan_main.cpp")] +
                     [os.path.join(REPO, "takum.h")], arc)

    def build(d):
        sh(["clang++", "-std=gnu++17", "-I" + REPO] + fl + ["-o", os.path.join(d, "mon")] +
           [os.path.join(MON, f) for f in ("types.cpp", "msan_main.cpp")] + [arc, "-lm"])
    return os.path.join(cached("binmsan", key, build), "mon")


FCMP = re.compile(r"^\s+%\S+ = fcmp (?:[a-z]+ )*?(?:oeq|ogt|oge|olt|ole|one|ord|ueq|ugt|uge|ult|ule|une|uno) "
                  r"(float|double|x86_fp80) ([^\s,]+), ([^\s,]+)")
FCONST = re.compile(r"\b(?:float|double|x86_fp80) (0x[0-9A-F]{16}|0xK[0-9A-F]{20}|-?\d+\.\d+e[-+]\d+)(?![\w.])"
                    r"|fcmp [a-z ]+ (?:float|double|x86_fp80) [^\s,]+, (0x[0-9A-F]{16}|0xK[0-9A-F]{20}|-?\d+\.\d+e[-+]\d+)"
                    r"|, (0x[0-9A-F]{16}|0xK[0-9A-F]{20}|-?\d+\.\d+e[-+]\d+)(?![\w.])")


def fconst(t):
    """a floating-point constant of LLVM's assembly as C text"""
    if t.startswith("0xK"):
        e, m = int(t[3:7], 16), int(t[7:], 16)
    elif t.startswith("0x"):
        b = int(t, 16)
        e, m = (b >> 52) & 0x7ff, (b & (1 << 52) - 1) << 11
        if e == 0x7ff:
            return None
        m |= (1 << 63) if e else 0
        e = (e or 1) - 1023 + 16383
        e |= (b >> 63) << 15
    else:
        return t.lstrip("-")
    if not m or e & 0x7fff == 0x7fff:
        return None
    return "0x%xp%d" % (m, (e & 0x7fff) - 16383 - 63)


def trace_fcmp(src, dst, consts):
    """report the operands of floating-point comparisons, which trace-cmp leaves out"""
    with open(src) as f:
        lines = f.read().split("\n")
    out = []
    for l in lines:
        m = FCMP.match(l)
        if m:
            out.append("  call void @mon_fcmp_%s(%s %s, %s %s)" % (m.group(1), m.group(1), m.group(2), m.group(1), m.group(3)))
        out.append(l)
        if " = " in l:
            for g in FCONST.findall(l):
                v = fconst(next(x for x in g if x))
                if v:
                    consts.add(v)
    out += ["declare void @mon_fcmp_%s(%s, %s)" % (t, t, t) for t in ("float", "double", "x86_fp80")]
    with open(dst, "w") as f:
        f.write("\n".join(out) + "\n")


def cov_lib():
    """the library reporting edges and comparisons, for guided operands"""
    rt, tc = os.path.join(MON, "cov_rt.c"), os.path.join(MON, "types.cpp")
    fl = ["-O0", "-fPIC", "-fsanitize-coverage=inline-8bit-counters,trace-cmp"]
    key = files_hash(lib_inputs() + [rt, tc, os.path.join(MON, "types.h"), os.path.abspath(__file__)], " ".join(fl))

    def build(d):
        consts = set()

        def one(src):
            b = os.path.join(d, os.path.basename(src)[:-2])
            sh(["clang"] + BASE + ["-O1", "-Xclang", "-disable-llvm-passes", "-fPIC", "-fno-builtin-memcmp",
                                  "-S", "-emit-llvm", src, "-o", b + ".ll"])
            # keep the branches of the source: no if-conversion, no merged conditions
            sh(["opt", "-S", "-passes=sroa,early-cse", b + ".ll", "-o", b + ".ll"])
            trace_fcmp(b + ".ll", b + "_t.ll", consts)
            sh(["clang"] + fl + ["-c", b + "_t.ll", "-o", b + ".o"])
            os.unlink(b + ".ll")
            os.unlink(b + "_t.ll")
            return b + ".o"
        objs = pmap(one, lib_sources())
        with open(os.path.join(d, "consts"), "w") as f:
            f.write("".join("%s\n" % x for x in sorted(consts)))
        sh(["gcc", "-std=gnu99", "-O2", "-fPIC", "-c", rt, "-o", os.path.join(d, "rt_cov.o")])
        sh(["g++", "-std=gnu++17", "-O1", "-fPIC", "-I" + REPO, "-c", tc, "-o", os.path.join(d, "types_table.o")])
        sh(["g++", "-shared", "-Wl,-Bsymbolic", "-o", os.path.join(d, "cov.so")] + objs +
           [os.path.join(d, "rt_cov.o"), os.path.join(d, "types_table.o"), "-lm"])
    return os.path.join(cached("cov", key, build), "cov.so")


def calculator():
    """example/calculator with sanitizers and failing allocations on the plain library"""
    arc = lib("plain", "gcc", ["-Os"])
    srcs = sorted(glob.glob(os.path.join(REPO, "example", "*.c")))
    oom = os.path.join(MON, "calc_oom.c")
    key = files_hash(srcs + glob.glob(os.path.join(REPO, "example", "*.h")) + [oom], arc)

    def build(d):
        fl = ["-D_ISOC99_SOURCE", "-std=gnu99", "-O1", "-g", "-fno-sanitize-recover=all"] + SAN + \
            ["-fsanitize-recover=float-cast-overflow"]  # the cast is a known finding: p_calc.cpp judges it
        sh(["gcc"] + fl + ["-c", oom, "-o", os.path.join(d, "oom.o")])
        objs = [os.path.join(d, "oom.o")]
        for s in srcs:
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            sh(["gcc", "-D_ISOC99_SOURCE", "-std=c99"] + fl[2:] + ["-Dmalloc=mon_malloc", "-Drealloc=mon_realloc",
                "-include", os.path.join(MON, "calc_oom.h"), "-c", s, "-o", o])
            objs.append(o)
        sh(["gcc"] + SAN + ["-o", os.path.join(d, "calculator")] + objs + [arc, "-lm"])
    return os.path.join(cached("calculator", key, build), "calculator")


# further builds of the library that must agree bit for bit (P20)
CONFIGS = [
    ("gcc-O0", "gcc", ["-O0"]),
    ("gcc-O2-uchar-ndebug", "gcc", ["-O2", "-funsigned-char", "-DNDEBUG"]),
    ("gcc-O3-x86-64-v3", "gcc", ["-O3", "-march=x86-64-v3"]),
    ("gcc-gnu17-O2-gnusource", "gcc", ["-std=gnu17", "-O2", "-D_GNU_SOURCE", "-ffp-contract=off"]),
    ("gcc-Os-endian", "gcc", ["-Os", "-include", "endian.h"]),
    ("gcc-O1-autoinit", "gcc", ["-O1", "-ftrivial-auto-var-init=pattern"]),
    ("gcc-O3-nostrict-pthread", "gcc", ["-O3", "-fno-strict-aliasing", "-fwrapv", "-pthread"]),
    ("gcc-O2-lto", "gcc", ["-O2", "-flto"]),
    ("gcc-c23-O2-fortify", "gcc", ["-std=c2x", "-O2", "-D_FORTIFY_SOURCE=3", "-fstack-protector-all"]),
    ("gcc-Og-nobuiltin-posix", "gcc", ["-Og", "-fno-builtin", "-D_POSIX_C_SOURCE=200809L"]),
    ("clang-O0-xopen", "clang", ["-O0", "-D_XOPEN_SOURCE=700"]),
    ("clang-c17-Oz-default", "clang", ["-std=c17", "-Oz", "-D_DEFAULT_SOURCE"]),
    ("clang-O3", "clang", ["-O3"]),
    ("clang-gnu11-Os-uchar-ndebug", "clang", ["-std=gnu11", "-Os", "-funsigned-char", "-DNDEBUG"]),
]


def config_libs():
    def one(cfg):
        name, cc, flags = cfg
        tc = os.path.join(MON, "types.cpp")
        key = files_hash(lib_inputs() + [tc, os.path.join(MON, "types.h")], " ".join([cc] + flags))

        def build(d):
            objs = compile_lib(d, cc, flags + ["-fPIC"])
            t = os.path.join(d, "types_table.o")
            sh(["g++", "-std=gnu++17", "-O1", "-fPIC", "-I" + REPO, "-c", tc, "-o", t])
            sh(["g++", "-shared", "-Wl,-Bsymbolic", "-o", os.path.join(d, name + ".so")] + objs + [t, "-lm"])
        return os.path.join(cached("cfg-" + name, key, build), name + ".so")
    return [one(c) for c in CONFIGS]


# translation units that use the published constants (P17): (name, compiler, flags, extension)
DIALECTS = [
    ("gcc-c99", "gcc", ["-std=c99", "-D_ISOC99_SOURCE", "-Os"], "c"),
    ("gcc-c11-uchar", "gcc", ["-std=c11", "-funsigned-char", "-O2", "-DNDEBUG"], "c"),
    ("gcc-gnu17", "gcc", ["-std=gnu17", "-D_GNU_SOURCE", "-O3"], "c"),
    ("gcc-c2x", "gcc", ["-std=c2x", "-O0"], "c"),
    ("clang-c99", "clang", ["-std=c99", "-O0"], "c"),
    ("clang-c2x", "clang", ["-std=c2x", "-O2"], "c"),
    ("g++-98", "g++", ["-std=gnu++98", "-O1"], "cpp"),
    ("g++-20", "g++", ["-std=c++20", "-O2"], "cpp"),
    ("clang++-11", "clang++", ["-std=c++11", "-Os", "-DNDEBUG"], "cpp"),
]
PROBE = r"""
#ifdef __cplusplus
extern "C" {
#endif
#include "takum.h"
#ifdef __cplusplus
}
#endif
#include <stdio.h>
static const int minus_one = -1;
static void put(const char *name, int64_t plain, int64_t stored, int64_t complement, int64_t product, int less)
{
	/* an operand of a larger expression, a stored takum, a signed comparison */
	printf("%s %lld %d%d%d%d\n", name, (long long)plain, stored == plain, complement == -1 - plain,
	       (uint64_t)product == (uint64_t)(plain % 7), less == (-1 < plain));
}
#define PUT(T, X) do { T stored = X; T m = (T)minus_one; \
	put(#T " " NAME_##X, (int64_t)(X), (int64_t)stored, (int64_t)~X, (int64_t)(X % 7), m < X); } while (0)
"""


def constant_probes():
    """the constants as translation units of several dialects see them; dialects that cannot use the
    header are left out"""
    with open(os.path.join(MON, "types.cpp")) as f:
        names = re.findall(r'\{ "\w+", T_(\w+), \(int64_t\)\((\w+)\)', f.read())
    text = PROBE + "".join('#define NAME_%s "%s"\n' % (n, n) for _, n in names) + "int main(void)\n{\n" + \
        "".join("\tPUT(%s, %s);\n" % x for x in names) + "\treturn 0;\n}\n"
    key = files_hash([os.path.join(REPO, "takum.h")], text + repr(DIALECTS))

    def build(d):
        def one(x):
            name, cc, fl, ext = x
            src = os.path.join(d, name + "." + ext)
            with open(src, "w") as f:
                f.write(text)
            try:
                sh([cc] + fl + ["-w", "-I" + REPO, src, "-o", src + ".bin"])
            except NoAnswer:
                return
            out = sh([src + ".bin"], timeout=60)
            with open(os.path.join(d, name + ".txt"), "w") as f:
                f.write(out)
        pmap(one, DIALECTS)
    return sorted(glob.glob(os.path.join(cached("consts", key, build), "*.txt")))


NUM = re.compile(r"""(?<![\w.])(
      0[xX][0-9a-fA-F]+(?:\.[0-9a-fA-F]*)?(?:[pP][-+]?\d+)?
    | (?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?
    )[uUlLfF]*(?![\w.])""", re.X)


def dictionary(path):
    """literals of the source under test, as seeds for the generators"""
    ints, floats = set(), set()
    for p in lib_inputs():
        with open(p, errors="replace") as f:
            text = f.read()
        text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
        text = re.sub(r"//[^\n]*", " ", text)
        if os.path.basename(p) == "takum.h":
            # declarations and the published constants: keep a bounded part
            text = "\n".join(l for l in text.splitlines() if "8_" in l or "16_" in l or "NAR" in l)
        for m in NUM.finditer(text):
            s = m.group(1)
            try:
                if re.fullmatch(r"0[xX][0-9a-fA-F]+", s):
                    ints.add(int(s, 16) & (2 ** 64 - 1))
                elif re.fullmatch(r"\d+", s):
                    ints.add(int(s.lstrip("0") or "0") & (2 ** 64 - 1))
                elif len(s) < 400:
                    floats.add(s)
            except ValueError:
                pass
    # and what the compiler computed from them
    with open(os.path.join(os.path.dirname(cov_lib()), "consts")) as f:
        floats |= set(f.read().split())
    with open(path, "w") as f:
        for i in sorted(ints)[:4000]:
            f.write("i %d\n" % i)
        for x in sorted(floats)[:2000]:
            f.write("f %s\n" % x)
    return len(ints), len(floats)


# ---------------------------------------------------------------- findings

def load_findings():
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            out = json.load(f)["findings"]
    return out


def known_for(prop):
    return {f["id"]: f for f in load_findings()
            if f.get("status") == "known" and prop in f["properties"]}


# ---------------------------------------------------------------- one run

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.evals = self.checks = self.distinct = self.jobs = 0
        self.stat = collections.Counter()
        self.maxi = {}
        self.samples = []
        self.regimes = [0] * (8 * 2 * 34)
        self.violations = []  # {key, job, detail, cmd}
        self.known = collections.OrderedDict()
        self.knownn = collections.Counter()
        self.parts = []
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)

    def monitor(self, name, binary, mprop=None, scale=1.0, extra=(), env=None, workers=JOBS, job=None,
                timeout=840):
        wd = os.path.join(self.work, name)
        os.makedirs(wd)
        dic = os.path.join(self.work, "dict")
        if not os.path.exists(dic):
            dictionary(dic)
        known = known_for(self.prop)
        cmd = [binary, "--prop", mprop or self.prop, "--tier", self.tier, "--seed", str(self.seed),
               "--workdir", wd, "--dict", dic, "--workers", str(workers), "--scale", str(scale),
               "--cov", cov_lib(), "--known", ",".join(known) or "-"] + list(extra)
        if job:
            cmd += ["--job", job]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            with open(os.path.join(wd, "stderr"), "w") as err:
                rc = subprocess.run(cmd, stdout=err, stderr=err, env=e,
                                    timeout=timeout if self.tier == "quick" else 6 * 3600).returncode
        except subprocess.TimeoutExpired:
            rc = 95
        self.read(wd, name)
        self.parts.append({"part": name, "wall_s": round(time.time() - t0, 2)})
        if rc and not self.violations:
            with open(os.path.join(wd, "stderr")) as f:
                raise NoAnswer("monitor %s ended with %d\n%s" % (name, rc, f.read()[-3000:]))
        return wd

    def read(self, wd, name):
        for p in sorted(glob.glob(os.path.join(wd, "log.*"))):
            with open(p, errors="replace") as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if d.get("known"):
                        self.known.setdefault(d["known"], d)
                    else:
                        d["part"] = name
                        self.violations.append(d)
        for p in sorted(glob.glob(os.path.join(wd, "sum.[0-9]*"))):
            with open(p, errors="replace") as f:
                d = json.load(f)
            self.evals += d["evals"]
            self.checks += d["checks"]
            for k, v in d["stat"].items():
                self.stat[k] += v
            for k, v in d["keys"].items():
                if k.startswith("K:"):
                    self.knownn[k.split(":", 2)[1]] += v
            for k, (v, w) in d["max"].items():
                if k not in self.maxi or v > self.maxi[k][0]:
                    self.maxi[k] = [v, w]
            self.regimes = [a + b for a, b in zip(self.regimes, d["regimes"])]
            self.samples += d["samples"]
        p = os.path.join(wd, "sum.parent")
        if os.path.exists(p):
            with open(p) as f:
                d = json.load(f)
            self.distinct += d["distinct"]
            self.jobs += d["jobs"]

    def done(self):
        shutil.rmtree(self.work, ignore_errors=True)


TYPES = ["takum8", "takum16", "takum32", "takum64", "takum_linear8", "takum_linear16", "takum_linear32",
         "takum_linear64"]


def regime_summary(r):
    out = {}
    for t, name in enumerate(TYPES):
        for d, w in enumerate(("operands", "results")):
            v = r[(t * 2 + d) * 34:(t * 2 + d + 1) * 34]
            if sum(v):
                out.setdefault(name, {})[w] = {
                    "regimes_hit_of_32": sum(1 for x in v[:32] if x), "zero": v[32], "nar": v[33],
                    "least_hit_regime": min(v[:32])}
    return out


# scale of the case counts (quick); thorough multiplies by 20
SCALE = {"P01": 4, "P02": 4, "P03": 4, "P04": 1, "P05": 4, "P06": 4, "P07": 2, "P08": 2.5, "P09": 3,
         "P10": 3, "P11": 3, "P12": 4, "P13": 3, "P14": 2, "P15": 2.5, "P16": 4, "P17": 1, "P18": 4,
         "P19": 4, "P20": 8, "P21": 1.2, "P22": 4}

RULES = {
    "value": "Calls of the real library judged one by one against a binary128 (or exact integer) model. Operands: "
             "exhaustive for 8 and 16 bits where one operand is involved; otherwise a mixture of every sign, regime, "
             "characteristic and mantissa corner, mathematical special points (+-3 ulp), literals mined from the "
             "source under test, uniform bit patterns, log-uniform magnitudes, neighbourhoods of one, and partners "
             "correlated with the other operand. Counted as distinct and non-trivial: distinct (function, type, "
             "operands) with operands other than NaR and 0, up to collisions of a 2^30-bit hash filter.",
    "float": "As above with floating-point operands: random bit patterns, exact and near ties between neighbouring "
             "takums, representable values, saturation limits, subnormals, literals of the source. Distinct "
             "(function, format, bit pattern), hash filter of 2^30 bits.",
    "P18": "Every public function on corner, special, literal and random operands (exhaustive for 8- and 16-bit "
           "unary functions) in sanitizer builds; a case is one call watched by the sanitizers. Distinct "
           "(function, operands), hash filter of 2^30 bits.",
    "P19": "Call lists of each function and of mixtures, every list replayed in fresh processes: in order, reversed "
           "with each call twice, shuffled among other calls with errno and exception flags disturbed, as first call "
           "of a process, and by 6 threads at once. Distinct calls, hash filter of 2^30 bits.",
    "P20": "Every public function on structured and random operands, executed in the reference build and in %d "
           "further builds of the same source. Distinct calls, hash filter of 2^30 bits." % len(CONFIGS),
    "P22": "Scripts fed to the calculator binary (sanitizers on, allocation failures injected in some): random RPN "
           "expressions over all operators, types, registers and literal forms, malformed lines, raw bytes, very "
           "long lines; stdout, stderr and exit status compared with a model line by line. Distinct (line, current "
           "type), hash filter of 2^30 bits.",
    "P21": "Algebraic relations between results of different calls, evaluated on the operand mixture. Distinct "
           "operand tuples, hash filter of 2^30 bits.",
}
ASSUME = ["x86-64 with 80-bit long double and glibc libm as installed in the sandbox",
          "the reference model (binary128 via libquadmath, or exact integers) is accurate far beyond the tolerance"]


def run_property(prop, tier, seed, job=None, part=None):
    r = Run(prop, tier, seed)
    s = SCALE.get(prop, 1)
    env_san = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:"
                               "allocator_may_return_null=1",
               "UBSAN_OPTIONS": "print_stacktrace=0", "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:report_bugs=1"}

    def want(p):
        return part is None or part == p
    if prop == "P18":
        if want("clang-asan-ubsan"):
            r.monitor("clang-asan-ubsan", bin_asan(), scale=s, env=env_san, job=job)
        if want("gcc-asan-ubsan") and not r.violations:
            r.monitor("gcc-asan-ubsan", bin_gsan(), scale=s / 2, env=env_san, job=job)
        if want("msan") and not r.violations:
            msan(r, 3000 if tier == "quick" else 100000)
    elif prop == "P19":
        if want("orders-and-threads"):
            r.monitor("orders-and-threads", bin_hooked(), scale=s, job=job)
        if want("tsan") and not r.violations:
            r.monitor("tsan", bin_tsan(), mprop="P19T", scale=1, env=env_san, job=job)
    elif prop == "P17":
        r.monitor("values", bin_plain(), scale=s, extra=["--libs", ",".join(constant_probes())], job=job)
    elif prop == "P20":
        r.monitor("builds", bin_nopie(), scale=s, extra=["--libs", ",".join(config_libs())], job=job)
    elif prop == "P22":
        r.monitor("calculator", bin_plain(), scale=s, extra=["--libs", calculator()], job=job)
    else:
        r.monitor("values", bin_plain(), scale=s, job=job)
    return r


def msan(r, n):
    t0 = time.time()
    b = bin_msan()

    def one(i):
        return subprocess.run([b, str(r.seed * 100 + i), str(n // JOBS)], stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, errors="replace",
                              timeout=840 if r.tier == "quick" else 6 * 3600)
    try:
        res = pmap(one, range(JOBS))
    except subprocess.TimeoutExpired:
        raise NoAnswer("memory sanitizer run timed out")
    for p in res:
        m = re.search(r"^MSAN (\S+) (.*)$", p.stdout, re.M)
        if m:
            src = re.search(r"#0 .*? (\S+\.c:\d+)", p.stderr)
            r.violations.append({"key": "msan|" + m.group(1), "job": "", "part": "msan",
                                 "detail": m.group(0) + (" at " + os.path.basename(src.group(1)) if src else "")})
            continue
        m = re.search(r"^calls (\d+)", p.stdout, re.M)
        if p.returncode or not m:
            if not r.violations:
                raise NoAnswer("memory sanitizer run ended with %d\n%s" % (p.returncode, p.stderr[-2000:]))
            continue
        r.evals += int(m.group(1))
        r.checks += int(m.group(1))
        r.stat["msan_calls"] += int(m.group(1))
    r.parts.append({"part": "msan", "wall_s": round(time.time() - t0, 2)})


def evidence(r, wall):
    kind = r.prop if r.prop in RULES else "float" if r.prop == "P01" else "value"
    cov = {"evaluations": r.evals, "distinct_nontrivial": r.distinct, "rule": RULES[kind],
           "samples": r.samples[:25], "verdicts": r.checks, "jobs": r.jobs, "parts": r.parts,
           "counters": dict(sorted(r.stat.items()))}
    reg = regime_summary(r.regimes)
    if reg:
        cov["regimes"] = reg
    if r.maxi:
        worst = sorted(r.maxi.items(), key=lambda x: -x[1][0])[:12]
        cov["largest_observed_errors_ulp"] = {k: {"ulp": v, "operands": w} for k, (v, w) in worst}
    if r.knownn:
        cov["known_finding_hits"] = dict(r.knownn)
    ev = {"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(wall, 2), "violations": len(r.violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % r.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(HERE, "evidence", r.prop + ".json"))


def check(prop, tier, seed):
    t0 = time.time()
    r = run_property(prop, tier, seed)
    try:
        if not r.violations and (r.evals == 0 or r.checks == 0):
            raise NoAnswer("the monitors observed nothing")
        evidence(r, time.time() - t0)
        for kid, f in known_for(prop).items():
            if kid in r.known:
                print("KNOWN-FINDING: property=%s %s [%s; %d cases in this run, e.g. %s]" %
                      (prop, f["summary"], kid, r.knownn[kid], r.known[kid]["detail"][:200]))
            else:
                print("KNOWN-FINDING: property=%s %s [%s; not reached in this run]" % (prop, f["summary"], kid))
        print("%s: %d calls, %d verdicts, %d distinct cases, %d violations, %.1f s" %
              (prop, r.evals, r.checks, r.distinct, len(r.violations), time.time() - t0))
        if not r.violations:
            return 0
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        by = collections.OrderedDict()
        for v in r.violations:
            by.setdefault(v["key"], v)
        for i, (k, v) in enumerate(list(by.items())[:20]):
            path = os.path.join(d, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "part": v.get("part"), "job": v["job"],
                           "key": k, "detail": v["detail"],
                           "replay": "python3 run.py replay " + path}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + v["detail"][:400])
        return 1
    finally:
        r.done()


def main(argv):
    os.environ.setdefault("LC_ALL", "C")
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == "setup":
        bin_plain()
        bin_nopie()
        bin_hooked()
        constant_probes()
        bin_asan()
        bin_gsan()
        bin_tsan()
        bin_msan()
        config_libs()
        calculator()
        cov_lib()
        print("built in", CACHE)
        return 0
    if argv[0] == "replay":
        with open(argv[1]) as f:
            v = json.load(f)
        r = run_property(v["property"], v["tier"], v["seed"], job=v["job"] or None, part=v.get("part"))
        for x in r.violations[:10]:
            print(x["key"], x["detail"])
        r.done()
        if any(x["key"] == v["key"] for x in r.violations):
            print("VIOLATION property=%s replay=%s" % (v["property"], argv[1]))
            return 1
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    i = 1
    while i + 1 < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
        elif argv[i] == "--seed":
            seed = int(argv[i + 1])
        i += 2
    return check(prop, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except NoAnswer as e:
        print("NO ANSWER: %s" % e, file=sys.stderr)
        sys.exit(3)
