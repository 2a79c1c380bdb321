"""C33: the small helpers, the shims of compat/, and what the headers are to the compilers."""
import glob
import os
import struct
import sys
from vlib.core import HARNESS, REPO, Script, path_cover
sys.path.insert(0, HARNESS)
from uses import USES

CFG = """SPECIFICATION Spec
CONSTANTS N = 16
 Slots = {0, 1}
 Part = "%s"
VIEW View
INVARIANTS Apart Inside Counted
PROPERTY Others
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
"""
ALIGN = {"char": 1, "short": 2, "int": 4, "long": 8, "double": 8, "ptr": 8, "s3": 1, "s12": 4, "s16": 8, "s100": 1, "pad": 4, "empty": 1,
         "bits": 4, "uni": 4, "packed": 1, "wide": 32, "enum": 1, "arr": 4, "cube": 2}
SIZE = {"char": 1, "short": 2, "int": 4, "long": 8, "double": 8, "ptr": 8, "s3": 3, "s12": 12, "s16": 16, "s100": 100, "pad": 8, "empty": 1,
        "bits": 4, "uni": 8, "packed": 5, "wide": 64, "enum": 1, "arr": 28, "cube": 30}
BYSIZE = {1: ["char", "enum", "empty"], 2: ["short"], 3: ["s3"], 4: ["int", "bits"], 8: ["long", "double", "ptr", "pad", "uni"]}
TARGETS = ("gcc x86_64-linux-gnu x86_64-linux-gnux32 i386-linux-gnu aarch64-linux-gnu aarch64-linux-android armv7-linux-gnueabihf arm-linux-gnueabi "
           "riscv64-linux-gnu powerpc64le-linux-gnu x86_64-unknown-freebsd i386-unknown-freebsd aarch64-unknown-freebsd x86_64-unknown-netbsd "
           "aarch64-unknown-netbsd x86_64-unknown-openbsd i386-unknown-openbsd x86_64-apple-macosx arm64-apple-macosx i386-apple-macosx "
           "x86_64-pc-windows-msvc i686-pc-windows-msvc aarch64-pc-windows-msvc x86_64-w64-mingw32 i686-w64-mingw32 wasm32-unknown-emscripten "
           "x86_64-pc-solaris i386-pc-solaris D:_WIN32,_MSC_VER=1930,_M_X64 D:_WIN32,_MSC_VER=1930,_M_IX86 D:_WIN32,_MSC_VER=1930,_M_ARM64 "
           "D:_WIN32,_MSC_VER=1930,_M_ARM D:__MACH__,__GNUC__=9,__x86_64__").split()
FIN = ["pow", "atan2", "log", "acos", "asin", "powf", "atan2f", "logf", "acosf", "asinf"]


def bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


SPECIAL = [bits(x) for x in (0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0, 1.5, 1e300, -1e300, 1e-300, 1e30, 1e-30, 1e38, 3.5e38, 1.0000001,
                             0.9999999, 2.718281828459045, 3.141592653589793, float("inf"), float("-inf"))] + \
          [0x7ff8000000000000, 1, 0x8000000000000001, 0x0010000000000000, 0x7fefffffffffffff, 0x3ff0000000000001, 0x3fefffffffffffff]


def replay(r, sid, acts):
    L, ty = ["fill %d %d" % (r.randrange(256), r.randrange(256))], {}
    for a in acts:
        o = a[0]
        if o == "fill":
            L.append("fill %d %d" % (r.randrange(1, 256), r.randrange(256)))
        elif o == "zero":
            L.append("zero %s %d" % (r.choice(BYSIZE[a[1]]), 64 + a[2]))
        elif o == "place":
            L.append("place %d %s %d" % (a[1], r.choice(BYSIZE[a[2]]), 64 + a[3]))
        elif o == "put":
            L.append("put %d %d" % (a[1], r.randrange(256)))
        elif o != "-":
            L.append(" ".join([o] + [str(x) for x in a[1:]]))
    return Script(sid, L, "model")


def random_memory(r, sid):
    L, used = [], {}
    for _ in range(r.randint(10, 40)):
        x = r.random()
        if x < .15:
            L.append("fill %d %d" % (r.randrange(256), r.randrange(256)))
        elif x < .5:
            t = r.choice(list(SIZE))
            # never where a buffer lives: its object's bytes are its own
            off = r.randrange(0, 256 - SIZE[t] + 1)
            off -= off % ALIGN[t]
            L.append("zero %s %d" % (t, off))
        elif x < .7 and len(used) < 4:
            s = r.choice([s for s in range(4) if s not in used])
            t = r.choice([t for t in SIZE if t not in ("arr", "cube")])
            al, sz = max(8, ALIGN[t]), (SIZE[t] + 7) // 8 * 8
            off = r.randrange(0, 256 - max(sz, al) + 1)
            off -= off % al
            if all(off + sz <= o or o + z <= off for o, z in used.values()):
                used[s] = (off, sz)
                L.append("place %d %s %d" % (s, t, off))
        elif used:
            s = r.choice(list(used))
            k = r.random()
            if k < .5:
                L.append("put %d %d" % (s, r.randrange(256)))
            elif k < .8:
                L.append("get %d" % s)
            else:
                L.append("unplace %d" % s)
                del used[s]
    return Script(sid, L)


def values(r, w):
    v = [0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
    v += [r.getrandbits(64) for _ in range(4)] + [1 << r.randrange(64) for _ in range(4)]
    return sorted({x & ((1 << w) - 1) for x in v})


def calls(ctx):
    r, S = ctx.rng, []

    def one(sid, lines):
        S.append(Script("f_" + sid, lines))
    one("int", ["likely int %d" % v for v in (0, 1, 2, -1, 7, 256, 1 << 31, -(1 << 31))])
    for k in ("wide", "neg", "ptr"):
        one(k, ["likely %s %d" % (k, v) for v in values(r, 64)])
    one("dbl", ["likely dbl %d" % v for v in (0, 1, -1, 1 << 19, -(1 << 19), 1 << 20, 1 << 40, 3)])
    one("obj", ["likely obj 0", "likely obj 1", "unused a", "unused bb"])
    for k, w in (("u8", 8), ("s8", 8), ("u16", 16), ("s16", 16), ("u32", 32), ("s32", 32), ("u64", 64), ("s64", 64), ("char", 8), ("enum8", 8),
                 ("enum32", 32), ("uptr", 64), ("ptr", 64)):
        one("cast_" + k, ["cast %s %d" % (k, v) for v in values(r, w)])
    for t in ("char", "int", "long", "s12", "row", "ptr", "str", "s100"):
        one("len_" + t, ["len %s %d" % (t, n) for n in (1, 2, 3, 7, 16, 255, 256, 1000, 65537)])
    for i in range(ctx.pick(4, 40)):
        one("al%d" % i, ["aligned %d %d" % (v & -(1 << r.choice([0, k, k, max(k - 1, 0)])) & ((1 << 64) - 1), k)
                         for k in range(64) for v in (r.getrandbits(64), 1 << k, (1 << k) - 1 if k else 0)])
    one("big", ["big %d" % n for n in (257, 1000, 4096, 4097, 65536, 70001, 3000000)])
    one("const", ["const kb", "const mb", "const gb", "const malloc"] + ["malloc %d" % n for n in (16, 17, 24, 32, 100, 1000, 5000, 200000)])
    one("atleast", ["atleast %d %d" % (x, y) for x in (0, 4, 12, 13, 14, 17, 18, 19, 99) for y in (0, 1, 2, 3, 4, 9, 100)])
    for f in FIN:
        two = f[:3] in ("pow", "ata")
        pairs = [(x, y) for x in SPECIAL for y in (SPECIAL if two else SPECIAL[:1])]
        for _ in range(ctx.pick(100, 1000)):
            pairs.append((bits(r.choice([r.uniform(-1, 1), r.uniform(0, 10), r.gauss(0, 1e5)])), bits(r.uniform(-5, 5))))
        if f[-1] == "f":   # NaN and the infinities survive the narrowing; so do all others as numbers
            pairs = pairs[::3] + pairs[:60]
        for i in range(0, len(pairs), 200):
            one("fin_%s%d" % (f, i), ["fin %s %d %d" % (f, x, y) for x, y in pairs[i:i + 200]])
    return S


def built(ctx):
    r, S = ctx.rng, []
    heads = sorted(os.path.relpath(h, REPO) for h in glob.glob(os.path.join(REPO, "amtl", "**", "*.h"), recursive=True) if "windows" not in h)
    for c in ("g++", "clang++"):
        for std in (["c++17"] if not ctx.thorough else ["c++17", "c++20"]):
            for h in heads if c == "g++" or ctx.thorough else r.sample(heads, 12):
                S.append(Script("h%d" % len(S), ["header %s %s %s" % (c, std, h), "header %s %s %s %s" % (c, std, h, h)]))
            for _ in range(ctx.pick(4, 16)):
                k = r.sample(heads, r.choice([len(heads), len(heads) // 2, 5]))
                S.append(Script("h%d" % len(S), ["link %s %s %s" % (c, std, " ".join(k))]))
        for h in [k for k in USES if k.split("#")[0] in heads]:
            for w in ["plain", "noeh"] if not ctx.thorough else ["plain", "noeh", "stdcxx", "single", "release"]:
                S.append(Script("u%d" % len(S), ["use %s %s %s" % (c, w, h)]))
        for h in ("amtl/am-enum.h", "amtl/am-flags.h", "amtl/am-threadlocal.h"):
            S += [Script("w%d" % len(S), ["use %s %s %s" % (c, w, h) for w in ("stdcxx", "single", "release")])]
        for v in ("default", "hidden"):
            S.append(Script("d_%s_%s" % (c[:3], v), ["dso %s %s" % (c, v)]))
        for f in FIN:
            S.append(Script("s_%s_%s" % (c[:3], f), ["strong %s __%s_finite %d" % (c, f, o) for o in (0, 1)]))
    S.append(Script("plat", ["platform " + t for t in TARGETS]))
    sup = [("gcc", x, y) for x in (3, 4, 5, 13) for y in (0, 4, 8, 9, 10)] + [("clang", x, y) for x in (2, 3, 4, 18) for y in (0, 3, 4, 5, 9)]
    sup += [("msvc", x, 0) for x in (1600, 1800, 1899, 1900, 1901, 1930)] + [("other", 1, 1)]
    S.append(Script("sup", ["support %s %d %d" % s for s in sup]))
    return S


def c33(ctx):
    own = ["helpers.cpp", "helpers2.cpp", os.path.join(REPO, "compat", "stdcxx.cpp")]
    d = ctx.build([("hlp_asan", own, ["-O1", "-fsanitize=address"]), ("hlp_opt", own, ["-O2", "-DNDEBUG"]),
                   ("hlp_clang", own, ["CC=clang++", "-O2"])])
    r, S = ctx.rng, []
    for part in ("mem", "held", "once"):
        edges = ctx.model("HelperMC", CFG % part, edges=True)
        paths, total = path_cover(edges, key=str, maxlen=60)
        ctx.notes.append("%s: %d transitions covered by %d histories" % (part, total, len(paths)))
        S += [replay(r, "%s%d" % (part, n), acts) for n, (_, acts) in enumerate(paths)]
    S += [random_memory(r, "r%d" % n) for n in range(ctx.pick(150, 1500))]
    S += calls(ctx)
    ctx.conform("HelperTrace", d, S, label="helpers")
    ctx.conform("HelperTrace", {"cxx": os.path.join(HARNESS, "cxxdrv.py")}, built(ctx), label="built programs", timeout=300)
