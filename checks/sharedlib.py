"""C26: shared libraries and system error texts."""
import os, subprocess
from vlib.core import Script, path_cover, CheckError, HARNESS
from checks.strings import hx

CFG = """SPECIFICATION Spec
CONSTANTS Vars = {0, 1%s}
 Libs = {1, 2}
 Needs <- ChainNeeds
 MaxOpen = %d
VIEW View
INVARIANTS Exact Counts
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
"""


def make_libs(ctx):
    src = os.path.join(HARNESS, "libs", "lib.c")

    def cc(out, *a):
        p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", src, "-o", os.path.join(ctx.dir, out)] + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError(p.stdout.decode())
    for i in (1, 2, 4):
        cc("libvh%d.so" % i, "-DID=%d" % i)
    cc("libvh3.so", "-DID=3", "-DDEP=1", "-L" + ctx.dir, "-l:libvh1.so", "-Wl,-rpath,$ORIGIN")
    cc("broken.so", "-DID=5", "-DBROKEN", "-Wl,-z,lazy")
    open(os.path.join(ctx.dir, "text.so"), "w").write("this is not a library\n" * 50)
    open(os.path.join(ctx.dir, "empty.so"), "w").close()
    whole = open(os.path.join(ctx.dir, "libvh2.so"), "rb").read()
    open(os.path.join(ctx.dir, "short.so"), "wb").write(whole[:300])
    os.makedirs(os.path.join(ctx.dir, "dir.so"), exist_ok=True)


BAD = ["./missing.so", "./broken.so", "./text.so", "./empty.so", "./short.so", "./dir.so", "no-such-library-anywhere.so", "./missing/" + "x" * 200 + ".so",
       "./100%s%n%d.so", "./%%.so", "./missing/" + "yz" * 900 + ".so"]


def c26(ctx):
    d = ctx.build([("lib_asan", "sharedlib.cpp", ["-O1", "-rdynamic", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-ldl"]),
                   ("lib_rel", "sharedlib.cpp", ["-O2", "-DNDEBUG", "-rdynamic", "-ldl"])])
    make_libs(ctx)
    r = ctx.rng
    edges = ctx.model("LibMC", CFG % ctx.pick(("", 3), (", 2", 3)), edges=True, timeout=3000)
    paths, total = path_cover(edges, key=str, maxlen=40)
    ctx.notes.append("%d transitions covered by %d histories" % (total, len(paths)))
    size = lambda: r.choice([-1, -2, 0, 1, 2, 3, 10, 40, 41, 60, 200, 256, 1000, 4096])
    opn = lambda v, k: "open %d %d %d %d" % (v, k, size(), r.randrange(3))
    bad = lambda v: "fail %d 0 %s %d %d" % (v, hx(r.choice(BAD)), size(), r.randrange(3))
    S = []
    for i, (_, acts) in enumerate(paths):
        L = []
        for a in acts:
            o = a["o"]
            if o == "open":
                # the model's 2 needs its 1, as 3 needs 1 here
                L.append(opn(a["a"], {1: 1, 2: 3}[a["b"]]))
            elif o == "fail":
                L.append(bad(a["a"]))
            elif o == "copy":
                L.append("%s %d %d" % (r.choice(["copy", "copy", "pass"]), a["a"], a["b"]))
            else:
                L.append("%s %d %d" % (o, a["a"], a["b"]))
        S.append(Script("m%d" % i, L, "model"))
    # every bad file with every buffer size
    for i, b in enumerate(BAD):
        L = []
        for m in list(range(-2, 12)) + [30, 50, 100, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096]:
            for how in range(3):
                L.append("fail %d 0 %s %d %d" % (r.randrange(5), hx(b), m, how))
        S.append(Script("b%d" % i, L, "model"))
    for i in range(ctx.pick(200, 2000)):
        L = []
        h = [0] * 5
        for _ in range(r.randint(5, 60)):
            k = r.random()
            a, b = r.randrange(5), r.randrange(5)
            if k < .3:
                h[a] = r.randint(1, 4)
                L.append(opn(a, h[a]))
            elif k < .4:
                h[a] = 0
                L.append(bad(a))
            elif k < .55:
                L.append("%s %d %d" % (r.choice(["copy", "pass"]), a, b))
                h[a] = h[b]
            elif k < .67:
                L.append("move %d %d" % (a, b))
                if a != b:
                    h[a], h[b] = h[b], 0
            elif k < .82:
                L.append("drop %d 0" % a)
                h[a] = 0
            elif h[a]:
                L.append("lookup %d %d" % (a, r.randint(0, 4)))
        S.append(Script("r%d" % i, L))
    L = []
    for c in range(-1, 140):
        L += ["text %d %d %d" % (c, m, h) for m, h in [(0, 1), (1, 0), (r.randint(2, 12), 1), (r.randint(2, 60), 0), (r.choice([200, 255, 256, 257, 1024, 4096]), r.randrange(2))]]
    for c in (0, 2, 11, 9999, -5, 2**31 - 1):
        L += ["text %d %d %d" % (c, m, m % 2) for m in range(0, 50)]
    S += [Script("t%d" % j, L[j:j + 200], "model") for j in range(0, len(L), 200)]
    ctx.conform("LibTrace", d, S)
