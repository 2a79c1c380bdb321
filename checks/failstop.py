"""C32: what the default allocator policy and KE_RELEASE_ASSERT do when they cannot go on."""
from vlib.core import Script, path_cover

CFG = """SPECIFICATION Spec
CONSTANTS Tables = %s
 Arrays = %s
 MaxLen = 2
 MaxKeys = 13
%s
INVARIANT Room
CHECK_DEADLOCK FALSE
"""
EDGES = "VIEW View\nACTION_CONSTRAINT PrintEdge\nCONSTRAINT PrintInit"
LIVE = "PROPERTIES Refines RefusedStops Ends"
TABS = ["map", "set", "tab"]
ARRS = ["arr_i", "arr_b"]
IMPOSSIBLE = [1 << 31, 1 << 32, (1 << 32) + 16, 1 << 40, 1 << 63, (1 << 64) - 1, (1 << 64) - 16]


def sizes(kind):
    """Lengths whose bytes do not fit a size_t, or fit but are more than there is."""
    e = {"arr_i": 4, "arr_b": 24}[kind]
    return [(1 << 64) - 1, (1 << 64) // e, (1 << 64) // e + 1, (1 << 64) // e + 2, (1 << 63), (1 << 62), (1 << 61) + 1,
            ((1 << 64) + 64 * e) // e, (1 << 64) - e]


def replay(ctx, paths, kinds, table):
    S = []
    for n, (_, acts) in enumerate(paths):
        kind = kinds[n % len(kinds)]
        L = ["new 0 " + kind] + ([] if table else ["new 1 " + kind])
        for a in acts:
            o = a["o"]
            if o == "-":
                continue
            if a["r"]:
                L.append("refuse 0")
            if o == "init":
                L.append("init 0 %d" % (ctx.rng.choice(IMPOSSIBLE) if a["i"] else ctx.rng.choice([0, 5, 16])))
            elif o == "put":
                L.append("put 0 %d %d %d 0" % (a["k"], a["k"], n % 2))
            elif o == "rm":
                L.append("rm 0 %d" % a["k"])
            elif o == "make":
                if a["i"]:
                    L.append("make %d %s %d 5" % (a["c"], kind, ctx.rng.choice(sizes(kind))))
                elif n % 3 == 2:
                    L[-1:] = ["refuse 0"] if a["r"] else L[-1:]
                    L.append("vec %d %s %d 5 %d" % (a["c"], kind, a["k"], n % 2))
                else:
                    L.append("make %d %s %d 5" % (a["c"], kind, a["k"]))
            else:
                L.append("%s %d %d" % (o, a["c"], a["k"]))
        S.append(Script(("t" if table else "a") + str(n), L, "model"))
    return S


def random_script(r, sid):
    kinds = [r.choice(ARRS)] * 3 if r.random() < .5 else [r.choice(TABS) for _ in range(3)]
    L = ["new %d %s" % (i, k) for i, k in enumerate(kinds)]
    arr = kinds[0] in ARRS
    ready = [False] * 3
    size = [0] * 3
    for _ in range(r.randint(3, 60)):
        i, j = r.randrange(3), r.randrange(3)
        x = r.random()
        if r.random() < .06:
            L.append("refuse %d" % r.choice([0, 0, 0, 1, 1, 2]))
        if arr:
            if x < .3:
                L.append("make %d %s %d %d" % (i, kinds[i], r.choice([0, 0, 1, 2, 3, 8, 40]), r.randrange(9)))
            elif x < .32:
                L.append("make %d %s %d 0" % (i, kinds[i], r.choice(sizes(kinds[i]))))
            elif x < .45:
                L.append("vec %d %s %d %d %d" % (i, kinds[i], r.choice([0, 1, 2, 8]), r.randrange(9), r.randrange(2)))
            elif x < .55:
                if i != j:
                    L.append("%s %d %d" % (r.choice(["copy", "move"]), i, j))
            elif x < .9:
                L.append("%s %d %d" % (r.choice(["assign", "assign", "massign"]), i, j))
            else:
                L.append("chk %d" % i)
        elif not ready[i]:
            if x < .1:
                L.append("init %d %d" % (i, r.choice(IMPOSSIBLE)))
            else:
                L.append("init %d %d" % (i, r.choice([0, 16, 32, 7, 1024])))
                ready[i] = True
        elif x < .75:
            k = r.randrange(200)
            L.append("put %d %d %d %d 0" % (i, k, k if kinds[i] == "set" else r.randrange(99), r.randrange(2)))
            if r.random() < .1:
                for k in range(r.choice([10, 30, 60])):
                    L.append("put %d %d %d 0 0" % (i, 300 + k, 300 + k))
        elif x < .9:
            L.append("rm %d %d" % (i, r.randrange(200)))
        elif x < .93:
            L.append("clear %d" % i)
        else:
            L.append("chk %d" % i)
    return Script(sid, L)


def c32(ctx):
    d = ctx.build([("fail_dbg", "failstop.cpp", ["-O1", "-fno-builtin-malloc"]),
                   ("fail_rel", "failstop.cpp", ["-O2", "-DNDEBUG", "-fno-builtin-malloc"]),
                   ("fail_clang", "failstop.cpp", ["CC=clang++", "-O2", "-DNDEBUG", "-fno-builtin-malloc"])])
    r = ctx.rng
    ctx.model("FailMC", CFG % ("{0}", "{}", LIVE))
    ctx.model("FailMC", CFG % ("{}", "{0, 1}", LIVE))
    S = []
    for t, a, kinds in (("{0}", "{}", TABS), ("{}", "{0, 1}", ARRS)):
        edges = ctx.model("FailMC", CFG % (t, a, EDGES), edges=True)
        paths, total = path_cover(edges, maxlen=60)
        ctx.notes.append("%d transitions of the design covered by %d histories" % (total, len(paths)))
        S += replay(ctx, paths, kinds, t != "{}")
    for i in range(ctx.pick(250, 4000)):
        S.append(random_script(r, "r%d" % i))
    # the first n requests of a growing table are granted, the next is not
    for i, k in enumerate(TABS * ctx.pick(3, 12)):
        n = r.choice([11, 12, 13, 23, 24, 25, 48, 49, 97, 200])
        L = ["new 0 " + k, "init 0 0"] + ["put 0 %d %d %d 0" % (j, j, i % 2) for j in range(n)]
        L += [x for j in range(n, n + 120) for x in ("refuse 0", "put 0 %d %d %d 0" % (j, j, i % 2))]
        S.append(Script("g%d" % i, L))
    # every condition, true and false, in every form
    for f in range(12):
        S.append(Script("at%d" % f, ["rassert %d 1" % f] * 3 + ["rassert %d 1" % g for g in range(12)]))
        S.append(Script("af%d" % f, ["rassert %d 1" % f, "rassert %d 0" % f, "rassert %d 1" % f]))
    # the policy itself
    for i in range(ctx.pick(40, 400)):
        L, live = [], []
        for j in range(r.randint(1, 25)):
            if live and r.random() < .4:
                L.append("free %d" % live.pop(r.randrange(len(live))))
            elif r.random() < .05:
                L.append("free -1")
            else:
                if r.random() < .03:
                    L.append("refuse 0")
                L.append("alloc %d %d" % (j, r.choice([1, 2, 7, 8, 16, 17, 100, 1000, 4096, 100000, 1 << 20, r.randint(1, 5000)])))
                live.append(j)
        L += [[], ["oom"], ["over"], ["alloc 99 %d" % r.choice([(1 << 63), (1 << 64) - 1, (1 << 64) - 8])]][i % 4]
        S.append(Script("p%d" % i, L))
    # entries so large that doubling 16 places passes the maximum
    for i in range(2):
        L = ["new 0 huge", "init 0 %d" % (16 * i)] + ["put 0 %d %d 0 %d" % (k, k + 1, k >= 12) for k in range(14)]
        S.append(Script("h%d" % i, L))
    ctx.conform("FailTrace", d, S)
