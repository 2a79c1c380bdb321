"""C05: reference counting (and the sequential part of C06)."""
from vlib.core import Script, path_cover

OPS = ["new", "new", "newraw", "delraw", "setraw", "null", "copy", "copy", "copy", "move", "move", "link", "link", "linkmove",
       "unlink", "chase", "chase", "chasemove", "chaseover", "addref", "release", "release", "adopt", "detach", "take", "aassign",
       "aassign", "adrop"]
OBJFIRST = ("newraw", "delraw", "release")


def rand_script(rng, sid, fam, n):
    L = ["family %d" % fam]
    objs = rng.choice([2, 4, 8])
    for _ in range(n):
        op = rng.choice(OPS)
        a, b = rng.randrange(3), rng.randrange(3)
        if op in ("copy", "move") and rng.random() < 0.12:
            a, b = rng.choice([(3, 4), (4, 3)])
        elif op in OBJFIRST:
            a = rng.randint(1, objs)
        elif op in ("new", "setraw", "adopt"):
            b = rng.randint(1, objs)
            if op == "adopt" and rng.random() < 0.4:
                a = rng.choice([3, 4])
        elif op in ("take", "detach", "adrop"):
            if op != "detach" or rng.random() < 0.5:
                a = rng.choice([3, 4, 5])
            if op == "take" and a == 5:
                b = 2
        elif op == "aassign":
            b = rng.choice([3, 4, 5])
        L.append("%s %d %d %d" % (op, a, b, rng.randrange(210)))
    return Script(sid, L)


def model(ctx, fams, limit):
    edges = ctx.model("RefCountMC", "RefCountMC.cfg", edges=True)
    paths, total = path_cover(edges, maxlen=60)
    full = len(paths)
    ctx.rng.shuffle(paths)
    if limit:
        paths = paths[:limit]
    ctx.notes.append("%d transitions of RefCountMC covered by %d histories, %d replayed per family" % (total, full, len(paths)))
    S = []
    for n, (root, acts) in enumerate(paths):
        L = ["family %d" % fams[n % len(fams)]]
        for a in acts:
            L.append("%s %d %d %d" % (a["o"], a["a"], a["b"], ctx.rng.randrange(210)))
        S.append(Script("m%d" % n, L, "model"))
    return S


def drivers(ctx):
    return ctx.build([("ref_dbg", "refcount.cpp", ["-O1", "-fsanitize=address"]),
                      ("ref_rel", "refcount.cpp", ["-O1", "-DNDEBUG", "-fsanitize=address"])])


def bulk(fams, sizes):
    """Histories in which an object has very many references at once: counts of every width must not wrap."""
    S = []
    for f in fams:
        for n, (y, sh) in enumerate(sizes):
            # object 1 in variable 0; y << sh references on top, less a few, so that a narrow count would come to 0 or 1
            for k, (less, op) in enumerate([(0, "hold"), (1, "hold"), (2, "hold"), (0, "grasp"), (1, "grasp")]):
                if (op == "grasp" and (y << sh) > 300000) or (sh > 16 and k):
                    continue
                L = ["family %d" % f, "new 0 1 0"]
                L.append("hold 0 %d %d" % (y, sh) if sh > 16 else "%s 0 %d 0" % (op, (y << sh) - less))
                L += ["copy 1 0 0", "null 1 0 0", "addref 0 0 0", "release 1 0 0", "null 0 0 0", "addref 1 0 0"]
                L += ["release 1 0 0", "loose 1 0 0", "new 0 1 0", "link 0 0 0", "unlink 0 0 0", "null 0 0 0"]
                S.append(Script("k%d.%d.%d" % (f, n, k), L))
    return S


SMALL = [(1, 8), (1, 15), (1, 16), (3, 16), (1, 7), (1, 4)]


def conform_bulk(ctx, d, fams):
    ctx.conform("RefTrace", d, bulk(fams, SMALL), label="(many references)")
    # counts beyond 32 bits, on a plain optimized build
    p = ctx.build([("ref_opt", "refcount.cpp", ["-O2", "-DNDEBUG"])])
    big = [(1, 31), (2, 31)] if ctx.thorough else [(1, 24)] + ([(2, 31)] if 1 in fams else [])
    ctx.conform("RefTrace", p, bulk(fams if ctx.thorough else fams[:1], big), label="(counts beyond 32 bits)", timeout=600)


def c05(ctx):
    d = drivers(ctx)
    S = model(ctx, [1, 2, 3], ctx.pick(700, None))
    if ctx.thorough:
        ctx.model("RefCountMC", "RefCountBig.cfg")
    for i in range(ctx.pick(400, 4000)):
        S.append(rand_script(ctx.rng, "r%d" % i, 1 + i % 3, ctx.rng.randint(10, 250)))
    ctx.conform("RefTrace", d, S)
    conform_bulk(ctx, d, [1, 2, 3])


def sequential_ts(ctx):
    """The thread-safe families used by one thread: the same sequential specification (for C06)."""
    d = drivers(ctx)
    S = model(ctx, [4, 5, 6], ctx.pick(200, None))
    for i in range(ctx.pick(200, 2000)):
        S.append(rand_script(ctx.rng, "q%d" % i, 4 + i % 3, ctx.rng.randint(10, 150)))
    ctx.conform("RefTrace", d, S, label="(one thread)")
    conform_bulk(ctx, d, [4, 5, 6])
