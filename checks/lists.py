"""C10: InlineList."""
from vlib.core import Script, path_cover


def c10(ctx):
    d = ctx.build([("list_dbg", "list.cpp", ["-O1", "-fsanitize=address"]),
                   ("list_rel", "list.cpp", ["-O2", "-DNDEBUG"])])
    edges = ctx.model("ListMC", edges=True)
    paths, total = path_cover(edges, maxlen=60)
    full = len(paths)
    ctx.rng.shuffle(paths)
    lim = ctx.pick(500, None)
    paths = paths[:lim] if lim else paths
    ctx.notes.append("%d transitions covered by %d histories, %d replayed" % (total, full, len(paths)))
    S = []
    for n, (root, acts) in enumerate(paths):
        S.append(Script("m%d" % n, ["%s %d %d" % (a["o"], a["a"], a["b"]) for a in acts], "model"))
    r = ctx.rng
    for i in range(ctx.pick(500, 6000)):
        L = []
        k = r.choice([2, 4, 6])
        for _ in range(r.randint(5, 120)):
            x = r.random()
            a = r.randint(1, 3)
            n = r.randint(1, k)
            if x < 0.42:
                L.append("append %d %d" % (a, n))
            elif x < 0.52:
                L.append("remove %d %d" % (a, n))
            elif x < 0.62:
                L.append("rmself %d 0" % n)
            elif x < 0.72:
                L.append("ef %d %d" % (a, n))
            elif x < 0.82:
                L.append("er %d %d" % (a, n))
            elif x < 0.94:
                L.append("sweep %d %d %s" % (a, r.randint(0, 1), " ".join(map(str, r.sample(range(1, 7), r.randint(0, 6))))))
            elif x < 0.97:
                L.append("kill %d" % a)
            else:
                L.append("newlist %d" % a)
        S.append(Script("r%d" % i, L))
    for how in ("self", "remove", "erase", "rerase"):
        for n in [0, 1, 2, 3, 5, 31, 64, 127, 128, 129, 255, 256, 257, 300, 1000, 65535, 65536, 65537, 70000] + [r.randint(1, 2000) for _ in range(ctx.pick(3, 40))]:
            ks = sorted({1, 2, 3, 7, n, n + 1, max(n - 1, 1), r.randint(1, n + 1)} if n < 2000 else {1, n, n + 1, n // r.randint(2, 200), n // 2})
            S.append(Script("b%s%d" % (how, len(S)), ["bulk %d %d %s" % (n, k, how) for k in ks if k > 0], "model"))
    ctx.conform("ListTrace", d, S)
