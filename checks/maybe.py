"""C13: Maybe and StorageBuffer."""
from vlib.core import Script, path_cover

TYPES = ["long", "tr", "mo", "a64", "a16", "noassign", "two", "odd", "lst", "thr"]


def c13(ctx):
    d = ctx.build([("maybe_asan", "maybe.cpp", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment",
                                                "-fno-sanitize-recover=undefined"]),
                   ("maybe_rel", "maybe.cpp", ["-O2", "-DNDEBUG"])])
    edges = ctx.model("MaybeMC", edges=True)
    paths, total = path_cover(edges, maxlen=40)
    r = ctx.rng
    S = []
    n = 0
    for t in TYPES:
        for _, acts in paths:
            L = ["type " + t]
            for a in acts:
                if a["o"][-1] == "f" and t != "thr":
                    continue
                L.append("%s %d %d %d" % (a["o"], a["a"], a["x"] if a["o"][:3] == "put" else a["b"], r.randint(0, 59)))
            S.append(Script("m%d" % n, L, "model"))
            n += 1
    ctx.notes.append("%d transitions covered by %d histories per value type" % (total, len(paths)))
    for i in range(ctx.pick(300, 4000)):
        t = r.choice(TYPES)
        L = ["type " + t]
        for _ in range(r.randint(5, 60)):
            op = r.choice(["put", "put", "put", "clear", "copy", "copy", "move", "move", "swap", "write"])
            if t == "thr" and r.random() < .3 and op in ("put", "copy", "move"):
                op += "f"
            L.append("%s %d %d %d" % (op, r.randint(0, 3), r.randint(1, 120) if op in ("put", "putf", "write") else r.randint(0, 3), r.randint(0, 59)))
        S.append(Script("r%d" % i, L))
    ctx.conform("MaybeTrace", d, S)
