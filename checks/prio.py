"""C11: PriorityQueue."""
from vlib.core import Script, path_cover

TYPES = ["int", "tr", "mo", "up"]
# kind, m, how a model key becomes a real key of the same rank
KINDS = {"less": (1, lambda k, r: k), "greater": (1, lambda k, r: 9 - k),
         "mod": (10, lambda k, r: k + 10 * r.randint(0, 9)), "bucket": (10, lambda k, r: (9 - k) * 10 + r.randint(0, 9)),
         "total": (1, lambda k, r: k), "same": (1, lambda k, r: k)}


def c11(ctx):
    d = ctx.build([("prio_asan", "prio.cpp", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]),
                   ("prio_rel", "prio.cpp", ["-O2", "-DNDEBUG"])])
    cfg = "PrioMC.cfg"
    edges = ctx.model("PrioMC", cfg, edges=True)
    if ctx.thorough:
        ctx.model("PrioMC", "SPECIFICATION Spec\nCONSTANTS Keys = {0, 1, 2, 3}\n MaxLen = 9\nVIEW View\nINVARIANTS Heap TopLeast\n"
                  "PROPERTY Refines\nCHECK_DEADLOCK FALSE\n")
    paths, total = path_cover(edges, maxlen=70)
    r = ctx.rng
    S = []
    n = 0
    for kind in KINDS if ctx.thorough else r.sample(sorted(KINDS), 4):
        m, f = KINDS[kind]
        for _, acts in paths:
            L = ["start %s %s %d %s" % (r.choice(TYPES), kind, m, r.choice(["st", "fn", "std"]))]
            for a in acts:
                if a["o"] == "add":
                    L.append("add %d %d" % (f(a["k"], r), r.randint(0, 3)))
                else:
                    if r.random() < 0.3:
                        L.append("peek")
                    L.append("pop")
                if r.random() < 0.02:
                    L.append("move")
            L.append("drain")
            S.append(Script("m%d" % n, L, "model"))
            n += 1
    ctx.notes.append("%d transitions covered by %d histories per ordering" % (total, len(paths)))
    for i in range(ctx.pick(400, 4000)):
        kind = r.choice(sorted(KINDS))
        L = ["start %s %s %d %s" % (r.choice(TYPES), kind, r.choice([1, 2, 3, 5, 10]), r.choice(["st", "fn", "std"]))]
        span = r.choice([1, 3, 10, 1000])
        up = r.choice([0.5, 0.6, 0.75])
        for _ in range(r.randint(5, 150)):
            x = r.random()
            if x < up * 0.9:
                L.append("add %d %d" % (r.randint(0, span), r.randint(0, 3)))
            elif x < 0.9:
                L.append("pop")
            elif x < 0.97:
                L.append("peek")
            elif x < 0.985:
                L.append("move")
            else:
                L.append("drain")
        L.append("drain")
        S.append(Script("r%d" % i, L))
    # heaps many levels deep
    for i, n in enumerate([33, 70, 130, 260, 520, 1030, 2060, 4100]):
        for kind in ("less", "greater", "total"):
            t = "int" if n > 5000 else r.choice(TYPES)
            mul = r.choice([1, n - 1, 7, 31, 1009])
            while __import__("math").gcd(mul, n) != 1:
                mul += 1
            L = ["start %s %s 1 %s" % (t, kind, r.choice(["st", "fn"])), "fill 0 %d %d" % (n, mul), "peek", "take %d" % r.randint(1, n - 1),
                 "fill %d %d %d" % (n, n // 2 * 2 + 1, 2), "move", "take %d" % (n // 2), "add %d 1" % (3 * n), "take %d" % (3 * n)]
            S.append(Script("big%d%s" % (n, kind), L))
    for kind in ("less", "greater", "total"):
        S.append(Script("sort" + kind, ["start int %s 1 %s" % (kind, r.choice(["st", "fn"]))] + ["sort %d %d" % (n, m) for n in (300, 70000) for m in (1, n - 1, 30011)]))
    for i in range(ctx.pick(6, 60)):
        kind = r.choice(sorted(KINDS))
        L = ["start %s %s %d %s" % (r.choice(TYPES), kind, r.choice([1, 2, 3, 5, 10]), r.choice(["st", "fn", "std"]))]
        for _ in range(900):
            L.append("add %d %d" % (r.randint(0, 5000), r.randint(0, 3)) if r.random() < .8 else "pop")
        S.append(Script("long%d" % i, L + ["drain"]))
    ctx.conform("PrioTrace", d, S)
