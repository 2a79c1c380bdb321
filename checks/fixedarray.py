"""C14: FixedArray."""
from vlib.core import Script, path_cover

TYPES = ["long", "char", "tr", "mo", "wide"]


def c14(ctx):
    d = ctx.build([("arr_asan", "fixedarray.cpp", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]),
                   ("arr_rel", "fixedarray.cpp", ["-O2", "-DNDEBUG"])])
    edges = ctx.model("ArrMC", edges=True)
    ctx.model("ArrMC", "ArrMC3.cfg")
    paths, total = path_cover(edges, maxlen=60)
    r = ctx.rng
    S = []
    ctx.notes.append("%d transitions covered by %d histories" % (total, len(paths)))
    n = 0
    for rep in range(ctx.pick(1, 5)):
        for _, acts in paths:
            L = ["type " + (r.choice(TYPES) if not ctx.thorough else TYPES[rep])]
            for a in acts:
                if a["f"]:
                    L.append("fail")
                if a["o"] == "new":
                    if a["x"] == 1 or a["b"] != 0:
                        L.append("new %d %d %d" % (a["a"], a["b"], a["n"]))
                    else:
                        L.append("vec %d %d %s" % (a["a"], r.randint(0, 1), " ".join(str(r.randint(1, 100)) for _ in range(a["n"]))))
                    if a["n"] and not a["f"] and a["x"] == 2:
                        L.append("write %d %d %d %d" % (a["a"], r.randint(0, 3), r.randint(1, a["n"]), r.randint(1, 100)))
                else:
                    L.append("%s %d %d" % (a["o"], a["a"], a["b"]))
            S.append(Script("m%d" % n, L, "model"))
            n += 1
    for i in range(ctx.pick(400, 5000)):
        L = ["type " + r.choice(TYPES)]
        for _ in range(r.randint(5, 60)):
            x = r.random()
            a, b = r.randint(0, 3), r.randint(0, 3)
            if r.random() < 0.15:
                L.append("fail")
            if x < 0.2:
                L.append("new %d %d %d" % (a, r.randint(0, 2), r.choice([0, 0, 1, 2, 3, 7, 20])))
            elif x < 0.24:
                L.append("huge %d %d %d" % (a, r.randint(0, 2), r.randint(0, 4)))
            elif x < 0.34:
                L.append("vec %d %d %s" % (a, r.randint(0, 1), " ".join(str(r.randint(1, 100)) for _ in range(r.randint(0, 6)))))
            elif x < 0.55:
                L.append("write %d %d %d %d" % (a, r.randint(0, 3), r.randint(1, 4), r.randint(1, 100)))
            else:
                L.append("%s %d %d" % (r.choice(["copyctor", "movector", "assign", "assign", "massign", "massign"]), a, b))
        S.append(Script("r%d" % i, L))
    # arrays longer than a byte or a short can count, made every way
    for i, n in enumerate([65, 130, 257, 700, 3100, 66000]):
        for t in ["long", "tr", "mo"]:
            if n > 60000 and t == "mo":
                continue
            L = ["type " + t, "ramp 0 %d %d 5" % (r.randrange(2), n)]
            L += ["copyctor 1 0", "write 1 0 %d 3" % n, "write 1 2 %d 7" % r.randint(2, n), "assign 2 1", "new 3 %d %d" % (r.randrange(3), n), "write 3 1 %d 9" % (n // 2 + 1),
                  "assign 3 1", "movector 1 3", "massign 0 2", "assign 0 0", "ramp 2 0 %d 1" % (n - 1), "ramp 3 1 %d 1" % n, "fail", "copyctor 1 3", "new 0 0 2"]
            S.append(Script("big%d%s" % (n, t), L))
    ctx.conform("ArrTrace", d, S)
