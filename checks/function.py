"""C12: Function."""
from vlib.core import Script, path_cover

KINDS = ["fp", "stateless", "word", "twowords", "ints", "three", "big", "aligned", "odd"]


def call(r, v):
    return "call %d %d %d %d" % (v, r.randint(0, 50), r.randint(0, 50), r.randint(0, 50))


def c12(ctx):
    d = ctx.build([("fn_asan", "function.cpp", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]),
                   ("fn_rel", "function.cpp", ["-O2", "-DNDEBUG"])])
    edges = ctx.model("FunMC", edges=True)
    if ctx.thorough:
        ctx.model("FunMC", "SPECIFICATION Spec\nCONSTANTS Vars = {0, 1, 2}\n Xs = {1, 2}\n Objs = {1, 2, 3, 4}\n MaxD = 2\n"
                  "VIEW AbsView\nINVARIANTS Owned SmallInline\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n")
    paths, total = path_cover(edges, maxlen=60)
    r = ctx.rng
    S = []
    ctx.notes.append("%d transitions covered by %d histories" % (total, len(paths)))
    for n, (_, acts) in enumerate(paths):
        # which classes stand for the model's small and big callables
        small, big = r.choice([k for k in KINDS[:5]]), r.choice(KINDS[5:])
        L = []
        for a in acts:
            how = r.randint(0, 11)
            if a["o"] == "set":
                L.append("set %d %s %d %d" % (a["a"], small if a["k"] == "word" else big, a["x"], how))
            elif a["o"] in ("null", "unnest"):
                L.append("%s %d %d" % (a["o"], a["a"], how))
            else:
                L.append("%s %d %d %d" % (a["o"], a["a"], a["b"], how))
            if r.random() < 0.5:
                L.append(call(r, r.randint(0, 2)))
        for v in range(3):
            L.append(call(r, v))
        S.append(Script("m%d" % n, L, "model"))
    for i in range(ctx.pick(400, 5000)):
        L = []
        for _ in range(r.randint(10, 80)):
            x = r.random()
            a, b = r.randint(0, 3), r.randint(0, 3)
            how = r.randint(0, 41)
            if x < 0.25:
                L.append("set %d %s %d %d" % (a, r.choice(KINDS), r.randint(1, 100), how))
            elif x < 0.33:
                L.append("null %d %d" % (a, how))
            elif x < 0.48:
                L.append("copy %d %d %d" % (a, b, how))
            elif x < 0.6:
                L.append("move %d %d %d" % (a, b, how))
            elif x < 0.66:
                L.append("swap %d %d" % (a, b))
            elif x < 0.73:
                L.append("nest %d %d %d" % (a, b, how))
            elif x < 0.8:
                L.append("unnest %d %d" % (a, how))
            else:
                L.append(call(r, a))
        S.append(Script("r%d" % i, L))
    ctx.conform("FunTrace", d, S)
