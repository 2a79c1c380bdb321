"""C25: Flags and enum operators."""
from vlib.core import Script, path_cover

TYPES = {"U8": 8, "I8": 8, "U16": 16, "I16": 16, "U32": 32, "I32": 32, "U64": 64, "I64": 64, "P32": 32, "P8": 8, "Bare": 32}
# enums compared with numbers of a wider type: bits, whether the enum's type is signed
WIDE = {"WU8": (8, False), "WI8": (8, True), "WU16": (16, False), "WI16": (16, True), "WU32": (32, False), "WI32": (32, True), "WV32": (32, False)}
CFG = """SPECIFICATION Spec
CONSTANTS W = %d
 Vars = {0, 1%s}
VIEW View
INVARIANTS Minus Laws
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
"""
OPS = ["or", "plus", "and", "xor", "minus", "set"]


def c25(ctx):
    d = ctx.build([("flags_asan", "flags.cpp", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
                   ("flags_rel", "flags.cpp", ["-O2", "-DNDEBUG"]), ("flags_clang", "flags.cpp", ["CC=clang++", "-O2", "-DNDEBUG"]),
                   ("flags_std", "flags.cpp", ["-O1", "-DKE_ALLOW_STD_CXX"])])
    r = ctx.rng
    edges = ctx.model("FlagsMC", CFG % (3, ""), edges=True)
    if ctx.thorough:
        ctx.model("FlagsMC", CFG % (4, ", 2"), timeout=3000)
    paths, total = path_cover(edges, key=str, maxlen=40)
    ctx.notes.append("%d transitions covered by %d histories per type" % (total, len(paths)))
    S = []
    n = 0
    for t, w in TYPES.items():
        # the model's three bits: the lowest, one in the middle, the highest; complement acts on all bits
        bit = [0, w // 2 - 1, w - 1]
        for _, acts in paths:
            L = ["type " + t]
            for a in acts:
                if a["o"] == "bit":
                    L.append("put %d %d" % (a["v"], 1 << bit[a["w"]]))
                elif a["o"] == "not":
                    L.append("not %d 0" % a["v"])
                else:
                    L.append("%s %d %d %d" % (a["o"], a["v"], a["w"], r.randrange(2)))
                if r.random() < .3:
                    L.append("pure %d %d" % (r.randrange(2), r.randrange(2)))
            S.append(Script("m%d" % n, L, "model"))
            n += 1
    for i in range(ctx.pick(250, 4000)):
        t = r.choice(list(TYPES))
        w = TYPES[t]
        L = ["type " + t]
        for _ in range(r.randint(5, 40)):
            k = r.random()
            if k < .35:
                x = r.choice([r.randrange(1 << w), 1 << r.randrange(w), (1 << w) - 1, (1 << (w - 1)) - 1, 1 << (w - 1), 0, ((1 << w) - 1) ^ (1 << r.randrange(w)), r.randrange(256)])
                L.append("put %d %d" % (r.randrange(3), x))
            elif k < .65:
                L.append("%s %d %d %d" % (r.choice(OPS), r.randrange(3), r.randrange(3), r.randrange(2)))
            elif k < .85:
                L.append("pure %d %d" % (r.randrange(3), r.randrange(3)))
            elif k < .92:
                L.append("chain %d %d %s %s" % (r.randrange(3), r.randrange(3), r.choice(OPS), r.choice(OPS)))
            else:
                L.append("not %d 0" % r.randrange(3))
        S.append(Script("r%d" % i, L))
    for t, (w, signed) in WIDE.items():
        vals = sorted({v % (1 << w) for v in [0, 1, 2, 127, 128, 255, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << w) - 1, (1 << w) - 2] + [r.randrange(1 << w) for _ in range(6)]})
        for i, v in enumerate(vals):
            x = v - (1 << w) if signed and v >> (w - 1) else v
            nums = {x, v, x + (1 << w), x - (1 << w), -x, x + 1, x ^ (1 << (w - 1)), r.randrange(1 << 31), -1, 0}
            S.append(Script("w%s_%d" % (t, i), ["wcmp %s %d %d" % (t, v, n % (1 << 64)) for n in sorted(nums)]))
    ctx.conform("FlagsTrace", d, S)
