"""C23: SaveAndSet, StackLinked, ScopeGuard, ReturnAndVoid."""
from vlib.core import Script, path_cover

TYPES = ["long", "str", "ptr", "tr"]
CFG = """SPECIFICATION Spec
CONSTANTS Cells = {%s}
 Slots = {0, 1, 2%s}
 Heads = {0, 1}
 Xs = {1, 2}
 Ids = {1, 2%s}
 Part = "%s"
VIEW View
INVARIANTS Restored Owed
PROPERTY Once
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
"""


def c23(ctx):
    d = ctx.build([("raii_asan", "raii.cpp", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]),
                   ("raii_rel", "raii.cpp", ["-O2", "-DNDEBUG"])])
    r = ctx.rng
    S = []
    n = 0
    for part in ("save", "link", "guard"):
        edges = ctx.model("RaiiMC", CFG % ("0, 1" if part == "save" and ctx.thorough else "0", ", 3" if part == "link" else "", ", 3" if part == "guard" else "", part), edges=True)
        paths, total = path_cover(edges, key=str, maxlen=40)
        ctx.notes.append("%s: %d transitions covered by %d histories" % (part, total, len(paths)))
        for _, acts in paths:
            for t in (TYPES if part == "save" else ["long"]):
                # guards that are moved cannot be references
                kinds = [0, 2, 3] if any(a["o"] == "move" for a in acts) else [0, 1, 2, 3]
                L = ["type " + t] + ["%s %d %d %d %d" % (a["o"], a["a"], a["b"], a["x"], r.choice(kinds)) for a in acts]
                S.append(Script("m%d" % n, L, "model"))
                n += 1
    for i in range(ctx.pick(250, 3000)):
        L = ["type " + r.choice(TYPES)]
        saves, guards, chain = set(), {}, [[], []]
        for _ in range(r.randint(5, 60)):
            k = r.random()
            if k < .12 and len(saves) < 8:
                o = r.choice([o for o in range(8) if o not in saves])
                saves.add(o)
                L.append("save %d %d %d" % (o, r.randrange(3), r.randint(0, 60000)))
            elif k < .24 and saves:
                o = r.choice(sorted(saves))
                saves.discard(o)
                L.append("unsave %d 0 0" % o)
            elif k < .32:
                L.append("write %d 0 %d" % (r.randrange(3), r.randint(0, 60000)))
            elif k < .37:
                L.append("take %d 0 0" % r.randrange(3))
            elif k < .47:
                free = [o for o in range(8) if o not in chain[0] + chain[1]]
                if free:
                    o, h = r.choice(free), r.randrange(2)
                    chain[h].append(o)
                    L.append("link %d %d 0" % (o, h))
            elif k < .57:
                h = r.randrange(2)
                if chain[h]:
                    L.append("unlink %d 0 0" % chain[h].pop())
            elif k < .70:
                free = [o for o in range(8) if o not in guards]
                if free:
                    o, kind = r.choice(free), r.choice([0, 1, 2, 3])
                    guards[o] = kind
                    L.append("guard %d 0 %d %d" % (o, r.randint(1, 10**6), kind))
            elif k < .76 and guards:
                L.append("cancel %d 0 0" % r.choice(sorted(guards)))
            elif k < .86 and guards:
                p = r.choice(sorted(guards))
                free = [o for o in range(8) if o not in guards]
                if free and guards[p] != 1:
                    o = r.choice(free)
                    guards[o] = guards[p]
                    L.append("move %d %d 0" % (o, p))
            elif k < .95 and guards:
                p = r.choice(sorted(guards))
                del guards[p]
                L.append("unguard %d 0 0" % p)
            else:
                nn = r.randint(0, 6)
                L.append("frames %d %d %s" % (nn, r.randrange(3), " ".join(str(x) for x in range(1, nn + 1) if r.random() < .3)))
        S.append(Script("r%d" % i, L))
    ctx.conform("RaiiTrace", d, S)
