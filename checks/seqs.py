"""C24: vector and deque helpers."""
from vlib.core import Script, path_cover

TYPES = ["int", "str", "tr", "mo", "uptr", "thr", "own", "ownmo"]
MOVEONLY = {"mo", "uptr", "ownmo"}
CFG = """SPECIFICATION Spec
CONSTANTS Vs = {0, 1}
 Els = {1, 2, 3%s}
 MaxLen = %d
VIEW View
INVARIANT Conserved
PROPERTY Order
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
"""


def c24(ctx):
    d = ctx.build([("seq_asan", "seqs.cpp", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
                   ("seq_rel", "seqs.cpp", ["-O2", "-DNDEBUG"])])
    r = ctx.rng
    edges = ctx.model("SeqMC", CFG % (ctx.pick("", ", 4"), ctx.pick(3, 4)), edges=True, timeout=3000)
    paths, total = path_cover(edges, key=str, maxlen=40)
    ctx.notes.append("%d transitions covered by %d histories per element type" % (total, len(paths)))
    S = []
    n = 0
    for k, (_, acts) in enumerate(paths):
        for t in (TYPES if k % 4 == 0 or ctx.thorough else [TYPES[k % len(TYPES)], TYPES[(k + 3) % len(TYPES)]]):
            L = ["type " + t]
            # any of the vectors
            two = r.choice([1, 2])
            mp = lambda v: 0 if v == 0 else two
            for a in acts:
                o = a["o"]
                if o == "insert":
                    o = r.choice(["insertmv", "emplace"] + ([] if t in MOVEONLY else ["insert"]))
                L.append("%s %d %d %d %s" % (o, mp(a["a"]), mp(a["b"]) if o == "extend" else a["b"], a["x"], " ".join(map(str, a.get("m", [])))))
            S.append(Script("m%d" % n, L, "model"))
            n += 1
    for i in range(ctx.pick(300, 4000)):
        t = r.choice(TYPES)
        L = ["type " + t]
        q = [[] for _ in range(5)]
        for _ in range(r.randint(5, 80)):
            k = r.random()
            a = r.randrange(5)
            x = r.randint(0, 1000)
            if k < .3:
                for _ in range(r.choice([1, 1, 2, 9])):
                    if a >= 3 and r.random() < .4:
                        L.append("pushfront %d 0 %d" % (a, x))
                        q[a].insert(0, x)
                    else:
                        L.append("push %d 0 %d" % (a, x))
                        q[a].append(x)
            elif k < .45:
                if q[a]:
                    if a >= 3 and r.random() < .6:
                        L.append("popfront %d 0 0" % a)
                        q[a].pop(0)
                    else:
                        L.append("popback %d 0 0" % a)
                        q[a].pop()
            elif a >= 3:
                pass
            elif k < .65:
                b = r.choice([0, len(q[a]), r.randint(0, len(q[a]))])
                o = r.choice(["insertmv", "emplace"] + ([] if t in MOVEONLY else ["insert", "insertself"]))
                if o == "insertself":
                    if not q[a]:
                        continue
                    x = r.randrange(len(q[a]))
                    q[a].insert(b, q[a][x])
                else:
                    q[a].insert(b, x)
                L.append("%s %d %d %d" % (o, a, b, x))
            elif k < .77:
                if q[a]:
                    b = r.choice([0, len(q[a]) - 1, r.randrange(len(q[a]))])
                    q[a].pop(b)
                    L.append("remove %d %d 0" % (a, b))
            elif k < .87:
                b = r.choice([1, 2, 2, 3, 5])
                x = r.randrange(b) if r.random() < .9 else b
                q[a] = [y for y in q[a] if y % b != x]
                L.append("erasemod %d %d %d" % (a, b, x))
            elif k < .95:
                b = r.choice([v for v in range(3) if v != a])
                q[a] += q[b]
                q[b] = []
                L.append("extend %d %d 0" % (a, b))
            else:
                L.append("reserve %d %d 0" % (a, r.randint(0, 30)))
        S.append(Script("r%d" % i, L))
    # longer than a byte or a short can count
    for n in (120, 254, 255, 256, 300, 1030, 66000):
        for t in (TYPES if n < 60000 else ["int", "tr", "mo"]):
            put = lambda: r.choice(["insertmv", "emplace"] + ([] if t in MOVEONLY else ["insert"]))
            L = ["type " + t, "ramp 0 %d 5" % n, "%s 0 %d 3" % (put(), n), "%s 0 %d 2" % (put(), n // 2), "remove 0 %d 0" % (n - 1), "remove 0 %d 0" % (n // 2 + 1), "ramp 1 %d 7" % (n + 3),
                 "extend 0 1 0", "%s 0 %d 9" % (put(), 2 * n), "popback 0 0 0", "remove 0 %d 0" % (2 * n - 5), "ramp 2 3 1", "extend 2 0 0", "erase 2 0 0 %d %d 6" % (n, n + 1), "erasemod 2 %d 4" % n,
                 "extend 1 2 0", "ramp 2 %d 1" % n, "erasemod 1 %d 0" % (1 if n < 2000 else n), "ramp 3 %d 2" % n, "popfront 3 0 0", "popback 3 0 0", "pushfront 3 0 1", "popback 3 0 0", "popfront 3 0 0"]
            S.append(Script("big%d%s" % (n, t), L))
    ctx.conform("SeqTrace", d, S)
