"""C01-C04: the hash containers."""
from vlib.core import Script, path_cover

GOLD = 0x9E3779B9
INV = pow(GOLD, -1, 1 << 32)
MODES = ["id", "same", "mark0", "mark1", "marks", "wrap", "few", "rand", "high", "end"]


def hash_lines(rng, mode, keys):
    """Key hashes such that the hash the table computes has the wanted shape."""
    out = []
    for k in keys:
        if mode == "id":
            continue
        h = {"same": 77, "mark0": 0, "mark1": 1, "marks": k & 3, "wrap": 0xFFFFFFF0 + (12 + k % 6) % 16,
             "few": k % 3 * 5 + 11, "rand": rng.getrandbits(32), "high": ((k * 2654435761) & 0xFFFF0000) | 14,
             "end": 0xFFFFFFFF - (k & 1)}[mode] & 0xFFFFFFFF
        out.append("H %d %d" % (k, h * INV % (1 << 32)))
    return out


def random_script(rng, sid, kind, n, uni, mode, life=False, mem=False, iters=0.06, fails=False, pols=False, moves=True,
                  chk=0.15):
    L = ["U %d" % uni] + hash_lines(rng, mode, range(uni))
    L += ["life"] if life else []
    L += ["mem"] if mem else []
    isset = kind.startswith("set")
    tab = kind.startswith("tab")
    capw = rng.choice(["def", "0", "1", "16", "16", "16", "32", "64", "5"])
    cur, free = 0, [1, 2, 3]
    L.append("new 0 " + kind)
    if pols:
        L.append("pol 0")
    if fails:
        for _ in range(rng.choice([0, 1, 1, 2])):
            x = rng.random()
            if x < 0.3:
                L.append("init 0 %d" % rng.choice([1 << 30, 1 << 31, 1 << 32, 1 << 40, (1 << 64) - 1, (1 << 63)]))
            else:
                L += ["fail 0 0 1", "init 0 " + capw]
            if rng.random() < 0.2:
                L.append("iter 0")
            if rng.random() < 0.15:      # destroy after the failure, then start over
                L += ["del 0", "new 0 " + kind]
            if rng.random() < 0.15:
                L += ["move 0 1", "del 0", "move 1 0", "del 1"]
    L.append("init 0 " + capw)
    phase, left = "mix", 0
    v = 100
    order = list(range(uni))
    i = 0
    while i < n:
        i += 1
        if left <= 0:
            phase = rng.choice(["grow", "grow", "drain", "churn", "mix", "mix"])
            left = rng.randint(4, 30)
            rng.shuffle(order)
        left -= 1
        k = order[left % len(order)] if phase in ("grow", "drain") else rng.randrange(uni)
        if phase == "churn":
            k = rng.randrange(min(uni, 3))
        p = {"grow": 0.9, "drain": 0.08, "churn": 0.5, "mix": 0.55}[phase]
        r = rng.random()
        v += 1
        if fails and rng.random() < 0.2:
            L.append("fail %d 0 %d" % (cur, rng.choice([1, 1, 2, 4])))
            armed = True
        else:
            armed = False
        if r < 0.02:
            L.append("clear %d" % cur)
        elif r < 0.02 + iters:
            er = [] if rng.random() < 0.4 else rng.sample(range(uni), rng.randint(1, uni))
            L.append("iter %d %s" % (cur, " ".join(map(str, er))))
        elif r < 0.04 + iters and moves:
            d = rng.choice([x for x in (0, 1, 2, 3) if x != cur])
            if d in free:
                L.append("nofail %d" % cur)
                L.append("move %d %d" % (cur, d))
                if rng.random() < 0.25 and not pols:
                    L.append("iter %d" % cur)
                    # the source may be used again after init
                    L += ["init %d %s" % (cur, capw), "put %d 0 %d 0 0" % (cur, 0 if isset else 7),
                          "chk %d" % cur]
                L.append("del %d" % cur)
                free.remove(d)
                free.append(cur)
                cur = d
        elif r < 0.06 + iters and tab:
            L.append("density %d" % cur)
        elif rng.random() < p:
            how = rng.choice([0, 0, 1, 2, 3])
            L.append("put %d %d %d %d %d" % (cur, k, k if isset else v, how, rng.random() < 0.3))
        else:
            L.append("%s %d %d %d" % (rng.choice(["rm", "rmr", "rm", "find"]), cur, k, rng.random() < 0.3))
        if armed and rng.random() < 0.7:
            L.append("nofail %d" % cur)
        if pols and rng.random() < 0.2:
            L.append("pol %d" % cur)
        if rng.random() < chk:
            L.append("chk %d" % cur)
    L += ["nofail %d" % cur, "chk %d" % cur, "iter %d" % cur]
    if rng.random() < 0.5:
        L.append("del %d" % cur)
    return Script(sid, L)


FORMS = ["1 0 0xffffffff", "0x9E3779B1 0 0xffffffff", "0x100000001b3 8 0xffffffff", "65536 0 0xffffffff",
         "1 2 0xffffffff", "3 1 0x3fff"]


def large_script(rng, sid, kind, size, life=False, mem=False, fails=False, ops=14):
    """Hundreds to tens of thousands of entries: growth, removal, reuse of removed places, iteration, moving."""
    L = ["HF " + rng.choice(FORMS[:3] if size > 5000 else FORMS)]
    if kind.endswith("_p"):
        size = min(size, 4000)
    L += ["life"] if life else []
    L += ["mem"] if mem else []
    isset = kind.startswith("set")
    L += ["new 0 " + kind, "init 0 " + rng.choice(["def", "16", "5", "256", "1024", str(1 << size.bit_length())])]
    cur, other = 0, 1
    d = 0
    for i in range(ops):
        if fails and rng.random() < 0.4:
            L.append("fail %d %d %d" % (cur, rng.choice([0, 0, 1, 2]), rng.choice([1, 1, 3])))
        x = rng.random()
        if i == 0 or x < 0.3:
            a = 0 if i == 0 else rng.randrange(size)
            b = size if i == 0 else rng.randint(a, size)
            d = 0 if isset else rng.randint(1, 900)
            L.append("fill %d %d %d %d %d" % (cur, a, b, d, rng.randrange(4)))
        elif x < 0.55:
            a = rng.randrange(size)
            L.append("drop %d %d %d %d %d" % (cur, a, rng.randint(a, size), rng.choice([1, 1, 2, 3, 7]), rng.randrange(2)))
        elif x < 0.8:
            m = rng.choice([0, 0, 1, 2, 3, 5])
            L.append("iterm %d %d %d" % (cur, m, rng.randrange(m) if m else 0))
        elif x < 0.85:
            L += ["nofail %d" % cur, "move %d %d" % (cur, other), "iterm %d 0 0" % cur, "del %d" % cur]
            cur, other = other, cur
        elif x < 0.9:
            L.append("clear %d" % cur)
            L.append("fill %d 0 %d %d 0" % (cur, rng.randint(0, size), d))
        elif x < 0.95 and kind.startswith("tab"):
            L.append("density %d" % cur)
        L.append("look %d 0 %d" % (cur, size + 20))
        if rng.random() < 0.5:
            k = rng.randrange(size)
            L += ["put %d %d %d %d %d" % (cur, k, k + d, rng.randrange(4), rng.random() < 0.3), "find %d %d 0" % (cur, k)]
    L += ["nofail %d" % cur, "iterm %d 0 0" % cur]
    if rng.random() < 0.7:
        L.append("del %d" % cur)
    return Script(sid, L)


def window_script(rng, sid, kind, cap, life=False, mem=False, fails=False):
    """Few entries alive at a time, but ever new keys: removed places pile up in a large table."""
    L = ["HF " + rng.choice(FORMS[:2])]
    L += ["life"] if life else []
    L += ["mem"] if mem else []
    isset = kind.startswith("set")
    L += ["new 0 " + kind, "init 0 %d" % cap]
    a, lo = 0, 0
    top = 4000 if kind.endswith("_p") else 3 * cap
    while a < top:
        w = rng.choice([1, 3, cap // 16, cap // 8, cap // 5]) + 1
        if fails and rng.random() < .3:
            L.append("fail 0 %d 1" % rng.choice([0, 1]))
        L.append("fill 0 %d %d %d %d" % (a, a + w, 0 if isset else 5, rng.randrange(4)))
        a += w
        if rng.random() < .8:
            L.append("drop 0 %d %d 1 %d" % (lo, a - rng.choice([0, 0, 1]), rng.randrange(2)))
            lo = a - 1
        else:
            L.append("iterm 0 %d 0" % rng.choice([0, 1, 1, 2]))
        if rng.random() < .3:
            L.append("look 0 %d %d" % (max(0, lo - 5), a + 5))
    L += ["nofail 0", "iterm 0 0 0", "look 0 0 %d" % (a + 5)]
    return Script(sid, L)


def large_scripts(ctx, kinds, quick, **kw):
    """Sizes around the powers of two that small counters and masks would stop at."""
    S = []
    for i in range(ctx.pick(quick, quick * 6)):
        size = ctx.rng.choice([150, 260, 300, 520, 700, 1030, 1500])
        S.append(large_script(ctx.rng, "lg%d" % i, kinds[i % len(kinds)], size, **kw))
    for i in range(ctx.pick(6, 40)):
        S.append(window_script(ctx.rng, "w%d" % i, kinds[i % len(kinds)], [64, 256, 1024, 128, 512, 4096][i % 6], **kw))
    for i in range(ctx.pick(2, 8)):
        S.append(large_script(ctx.rng, "vl%d" % i, kinds[(i * 3 + 1) % len(kinds)], [5000, 17000][i % 2], ops=7, **kw))
    for i in range(ctx.pick(1, 3)):
        S.append(large_script(ctx.rng, "xl%d" % i, [k for k in kinds if k.endswith("_i") or k.endswith("_t")][i], 70000,
                              ops=5, **kw))
    return S


CFG = """SPECIFICATION Spec
CONSTANTS Keys = %s
 Fill = %s
 MinCap = 16
 MaxCap = %d
 WithFail = %s
 Hash <- %s
VIEW View
INVARIANTS TypeOK SomeFree NoDuplicates Reachable ProbesEnd
PROPERTY Refines
%s
CHECK_DEADLOCK FALSE
"""


def hashval(h, k):
    if h == "HashA":
        return {0: 14, 1: 14, 2: 15, 3: 31, 4: 30, 5: 0}.get(k, k - 8)
    if h == "HashB":
        return 15
    return 5 + 2 * k if k < 10 else k - 10


def model_scripts(ctx, h, keys, fill, maxcap, fail=False, kinds=("map_t",), life=False, mem=False, walk_iter=False, limit=None,
                  maxlen=50):
    cfg = CFG % ("{%s}" % ",".join(map(str, keys)), "{%s}" % ",".join(map(str, fill)), maxcap,
                 "TRUE" if fail else "FALSE", h, "ACTION_CONSTRAINT PrintEdge\nCONSTRAINT PrintInit")
    edges = ctx.model("HashProbeMC", cfg, edges=True)
    paths, total = path_cover(edges, maxlen=maxlen, limit=None, rng=ctx.rng)
    full = len(paths)
    if limit and len(paths) > limit:
        ctx.rng.shuffle(paths)
        paths = paths[:limit]
    ctx.notes.append("%s: %d transitions of the design covered by %d histories, %d replayed" % (h, total, full, len(paths)))
    res = []
    uni = max(list(keys) + list(fill)) + 1
    for n, (root, acts) in enumerate(paths):
        kind = kinds[n % len(kinds)]
        L = ["U %d" % uni]
        for k in list(keys) + list(fill):
            hv = hashval(h, k)
            L.append("H %d %d" % (k, ((hv + 64) * INV) % (1 << 32)))
        L += ["life"] if life else []
        L += ["mem"] if mem else []
        isset = kind.startswith("set")
        L += ["new 0 " + kind, "init 0 16"]
        for k in fill:
            L.append("put 0 %d %d 0 0" % (k, k if isset else 500 + k))
        v = 0
        for j, a in enumerate(acts):
            o, k = a["o"], a["k"]
            v += 1
            if o in ("put", "failput"):
                if o == "failput":
                    L.append("fail 0 0 1")
                L.append("put 0 %d %d %d %d" % (k, k if isset else v, (n + j) % 4, j & 1))
                if o == "failput":
                    L.append("nofail 0")
            elif o == "rm":
                if (n + j) % 3 == 0:
                    L.append("iter 0 %d" % k)
                else:
                    L.append("%s 0 %d %d" % ("rm" if j & 1 else "rmr", k, (j >> 1) & 1))
            elif o == "drop":
                L.append("iter 0 " + " ".join(map(str, fill)))
            elif o == "clear":
                L.append("clear 0")
            elif o == "density":
                if kind.startswith("tab"):
                    L.append("density 0")
            if walk_iter and j % 3 == 2:
                L.append("iter 0")
            if j % 6 == 5:
                L.append("chk 0")
        L += ["chk 0", "iter 0"]
        res.append(Script("m%s%d" % (h, n), L, "model"))
    return res


def drivers(ctx, both=True):
    v = [("hash_dbg", "hash.cpp", ["-O1", "-fsanitize=address"])]
    if both:
        v.append(("hash_rel", "hash.cpp", ["-O2", "-DNDEBUG"]))
    return ctx.build(v)


KINDS = ["map_t", "map_i", "map_s", "map_mo", "set_t", "set_i", "set_s", "tab_t", "tab_i", "tab_mo"]
ALL = KINDS + ["map_p", "set_p", "map_d", "set_d"]     # pointers; the default allocator
TRACKED = ["map_t", "map_mo", "set_t", "tab_t", "tab_mo"]
NINE = [10, 11, 12, 13, 14, 15, 16, 17, 18]


def c01(ctx):
    d = drivers(ctx)
    S = model_scripts(ctx, "HashA", [0, 1, 2, 3, 4], NINE, 32, kinds=ALL, limit=ctx.pick(500, None))
    S += model_scripts(ctx, "HashB", [0, 1, 2], NINE + [19], 32, kinds=ALL, limit=ctx.pick(200, None))
    S += model_scripts(ctx, "HashC", [0, 1, 2, 3], NINE, 32, kinds=ALL, limit=ctx.pick(150, None))
    n = ctx.pick(260, 2500)
    for i in range(n):
        uni = ctx.rng.choice([3, 6, 12, 16, 24, 40, 40])
        S.append(random_script(ctx.rng, "r%d" % i, ALL[i % len(ALL)], ctx.rng.randint(20, 260), uni,
                               MODES[(i // len(ALL)) % len(MODES)], iters=0.02, chk=0.12))
    for i in range(ctx.pick(6, 40)):       # large tables
        S.append(random_script(ctx.rng, "big%d" % i, ALL[i % len(ALL)], 1500, 400, MODES[i % len(MODES)], iters=0.002,
                               chk=0.005))
    S += large_scripts(ctx, ALL, 14)
    ctx.conform("HashTrace", d, S)


def c02(ctx):
    d = drivers(ctx)
    S = model_scripts(ctx, "HashA", [0, 1, 2, 3, 4], NINE, 32, kinds=ALL, walk_iter=True, limit=ctx.pick(450, None))
    S += model_scripts(ctx, "HashB", [0, 1, 2], NINE + [19], 32, kinds=ALL, walk_iter=True, limit=ctx.pick(150, None))
    for i in range(ctx.pick(300, 3000)):
        uni = ctx.rng.choice([1, 3, 6, 12, 16, 24, 40])
        S.append(random_script(ctx.rng, "r%d" % i, ALL[i % len(ALL)], ctx.rng.randint(5, 160), uni,
                               MODES[(i // len(ALL)) % len(MODES)], iters=0.3, chk=0.1))
    # every arrangement of live and removed entries over the 16 places: the first and last included
    for m in range(ctx.pick(200, 4096)):
        bits = ctx.rng.getrandbits(26) if not ctx.thorough else m
        L = ["U 13"] + ["H %d %d" % (k, (((k * 5 + 3 * (bits >> 24)) % 16 + 16) * INV) % (1 << 32)) for k in range(13)]
        L += ["new 0 " + ALL[m % len(ALL)], "init 0 16"]
        isset = ALL[m % len(ALL)].startswith("set")
        for k in range(12):
            L.append("put 0 %d %d 0 0" % (k, k if isset else k + 50))
        er = [k for k in range(12) if bits >> k & 1]
        L += ["iter 0 " + " ".join(map(str, er)), "iter 0", "chk 0"]
        er = [k for k in range(12) if bits >> (k + 12) & 1]
        L += ["iter 0 " + " ".join(map(str, er)), "iter 0"]
        S.append(Script("arr%d" % m, L))
    S += large_scripts(ctx, ALL, 14)
    ctx.conform("HashTrace", d, S)


def c03(ctx):
    d = drivers(ctx)
    S = model_scripts(ctx, "HashA", [0, 1, 2, 3, 4], NINE, 32, fail=True, kinds=KINDS, limit=ctx.pick(500, None))
    for i in range(ctx.pick(400, 4000)):
        uni = ctx.rng.choice([6, 16, 24, 40, 40])
        S.append(random_script(ctx.rng, "r%d" % i, KINDS[i % len(KINDS)], ctx.rng.randint(5, 160), uni,
                               MODES[(i // len(KINDS)) % len(MODES)], fails=True, pols=i % 3 == 0,
                               moves=i % 3 != 0, chk=0.2))
    # beyond the maximum capacity: entries so large that doubling 16 places passes it
    for i in range(4):
        L = ["U 20", "new 0 tab_huge", "pol 0", "init 0 %s" % ["def", "16", "0", "64"][i]]
        if i == 3:
            L.append("init 0 16")
        for k in range(12):
            L.append("put 0 %d %d 2 0" % (k, k + 5))
        for k in range(12, 18):
            L += ["put 0 %d %d 2 0" % (k, k), "chk 0"]
        L += ["rm 0 3 0", "rm 0 4 0", "chk 0", "put 0 3 9 2 0", "clear 0", "put 0 3 9 2 0", "chk 0"]
        S.append(Script("max%d" % i, L))
    S += large_scripts(ctx, KINDS, 10, fails=True)
    ctx.conform("HashTrace", d, S)


def c04(ctx):
    d = drivers(ctx)
    S = model_scripts(ctx, "HashA", [0, 1, 2, 3, 4], NINE, 32, fail=True, kinds=TRACKED, life=True, mem=True,
                      limit=ctx.pick(450, None))
    for i in range(ctx.pick(350, 3500)):
        uni = ctx.rng.choice([3, 6, 16, 24, 40, 40])
        S.append(random_script(ctx.rng, "r%d" % i, TRACKED[i % len(TRACKED)], ctx.rng.randint(5, 200), uni,
                               MODES[(i // len(TRACKED)) % len(MODES)], life=True, mem=True, fails=i % 2 == 0, iters=0.08,
                               chk=0.08))
    S += large_scripts(ctx, TRACKED, 10, life=True, mem=True, fails=True)
    ctx.conform("HashTrace", d, S)
