"""C28 .. C31: floating point, time, threads, content hashes."""
from vlib.core import Script, path_cover
from checks.strings import pack

REL = ["-O2", "-DNDEBUG"]
DBG = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]

FMT = {"float": (8, 23), "double": (11, 52)}


def bits(t, s, e, m):
    eb, mb = FMT[t]
    return (s << (eb + mb)) | (e << mb) | m


def landmarks(t):
    eb, mb = FMT[t]
    top = (1 << eb) - 1
    one = 1 << mb
    bias = top >> 1
    L = [(0, 0), (0, 1), (0, 2), (0, 3), (0, one - 1), (0, one >> 1), (1, 0), (1, 1), (2, 0), (2, 5), (bias - 1, 0), (bias, 0),
         (bias, 1), (bias, one >> 1), (bias + 1, one >> 1), (bias + 5, 12345), (bias + mb, 1), (bias + mb + 1, one - 1),
         (bias + mb + 2, 77), (top - 1, one - 1), (top - 1, 0), (top - 2, 3), (top, 0), (top, 1), (top, one >> 1), (top, one - 1),
         (top, (one >> 1) + 1), (top, 1 << (mb - 2))]
    L += [(top, 1 << i) for i in range(0, mb, 6)] + [(top - 1 - (1 << i), 0) for i in range(eb - 1)]
    return [bits(t, s, e, m) for e, m in L for s in (0, 1)]


def c28(ctx):
    d = ctx.build([("float_asan", "floats.cpp", DBG), ("float_rel", "floats.cpp", REL), ("float_clang", "floats.cpp", ["CC=clang++", "-O2", "-DNDEBUG"])])
    cfg = "SPECIFICATION Spec\nCONSTANTS EB = %d\n MB = %d\nINVARIANTS Divided Contract Classes\nCHECK_DEADLOCK FALSE\n"
    cases = ctx.model("FloatMC", cfg % (3, 1) + "CONSTRAINT PrintCase\n", edges=True, timeout=3000)
    for p in ctx.pick([(3, 2)], [(3, 2), (3, 3), (4, 2)]):
        ctx.model("FloatMC", cfg % p, timeout=3000)
    r = ctx.rng
    lines = []
    for t in FMT:
        eb, mb = FMT[t]
        top = (1 << eb) - 1

        def embed(v, off, high):
            s, e, m = v
            e = top if e == 7 else e if e == 0 else e + off
            return bits(t, s, e, m << (mb - 1) if high else m)
        # every pair of the small format, embedded in the real one
        for c in cases:
            for off in (0, r.choice([1, 20, top // 2, top - 8])):
                h = r.random() < .6
                lines.append("mod %s %x %x" % (t, embed(c["x"], off, h), embed(c["y"], off, h)))
        lm = landmarks(t)
        for a in lm:
            lines.append("class %s %x" % (t, a))
        for a in lm:
            for b in lm:
                if ctx.thorough or r.random() < .25:
                    lines.append("mod %s %x %x" % (t, a, b))
        for _ in range(ctx.pick(1500, 20000)):
            k = r.random()
            e = r.randrange(top + 1)
            m = r.choice([r.randrange(1 << mb), (1 << r.randrange(mb)), (1 << mb) - (1 << r.randrange(mb))])
            a = bits(t, r.randrange(2), e, m)
            if k < .3:
                lines.append("class %s %x" % (t, a))
                continue
            e2 = max(0, min(top, e + r.randint(-mb - 3, 4))) if k < .9 else r.randrange(top + 1)
            m2 = m if r.random() < .1 else r.choice([r.randrange(1 << mb), 1 << r.randrange(mb), 0])
            lines.append("mod %s %x %x" % (t, a, bits(t, r.randrange(2), e2, m2)))
    r.shuffle(lines)
    ctx.notes.append("%d calls; all %d pairs of a 6-bit format embedded in float and double" % (len(lines), len(cases)))
    ctx.conform("FloatTrace", d, pack("f", lines, 40, "model"))


def c29(ctx):
    d = ctx.build([("time_asan", "times.cpp", DBG), ("time_rel", "times.cpp", REL)])
    ctx.model("TimeMC", "SPECIFICATION Spec\nCONSTANTS Base = %d\n Limbs = 4\n Secs = %d\n Second = %d\n Units = %d\n"
              "INVARIANTS Arith Exactly SameSide\nCHECK_DEADLOCK FALSE\n" % ctx.pick((3, 4, 5, 6), (4, 9, 7, 16)), timeout=3000)
    cases = ctx.model("TimeFormatMC", "SPECIFICATION Spec\nCONSTANTS MaxParts = 2\nINVARIANTS Rendered Composes\nCONSTRAINT PrintCase\n"
                      "CHECK_DEADLOCK FALSE\n", edges=True, timeout=3000)
    r = ctx.rng
    lines = []

    def tm():
        import calendar, datetime
        y, m = r.randint(1000, 9998), r.randint(1, 12)
        if r.random() < .3:
            y = r.choice([1000, 1899, 1900, 1969, 1970, 1999, 2000, 2004, 2024, 2038, 2100, 9999])
        dd = datetime.date(y, m, r.choice([1, 9, 10, calendar.monthrange(y, m)[1], r.randint(1, 28)]))
        return "%d %d %d %d %d %d %d %d" % (y - 1900, m - 1, dd.day, r.choice([0, 1, 11, 12, 13, 23, r.randrange(24)]),
                                            r.choice([0, 9, 59, r.randrange(60)]), r.choice([0, 7, 59, 60, r.randrange(60)]),
                                            (dd.weekday() + 1) % 7, dd.timetuple().tm_yday - 1)
    for c in cases:
        lines.append("format %s %s" % (tm(), bytes(c["f"]).hex()))
    letters = "%ABCDFHIMRSTUWXYabcdehjmnprtuwxy"
    for _ in range(ctx.pick(150, 2500)):
        n = r.choice([3, 10, 20, 60, 130, 300, 700])
        f = "".join("%" + r.choice(letters) if r.random() < .4 else r.choice("abc -:/.\x7f") for _ in range(n))
        if r.random() < .2:
            f = "x" * r.choice([14, 15, 16, 63, 64, 127, 128, 255, 256, 1023, 1024, 1025]) + r.choice(["", "%Y", "%c"])
        lines.append("format %s %s" % (tm(), f.encode().hex()))
    lo, hi = -2**63, 2**63 - 1
    G = 10**9
    vals = [lo, lo + 1, hi, hi - 1, lo + G, lo + 145224192, -9223372036 * G - 1, -9223372036 * G, -9223372036 * G + 1, 9223372036 * G, 0, 1, -1,
            G - 1, G, G + 1, -G, -G - 1, -G + 1, 2**31 * G, 2**31 * G - 1, -2**31 * G, -2**31 * G - 1, 2**32 * G, 2**32 * G + 5]
    for u in (100, 1000, 10**6, 60 * G, 3600 * G):
        for k in (-3, -1, 0, 1, 7):
            vals += [k * u - 1, k * u, k * u + 1]
    for _ in range(ctx.pick(500, 10000)):
        vals.append(r.choice([r.randrange(lo, hi), r.randrange(-10**13, 10**13), r.randrange(-10**10, 10**10), lo + r.randrange(3 * G), hi - r.randrange(3 * G)]))
    for v in vals:
        lines.append("span %d %d" % (v // G, v % G))
    ep = [lo, hi, 0, 1, -1, 127, -128, 255, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32]
    ep += [r.randrange(lo, hi) >> r.randrange(64) for _ in range(ctx.pick(200, 3000))]
    lines += ["epoch %d" % v for v in ep]
    r.shuffle(lines)
    ctx.conform("TimeTrace", d, pack("t", lines, 20, "model"))


def c31(ctx):
    d = ctx.build([("hashfun_asan", "hashfun.cpp", DBG + ["-fno-sanitize=shift,signed-integer-overflow"]), ("hashfun_rel", "hashfun.cpp", REL),
                   ("hashfun_uchar", "hashfun.cpp", ["-O1", "-funsigned-char"])])
    cfg = "SPECIFICATION Spec\nCONSTANTS W = %d\n B = %d\n MaxLen = %d\nINVARIANTS Whole OneToOne Apart\nCHECK_DEADLOCK FALSE\n"
    edges = ctx.model("HashFunMC", cfg % (6, 2, 3) + "ACTION_CONSTRAINT PrintEdge\n", edges=True, timeout=3000)
    if ctx.thorough:
        ctx.model("HashFunMC", cfg % (8, 2, 6), timeout=3000)
        ctx.model("HashFunMC", cfg % (8, 4, 3), timeout=3000)
    steps = sorted({(e["n"], e["k"]) for e in edges})
    r = ctx.rng
    S = []
    # contents over a small alphabet, so that one-byte neighbours meet; every division into chunks up to length 3 and
    # random ones beyond, including empty chunks and single bytes
    def cuts(n):
        if r.random() < .2:
            return [-n]
        c = []
        left = n
        while left:
            k = r.choice([0, 1, 1, 2, 3, r.randint(1, left)])
            k = min(k, left)
            c.append(k if r.random() < .7 else -k)
            left -= k
        return c
    import itertools
    comps = {(): 1}
    for n, k in steps:
        for c in [c for c in list(comps) if sum(c) == n]:
            if len(c) < 4:
                comps[c + (k,)] = 1
    for t in range(ctx.pick(80, 600)):
        L = []
        alpha = r.choice([b"ab", b"\0\x80", b"\x7f\x80\xff", b"aA\0"])
        n = r.choice([0, 1, 2, 3, 3, 4, 5, 6])
        for _ in range(14):
            s = bytes(r.choice(alpha) for _ in range(n if r.random() < .8 else r.randint(0, 8)))
            cs = [c for c in comps if sum(c) == len(s)]
            c = list(r.choice(cs)) if cs and r.random() < .6 else cuts(len(s))
            L.append("hash %d %d x%s %s" % (r.randrange(8), r.randrange(3), s.hex(), " ".join(map(str, c))))
        for _ in range(3):
            n2 = r.choice([1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300])
            p = r.choice([0, n2 - 1, r.randrange(n2)])
            L.append("family %d %d %d %d %s" % (n2, p, r.randrange(10**6), r.randrange(8), " ".join(map(str, cuts(n2)))))
        if t % 20 == 0:
            n2 = r.choice([1000, 4096, 65535, 65536, 65537, 100000])
            L.append("family %d %d %d 1 %d -7" % (n2, r.choice([0, n2 - 1, r.randrange(n2)]), t, r.randrange(n2)))
        for _ in range(6):
            v = r.choice([0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, r.randrange(2**64), r.randrange(100)])
            for _ in range(2):
                o = r.choice(["int32", "int64", "combine"])
                L.append("%s %x %x" % (o, v & 0xffffffff if o == "int32" else v, r.choice([0, 0xffffffff, r.randrange(2**32)])))
        for _ in range(4):
            L.append("pointer %d" % r.randrange(6))
        r.shuffle(L)
        S.append(Script("h%d" % t, L, "model"))
    ctx.notes.append("%d divisions of the model; every byte value at the varied place of a family" % len(comps))
    ctx.conform("HashFunTrace", d, S)


KINDS = ["fn", "fnconst", "fnmove", "only", "plain", "pplain", "none", "five", "member", "memberp", "ref", "stdfn", "lambda"]


def thr_script(r, acts):
    """Model actions to driver lines: what happens inside the creating call goes on its line."""
    L, cur = [], None

    def name(n):
        if n == "long":
            return bytes(r.choice(b"abcxyz") for _ in range(r.choice([16, 17, 20, 40])))
        return r.choice([b"a", b"0123456789abcde", b"0123456789abcd", b"two words", b"%s%n", b"\xc3\xa9", bytes(r.choice(b"abcxyz") for _ in range(r.randint(1, 15)))])

    def flush():
        nonlocal cur
        if cur:
            L.append(" ".join(cur))
            cur = None
    for a in acts:
        o = a["o"]
        if o in ("new", "refuse"):
            n = name(a["n"] if o == "new" else "a")
            cur = ["new", str(a["k"]), r.choice(KINDS), str(r.randint(1, 900)), "0" if o == "new" else "1", "1" if r.random() < .15 else "0", n.hex() or "-"]
            if o == "refuse":
                flush()
        elif o == "return":
            flush()
        elif o in ("call", "end"):
            w = ["start" if o == "call" else "end", str(a["k"])]
            if cur:
                cur += w
            else:
                L.append(" ".join(w))
                if o == "call" and r.random() < .3:
                    L.append("rename %d %s" % (a["k"], name(r.choice(["a", "a", "long"])).hex()))
        elif o == "spoil":
            L.append("spoil")
        elif o == "join":
            L.append("join %d" % a["k"])
    flush()
    return L


def c30(ctx):
    d = ctx.build([("thr_asan", "thread.cpp", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-lpthread", "-ldl"]),
                   ("thr_rel", "thread.cpp", REL + ["-lpthread", "-ldl"])])
    t = ctx.build([("thr_tsan", "thread.cpp", ["-O1", "-fsanitize=thread", "-lpthread", "-ldl"])])
    cfg = ("SPECIFICATION Spec\nCONSTANTS Threads = %s\n Names = {\"a\", \"long\"}\n Accepts <- Short\n Creators = Creators\n Spoilt = Spoilt\n Nothing = Nothing\nVIEW View\nINVARIANTS Once Named Gone Alive\n"
           "CHECK_DEADLOCK FALSE\n%s")
    edges = ctx.model("ThrMC", cfg % ("{1, 2}", "ACTION_CONSTRAINT PrintEdge\nCONSTRAINT PrintInit\n"), edges=True, timeout=3000)
    ctx.model("ThrMC", cfg.replace("VIEW View\n", "") % ("{1, 2}", "PROPERTY Runs\n"), timeout=3000)
    if ctx.thorough:
        ctx.model("ThrMC", cfg % ("{1, 2, 3}", ""), timeout=6000)
    r = ctx.rng
    paths, total = path_cover(edges, key=str, maxlen=40)
    ctx.notes.append("%d transitions covered by %d histories; what happens before the creating call returns is done inside it" % (total, len(paths)))
    S = []
    for rep in range(ctx.pick(1, 6)):
        for i, (_, acts) in enumerate(paths):
            S.append(Script("m%d_%d" % (rep, i), thr_script(r, acts), "model"))
    # random walks with three threads
    for i in range(ctx.pick(150, 3000)):
        st = {1: "none", 2: "none", 3: "none"}
        acts, inside = [], None
        buf = False
        for _ in range(r.randint(6, 40)):
            m = []
            for k in st:
                if st[k] == "none" and not inside:
                    m += [("new", k)] * 3 + ([("refuse", k)] if r.random() < .2 else [])
                if st[k] == "born":
                    m.append(("call", k))
                if st[k] == "running":
                    m.append(("end", k))
                if st[k] == "over" and not inside:
                    m.append(("join", k))
            if inside:
                m += [("return", inside)] * 2
            elif buf:
                m.append(("spoil", 0))
            if not m:
                break
            o, k = r.choice(m)
            acts.append({"o": o, "k": k, "n": r.choice(["a", "a", "long"])})
            if o == "new":
                st[k], inside, buf = "born", k, True
            elif o == "return":
                inside = None
            elif o == "spoil":
                buf = False
            elif o == "join":
                st[k] = "joined"
            else:
                st[k] = {"refuse": "refused", "call": "running", "end": "over"}[o]
        S.append(Script("r%d" % i, thr_script(r, acts)))
    ctx.conform("ThrTrace", d, S)
    F = [Script("s%d" % i, ["storm %d %d" % (r.choice([1, 2, 8, 12, 24, 50]), r.randint(1, 500)) for _ in range(ctx.pick(3, 10))])
         for i in range(ctx.pick(24, 200))]
    ctx.conform("ThrTrace", dict(d, **t), F, label="free threads")
