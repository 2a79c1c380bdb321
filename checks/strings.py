"""C18-C20: string functions."""
from vlib.core import Script

REL = ["-O2", "-DNDEBUG"]
DBG = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


def drivers(ctx):
    return ctx.build([("str_asan", "strings.cpp", DBG), ("str_rel", "strings.cpp", REL)])


def hx(s):
    b = bytes(s) if not isinstance(s, str) else s.encode("latin1")
    return b.hex() or "-"


def pack(name, lines, per, origin):
    return [Script("%s%d" % (name, j), lines[j:j + per], origin) for j in range(0, len(lines), per)]


def rand_str(r, n=None, lo=1):
    n = r.choice([0, 1, 2, 3, 5, 8, 17, 40, 120]) if n is None else n
    k = r.random()
    if k < .3:
        return bytes(r.choice(b"ab") for _ in range(n))
    if k < .6:
        return bytes(r.randrange(lo, 256) for _ in range(n))
    return bytes(r.choice(b"abcXYZ 019%\\/\x7f\x80\xff\x01-=\n") for _ in range(n))


def c18(ctx):
    d = drivers(ctx)
    r = ctx.rng
    n, m = ctx.pick((3, 5), (5, 7))
    cases = ctx.model("StrCopyMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n MaxM = %d\n Alphabet = {97, 200}\nINVARIANTS InBounds Result\n"
                      "PROPERTY Ends_\nCHECK_DEADLOCK FALSE\nCONSTRAINT PrintCase\n" % (n, m), edges=True, timeout=3000)
    L = []
    for c in cases:
        for where in (0, 1, 2):
            if c["fn"] == "strcpy":
                L.append("strcpy %d %d 0 %s" % (where, c["m"], hx(c["src"])))
            elif c["fn"] == "strcpyn":
                L.append("strcpyn %d %d %d %s 1" % (where, c["m"], c["n"], hx(c["src"])))
                if c["n"] <= len(c["src"]):
                    L.append("strcpyn %d %d %d %s 0" % (where, c["m"], c["n"], hx(c["src"])))
            else:
                L.append("strcat %d %d %s %s" % (where, c["m"], hx(c["d0"]), hx(c["src"])))
    L.append("nulldest")
    S = pack("m", L, 300, "model")
    L = []
    big = [0, 1, 2, 3, 15, 16, 17, 255, 256, 257, 1000, 4000]
    for i in range(ctx.pick(6000, 60000)):
        s = rand_str(r, r.choice([None, None, None, 255, 256, 300, 1000]) if i % 10 == 0 else None)
        m = r.choice([len(s) - 1, len(s), len(s) + 1, len(s) + 2, r.randint(0, 150), r.choice(big)])
        m = max(0, min(4096, m))
        w = r.randrange(3)
        k = r.random()
        if k < .3:
            L.append("strcpy %d %d 0 %s" % (w, m, hx(s)))
        elif k < .65:
            n = r.choice([0, 1, len(s) - 1, len(s), len(s) + 1, m - 1, m, m + 1, r.randint(0, 200), 2**31, 2**32, 2**63 - 1, -1])
            n = n if n < 0 and n == -1 else max(n, 0)
            term = 1 if n < 0 or n > len(s) or r.random() < .5 else 0
            L.append("strcpyn %d %d %d %s %d" % (w, m, n, hx(s), term))
        else:
            d0 = rand_str(r)
            m = r.choice([len(d0), len(d0) + 1, len(d0) + 2, len(d0) + len(s), len(d0) + len(s) + 1, len(d0) + len(s) + 2, 0, 1, r.randint(0, 200)])
            L.append("strcat %d %d %s %s" % (w, m, hx(d0), hx(s)))
    S += pack("x", L, 300, "random")
    L = []
    for sh, add in [(31, -1), (31, 0), (31, 5), (32, -1), (32, 0), (32, 1), (32, 3), (33, 0)]:
        for fn in ("strcpy", "strcat", "strcpyn"):
            s = rand_str(r, r.choice([0, 1, 6, 17]))
            d0 = bytes(c or 1 for c in rand_str(r, r.choice([0, 2, 9])))
            L.append("huge %s %d %d %s %s %d" % (fn, sh, add, hx(d0), hx(bytes(c or 1 for c in s)), r.choice([0, 3, len(s), 2**31, 2**32 + 2, 2**40])))
    S += pack("h", L, 8, "random")
    L = []
    for n in (254, 255, 256, 257, 4096, 32767, 32768, 65535, 65536, 65537, 1 << 20, (1 << 24) + 1):
        for m in (n - 1, n, n + 1, n + 2, 2 * n, n // 2 + 1):
            L += ["long strcpy 0 %d %d 0" % (n, m), "long strcpyn 0 %d %d %d" % (n, m, r.choice([n - 1, n, n + 1, 65536, m])),
                  "long strcat %d %d %d 0" % (n, r.choice([1, 3, n]), m), "long strcat %d %d %d 0" % (n // 2, n - n // 2, m)]
    if ctx.thorough:
        for n in (2**31 - 5, 2**30 + 7):
            L += ["long strcpy 0 %d %d 0" % (n, n + k) for k in (0, 1, 2)]
    S += pack("l", L, 40, "random")
    ctx.conform("StrTrace", d, S)


HOWS = [0, 1, 2, 3, 4, 5, 6, 7]


def fmt_line(r, p, how, m, where):
    b = "fmt %s %s %d %d %d %d %d %d %d %d %d %s %d %d %d %d" % (
        " ".join(hx(x) for x in p["l"]), hx(p["s1"]), p["w1"], p["p1"], p["m1"], p["d"], p["w2"], p["m2"], p["z2"], p["g2"], p["c"],
        hx(p["s2"]), p["w3"], p["p3"], p["m3"], how)
    return b + (" %d %d" % (m, where) if how >= 4 else "")


def rand_fmt(r, target=None, zero=True):
    nz = lambda n=None: bytes(c or 1 for c in rand_str(r, n))
    p = dict(l=[nz(r.choice([0, 0, 1, 3, 9])) for _ in range(5)], s1=nz(), w1=r.choice([0, 0, 1, 5, 30, -12, 200]), p1=r.choice([-1, -1, 0, 1, 4, 50]),
             m1=r.randrange(2), d=r.choice([0, 1, -1, 9, 10, -10, 99, 2147483647, -2147483647, r.randint(-10**6, 10**6)]),
             w2=r.choice([0, 0, 3, 11, 12, -8, 40]), m2=r.randrange(2), z2=r.randrange(2), g2=r.randrange(2),
             c=r.choice([65, 92, 37, 255] + ([0] if zero else [])), s2=nz(), w3=r.choice([0, 0, 7, -7]), p3=r.choice([-1, -1, 0, 2]), m3=r.randrange(2))
    return p


def fmt_len(p):
    def s(v, w, q):
        t = len(v) if q < 0 else min(q, len(v))
        return max(t, abs(w))
    dl = len(str(abs(p["d"]))) + (1 if p["d"] < 0 or p["g2"] else 0)
    return sum(len(x) for x in p["l"]) + s(p["s1"], p["w1"], p["p1"]) + max(dl, abs(p["w2"])) + 1 + s(p["s2"], p["w3"], p["p3"])


def c19(ctx):
    d = drivers(ctx)
    r = ctx.rng
    n, m = ctx.pick((12, 14), (60, 64))
    cases = ctx.model("FmtMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n MaxM = %d\nINVARIANTS Fits InBuffer Longest\nCHECK_DEADLOCK FALSE\n"
                      "CONSTRAINT PrintCase\n" % (n, m), edges=True)
    L = []
    blank = dict(l=[b""] * 5, s1=b"", w1=0, p1=-1, m1=0, d=0, w2=0, m2=0, z2=0, g2=0, c=65, s2=b"", w3=0, p3=-1, m3=0)
    for c in cases:
        for how in (4, 5, 6, 7):
            if c["fail"]:
                L.append("libc %s wide %d %d %d %d" % (hx("ab%ls"), 0xD8000000 + r.choice([0, 1]), how, c["m"], r.randrange(3)))
            elif c["len"] >= 2:
                p = dict(blank, s1=bytes(r.choice(b"ab\\/") for _ in range(c["len"] - 2)), d=r.randrange(10))
                L.append(fmt_line(r, p, how, c["m"], r.randrange(3)))
            else:
                L.append("libc %s none %d %d %d" % (hx("\\" * c["len"]), how, c["m"], r.randrange(3)))
    for k in range(0, n + 1):
        for how in range(4):
            L.append("libc %s none %d" % (hx("x" * k), how))
    S = pack("m", L, 150, "model")
    L = []
    for i in range(ctx.pick(4000, 40000)):
        how = r.choice(HOWS)
        p = rand_fmt(r)
        n = fmt_len(p)
        m = r.choice([0, 1, 2, n - 1, n, n + 1, n + 2, r.randint(0, n + 5), 4000])
        if r.random() < .7:
            L.append(fmt_line(r, p, how, max(0, min(m, 8192)), r.randrange(3)))
            continue
        tail = " %d" % how
        if how >= 4:
            tail += " %d %d" % (r.choice([0, 1, 2, 5, 9, 17, 18, 30, 64, 400]), r.randrange(3))
        k = r.random()
        if k < .25:
            L.append("libc %s double %s" % (hx(r.choice(["%f", "%.0f", "%e", "%g", "x\\%010.3fy", "%a", "%.300f"])), r.choice(["0", "-0.0", "1e300", "nan", "inf", "-1.5", "123456.789", "1e-310"])) + tail)
        elif k < .4:
            L.append("libc %s u64 %d" % (hx(r.choice(["%llu", "%llx", "%016llX", "%#llo", "%30llu|"])), r.choice([0, 1, 2**64 - 1, 2**63, r.randrange(2**64)])) + tail)
        elif k < .55:
            L.append("libc %s long %d" % (hx(r.choice(["%ld", "%+ld", "% ld", "%-20ld|", "%.12ld"])), r.choice([0, -1, 2**63 - 1, -2**63 + 1, r.randint(-2**40, 2**40)])) + tail)
        elif k < .75:
            L.append("libc %s wide %d" % (hx(r.choice(["%ls", "pre\\%ls", "%ls%%"])), r.choice([0, 65, 127, 128, 0xD8000000, 0x20AC, 0x7fffffff])) + tail)
        elif k < .85:
            L.append("libc %s none" % hx(r.choice(["", "%%", "plain", "a\\b\\c", "%2147483648d", "x" * 300, "\\" * 40, "%99999999999d"])) + tail)
        else:
            L.append("libc %s many %d %s %s" % (hx("%d %g %s %ld \\%u %.3e %10s|%zu %p %.2s"), r.choice([0, -1, 77]), r.choice(["1.5", "-inf", "0"]), hx(bytes(c or 1 for c in rand_str(r)))) + tail)
    S += pack("x", L, 60, "random")
    L = []
    for sh, add in [(31, -1), (31, 0), (31, 5), (32, -1), (32, 0), (32, 3)]:
        for k in (0, 1):
            L.append("huge print %d %d - %s %d" % (sh, add, hx(r.choice([b"", b"a\\b", b"some text\\"])), k))
    S += pack("h", L, 4, "random")
    L = ["big %d %d" % (w, how) for w in (2, 255, 256, 4095, 4096, 65535, 65536, 1 << 20, (1 << 24) + 3) for how in range(4)]
    S += pack("b", L, 4, "random")
    ctx.conform("StrTrace", d, S)
    ctx.assumptions.append("conversions other than %s %d %c and literals: the complete text is what libc prints into a large enough buffer")


def c20(ctx):
    d = drivers(ctx)
    r = ctx.rng
    n, m = ctx.pick((6, 3), (9, 4))
    cases = ctx.model("SplitMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n MaxSep = %d\n Alphabet = {97, 98}\nINVARIANTS Inverse Clean\n"
                      "CHECK_DEADLOCK FALSE\nCONSTRAINT PrintCase\n" % (n, m), edges=True, timeout=3000)
    L = []
    for c in cases:
        for how in (0, 1):
            L.append("split %d %s %s" % (how, hx(c["s"]), hx(c["sep"])))
    seen = set()
    for c in cases:
        k = (hx(c["s"]), hx(c["sep"]))
        if len(c["s"]) <= 4:
            for a, b in (k, k[::-1]):
                if (a, b) not in seen:
                    seen.add((a, b))
                    L += ["casecmp %s %s" % (a, b), "starts 0 %s %s" % (a, b), "starts 1 %s %s" % (a, b), "ends 0 %s %s" % (a, b)]
    for b in range(1, 256):
        L += ["up %s" % hx([b]), "down %s" % hx([b])]
    S = pack("m", L, 300, "model")
    L = []
    nz = lambda n=None: bytes(c or 1 for c in rand_str(r, n))
    for i in range(ctx.pick(5000, 60000)):
        k = r.random()
        if k < .45:
            sep = nz(r.choice([1, 1, 2, 3, 5, 9]))
            if r.random() < .3:
                sep = bytes([r.choice(b"ab\xff")]) * r.choice([1, 2, 3])
            s = b"".join(r.choice([sep, sep[:-1], sep[1:], nz(r.choice([0, 1, 2, 7]))]) for _ in range(r.choice([0, 1, 2, 4, 8, 20])))
            L.append("split %d %s %s" % (r.randrange(2), hx(s), hx(sep)))
        elif k < .65:
            sep = nz(r.choice([0, 0, 1, 2, 5, 40]))
            ps = [rand_str(r, r.choice([0, 0, 1, 3, 17, 60]), 0) for _ in range(r.choice([0, 1, 2, 3, 9]))]
            L.append("join %s %s" % (hx(sep), " ".join(hx(x) for x in ps)))
        elif k < .85:
            s = nz()
            op = r.choice(["starts", "ends"])
            cut = r.randint(0, len(s))
            p = s[:cut] if op == "starts" else s[cut:]
            if r.random() < .4:
                p = r.choice([p + b"x", b"x" + p, p[:-1] + b"\xfe", s + s, s + b"a", b"a" + s, b"", nz()])
            if r.random() < .1:
                s = b""
            L.append("%s %d %s %s" % (op, r.randrange(2), hx(s), hx(p)))
            if op == "ends" and r.random() < .3:
                z = bytes([r.choice([0, 97])]) * r.randint(0, 3)
                L.append("ends 0 %s %s" % (hx(s + z), hx(z + z[:1])))
        elif k < .93:
            a = nz()
            b = bytes(c ^ 32 if chr(c).isalpha() and c < 128 and r.random() < .5 else c for c in a)
            if r.random() < .5:
                b = r.choice([b[:-1], b + b"a", b + b"\x80", nz(), bytes(c ^ (32 if r.random() < .1 else 0) or 1 for c in b)])
            L.append("casecmp %s %s" % (hx(a), hx(b)))
        else:
            L.append("%s %s" % (r.choice(["up", "down"]), hx(nz())))
    S += pack("x", L, 250, "random")
    # texts, separators and numbers of pieces longer than a byte or a short can count
    L = []
    for n in (1, 2, 17, 65, 130, 256, 257, 300, 1030, 66000):
        for runs in ("3 2 0 3", "1 5", "0 1 4 1", "255 1 256 1 257 1", "300 3 0 2 2 1", "0 4", "700 2 0 1"):
            if n < 2000 or len(runs) < 4:
                L.append("lsplit %d %d %s" % (r.randrange(2), n, runs if n < 2000 else "7 2"))
    for runs in ("1 300", "0 300 1 1", "1 66000", "66000 1 1 1", "3 1 70000 1 3 1", "65535 1 65536 1 65537 1", "2 256", "0 66000 1 3", "2 255 1 1", "40 1000 3 1"):
        for how in (0, 1):
            for n in (1, 2):
                L.append("lsplit 1 %d %s" % (n, runs) if len(runs) > 20 or runs[:4] in ("2 25", "0 66") else "lsplit %d %d %s" % (how, n, runs))
    for n in (65, 130, 256, 300, 1030, 20000, 66000):
        s = nz(n)
        for cut in (n - 1, n // 2, 0):
            f = s[:cut] + bytes([s[cut] ^ 1 or 7]) + s[cut + 1:]     # differs in one place
            g = s[:cut] + bytes([s[cut] ^ 3 or 9]) + s[cut + 1:]
            for how in (0, 1):
                L += ["starts %d %s %s" % (how, hx(s), hx(f)), "starts %d %s %s" % (how, hx(s), hx(s[:cut])), "starts %d %s %s" % (how, hx(s), hx(f[:-1] if cut < n - 1 else f))]
            L += ["ends 0 %s %s" % (hx(s), hx(f)), "ends 0 %s %s" % (hx(s), hx(s[cut:])), "ends 0 %s %s" % (hx(s), hx(f[1:] if cut else f)), "casecmp %s %s" % (hx(s), hx(g)), "casecmp %s %s" % (hx(s), hx(s[:-1]))]
        sw = bytes(c ^ 32 if chr(c).isalpha() and c < 128 else c for c in s)
        L += ["casecmp %s %s" % (hx(s), hx(sw)), "up %s" % hx(s), "down %s" % hx(s)]
    for sep in (65, 130, 257, 300, 1030):
        L.append("join %s %s" % (hx(nz(sep)), " ".join(hx(rand_str(r, r.choice([0, 1, 300]), 0)) for _ in range(5))))
    for n in (255, 256, 257, 300):
        L.append("join %s %s" % (hx(nz(2)), " ".join(hx(rand_str(r, r.choice([0, 1, 3]), 0)) for _ in range(n))))
    S += pack("big", L, 12, "large")
    ctx.conform("StrTrace", d, S)
