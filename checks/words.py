"""C21, C22: overflow detectors and bit utilities."""
from vlib.core import Script
from checks.strings import pack

REL = ["-O2", "-DNDEBUG"]
DBG = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
M = 2**64 - 1
DIGIT = [0, 1, 0x8000, 0xFFFF]


def drivers(ctx):
    return ctx.build([("words_asan", "words.cpp", DBG), ("words_rel", "words.cpp", REL), ("words_clang", "words.cpp", ["CC=clang++", "-O2", "-DNDEBUG"])])


def model(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS LB = 2\n Limbs = %d\nINVARIANTS Arith Detect OnceSingle\nCHECK_DEADLOCK FALSE\n"
    cases = ctx.model("WordsMC", cfg % 4 + "CONSTRAINT PrintCase\n", edges=True, timeout=3000)
    if ctx.thorough:
        ctx.model("WordsMC", cfg % 5, timeout=3000)
    return cases


def word(limbs):
    return sum(DIGIT[d] << (16 * i) for i, d in enumerate(limbs))


def interesting(r):
    k = r.random()
    if k < .25:
        return min(M, max(0, (1 << r.randrange(65)) + r.choice([-2, -1, 0, 1, 2])))
    if k < .4:
        return r.randrange(1 << r.randint(1, 64))
    if k < .5:
        return r.randrange(5)
    if k < .6:
        return M - r.randrange(5)
    if k < .75:
        return ((1 << r.randint(1, 32)) - 1) << r.randint(0, 32)
    if k < .85:
        return r.choice([0xFFFFFFFF, 0x100000000, 0xFFFFFFFE, 0x80000000, 0x7FFFFFFF, 0x100000001, 0x55555555, 0xAAAAAAAAAAAAAAAA])
    return r.randrange(1 << 64)


def partner(r, a):
    """Second operands near the limits of the first."""
    k = r.random()
    lim = r.choice([M, M, M, 2**32 - 1])
    a = a & lim
    if k < .3:
        return min(M, max(0, lim - a + r.choice([-1, 0, 1, 2])))
    if k < .6 and a:
        return min(M, max(0, lim // a + r.choice([-1, 0, 1, 2])))
    if k < .7 and a:
        # products that wrap to a multiple of 2^32 or exactly 2^64
        t = (a & -a).bit_length() - 1
        return (1 << (64 - t)) * r.choice([1, 3]) & M if t else 0
    return interesting(r)


def c21(ctx):
    d = drivers(ctx)
    r = ctx.rng
    cases = model(ctx)
    if not ctx.thorough:
        r.shuffle(cases)
        cases = cases[:16000]
    S = pack("m", ["pair %d %d %d" % (word(c["a"]), word(c["b"]), r.randrange(2**64)) for c in cases], 400, "model")
    L = []
    # every small second operand at the limits it sets for the first
    for b in range(0, ctx.pick(70, 1000)):
        for lim in (M, 2**32 - 1):
            for d_ in (0, 1):
                L.append("pair %d %d %d" % ((lim - b + d_) & M, b, r.randrange(2**64)))
                if b:
                    L.append("pair %d %d %d" % (b, (lim // b + d_) & M, r.randrange(2**64)))
    for a in range(ctx.pick(25, 100)):
        for b in range(a + 1):
            L.append("pair %d %d %d" % (a, b, M))
    for i in range(ctx.pick(12000, 150000)):
        a = interesting(r)
        b = partner(r, a)
        if r.random() < .5:
            a, b = b, a
        L.append("pair %d %d %d" % (a, b, r.choice([0, M, r.randrange(2**64)])))
    S += pack("x", L, 400, "random")
    ctx.conform("WordsTrace", d, S)


def c22(ctx):
    d = drivers(ctx)
    r = ctx.rng
    cases = model(ctx)
    L = []
    for c in cases:
        if not any(c["b"]):
            ks = range(64) if ctx.thorough else [0, 1, 2, 3, 4, 12, 15, 16, 17, 31, 32, 33, 47, 48, 62, 63]
            L += ["word %d %d" % (word(c["a"]), k) for k in ks]
    # every word with one or two bits set, and every run of ones
    for i in range(64):
        for j in range(i, 64):
            L.append("word %d %d" % ((1 << i) | (1 << j), r.choice([i, j, r.randrange(64)])))
            L.append("word %d %d" % (((1 << (j - i + 1)) - 1) << i, r.choice([i, j, r.randrange(64)])))
    S = pack("m", L, 300, "model")
    L = []
    for i in range(ctx.pick(5000, 100000)):
        L.append("word %d %d" % (interesting(r), r.randrange(64)))
    for i in range(ctx.pick(1500, 20000)):
        n = r.choice([0, 1, 2, 3, 4, 6, 8, 12, 16])
        p = interesting(r)
        if r.random() < .7:
            p &= ~((1 << n) - 1)
        L.append("tag %d %d %d" % (p, r.randrange(1 << n), n))
    S += pack("x", L, 300, "random")
    ctx.conform("WordsTrace", d, S)
