"""C34: broken preconditions stop builds with assertions, kept ones never do."""
import os
from vlib.core import REPO, Script, path_cover, walks
from checks.strings import hx

CFG = """SPECIFICATION Spec
CONSTANT Max = %d
VIEW View
INVARIANT Sound
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
"""


def c34(ctx):
    src = ["contracts.cpp", os.path.join(REPO, "amtl/experimental/am-argparser.cpp")]
    d = ctx.build([("con_asan", src, ["-O1", "-fsanitize=address"]),
                   ("con_opt", src, ["-O2"]),
                   ("con_clang", src, ["CC=clang++", "-O2"])])
    r = ctx.rng
    edges = ctx.model("ContractMC", CFG % ctx.pick(3, 4), edges=True)
    paths, total = path_cover(edges, maxlen=80)
    ctx.notes.append("%d transitions covered by %d histories" % (total, len(paths)))
    S = []
    # calls that broke nothing leave no trace in the model's state; the walks take them in many orders
    random = [(None, w) for w in walks(edges, ctx.pick(4000, 40000), [9, 13, 21, 41], r)]
    for i, (_, acts) in enumerate(paths + random):
        if not acts:
            continue
        k, sub = acts[0]["k"], acts[0]["sub"]
        L = ["kind %s %d" % (k, sub)]
        if k == "tab":
            L.append("init 16 0")
        for a in acts[1:]:
            if a["f"] not in ("-", "none"):
                L.append("%s %d %d" % (a["f"], a["a"], a["b"]))
        S.append(Script("m%d" % i, L, "model"))
    n = [0]

    def one(kind, sub, *lines):
        n[0] += 1
        S.append(Script("x%d" % n[0], ["kind %s %d" % (kind, sub)] + list(lines)))
    for f in ("log2", "left32", "left64", "right"):
        good = [1 << i for i in range(32 if f == "left32" else 64)] + [r.getrandbits(32) | 1 for _ in range(10)]
        one("bits", 0, *["%s %d 0" % (f, v) for v in good])
        one("bits", 0, "%s 5 0" % f, "%s 0 0" % f)
    for f in ("align", "aligned", "base"):
        one("bits", 0, *["%s %d %d" % (f, 1 << i, r.getrandbits(62)) for i in range(62)])
        for v in [0, 3, 5, 6, 7, 9, 12, 24, 48, 96, (1 << 32) + 1, (1 << 63) + 1, (1 << 64) - 1, 3 << 40, 1 << 20 | 1]:
            one("bits", 0, "%s 8 %d" % (f, r.getrandbits(40)), "%s %d %d" % (f, v, r.choice([0, 1, 64, r.getrandbits(40)])))
    for s in ("", "a", "a,b", ",", ",,"):
        for sub in (0, 1):
            one("text", sub, *["split %s %s" % (hx(s), hx(t)) for t in (",", "a", ",,", "abc")])
            one("text", sub, "split %s %s" % (hx(s), hx("")))
    names = ["~", "a", "-a", "--a", "---a", ".", "-", "--", "ab", "-ab", "--ab", "a-b", "--a-b"]
    for s in names:
        for l in names:
            for nm in ("~", "n", "."):
                if nm == "~" or r.random() < ctx.pick(.3, 1):
                    one("option", r.randrange(2), "option %s %s %s" % (s, l, nm))
    ctx.conform("ContractTrace", d, S)
