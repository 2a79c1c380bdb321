"""C27: file predicates and directory creation."""
import glob, os, shutil
from vlib.core import Script, path_cover

CFG = """SPECIFICATION Spec
CONSTANTS Names = {1, 2}
 Rich = %s
VIEW View
INVARIANTS Formed Found
PROPERTIES Made Keeps
CHECK_DEADLOCK FALSE
%s"""
EDGES = "ACTION_CONSTRAINT PrintEdge\nCONSTRAINT PrintInit\n"


def nm(p):
    return "/".join(chr(96 + x) for x in p) or "."


class Tree:
    """Only to write scripts that other tools can execute: physical paths that exist."""
    def __init__(self):
        self.t = {(): "dir"}

    def free(self, r, names="abc", depth=3):
        ds = [p for p, k in self.t.items() if k == "dir" and len(p) < depth]
        p = r.choice(ds) + (r.choice(names),)
        return p if p not in self.t else None

    def leaf(self, r):
        ls = [p for p in self.t if p and not any(q[:len(p)] == p and q != p for q in self.t)]
        return r.choice(ls) if ls else None


def c27(ctx):
    d = ctx.build([("fs_asan", "fsutil.cpp", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
                   ("fs_rel", "fsutil.cpp", ["-O2", "-DNDEBUG"])])
    r = ctx.rng
    edges = ctx.model("FsMC", CFG % ("FALSE", EDGES), edges=True, timeout=3000)
    if ctx.thorough:
        ctx.model("FsMC", CFG % ("TRUE", "CONSTRAINT Few\n"), timeout=6000)
    paths, total = path_cover(edges, key=str, maxlen=60)
    ctx.notes.append("%d transitions covered by %d histories, every path asked about after every step" % (total, len(paths)))
    base = [a for a in "ab"] + [a + "/" + b for a in "ab" for b in "ab"]
    ask = "ask " + " ".join(base + ["a/", "a/b/", "a/..", "b/.", "c", "a/b/a"])
    S = []
    for i, (_, acts) in enumerate(paths):
        L = [ask] + (["relative"] if i % 2 else []) + (["odd %d %d" % (r.randrange(3), r.choice([0, 0, 3, 100, 1300]))] if i % 4 > 1 else [])
        for a in acts:
            p = nm(a["p"])
            if a["o"] == "create":
                L.append("create %s%s %d %d" % (p, "/" if r.random() < .25 else "", 0o755, 0o22))
            elif a["o"] == "link":
                L.append("link %s %d %s" % (p, a["abs"], nm(a["to"])))
            else:
                L.append("%s %s" % (a["o"], p))
        S.append(Script("m%d" % i, L, "model"))
    for i in range(ctx.pick(200, 3000)):
        t = Tree()
        L = []
        if r.random() < .5:
            L.append("relative")
        if r.random() < .5:
            L.append("odd %d %d" % (r.randrange(3), r.choice([0, 0, 1, 3, 20, 100, 500, 1300])))
        for _ in range(r.randint(5, 40)):
            qs = []
            for _ in range(12):
                q = "/".join(r.choice("abc") for _ in range(r.randint(1, 4)))
                k = r.random()
                if k < .15:
                    q += "/"
                elif k < .25:
                    q += "/."
                elif k < .4:
                    q = q.split("/")[0] + "/.." + r.choice(["", "/a", "/"])
                qs.append(q)
            L.append("ask " + " ".join(qs))
            k = r.random()
            if k < .3:
                # anywhere: below files, links, in missing directories, over what exists
                q = "/".join(r.choice("abc") for _ in range(r.randint(1, 4)))
                if r.random() < .5:
                    f = t.free(r)
                    q = "/".join(f) if f else q
                L.append("create %s %d %d" % (q + r.choice(["", "", "", "/"]), r.choice([-1, 0o755, 0o700, 0o777, 0o500, 0o711, 0, 0o1777, 0o1000, 0o1700, 0o020, 0o002, 0o100]), r.choice([0o22, 0, 0o77, 0o777])))
                # what that does to the tree is for the specification to say; here it is only guessed
                pq = tuple(q.split("/"))
                if all(t.t.get(pq[:j]) == "dir" for j in range(len(pq))) and pq not in t.t:
                    t.t[pq] = "dir"
                elif any(t.t.get(pq[:j]) == "link" for j in range(len(pq))):
                    t.fuzzy = True
            elif k < .75:
                f = t.free(r)
                if not f or getattr(t, "fuzzy", False):
                    continue
                o = r.choice(["file", "file", "dir", "dir", "dir", "fifo", "sock", "link", "link", "link"])
                if o == "link":
                    to = "/".join(r.choice("abc") for _ in range(r.randint(0, 3))) or "."
                    L.append("link %s %d %s" % ("/".join(f), r.randrange(2), to))
                elif o == "file":
                    L.append("file %s %d %d" % ("/".join(f), r.choice([0, 1, 100, 4096, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) + 1]), r.choice([0o644, 0, 0o755, 0o444, 0o4755, 0o111])))
                else:
                    L.append("%s %s" % (o, "/".join(f)))
                t.t[f] = o
            elif k < .95:
                f = t.leaf(r)
                if f and not getattr(t, "fuzzy", False):
                    L.append("rm " + "/".join(f))
                    del t.t[f]
            else:
                L.append(r.choice(["query", "nowhere"]))
        S.append(Script("r%d" % i, L))
    try:
        ctx.conform("FsTrace", d, S)
    finally:
        for p in glob.glob(os.path.join(ctx.dir, "fs??????")):
            shutil.rmtree(p, ignore_errors=True)
