"""C15-C17: the option parser."""
import os
from vlib.core import Script, CheckError, SPEC

REL = ["-O2", "-DNDEBUG"]
DBG = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
CPP = ["argparser.cpp"]

# kind short long default; positionals: kind name
DECLS = [
    [("opt", "str", "s", "str", None), ("opt", "int", "i", "int", "7"), ("opt", "bool", "b", "bool", None), ("opt", "en", "e", "en", "0"),
     ("opt", "tog", "t", "tog", "1"), ("opt", "stop", "v", "", None), ("opt", "rint", "r", "rep", None), ("pos", "str", "file")],
    [("opt", "rstr", "I", "inc", None), ("opt", "en", "", "no-x", "1"), ("opt", "en", "x", "x", "1"), ("opt", "bool", "", "b", "1"),
     ("opt", "str", "st", "", "dd"), ("opt", "str", "s", "", None), ("pos", "int", "num"), ("pos", "bool", "flag")],
    [("opt", "rbool", "r", "rr", None), ("opt", "bool", "b", "", None), ("opt", "stop", "", "ver", "1"), ("opt", "int", "O", "", None)],
]
TOKENS = ["", "-", "--", "/", "a", "5", "-5", "true", "FALSE", "2147483648", "-h", "-s", "-s=x", "-sx", "-s:", "-s=", "/s", "--str=y", "-i", "-i=12",
          "-i5", "-b", "-b=no", "--bool=false", "--b", "-e", "--en", "--no-en", "--no-", "--no-x", "--no-no-x", "--no-zz", "--no-str", "--no-en=1",
          "-t", "-t=1", "-v", "--ver", "-r", "-r7", "-r=-2147483648", "--rep=007", "-I", "--inc=a=b", "-st", "-O2", "/O:3", "-q", "--zz", "7x"]


def tla(s):
    return "<<" + ", ".join(str(c) for c in s.encode("latin1")) + ">>"


def tokens_module():
    out = ["------------------------------- MODULE ArgTokens -------------------------------",
           "\\* Written by tools/mkargtokens.py: the declarations and tokens of ArgMC.", "EXTENDS Integers, Sequences"]
    ds = []
    for d in DECLS:
        rs = ['[k |-> "stop", s |-> <<104>>, l |-> %s, n |-> <<>>, def |-> <<<<48>>>>]' % tla("help")]
        for x in d:
            if x[0] == "pos":
                rs.append('[k |-> "%s", s |-> <<>>, l |-> <<>>, n |-> %s, def |-> <<>>]' % (x[1], tla(x[2])))
            else:
                df = x[4]
                if x[1] in ("en", "tog", "stop"):
                    df = "1" if df == "1" else "0"
                rs.append('[k |-> "%s", s |-> %s, l |-> %s, n |-> <<>>, def |-> %s]' % (x[1], tla(x[2]), tla(x[3]),
                          "<<>>" if df is None else "<<" + tla(df) + ">>"))
        ds.append("<<\n    " + ",\n    ".join(rs) + ">>")
    out.append("Decl == <<\n  " + ",\n  ".join(ds) + ">>")
    out.append("Tokens == <<\n  " + ",\n  ".join(tla(t) for t in TOKENS) + ">>")
    out.append("OptLike == {" + ", ".join(str(i + 1) for i, t in enumerate(TOKENS) if t[:1] in ("-", "/")) + "}")
    out.append("=" * 79)
    return "\n".join(out) + "\n"


def hx(s):
    b = s.encode("latin1") if isinstance(s, str) else s
    return b.hex() or "-"


MODES = "isep"


def modes(m):
    return "".join(c for c, on in zip(MODES, m) if on) or "none"


def decl_lines(d, m, helped=True, hlp="help", texts=None):
    L = ["parser %s %d %s" % (modes(m), helped, hx(hlp))]
    for k, x in enumerate(d):
        t = texts[k] if texts else "text"
        if x[0] == "pos":
            L.append("pos %s %s %s" % (x[1], hx(x[2]), hx(t)))
        else:
            L.append("opt %s %s %s %s %s" % (x[1], hx(x[2]), hx(x[3]), "none" if x[4] is None else hx(x[4]), hx(t)))
    return L


NAMES = ["a", "b", "c", "s", "n", "no", "no-a", "foo", "foo-bar", "f", "fo", "h", "help", "x", "out", "D", "num", "e", "o", "v"]
KINDS = ["str", "int", "bool", "en", "tog", "stop", "rstr", "rint", "rbool"]


def rand_decl(r):
    d = []
    for _ in range(r.randint(0, 6)):
        k = r.choice(KINDS)
        short = r.choice(NAMES[:8] + ["f", "x", "D", "v"]) if r.random() < .75 else ""
        lg = r.choice(NAMES) if r.random() < .7 or not short else ""
        dv = None
        if r.random() < .5:
            dv = {"str": "dflt", "int": "-3", "bool": "1", "en": "1", "tog": "1", "stop": None}.get(k)
            if k == "str" and r.random() < .2:
                dv = ""
        d.append(("opt", k, short, lg, dv))
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        d.append(("pos", r.choice(["str", "str", "int", "bool"]), r.choice(["file", "out", "count"])))
    r.shuffle(d)
    return d


VALUES = ["", "x", "0", "1", "-1", "007", "+4", " 9", "9 ", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999",
          "-0", "0x10", "1e3", "true", "false", "TRUE", "False", "tru", "a=b", "a:b", "-x", "--foo", "--", "/x", "-", "=", ":", "\xe9t\xe9", "4294967296", "4294967297",
          "18446744073709551617", "00000000000000000012", "-00000002147483648", "word" * 20]


def rand_arg(r, d):
    k = r.random()
    opts = [x for x in d if x[0] == "opt"]
    if k < .2 or not opts:
        return r.choice(VALUES)
    if k < .28:
        return r.choice(["-h", "--help", "--", "--no-zz", "-zz", "--zz=1", "--no-", "-:", "--=", "-=", "/h", "--no-help"])
    x = r.choice(opts)
    forms = (["-" + x[2]] * 2 if x[2] else []) + (["--" + x[3]] * 2 if x[3] else [])
    if x[2]:
        forms.append("/" + x[2])
    if x[3]:
        forms += ["--no-" + x[3], "-" + x[3], "/" + x[3]]
    f = r.choice(forms)
    k = r.random()
    if k < .5:
        return f
    v = r.choice(VALUES)
    return f + r.choice(["=", "=", ":", ""]) + v


def rand_args(r, d):
    pos = [x for x in d if x[0] == "pos"]
    a = []
    for _ in range(r.choice([0, 1, 2, 2, 3, 4, 6])):
        a.append(rand_arg(r, d))
        if r.random() < .3:
            a.append(r.choice(VALUES))
    # often complete what is required, so that parses succeed
    if r.random() < .5:
        for p in pos:
            a.insert(r.randint(0, len(a)), r.choice({"str": ["p", "q"], "int": ["5", "-0", "12"], "bool": ["true", "false"]}[p[1]]))
    return a


def ok_args(r, d):
    """Arguments that should mostly be acceptable."""
    a = []
    used = set()
    for _ in range(r.randint(0, 5)):
        opts = [(i, x) for i, x in enumerate(d) if x[0] == "opt" and i not in used]
        if not opts:
            break
        i, x = r.choice(opts)
        if x[1][0] != "r":
            used.add(i)
        if x[1] == "stop" and r.random() < .7:
            continue
        f = r.choice((["-" + x[2]] if x[2] else []) + (["--" + x[3]] if x[3] else []))
        v = {"str": ["x", "-y", "a=b", "--"], "rstr": ["x", "y", "/z"], "int": ["1", "-2147483648", "2147483647"], "rint": ["5", "-5"],
             "bool": ["true", "FALSE"], "rbool": ["true", "false"]}.get(x[1])
        if v is None:
            if x[1] == "en" and x[3] and r.random() < .4:
                f = "--no-" + x[3]
            a.append([f])
        elif x[1] == "bool" and r.random() < .4:
            a.append([f])
        elif r.random() < .5:
            a.append([f, r.choice(v)])
        else:
            a.append([f + "=" + r.choice(v)])
    r.shuffle(a)
    for p in [x for x in d if x[0] == "pos"]:
        if r.random() < .95:
            a.append([r.choice({"str": ["p", "q"], "int": ["5", "-0", "12"], "bool": ["true", "false"]}[p[1]])])
    if r.random() < .2:
        a.append(["more"])
    if r.random() < .2:
        a.append(["--"] + [r.choice(VALUES) for _ in range(r.randint(0, 3))])
    return [y for x in a for y in x]


def parse_line(op, r, a):
    return "%s %d %s" % (op, r.randrange(4), " ".join(hx(x) for x in a))


def large(r):
    """Declarations and argument vectors bigger than a byte can count: many options, values, positionals, long names and texts."""
    long_ = "n" * 257
    d = [("opt", "str", "", long_, None), ("opt", "rstr", "k" * 257, "", None), ("opt", "rint", "r", "rep", None), ("opt", "rstr", "", "n", None),
         ("opt", "str", "k", "", "dd"), ("opt", "en", "", "no-" + "e" * 300, "1")]
    d += [("opt", KINDS[i % 9] if KINDS[i % 9] != "stop" else "tog", "", "opt%d" % i, None) for i in range(70)]
    pos = [("pos", "str", "p%d" % i) for i in range(260)]
    few = d + pos[:2]
    vs = []
    vs.append(["a", "b"] + ["-r=%d" % i for i in range(300)])
    vs.append(["a", "b"] + [x for i in range(280) for x in ("--n", "v%d" % i)])
    vs.append(["a", "b"] + ["x%d" % i for i in range(300)])
    vs.append(["a", "b", "--"] + ["-x%d" % i for i in range(300)])
    vs.append(["--n=1", "a", "--" + long_ + "=2", "-k=3", "b", "-" + "k" * 257, "4"])
    vs.append(["--" + "n" * 256 + "=1", "a", "b"])
    vs.append(["-" + "k" * 258, "a", "b"])
    vs.append(["-k", "w" * 3000, "a" * 300, "b" * 700])
    vs.append(["--no-no-" + "e" * 300, "--n=" + "=" * 600, "a", "b"])
    vs.append(["a", "b"] + ["--opt%d" % i for i in range(70) if few[6 + i][1] in ("en", "tog")] + ["--opt%d=%d" % (i, i) for i in range(70) if few[6 + i][1] in ("int", "rint")])
    vs.append(["a", "b"] + ["-r"] * 30)
    yield few, vs
    many = [("opt", "int", "i", "", "3")] + pos
    yield many, [["v%d" % i for i in range(260)], ["v%d" % i for i in range(255)], ["v%d" % i for i in range(256)], ["v%d" % i for i in range(261)],
                 ["v%d" % i for i in range(258)] + ["-i=5", "y", "z"]]


def large_scripts(r, op, fewer=False):
    S = []
    for j, (dc, vs) in enumerate(large(r)):
        for q, mm in enumerate([(0, 0, 0, 0), (1, 0, 1, 1), (0, 1, 1, 1)][:2 if fewer else 3]):
            L = decl_lines(dc, mm)
            for a in vs:
                L.append(parse_line(op, r, a))
                if op != "fresh":
                    L += ["reset", parse_line(op, r, r.choice([["a", "b"], vs[0]])), "reset"]
            S.append(Script("big%d_%d" % (j, q), L))
    return S


def drivers(ctx, static=True):
    from vlib.core import REPO
    cpp = CPP + [os.path.join(REPO, "amtl/experimental/am-argparser.cpp")]
    v = [("args_asan", cpp, DBG), ("args_rel", cpp, REL)]
    if static:
        v.append(("args_static", cpp, DBG + ["-DSTATIC_OPTS"]))
    return ctx.build(v)


INVS = "INVARIANTS OneRole NoInvention Single ExtraRight ThroughAll Required Decided\nPROPERTY Final\n"


def enumerate_cases(ctx, n, allmodes):
    if open(os.path.join(SPEC, "ArgTokens.tla")).read() != tokens_module():
        raise CheckError("spec/ArgTokens.tla is not what tools/mkargtokens.py writes")
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n Modes <- %s\n%sCHECK_DEADLOCK FALSE\n" % (n, allmodes, INVS)
    return ctx.model("ArgMC", cfg + "CONSTRAINT PrintCase\n", edges=True)


def c15(ctx):
    d = drivers(ctx)
    r = ctx.rng
    cases = enumerate_cases(ctx, 2, "AllModes")
    if ctx.thorough:
        ctx.model("ArgMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = 3\n Modes <- FewModes\n%sCHECK_DEADLOCK FALSE\n" % INVS, timeout=3000)
    if not ctx.thorough:
        # all vectors of one argument, and a share of the longer ones
        one = [c for c in cases if len(c["a"]) < 2]
        two = [c for c in cases if len(c["a"]) == 2]
        r.shuffle(two)
        cases = one + two[:24000]
    groups = {}
    for c in cases:
        groups.setdefault((c["d"], tuple(c["m"])), []).append([TOKENS[i - 1] for i in c["a"]])
    S = []
    for (k, m), vs in groups.items():
        for j in range(0, len(vs), 250):
            S.append(Script("m%d_%s_%d" % (k, modes(m), j), decl_lines(DECLS[k - 1], m) + [parse_line("fresh", r, a) for a in vs[j:j + 250]], "model"))
    for i in range(ctx.pick(250, 4000)):
        dc = rand_decl(r)
        m = [r.random() < .5 for _ in range(4)]
        L = decl_lines(dc, m, r.random() < .8)
        for _ in range(40):
            L.append(parse_line("fresh", r, rand_args(r, dc) if r.random() < .6 else ok_args(r, dc)))
        S.append(Script("x%d" % i, L))
    st = {"args_static": d.pop("args_static")}
    S += large_scripts(r, "fresh")
    ctx.conform("ArgTrace", d, S)
    S = []
    SD = [("opt", "str", "S", "sstr", "sd"), ("opt", "int", "I", "", None), ("opt", "bool", "", "sbool", None), ("opt", "en", "", "senable", "1"),
          ("opt", "tog", "T", "stog", None), ("opt", "rstr", "R", "srep", None), ("pos", "str", "spos"),
          ("opt", "tog", "U", "utog", "1"), ("opt", "rint", "N", "", None), ("opt", "rbool", "", "srbool", None), ("opt", "en", "E", "e0", "0"),
          ("opt", "stop", "", "sstop", "1"), ("opt", "stop", "X", "", None)]
    for i in range(ctx.pick(40, 400)):
        dc = rand_decl(r)
        m = [r.random() < .5 for _ in range(4)]
        L = decl_lines(dc, m, r.random() < .8)
        for _ in range(40):
            L.append(parse_line("fresh", r, rand_args(r, dc + SD) if r.random() < .5 else ok_args(r, SD + dc)))
        S.append(Script("s%d" % i, L))
    ctx.conform("ArgTrace", st, S, label="(statically declared options)")
    ctx.notes.append("a model case is one argument vector; every vector of up to two tokens out of %d, over %d declarations and 16 modes" % (len(TOKENS), len(DECLS)))


def c16(ctx):
    d = drivers(ctx)
    r = ctx.rng
    ctx.model("ArgMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = 2\n Modes <- FewModes\n%sCHECK_DEADLOCK FALSE\n" % INVS)
    S = []
    # every ordered pair of outcomes: what came before, and what is parsed after the reset
    for i in range(ctx.pick(250, 3000)):
        dc = rand_decl(r) if i % 3 else DECLS[r.randrange(3)]
        m = [r.random() < .6 for _ in range(4)]
        L = decl_lines(dc, m, r.random() < .8)
        for _ in range(r.randint(4, 20)):
            g = rand_args if r.random() < .5 else ok_args
            L.append(parse_line("parse", r, g(r, dc)))
            if r.random() < .15:
                L.append(parse_line("parse", r, g(r, dc)))
            L.append("reset")
            if r.random() < .1:
                L.append("reset")
        S.append(Script("x%d" % i, L))
    # probes: a vector that sets everything, then a vector that shows what was left behind
    dc = DECLS[0]
    dirty = [["-s", "q", "-i=3", "-b", "-e", "-t", "-r=1", "-r=2", "f"], ["f", "g", "--", "x", "--"], ["-v"], ["-h"], ["-q"], ["--"], ["f", "--", "-h"], ["-s"],
             ["f", "-i=zz"], ["f", "g"], ["--no-en", "f"], []]
    probe = [[], ["f"], ["-s", "z", "f"], ["f", "g", "h"], ["f", "--", "k"], ["-t", "-e", "f"], ["-b", "f"], ["-r=9", "f"], ["--", "f"], ["f", "--", "--"]]
    for n, mm in enumerate([(0, 0, 0, 0), (1, 1, 1, 1), (0, 0, 1, 0), (0, 0, 0, 1)]):
        L = decl_lines(dc, mm)
        for a in dirty:
            for b in probe:
                L += [parse_line("parse", r, a), "reset", parse_line("parse", r, b), "reset"]
        S.append(Script("p%d" % n, L, "model"))
    S += large_scripts(r, "parse", True)
    ctx.conform("ArgTrace", d, S)


WORDS = ["the", "option", "sets", "a", "value", "x" * 30, "y" * 55, "for", "reading", "z" * 51, "w" * 50, "input", "to", "be", "used", "i", "it's", "100%", "50%s", "%n"]


def rand_help(r):
    n = r.choice([0, 1, 2, 3, 8, 15, 30])
    return (" " * r.choice([1, 1, 1, 2])).join(r.choice(WORDS) for _ in range(n))


def c17(ctx):
    d = drivers(ctx)
    r = ctx.rng
    ctx.model("ArgMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = 2\n Modes <- FewModes\n%sCHECK_DEADLOCK FALSE\n" % INVS)
    LONG = ["a", "bc", "longish-name", "very-long-option-name", "x" * 18, "y" * 20, "z" * 22, "q" * 24, "w" * 26, "v" * 40, "o-p-"]
    S = []
    for i in range(ctx.pick(350, 4000)):
        dc = []
        seen = set()
        for _ in range(r.randint(0, 6)):
            k = r.choice(KINDS)
            s = r.choice(["a", "b", "c", "xyz", "k", "m", "p", "s" * 26, "t" * 25, "u" * 27]) if r.random() < .7 else ""
            g = r.choice(LONG) if r.random() < .7 or not s else ""
            if (s and s in seen) or (g and ("--" + g) in seen):
                continue
            seen |= {s, "--" + g}
            dc.append(("opt", k, s, g, None if k in ("rstr", "rint", "rbool") else r.choice([None, "1"])))
        for j in range(r.choice([0, 1, 2])):
            dc.append(("pos", r.choice(["str", "int"]), ["FILE", "OUT" * r.choice([1, 9])][j]))
        r.shuffle(dc)
        m = [r.random() < .5 for _ in range(4)]
        L = decl_lines(dc, m, r.random() < .8, rand_help(r).replace("%", "") or "program", [rand_help(r) for _ in dc])
        for _ in range(r.choice([0, 0, 1, 2])):
            L.append("line %s %s" % (hx(r.choice(["@file", "LINE", "@" * 30])), hx(rand_help(r))))
        if r.random() < .2:
            L.append("uline " + hx("[options] stuff"))
        prog = r.choice(["prog", "./a.out", "/usr/bin/x"])
        for _ in range(r.randint(2, 6)):
            k = r.random()
            if k < .85:
                a = rand_args(r, dc) if r.random() < .5 else ok_args(r, dc)
                if r.random() < .2:
                    a = a + [r.choice(["-h", "--help"])]
                L.append(parse_line("parse", r, a))
            L.append("usage " + hx(prog))
            if r.random() < .8:
                L.append("reset")
            if r.random() < .3:
                L.append("usage " + hx(prog))
        S.append(Script("x%d" % i, L))
    # more options, longer names and longer help than a byte can count, a word at a time around the width of the columns
    for j, nw in enumerate([20, 60, 270, 700]):
        dc = [("opt", KINDS[i % 9], "", "opt%d" % i, None) for i in range(nw if nw < 300 else 3)]
        dc += [("opt", "str", "q" * nw, "", None), ("opt", "int", "", "w" * nw, None), ("opt", "str", "e" * nw, "d" * (nw + 256), None), ("pos", "str", "F" * nw)]
        texts = [" ".join("w%d" % r.randrange(100) for _ in range(nw if i in (1, len(dc) - 1, len(dc) - 2) else 2)) for i in range(len(dc))]
        for hlp in ("program", " ".join(["about"] * nw)):
            L = decl_lines(dc, (0, 0, 0, 0), True, hlp, texts)
            L.append("line %s %s" % (hx("@" * nw), hx(" ".join("l%d" % i for i in range(nw)))))
            L += ["usage " + hx("p" * nw), parse_line("parse", r, ["-zz" + "z" * nw]), "usage " + hx("prog"), "reset", "usage " + hx("prog")]
            S.append(Script("big%d%s" % (j, hlp[:1]), L))
    for n in range(1, 60):
        dc = [("opt", "str", "s", "", None), ("opt", "tog", "", "t", None), ("pos", "str", "F")]
        L = decl_lines(dc, (0, 0, 0, 0), True, "program", ["x" * n + " b", "a " + "y" * n + " c", "a b " + "z" * n])
        S.append(Script("col%d" % n, L + ["usage " + hx("prog")]))
        dc = [("opt", "tog", "s" * n, "", None), ("opt", "tog", "", "t" * n, None), ("opt", "tog", "u", "v" * n, None), ("opt", "str", "x" * n, "y", None), ("pos", "str", "F" * n)]
        S.append(Script("wid%d" % n, decl_lines(dc, (0, 0, 0, 0), True, "program", ["one two"] * 5) + ["usage " + hx("prog")]))
    ctx.conform("ArgTrace", d, S)
