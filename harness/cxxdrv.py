#!/usr/bin/env python3
"""Driver for C33: programs the compilers are asked to build from the public headers. Its "run" is the compiler's."""
import ctypes
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from uses import SCOPE, USES

REPO = os.environ.get("VERIF_REPO", "/repo")
BASE = ["-I" + REPO, "-I" + os.path.join(REPO, "amtl"), "-D_LINUX", "-DPOSIX", "-w"]
WAYS = {"plain": [], "noeh": ["-fno-exceptions", "-fno-rtti"], "stdcxx": ["-DKE_ALLOW_STD_CXX"], "single": ["-DKE_SINGLE_THREADED"],
        "release": ["-DNDEBUG", "-O2"]}
KE = re.compile(r"^#define (KE_\w+)", re.M)


def cc(args, src=None, cwd=None):
    return subprocess.run(args, input=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, cwd=cwd)


def platform(args):
    """The KE_ names am-platform.h defines for a target of clang's, or for exactly the given predefined names."""
    t = args[0]
    if t.startswith("D:"):
        cmd = ["g++", "-undef"] + ["-D" + d for d in t[2:].split(",") if d]
    elif t == "gcc":
        cmd = ["g++"]
    else:
        cmd = ["clang++", "--target=" + t]
    p = cc(cmd + ["-std=c++17", "-nostdinc", "-x", "c++", "-E", "-dM", "-I" + REPO, "-"], "#include <amtl/am-platform.h>\n")
    pre = cc(cmd + ["-std=c++17", "-x", "c++", "-E", "-dM", "-"], "")
    names = {m for m in re.findall(r"^#define (\w+)", pre.stdout, re.M)}
    return {"op": "platform", "target": t, "ok": p.returncode == 0, "defs": sorted(set(KE.findall(p.stdout))),
            "pre": sorted(names & set("__clang__ __GNUC__ _MSC_VER".split()))}


def support(args):
    """Does am-cxx.h accept this compiler?"""
    who, maj, mnr = args[0], args[1], args[2]
    d = {"gcc": ["__GNUC__=" + maj, "__GNUC_MINOR__=" + mnr],
         "clang": ["__clang__=1", "__clang_major__=" + maj, "__clang_minor__=" + mnr, "__GNUC__=4", "__GNUC_MINOR__=2"],
         "msvc": ["_MSC_VER=" + maj], "other": ["__OTHER__=" + maj]}[who]
    p = cc(["g++", "-undef", "-std=c++17", "-nostdinc", "-x", "c++", "-E", "-I" + REPO] + ["-D" + x for x in d] + ["-"],
           "#include <amtl/am-cxx.h>\n")
    return {"op": "support", "who": who, "major": int(maj), "minor": int(mnr), "ok": p.returncode == 0}


def header(args):
    """A unit that includes these headers in this order and nothing before them."""
    comp, std, heads = args[0], args[1], args[2:]
    src = "".join("#include <%s>\n" % h for h in heads) + "int main() { return 0; }\n"
    p = cc([comp, "-std=" + std, "-fsyntax-only", "-x", "c++"] + BASE + ["-"], src)
    return {"op": "header", "cc": comp, "std": std, "heads": heads, "ok": p.returncode == 0, "said": p.stderr[:600]}


def use(args):
    """A program that includes one header and nothing else, and uses what is in it."""
    comp, way, h = args
    with tempfile.TemporaryDirectory() as d:
        p = cc([comp, "-std=c++17", "-pthread"] + WAYS[way] + BASE + ["-x", "c++", "-", "-o", d + "/x", "-ldl"],
               "#include <%s>\n%sint main() { %s }\n" % (h.split("#")[0], SCOPE.get(h, ""), USES[h]))
        ran = p.returncode == 0 and cc([d + "/x"]).returncode == 0
    return {"op": "use", "cc": comp, "way": way, "heads": [h], "ok": ran, "said": p.stderr[:600]}


def link(args):
    """Two units that include these headers (the second in reverse) make one program, which runs."""
    comp, std, heads = args[0], args[1], args[2:]
    with tempfile.TemporaryDirectory() as d:
        for n, hs in (("a", heads), ("b", heads[::-1])):
            with open(d + "/%s.cpp" % n, "w") as f:
                f.write("".join("#include <%s>\n" % h for h in hs) + "int %s() { return 5; }\n" % n)
        with open(d + "/m.cpp", "w") as f:
            f.write("int a(); int b(); int main() { return a() + b() - 10; }\n")
        p = cc([comp, "-std=" + std, "-pthread"] + BASE + ["a.cpp", "b.cpp", "m.cpp", "-o", "x"], cwd=d)
        ran = p.returncode == 0 and cc([d + "/x"]).returncode == 0
    return {"op": "link", "cc": comp, "std": std, "heads": heads, "ok": ran, "said": p.stderr[:600]}


def dso(args):
    """What a library built with this default visibility shows."""
    comp, vis = args
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/l.cpp", "w") as f:
            f.write("""#include <amtl/am-linking.h>
extern "C" {
KE_DLL_EXPORT int shown() { return 11; }
KE_DLL_PRIVATE int hidden() { return 22; }
int plain() { return 33; }
KE_DLL_EXPORT int through() { return hidden() + plain(); }
KE_DLL_EXPORT int number = 44;
KE_DLL_PRIVATE int secret = 55;
}
""")
        with open(d + "/m.cpp", "w") as f:
            f.write('#include <amtl/am-linking.h>\nextern "C" KE_DLL_IMPORT int through();\nint main() { return through() == 55 ? 0 : 1; }\n')
        p = cc([comp, "-std=c++17", "-shared", "-fPIC", "-fvisibility=" + vis] + BASE + ["l.cpp", "-o", "libl.so"], cwd=d)
        q = cc([comp, "-std=c++17"] + BASE + ["m.cpp", "./libl.so", "-Wl,-rpath," + d, "-o", "m"], cwd=d)
        seen = []
        ok = p.returncode == 0 and q.returncode == 0 and cc([d + "/m"], cwd=d).returncode == 0
        if p.returncode == 0:
            lib = ctypes.CDLL(d + "/libl.so")
            for n in ("shown", "hidden", "plain", "through", "number", "secret"):
                try:
                    getattr(lib, n)
                    seen.append(n)
                except AttributeError:
                    pass
    return {"op": "dso", "cc": comp, "vis": vis, "ok": ok, "seen": seen}


def strong(args):
    """A program that has its own function of that name keeps it, whichever comes first."""
    comp, name, order = args
    t = "float" if name[2:-7].endswith("f") else "double"
    two = "pow" in name or "atan2" in name
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/o.cpp", "w") as f:
            f.write('extern "C" %s %s(%s) { return 42; }\n' % (t, name, ", ".join([t] * (2 if two else 1))))
        with open(d + "/m.cpp", "w") as f:
            f.write('extern "C" %s %s(%s);\nint main() { return %s(%s) == 42 ? 0 : 1; }\n'
                    % (t, name, ", ".join([t] * (2 if two else 1)), name, ", ".join([".5"] * (2 if two else 1))))
        s = ["o.cpp", os.path.join(REPO, "compat/stdcxx.cpp")]
        p = cc([comp, "-std=c++17"] + BASE + (s if order == "0" else s[::-1]) + ["m.cpp", "-o", "m", "-lm"], cwd=d)
        ok = p.returncode == 0 and cc([d + "/m"], cwd=d).returncode == 0
    return {"op": "strong", "name": name, "ok": ok}


OPS = {f.__name__: f for f in (platform, support, header, use, link, dso, strong)}


def main():
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as out:
        for line in f:
            w = line.split()
            if not w:
                continue
            if w[0] == "T":
                out.write("#T %s\n" % w[1])
            elif w[0] in OPS:
                out.write(json.dumps(OPS[w[0]](w[1:])) + "\n")
            else:
                sys.exit(3)
            out.flush()


main()
