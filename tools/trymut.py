#!/usr/bin/env python3
"""trymut.py ID FILE OLD NEW [COUNT]: run a check against a scratch copy of /repo with OLD replaced by NEW."""
import os, shutil, subprocess, sys
i, f, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else -1
d = "/tmp/trymut-%d" % os.getpid()
shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "obj*", "build*"))
try:
    p = os.path.join(d, f)
    s = open(p).read()
    assert old in s, "pattern not found"
    open(p, "w").write(s.replace(old, new, n))
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "run.py"), i],
                       env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode().strip().splitlines()
    print("rc", r.returncode)
    for l in out[-2:]:
        print("  ", l[:400])
finally:
    shutil.rmtree(d)
