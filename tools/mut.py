#!/usr/bin/env python3
"""mut.py PROP[,PROP] FILE OLD NEW [FILE OLD NEW ...]: run checks on a scratch copy of the headers with
the given textual edits (development aid; the checks never use it)."""
import sys, os, shutil, subprocess, hashlib
W = "/tmp/mutw-%d" % os.getpid()
shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
shutil.copytree("/repo/include", W + "/include"); os.makedirs(W + "/lib"); os.symlink("/repo/lib/liburing", W + "/lib/liburing")
a = sys.argv[2:]
if a and a[0].endswith(".diff"):
    for d in a: subprocess.run(["git", "apply", "--include=include/*", os.path.abspath(d)], cwd=W, check=True)
else:
    for f, o, n in zip(a[::3], a[1::3], a[2::3]):
        p = f"{W}/include/HXLibs/{f}"; s = open(p).read()
        if s.count(o) < 1: print("NO MATCH", f, o); sys.exit(9)
        if s.count(o) > 1: print("note:", s.count(o), "matches, first replaced")
        open(p, "w").write(s.replace(o, n, 1))
K = W + "-cache"; os.makedirs(K, exist_ok=True)
for x in os.listdir("/verif/.cache"):
    if x.startswith("hxdump-"): os.symlink("/verif/.cache/" + x, K + "/" + x)
rc = 0
for p in sys.argv[1].split(","):
    r = subprocess.run(["/verif/check.sh", p], env=dict(os.environ, HX_REPO=W, HX_CACHE=K, HX_EVID=K + "/ev"), capture_output=True, text=True)
    print(r.stdout[-1800:], r.stderr[-800:]); rc = rc or r.returncode
shutil.rmtree(W, ignore_errors=True)
shutil.rmtree(K, ignore_errors=True)
sys.exit(rc)
