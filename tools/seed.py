#!/usr/bin/env python3
"""seed.py ID PROP NEEDS BREAKS DEMO.cpp FILE OLD NEW [...]: writes seeded/ID (patch, demo, meta) and confirms, in scratch copies,
that the demo passes without and fails with the patch and whether the property's check reports it (development aid)."""
import sys, os, shutil, subprocess, json
ID, PROP, NEEDS, BREAKS, DEMO = sys.argv[1:6]; a = sys.argv[6:]
V = "/verif"; D = f"{V}/seeded/{ID}"; W = f"/tmp/seedw-{os.getpid()}"
os.makedirs(D, exist_ok=True)
os.makedirs(W + "/a"); shutil.copytree("/repo/include", W + "/a/include"); shutil.copytree("/repo/include", W + "/b/include")
for f, o, n in zip(a[::3], a[1::3], a[2::3]):
    p = f"{W}/b/include/HXLibs/{f}"; s = open(p).read()
    if s.count(o) != 1: print("MATCHES", s.count(o), f, o); shutil.rmtree(W); sys.exit(9)
    open(p, "w").write(s.replace(o, n))
d = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=W, capture_output=True, text=True).stdout
d = d.replace("diff --git a/include", "diff --git a/include").replace("--- a/", "--- a/").replace("+++ b/", "+++ b/")
open(D + "/patch.diff", "w").write(d)
if DEMO != "-": shutil.copy(DEMO, D + "/demo.cpp")
open(D + "/demo.sh", "w").write('''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
clang++-20 -std=c++20 -O1 -w -DNDEBUG -DHXLIBS_ENABLE_SSL=1 -DHXLIBS_ENABLE_DB_SQLITE3 -I"$PWD/include" -I"$PWD/lib/liburing/include" "$d/demo.cpp" -o "$t/demo" -luring -lssl -lcrypto -lsqlite3 -lpthread || exit 4
cd "$t" && timeout 60 ./demo
''')
os.chmod(D + "/demo.sh", 0o755)
for x in "ab":
    os.makedirs(f"{W}/{x}/lib", exist_ok=True); os.symlink("/repo/lib/liburing", f"{W}/{x}/lib/liburing")
r0 = subprocess.run([D + "/demo.sh"], cwd=W + "/a", capture_output=True, text=True)
r1 = subprocess.run([D + "/demo.sh"], cwd=W + "/b", capture_output=True, text=True)
print("demo clean", r0.returncode, r0.stdout[-300:], r0.stderr[-600:]); print("demo patched", r1.returncode, r1.stdout[-300:], r1.stderr[-600:])
r = subprocess.run([V + "/tools/mut.py", PROP, D + "/patch.diff"], capture_output=True, text=True)
print(r.stdout[-900:], r.stderr[-500:])
shutil.rmtree(W)
json.dump(dict(property=PROP, needs=NEEDS, what_it_breaks=BREAKS, caught=f"caught by {PROP}" if r.returncode == 1 else "missed"), open(D + "/meta.json", "w"), indent=1, ensure_ascii=False)
print("OK" if r0.returncode == 0 and r1.returncode not in (0, 4) else "BAD DEMO", "caught" if r.returncode == 1 else "MISSED")
