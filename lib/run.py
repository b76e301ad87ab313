#!/usr/bin/env python3
"""Driver: builds the exporter, exports the translation units a property needs from the
current source of /repo, runs the property's rules, writes evidence, prints the verdict."""
import sys, os, json, time, hashlib, subprocess, importlib, traceback, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get("HX_REPO", "/repo"); ROOT = REPO + "/include/HXLibs"
sys.path[:0] = [HERE, VERIF + "/props"]
sys.setrecursionlimit(20000)
CACHE = os.environ.get("HX_CACHE", VERIF + "/.cache")
FLAGS = ["-std=c++20", "-O1", "-DNDEBUG", "-DHXLIBS_STATIC_ANALYSIS", "-DHXLIBS_ENABLE_DB_SQLITE3", "-DHXLIBS_ENABLE_SSL=1",
         f"-I{REPO}/include", f"-I{REPO}/lib/liburing/include", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w"]

class Broken(Exception): pass

def sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for r, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(r, f); h.update(q.encode()); h.update(open(q, "rb").read())
        else: h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def tool():
    src = VERIF + "/tools/hxdump.cpp"
    out = f"{CACHE}/hxdump-{sha(src)}"
    if os.path.exists(out): return out
    os.makedirs(CACHE, exist_ok=True)
    t = tempfile.mkdtemp(dir=CACHE)
    try:
        subprocess.run(["clang++-18", "-O0", "-c", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", src, "-o", t + "/h.o"], check=True)
        subprocess.run(["clang++-18", t + "/h.o", "-o", t + "/hxdump", "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-l:libLLVM-18.so"], check=True)
        os.rename(t + "/hxdump", out)
    except subprocess.CalledProcessError as e: raise Broken(f"building the exporter failed: {e}")
    finally: shutil.rmtree(t, ignore_errors=True)
    return out

def dump(names):
    exe = tool(); rk = sha(ROOT); res = {}; procs = []
    for n in names:
        src = f"{VERIF}/harness/{n}.cpp"
        out = f"{CACHE}/{n}-{rk}-{sha(src, VERIF + '/tools/hxdump.cpp')}-{hashlib.sha256((' '.join(FLAGS)).encode()).hexdigest()[:6]}.json"
        res[n] = out
        if not os.path.exists(out):
            tmp = out + f".{os.getpid()}.tmp"
            procs.append((n, out, tmp, subprocess.Popen([exe, ROOT, tmp, src, "--"] + FLAGS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for n, out, tmp, p in procs:
        log, _ = p.communicate()
        if p.returncode != 0 or not os.path.exists(tmp): raise Broken(f"exporting {n} failed:\n{log[-3000:]}")
        d = json.load(open(tmp))
        if d["errors"]:
            os.unlink(tmp)
            errs = "\n".join(l for l in log.splitlines() if "error:" in l)
            raise Broken(f"{n}: {d['errors']} front-end errors\n{errs[:3000]}")
        os.rename(tmp, out)
    return res

class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.root = ROOT; self.models = {}; self.viol = {}; self.counts = {}; self.samples = []; self.rules = []; self.fns = set(); self.notes = []
        self.paths = {}
    def load(self, names):
        from model import Model
        for n, p in dump([n for n in names if n not in self.models]).items():
            self.models[n] = Model(p, n)
    def model(self, n): return self.models[n]
    # --- reporting
    def violation(self, key, msg, fn=None, line=None, path=()):
        if key in self.viol: return
        where = ""
        if fn is not None: where = f"{getattr(fn, 'rel', '?')}:{line or getattr(fn, 'line', 0)} in {getattr(fn, 'n', fn)}"
        self.viol[key] = dict(key=key, msg=msg, where=where, path=list(path))
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def rule(self, txt): self.rules.append(txt)
    def sample(self, s):
        if len(self.samples) < 25: self.samples.append(s)
    def require(self, cond, msg):
        if not cond: raise Broken(msg)
    def at_least(self, k, n):
        if self.counts.get(k, 0) < n and not self.viol: raise Broken(f"anchor count '{k}' is {self.counts.get(k, 0)}, at least {n} expected: the rule no longer sees the code it is about")
    def analysed(self, *fns):
        for f in fns: self.fns.add(f if isinstance(f, str) else f.n)

def known(prop):
    out = {}
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                a = l[len("finding: "):].split(" ", 2)
                if a[0] == f"property={prop}": out[a[1].split("=", 1)[1]] = a[2]
    return out

def main():
    if sys.argv[1] == "--setup":
        try: tool()
        except Broken as e: print(e); sys.exit(2)
        print("exporter ready"); sys.exit(0)
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(prop, tier)
    try:
        mod = importlib.import_module(prop)
        ctx.load(mod.TUS)
        mod.check(ctx)
    except Broken as e:
        print(f"ANALYSIS-BROKEN property={prop}: {e}"); sys.exit(2)
    except Exception:
        traceback.print_exc(); print(f"ANALYSIS-BROKEN property={prop}: internal error"); sys.exit(3)
    kn = known(prop); new = []
    for k, v in sorted(ctx.viol.items()):
        if k in kn: print(f"KNOWN-FINDING: property={prop} {k}: {kn[k]}")
        else: new.append(v)
    stale = [k for k in kn if k not in ctx.viol]
    EV = os.environ.get("HX_EVID", VERIF + "/evidence"); os.makedirs(EV, exist_ok=True)
    ob = sum(ctx.counts.values())
    ev = dict(property=prop, tier=tier, seed=seed, level="other",
              coverage=dict(explanation=getattr(mod, "__doc__", "") or "static analysis", rules=ctx.rules, obligations=ob, discharged=ob - len(ctx.viol),
                            counts=ctx.counts, functions_analysed=len(ctx.fns), functions=sorted(ctx.fns)[:200], translation_units=list(ctx.models),
                            source_digest=sha(ROOT), samples=ctx.samples, known_findings=sorted(k for k in ctx.viol if k in kn), notes=ctx.notes),
              assumptions=getattr(mod, "ASSUMES", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(f"{EV}/{prop}.json", "w"), indent=1, default=str)
    for k in stale: print(f"note: listed finding no longer occurs: {k}")
    if new:
        rp = f"{EV}/{prop}.violation.txt"
        with open(rp, "w") as f:
            for v in new:
                f.write(f"[{v['key']}] {v['msg']}\n  at {v['where']}\n")
                for p in v["path"]: f.write(f"    {p}\n")
        for v in new[:12]:
            print(f"  [{v['key']}] {v['msg']}\n    at {v['where']}")
            for p in v["path"][-12:]: print(f"      {p}")
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    print(f"OK property={prop} {ctx.counts} ({time.time()-t0:.1f}s)")
    sys.exit(0)
if __name__ == "__main__": main()
