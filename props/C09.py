"""Lock discipline of the classes shared between threads."""
from rules import *
import re
META = dict(title="State shared between threads is accessed under its lock and waiters are woken",
    statement="State of the thread pool, its queues, futures and the thread loop that one thread waits for on a condition variable changes, whenever the change can end the wait, only while the mutex of that wait is held, and is followed by a notification that reaches every thread it concerns, so no wake-up is lost. Every access to the contents of the thread-safe queue happens under its mutex (exclusively when it modifies them), taking an element from it is one critical section, and a waiter rechecks its condition under the lock after every wake-up. No task, coroutine or user function is run, and no lock is taken again, while one of these mutexes is held.",
    over=["schedules"], q="every interleaving of producers, workers, waiters, the manager thread and shutdown",
    why="A missing lock or notification shows only when a thread is preempted between testing a condition and blocking on it; tests almost never hit that window.",
    files=["container/SafeQueue.hpp", "container/ThreadPool.hpp", "container/FutureResult.hpp", "coroutine/loop/ThreadLoop.hpp"],
    mech=[("thread-safe queue", "container/SafeQueue.hpp"), ("task queue, stop and shrink signals", "container/ThreadPool.hpp"), ("future readiness", "container/FutureResult.hpp ready/wait"), ("pending thread tasks", "coroutine/loop/ThreadLoop.hpp")],
    technique="lock-set analysis (path-sensitive abstract interpretation) with guarded-field inference and a must-notify rule derived from wait predicates",
    note="Every function and thread closure of the classes in container/ and coroutine/ that contain a mutex.",
    design="""Classes with a mutex field are found by type. Lock objects are tracked per path (construction, unlock/lock, destruction) as (mutex path, shared/exclusive).
For each condition-variable wait, the fields its predicate (or the condition of the enclosing loop) reads and the direction that makes it true (set/cleared, up/down,
container growth) are computed from the syntax tree. Every write to such a field that may go in that direction must hold the mutex the wait uses, and on every path to
the end of the writing function a notify on that condition variable follows; a constant latch needs notify_all. Independently, every non-atomic field that some method writes under the
class's own mutex is taken as guarded: all accesses outside constructors need the mutex of the same object, exclusive for writes (shared locks only read). front/pop of
one queue lie in one critical section. Waiting without a rechecked condition, taking a held mutex again, and calling a task, coroutine handle or user callable with a
mutex held are violations.""")
TUS = ["coro"]
ASSUMES = ["std::mutex, std::shared_mutex, std::condition_variable and std::atomic are correct", "the thread pool is started, stopped and destroyed by one thread"]
LOCKS = {"std::unique_lock": "x", "std::lock_guard": "x", "std::scoped_lock": "x", "std::shared_lock": "s"}
MUT = {"emplace", "push", "pop", "frontAndPop", "clear", "insert", "erase", "emplace_back", "emplace_front", "push_back", "push_front", "pop_back", "pop_front", "swap", "resize", "assign", "reset", "try_emplace", "operator=", "extract", "merge"}
UP = {"emplace", "push", "insert", "emplace_back", "emplace_front", "push_back", "push_front", "try_emplace"}
DOWN = {"pop", "frontAndPop", "clear", "erase", "pop_back", "pop_front"}
def notargs(t):
    t = t.replace("const ", "").rstrip(" &*"); o = []; d = 0
    for ch in t:
        if ch == "<": d += 1
        elif ch == ">": d -= 1
        elif d == 0: o.append(ch)
    return "".join(o)

class L(Calls):
    maxlen = 40; local = True
    def setup(s, C, sink):
        s.C = C; s.sink = sink; s.seen_inl = set(); s.lib_throws = lambda n, x: False; s.h_call = s._call; s.h_assign = s._asg; s.h_ret = None
    def force_inline(s, fn):
        if fn.clsn in s.C or any(fn.clsn.startswith(c + "::") for c in s.C):
            return fn.file == s.entry.file and fn.clsn.split("::")[:3] == s.entry.clsn.split("::")[:3] if not fn.lam else fn.file == s.entry.file
        return fn.file == s.entry.file and (fn.lam or not fn.cls)
    def inline(s, fn, *a):
        s.seen_inl.add(fn.id); return super().inline(fn, *a)
    def held(s, st): return {v[1]: v[2] for k, v in st.env.items() if isinstance(v, tuple) and v[:1] == ("lock",)}
    def field(s, p):
        """(class, object path, field) of a path that goes through a field of a watched class"""
        return None
    def ev_MemberExpr(s, n, st, fr):
        out = super().ev_MemberExpr(n, st, fr)
        b = n.kid(0)
        if b is not None and n.mname:
            c = notargs(b.t)
            if c in s.C:
                for s1, l in out:
                    if isinstance(l, Loc): s.sink.access(s, fr, n, c, l.p, s1)
        return out
    def on_ctor(s, st, fr, n, name, p, args):
        c = name[:-len("::(ctor)")] if name.endswith("::(ctor)") else name
        if c in LOCKS and args:
            locs = [a for a in args if isinstance(a, Loc)]
            defer = any("defer_lock" in repr(a) or "try_to_lock" in repr(a) for a in args[1:])
            if locs:
                if not defer: s.sink.acquire(s, fr, n, locs[0].p, st)
                return [st.write(p, ("unlk" if defer else "lock", locs[0].p, LOCKS[c]))]
        return super().on_ctor(st, fr, n, name, p, args)
    def on_dtor(s, st, fr, path, ty, var):
        v = st.env.get(path)
        if isinstance(v, tuple) and v[:1] in (("lock",), ("unlk",)):
            x = s.region(st, v).cp(); x.env.pop(path, None); return [x]
        return super().on_dtor(st, fr, path, ty, var)
    def region(s, st, v):
        """a critical section ends: remember it between front and pop"""
        return st.with_mon(tuple(x if x[0] != "front" else ("front", x[1], True) for x in st.mon)) if any(x[0] == "front" for x in st.mon) else st
    def emit1(s, st, fr, n, ev):
        x = st.with_mon(tuple(e for e in st.mon if e != ev) + (ev,))
        return x.note(f"{fr.fn.rel}:{n.l if n is not None else fr.fn.line} {show_ev(ev)}")
    def _call(s, name, n, st, obj, args, eng, fr):
        sh = call_short(n) if n.name else ""
        p = obj.p if isinstance(obj, Loc) else None
        H = s.held(st)
        if p is not None and sh in ("lock", "unlock") and isinstance(st.env.get(p), tuple) and st.env[p][:1] in (("lock",), ("unlk",)):
            v = st.env[p]
            if sh == "unlock": return [(s.region(st, v).write(p, ("unlk",) + v[1:]), ("void",))]
            s.sink.acquire(s, fr, n, v[1], st); return [(st.write(p, ("lock",) + v[1:]), ("void",))]
        if p is not None and "mutex::" in name and sh in ("lock", "unlock", "lock_shared", "unlock_shared"):
            k = p + ("held",)
            if sh.startswith("unlock"): return [(s.region(st, None).write(k, C(0)), ("void",))]
            s.sink.acquire(s, fr, n, p, st); return [(st.write(k, ("lock", p, "s" if "shared" in sh else "x")), ("void",))]
        if "condition_variable" in name and sh in ("wait", "wait_for", "wait_until"):
            lk = st.env.get(args[0].p) if isinstance(args[0], Loc) else None
            s.sink.wait(s, fr, n, p, lk, st, len(args) > (1 if sh == "wait" else 2))
            x = st
            for c, flds in s.sink.fields_of_cv(p).items():
                x = x.havoc(c, ("wait", n.id))
            x = s.region(x, None)
            if len(args) > (1 if sh == "wait" else 2):
                r = []
                for s1, v in s.call_lambda(s.val(x, args[-1]), x, fr, n, []):
                    t = T_truth(s.val(s1, v))
                    y = s1.assume(t)
                    if y is not None: r.append((y, C(1)))
                    if sh != "wait":
                        y = s1.assume(T_not(t))
                        if y is not None: r.append((y, C(0)))
                return r
            return [(x, ("sym", ("cv", n.id)))]
        if "condition_variable" in name and sh in ("notify_one", "notify_all"):
            return [(s.emit1(st, fr, n, ("notify", p, sh)), ("void",))]
        if p is not None and sh in ("front", "back", "top") and name.startswith("std::"):
            x = st.with_mon(tuple(e for e in st.mon if e[0] != "front") + (("front", p, False),))
            r, v = s.fresh(x, fr, n); return [(r, v)]
        if p is not None and sh in ("pop", "pop_front", "pop_back") and name.startswith("std::"):
            for e in st.mon:
                if e[0] == "front" and e[1] == p and e[2]: s.sink.v("split-take", "an element is read and removed in two separate critical sections: another thread can take it in between", fr, st)
            st = st.with_mon(tuple(e for e in st.mon if e[0] != "front"))
        if p is not None and (sh in MUT or sh in ("store", "fetch_add", "fetch_sub", "exchange", "compare_exchange_weak", "compare_exchange_strong", "operator++", "operator--", "operator+=", "operator-=")):
            a = [s.val(st, x) for x in args]
            d = "up" if sh in UP or sh in ("fetch_add", "operator++", "operator+=") else "down" if sh in DOWN or sh in ("fetch_sub", "operator--", "operator-=") else None
            const = None
            if sh in ("store", "operator=", "exchange") and a:
                const = a[0][1] if a[0][0] == "c" else None
            if sh.startswith("compare_exchange") and len(args) > 1:
                e0 = st.read(args[0].p) if isinstance(args[0], Loc) else a[0]; df = ladd(a[1], e0, -1)
                if is_c(df): d = "up" if df[1] > 0 else "down"
            x = s.sink.write(s, fr, n, p, st, d, const)
            if sh in ("pop",) and name.startswith("std::"): r, v = s.fresh(x, fr, n); return [(r.havoc(p, ("mut", fr.id, n.id)), v)]
            if "atomic" in name:
                if sh in ("store", "operator=") and a: return [(x.write(p, a[0]), a[0])]
                x = x.havoc(p, ("atm", fr.id, n.id)); r, v = s.fresh(x, fr, n)
                return [(r, v)]
            if n.get("fn") in s.m.fns and s.force_inline(s.m.fns[n.get("fn")]): s._skip = n; return s.apply(n, x, fr, name, obj, args, call_args(n))
            r, v = s.fresh(x, fr, n); return [(r.havoc(p, ("mut", fr.id, n.id)), v)]
        runs = sh in ("resume", "destroy") and "coroutine_handle" in name or (sh == "operator()" and obj is not None and not (n.get("fn") in s.m.fns)) or name in ("std::invoke", "std::apply") or (sh == "call" and n.get("virt"))
        if runs or (n.get("fn") in s.m.fns and s.m.fns[n.get("fn")].raw.get("virt")):
            if H and "hash" not in name and "less" not in name: s.sink.v("callback-locked", f"{name or 'a callable'} is run while the mutex {show_path(list(H)[0])} is held", fr, st, n)
        return None
    def _asg(s, p, t, st, n): return None
    def on_assign(s, st, fr, n, p, t):
        op = n.op or ""
        d = "up" if op in ("pre++", "post++", "++", "+=") else "down" if op in ("pre--", "post--", "--", "-=") else None
        x = s.sink.write(s, fr, n, p, st, d, t[1] if t[0] == "c" and op not in ("++", "--") and d is None else None)
        return [x]

def strip_t(p): return p

class Sink:
    def __init__(s, ctx, m, C): s.ctx = ctx; s.m = m; s.C = C; s.acc = {}; s.msgs = []; s.waits = {}; s.wants = {}
    def v(s, key, msg, fr, st, n=None, f=None): s.msgs.append((f"{key}:{fr.fn.clsn.split('::')[-1] if fr.fn.clsn else ''}::{fr.fn.short}", msg, fr.fn, n.l if n is not None else fr.fn.line, list(steps(st) or [])))
    def cls_field(s, p):
        return p[-1]
    def inctor(s, fr, p):
        f = fr
        while f:
            if f.fn.ctor and f.this == p[:-1]: return True
            f = f.parent
        return False
    def access(s, e, fr, n, c, p, st):
        if s.inctor(fr, p): return
        fld = p[-1]
        s.acc.setdefault((c, fld), []).append((fr, n, p, e.held(st), False, st))
    def acquire(s, e, fr, n, mp, st):
        if mp in e.held(st): s.v("relock", f"{show_path(mp)} is taken while already held: the thread blocks itself", fr, st, n)
        s.ctx.count("lock acquisitions")
    def fields_of_cv(s, cvp): return {cvp[:-1] + (f,): 1 for (cls, f) in s.wants if cvp is not None}
    def wait(s, e, fr, n, cvp, lk, st, pred):
        s.ctx.count("condition waits")
        if not (isinstance(lk, tuple) and lk[:1] == ("lock",)): s.v("wait-unlocked", "a wait on a condition variable without holding its lock", fr, st, n)
        elif lk[1][:-1] != cvp[:-1]: s.v("wait-mutex", "a wait uses the mutex of another object", fr, st, n)
        else: s.waits.setdefault((cvp[-1]), set()).add(lk[1][-1])
        if not pred and not in_loop(n): s.v("wait-once", "a wait whose condition is not rechecked after a (possibly spurious) wake-up", fr, st, n)
    def write(s, e, fr, n, p, st, d, const):
        key = [k for k in s.wants if p and p[-1] == k[1]]
        for k, l in [(k, l) for k, l in s.acc.items() if k[1] == p[-1]]:
            for i in range(len(l) - 1, -1, -1):
                if l[i][1].fn is n.fn and l[i][2] == p and l[i][1].l <= n.l + 3: l[i] = l[i][:4] + (True, l[i][5]); break
        if not key or s.inctor(fr, p): return st
        k = key[0]; want, cv, mx = s.wants[k]
        if const is not None: can = ("true" in want and const != 0) or ("false" in want and const == 0) or bool({"up", "down"} & want)
        elif d: can = d in want or bool({"true", "false"} & want)
        else: can = True
        wide = const is not None and bool({"true", "false"} & want)
        if can or d:
            H = e.held(st)
            if H.get(p[:-1] + (mx,)) != "x": s.v("unlocked-signal", f"{p[-1]}, which a thread waits for on {cv}, changes without {mx} held: the waiter can miss it", fr, st, n)
        s.ctx.count("condition changes")
        if not can: return st
        return e.emit1(st, fr, n, ("changed", p[:-1] + (cv,), "all" if wide else "one"))

def in_loop(n):
    return any(p.k in ("WhileStmt", "DoStmt", "ForStmt") for p in n.up())

def polarity(n, C, want, out):
    """fields of watched classes the condition reads -> directions making it true"""
    n = strip(n)
    if n.k == "UnaryOperator" and n.op == "!": return polarity(n.kid(0), C, not want, out)
    if n.k == "BinaryOperator" and n.op in ("&&", "||"):
        for c in n.kids: polarity(c, C, want, out)
        return
    if n.k == "BinaryOperator" and n.op in ("<", ">", "<=", ">=", "==", "!="):
        a, b = n.kids
        for side, x in ((0, a), (1, b)):
            up = (n.op in (">", ">=")) == (side == 0)
            if n.op in ("==", "!="):
                z = const_int(strip(b if side == 0 else a)); up = (n.op == "!=") if z == 0 else None
            if not want and up is not None: up = not up
            for f in fields(x, C): out.setdefault(f, set()).update({"up", "down"} if up is None else {"up"} if up else {"down"})
        return
    if is_call(n) and call_short(n) in ("empty",):
        for f in fields(n, C): out.setdefault(f, set()).add("down" if want else "up")
        return
    g = MODEL[0].fns.get(n.get("fn")) if is_call(n) else None
    if g is not None and g.body is not None and "/HXLibs/" in g.file: return returns(g, C, want, out)
    for f in fields(n, C): out.setdefault(f, set()).add("true" if want else "false")
MODEL = [None]
def returns(h, C, want, out):
    for y in h.walk():
        if y.k == "ReturnStmt" and y.kid(0) is not None: polarity(y.kid(0), C, want, out)
def fields(n, C):
    r = []
    for x in n.walk():
        if x.k == "MemberExpr" and x.kid(0) is not None and notargs(x.kid(0).t) in C and x.mname: r.append((notargs(x.kid(0).t), x.mname))
    return r

def check(ctx):
    m = MODEL[0] = ctx.model("coro")
    ctx.rule("writes that can end a condition wait hold the wait's mutex and are followed by a notify")
    ctx.rule("fields written under their class's mutex are only accessed under it (exclusively when written)")
    ctx.rule("no relock, no callback or resume with a mutex held; waits recheck their condition")
    C = {}
    for c in m.classes.values():
        mx = [f["n"] for f in c.fields if re.search(r"\bmutex\b|_mutex\b", f["t"].split("<")[0])]
        if mx and ("/container/" in c.file or "/coroutine/" in c.file): C.setdefault(c.n, (c, mx, {f["n"]: f["t"] for f in c.fields}))
    ctx.require(len(C) >= 3, "classes with a mutex not found")
    files = {c.file for c, _, _ in C.values()}
    ctx.count("classes with a mutex", len(C))
    S = Sink(ctx, m, C)
    # wait predicates
    fns = [f for f in m.fns.values() if f.file in files and f.body is not None and not f.imp]
    for f in fns:
        for n in f.walk():
            if not (is_call(n) and n.name and "condition_variable" in n.name and call_short(n) in ("wait", "wait_for", "wait_until")): continue
            args = call_args(n); o = call_obj(n)
            cvs = fields(o, C) if o is not None else []
            if not cvs: continue
            cls, cv = cvs[-1]
            npred = 2 if call_short(n) == "wait" else 3
            out = {}
            if len(args) >= npred:
                for x in args[-1].walk():
                    mm = re.search(r"lambda at [^)]*?:(\d+):\d+\)", x.t)
                    ln = x.l if x.k == "LambdaExpr" else int(mm.group(1)) if mm else None
                    if ln is not None:
                        for h in m.fns.values():
                            if h.lam and h.body is not None and h.file == f.file and h.line == ln: returns(h, C, True, out)
            else:
                p = next((x for x in n.up() if x.k in ("WhileStmt", "DoStmt", "ForStmt")), None)
                if p is not None:
                    for y in p.kids:
                        if y is not None and not y.k.endswith("Stmt"): polarity(y, C, False, out)
            for k, w in out.items():
                mx = C[cls][1]
                if k[0] != cls: continue
                e = S.wants.setdefault(k, (set(), cv, mx[0])); e[0].update(w)
    ctx.require(len(S.wants) >= 3, "wait conditions not understood")
    for k in S.wants: ctx.sample(f"{k[0].split('::')[-1]}.{k[1]}: waited for on {S.wants[k][1]} ({'/'.join(sorted(S.wants[k][0]))})")
    eng = []
    def go(f):
        e = L(m); e.setup(C, S); eng.append(e)
        for k, st, v in e.run(f, ()):
            ctx.count("paths")
            pend = None
            for x in st.mon:
                if x[0] == "changed": pend = x if pend is None or x[2] == "all" else pend
                elif x[0] == "notify" and pend is not None and x[1] == pend[1] and (pend[2] == "one" or x[2] == "notify_all"): pend = None
            if pend is not None: S.msgs.append((f"no-notify:{f.clsn.split('::')[-1]}::{f.short}", f"the condition waited for on {show_path(pend[1])} changes but {'not all waiters are' if pend[2] == 'all' else 'no waiter is'} notified", f, f.line, list(steps(st) or [])))
        ctx.analysed(f)
    def mine(f): return notargs(f.clsn or "") in C or any((f.clsn or "").startswith(c + "::") for c in C) or f.clsn in {c.rsplit("::", 1)[0] for c in C}
    named = [f for f in fns if not f.lam and mine(f)]
    called = set()
    for f in fns:
        for n in f.walk():
            if is_call(n) and n.get("fn") is not None: called.add(n.get("fn"))
    first = [f for f in named if f.raw.get("acc") != "private" or f.id not in called]
    for f in first: go(f)
    inl = set().union(*[e.seen_inl for e in eng])
    for f in named:
        if f not in first and f.id not in inl: go(f)
    inl = set().union(*[e.seen_inl for e in eng])
    for f in fns:
        if f.lam and f.short in ("operator()", "(lambda)") and not f.ctor and not f.dtor and f.id not in inl and not f.coro: go(f)
    # guarded fields
    for (c, fld), l in S.acc.items():
        ty = C[c][2].get(fld, "")
        if not ty or "atomic" in ty or "mutex" in ty or "condition_variable" in ty or notargs(ty) in C: continue
        mx = C[c][1]
        lock = lambda x: next((x[3].get(x[2][:-1] + (k,)) for k in mx if x[3].get(x[2][:-1] + (k,))), None)
        if not any(x[4] and lock(x) for x in l): continue
        ctx.count("guarded fields"); ctx.sample(f"{c.split('::')[-1]}.{fld} is guarded ({len(l)} accesses)")
        for x in l:
            k = lock(x); fr, n = x[0], x[1]
            if k is None: S.v("unguarded", f"{fld} is accessed without {mx[0]}, which guards it elsewhere", fr, x[5], n)
            elif x[4] and k == "s": S.v("shared-write", f"{fld} is modified under a shared lock", fr, x[5], n)
    seen = set()
    for key, msg, f, line, st in S.msgs:
        if (key, msg) in seen: continue
        seen.add((key, msg)); ctx.violation(key, msg, f, line, path=st)
    ctx.at_least("guarded fields", 2); ctx.at_least("condition changes", 3); ctx.at_least("condition waits", 2); ctx.at_least("lock acquisitions", 5)
