"""Serial executor."""
from rules import *
META = dict(title="Serial executor: one task at a time, in order, each waiter once",
    statement="Tasks handed to SerialExecutor::serial run one after another in the order in which serial was awaited, never two at once; each is awaited exactly once, and after it the coroutine that waits for it is resumed exactly once, receiving the exception the task threw if it threw one. An executor that has run out of tasks accepts new ones, and no queued task is forgotten or reordered, even when tasks or waiters submit further tasks or throw. Clearing or destroying the executor drops the waiting tasks, and a resumed waiter may destroy it without the executor touching freed state or destroying a coroutine that is on the call stack.",
    over=["histories", "schedules"], q="every sequence of submissions, completions, exceptions and clears, including ones made from inside resumed waiters",
    why="Tests submit a few well-behaved tasks; re-entrant submission, throwing tasks and destruction from a waiter need particular histories.",
    files=["coroutine/executor/SerialExecutor.hpp"],
    mech=[("queueing and start", "coroutine/executor/SerialExecutor.hpp SerialAwaiter, serial"), ("serial chain", "coroutine/executor/SerialExecutor.hpp start"), ("clearing", "coroutine/executor/SerialExecutor.hpp clear")],
    technique="path-sensitive abstract interpretation of the executor's coroutines with an event-order automaton over queue, flag, await and resume",
    note="All paths of the chain coroutine, the submitting awaiter, serial, clear and the destructor; the state object is forgotten at every await and resume.",
    design="""The state object is the class holding a bool, a queue of (task, handle, …) entries and a list of coroutine handles. Chain coroutine (the one that takes entries
from the queue): the events form (take from front, pop it, await the task once, [store exception,] resume the waiter once)+ followed by exactly one of: flag cleared, only when the
flag is known clear or the queue known empty; next chain started, only when the flag is known set and the queue known non-empty. A caught exception is std::current_exception and is stored
through the entry's pointer before the resume or leaves the coroutine. The resume is bracketed by the on-stack counter. After the resume, `this` is touched only
while the flag is known set (clear and the destructor clear it). Submission: exactly one entry is pushed at the back on every path; it holds the suspended coroutine and the awaiter's
exception slot exactly when the awaiter suspends, which it does exactly when the flag is set; resuming rethrows a stored exception. serial sets the flag before awaiting the chain and only if it was clear.
clear empties the queue, clears the flag and destroys the frames exactly when the counter is zero, forgetting them afterwards; the destructor does the same.""")
TUS = ["coro"]
ASSUMES = ["clear is not called by a task while that task is running on the executor", "a task outlives its turn (stated by the API)"]

def check(ctx):
    m = ctx.model("coro")
    ctx.rule("chain: (front pop await [exception] resume)+ then flag=0 (if flag clear or queue empty) xor next (if flag set and queue non-empty)")
    ctx.rule("submission pushes exactly one entry; suspends iff the flag is set; serial starts the chain iff the flag was clear, flag first")
    ctx.rule("clear: queue emptied, flag cleared, frames destroyed iff nothing is being resumed")
    ST = [c for c in m.classes.values() if "SerialExecutor.hpp" in c.file and any(f["t"] == "bool" for f in c.fields) and any(f["t"].startswith(("std::queue<", "std::deque<", "std::list<")) and "Task<" in f["t"] for f in c.fields)]
    ctx.require(len(ST) == 1, "state object of the serial executor not identified")
    S = ST[0]
    B = fields_of(S, lambda t: t == "bool"); Q = fields_of(S, lambda t: "Task<" in t and t.startswith("std::")); N = fields_of(S, lambda t: t in ("unsigned long", "int", "unsigned int", "long", "std::size_t")); RL = [f["n"] for f in S.fields if f["n"] not in Q and "coroutine_handle" in f["t"]]
    ctx.require(len(B) == 1 and len(Q) == 1 and len(RL) == 1, "fields of the serial executor's state not identified")
    B, Q, RL = B[0], Q[0], RL[0]; N = N[0] if N else None
    top = S.n.rsplit("::", 1)[0]
    fns = [f for f in m.fns.values() if f.file == S.file and f.body is not None and not f.imp]
    calls = lambda f, names: any(is_call(n) and call_short(n) in names for n in f.walk())
    def uses(f, fld, names): 
        return any(is_call(n) and call_short(n) in names and call_obj(n) is not None and any(x.mname == fld or x.name == fld or (x.k == "DeclRefExpr" and x.t.startswith("std::queue<") or x.t.startswith("std::deque<")) for x in call_obj(n).walk()) for n in f.walk())
    chain = [f for f in fns if f.coro and not f.lam and uses(f, Q, ("front", "pop", "pop_front"))]
    helpers = [f for f in fns if not f.coro and not f.lam and f.clsn == top and uses(f, Q, ("front", "pop", "pop_front"))]
    if not chain and helpers: chain = [f for f in fns if f.coro and not f.lam and f.clsn == top and any(is_call(n) and n.get("fn") in {h.id for h in helpers} for n in f.walk())]
    ctx.require(len(chain) >= 1, "the coroutine that takes tasks from the queue was not found")
    chids = {f.id for f in chain}
    for f in chain: do_chain(ctx, m, f, B, Q, N, RL, chids, S)
    awaiters = [f for f in fns if f.short == "await_suspend" and uses(f, Q, ("push", "emplace", "push_back", "emplace_back"))]
    ctx.require(awaiters, "the submitting awaiter was not found")
    for f in awaiters: do_submit(ctx, m, f, B, Q, m)
    for f in fns:
        if f.coro and not f.lam and f.clsn == top and f.id not in chids: do_serial(ctx, m, f, B, Q, chids, {a.clsn for a in awaiters})
    for f in fns:
        if f.clsn == top and not f.coro and not f.lam and (f.dtor or (f.short == "clear")): do_clear(ctx, m, f, B, Q, N, RL, S)
    for f in fns:
        if f.short == "final_suspend" : do_final(ctx, m, f)
    for f in fns:
        for n in f.walk():
            if n.k == "DeclStmt":
                for v in n.get("vars", []) or []:
                    if m.strs[v["t"]].replace("const ", "").strip() == S.n or m.strs[v["t"]].replace("const ", "").strip() == S.full: ctx.violation(f"state-copied:{f.short}", "a function works on a copy of the executor's state", f, n.l)
    for k in ("chain paths", "submission paths", "serial paths", "clear paths"): ctx.at_least(k, 2)

def prefixes(st, f):
    r = set(PREF)
    for x in list(st.facts):
        for y in walk_term(x):
            if isinstance(y, tuple) and y[:1] == ("in",) and len(y) == 3 and f in y[1]: r.add(y[1][:y[1].index(f)])
    return r
PREF = set()
def flagfact(st, B):
    for p in prefixes(st, B):
        h = st.holds(T_truth(st.read(p + (B,))))
        if h is not None: return h
    return None
def emptyfact(st, Q, pref):
    for p in prefixes(st, Q):
        cur = st.read(p + (Q,))
        for x in st.facts:
            if x[0] in ("ne0", "eq0", "ge0") and any(y == cur for y in walk_term(x)):
                if x[0] == "ge0":
                    if x[1][1] < 0: return False
                    continue
                return x[0] == "eq0"
    return None

class SE(Calls):
    maxlen = 60
    def setup(s, B, Q, N, RL, cls):
        s.B, s.Q, s.N, s.RL = B, Q, N, RL; s.cls = cls; PREF.clear(); s.pref = PREF; s.lib_throws = lambda n, x: False; s.h_call = s._call; s.h_assign = s._asg; s.thisuse = []
    def ev_MemberExpr(s, n, st, fr):
        r = super().ev_MemberExpr(n, st, fr)
        if n.mname in (s.B, s.Q, s.RL, s.N):
            for _, l in r:
                if isinstance(l, Loc) and l.p[-1:] == (n.mname,): s.pref.add(l.p[:-1])
        return r
    def on_branch(s, st, fr, n, t, val):
        if flagfact(st, s.B) is False or emptyfact(st, s.Q, None) is True:
            return [s.idle(st)]
        return None
    def idle(s, st): return st if ("idle",) in st.mon else st.with_mon(st.mon + (("idle",),))
    def forget(s, st, why):
        st = st.with_mon(tuple(x for x in st.mon if x[0] != "idle"))
        for p in list(s.pref):
            for f in (s.B, s.Q, s.RL, s.N):
                if f: st = st.havoc(p + (f,), why)
        return st
    def qpath(s, p): return p is not None and p[-1:] == (s.Q,)
    def _asg(s, p, t, st, n):
        if p and p[-1] == s.B: s.pref.add(p[:-1]); return ("flag", t[1] if t[0] == "c" else "?", False if ("idle",) in st.mon else None, emptyfact(st, s.Q, p[:-1]))
        if p and s.N and p[-1] == s.N: s.pref.add(p[:-1]); return ("cnt", n.op[-2:] if n.op else "=")
        if p and "current_exception" in repr(t) and isinstance(p[0], tuple) and "*" in repr(p): return ("store",)
        return None
    def _call(s, name, n, st, obj, args, eng, fr):
        sh = name.split("::")[-1]; p = obj.p if isinstance(obj, Loc) else None
        if s.qpath(p):
            s.pref.add(p[:-1])
            if sh in ("front",): return [(s.emit(st, fr, n, ("front", flagfact(st, s.B), emptyfact(st, s.Q, p[:-1]))), Loc(p + (("[]", C(0)),)))]
            if sh in ("back",): return [(s.emit(st, fr, n, ("back",)), Loc(p + (("[]", ("sym", "back")),)))]
            if sh in ("pop", "pop_front"): return [(s.emit(st, fr, n, ("pop",)).havoc(p, ("pop", n.id)), ("void",))]
            if sh in ("pop_back",): return [(s.emit(st, fr, n, ("popback",)).havoc(p, ("pop", n.id)), ("void",))]
            if sh in ("push", "emplace", "push_back", "emplace_back"): return [(s.emit(st, fr, n, ("push", tuple(s.val(st, a) for a in args))).havoc(p, ("push", n.id)), ("void",))]
            if sh in ("push_front", "emplace_front"): return ("pushfront",)
            if sh in ("operator=", "clear", "swap"): return [(s.emit(st, fr, n, ("emptied", sh == "clear" or (bool(args) and "empty" in repr([s.val(st, a) for a in args]) or (bool(args) and "init" in repr([s.val(st, a) for a in args]))))).havoc(p, ("clr", n.id)), ("void",))]
        if sh == "swap" and args and isinstance(args[0], Loc) and s.qpath(args[0].p) and "empty" in repr(s.val(st, obj)):
            s.pref.add(args[0].p[:-1]); return [(s.emit(st, fr, n, ("emptied", True)).havoc(args[0].p, ("clr", n.id)), ("void",))]
        if sh == "resume" and "coroutine_handle" in name: return [(s.forget(s.emit(st, fr, n, ("resume",)), ("res", fr.id, n.id)), ("void",))]
        if sh == "destroy" and "coroutine_handle" in name:
            return ("destroy", None if not s.N else st_zero(st, s.N))
        if p is not None and p[-1:] == (s.RL,) and sh in ("clear", "operator="): return ("forgotten",)
        if sh == "operator=" and "exception_ptr" in name and args:
            v = s.val(st, args[0])
            if "current_exception" in repr(v) and p is not None and ("*" in p): return ("store",)
        if sh == "detach": return [(s.emit(st, fr, n, ("next", flagfact(st, s.B), emptyfact(st, s.Q, None))), ("void",))]
        return None

def st_zero(st, N):
    for x in st.facts:
        if x[0] in ("ne0", "eq0") and any(isinstance(y, tuple) and y and y[-1] == N for y in walk_term(x)): return x[0] == "eq0"
    return None

def do_chain(ctx, m, f, B, Q, N, RL, chids, S):
    ctx.analysed(f)
    e = SE(m); e.setup(B, Q, N, RL, f.clsn)
    # user task: may throw; anything may have happened meanwhile
    def aw(st, fr, n, t):
        if t[0] == "lazy" and t[1] in chids:
            return [(e.emit(st, fr, n, ("next", flagfact(st, B), emptyfact(st, Q, None))), ("void",))]
        if t[0] == "lazy" and t[1] in m.fns and m.fns[t[1]].file == f.file: return None
        x = e.forget(e.emit(st, fr, n, ("await", "ret")), ("aw", fr.id, n.id))
        y = e.forget(e.emit(st, fr, n, ("await", "thrown")), ("aw", fr.id, n.id))
        e.throw(y, fr, "?", n)
        return [(x, ("void",))]
    e.on_await = aw
    # use of the executor after a waiter was resumed
    ot = e.ev_CXXThisExpr
    def this(n, st, fr):
        if any(x[0] == "resume" for x in st.mon) and flagfact(st, B) is not True:
            ctx.violation("after-resume", "the executor is used after a waiter was resumed without knowing that it still exists (the waiter may have destroyed it)", fr.fn, n.l, path=steps(st))
        return ot(n, st, fr)
    e.ev_CXXThisExpr = this
    ol = e.ev_LambdaExpr
    def lam(n, st, fr):
        r = ol(n, st, fr)
        for s1, v in r:
            if isinstance(v, tuple) and v[0] == "lam" and any(c[0] == "this" for c in v[3]) and any(x[0] == "resume" for x in s1.mon) and flagfact(s1, B) is not True:
                ctx.violation("after-resume", "the executor is used after a waiter was resumed without knowing that it still exists (the waiter may have destroyed it)", fr.fn, n.l, path=steps(s1))
        return r
    e.ev_LambdaExpr = lam
    for k, st, v in e.run(f, ()):
        ctx.count("chain paths")
        ev = tuple(x for x in st.mon if x[0] != "idle")
        # infeasible: a caught exception that is null
        if any(x[0] == "eq0" and "current_exception" in repr(x) for x in st.facts): continue
        i = 0; n = len(ev); ok = True; why = None; thrown = False; stored = False; cyc = 0
        phase = "start"; cnt = 0
        def bad(key, msg): ctx.violation(f"{key}:{f.short}", msg, f, path=steps(st))
        for x in ev:
            w = x[0]
            if w == "front":
                if phase not in ("start", "resumed"): bad("order", "another entry is taken before the previous one was finished")
                if phase == "resumed" and not (x[1] is True and x[2] is False): bad("take", "a further entry is taken without knowing that the executor is running and its queue is not empty")
                if phase == "resumed" and thrown and not stored and cyc == 1: bad("exception-lost", "an exception nobody received is dropped")
                phase = "front"; stored = False
            elif w in ("back", "popback", "pushfront"): bad("order", "entries are not taken in the order in which they were queued")
            elif w == "pop":
                if phase != "front": bad("pop", "an entry is removed that was not the one taken")
                phase = "pop"
            elif w == "await":
                if phase != "pop": bad("await", "a task is awaited without its entry having been taken off the queue, or twice")
                phase = "awaited"; thrown = x[1] == "thrown"; cyc += 1
            elif w == "store":
                if phase != "awaited": bad("exception-late", "the exception is handed over after the waiter was resumed")
                stored = True
            elif w == "cnt":
                cnt += 1 if x[1] in ("++", "+=") else -1 if x[1] in ("--", "-=") else 0
                if phase != "awaited" and x[1] in ("++", "+="): bad("on-stack", "the on-stack counter is raised after the resume")
            elif w == "resume":
                if phase != "awaited": bad("resume", "the waiter is resumed before its task finished, or twice")
                if N and cnt < 1: bad("on-stack", "the waiter is resumed without marking the chain as being on the call stack")
                phase = "resumed"
            elif w == "flag":
                if phase != "resumed": bad("flag", "the running flag changes while a task or its waiter is still to be run")
                elif x[1] != 0: bad("flag", "the chain sets the running flag")
                elif not (x[2] is False or x[3] is True): bad("forgotten", "the executor stops although entries may be queued")
                if phase == "resumed": phase = "done"
            elif w == "next":
                if phase != "resumed": bad("next", "the next chain is started while a task or its waiter is still to be run, or twice")
                elif not (x[1] is True and x[2] is False): bad("next", "the next chain is started without knowing that the executor is running and its queue is not empty")
                if phase == "resumed": phase = "done"
        if phase == "awaited" and k == "exc": bad("exception-escapes", "an exception of a task leaves the chain before its waiter was resumed and the next task started")
        elif phase != "done": bad("incomplete", "a path of the chain ends without " + {"start": "taking a task", "front": "removing the taken entry", "pop": "awaiting the task", "awaited": "resuming the waiter", "resumed": "starting the next task or clearing the flag"}[phase])
        elif thrown and not stored and k != "exc": bad("exception-lost", "the exception of a task reaches nobody")
        elif stored and k == "exc": bad("exception-twice", "an exception handed to the waiter also leaves the chain")
        elif not thrown and k == "exc": pass
        if N and cnt != 0: bad("on-stack", "the on-stack counter is not restored")

def do_submit(ctx, m, f, B, Q, _m):
    ctx.analysed(f)
    e = SE(m); e.setup(B, Q, None, "", f.clsn)
    pid, pn, _ = f.params[0]
    for k, st, v in e.run(f, ()):
        ctx.count("submission paths")
        def bad(key, msg): ctx.violation(f"{key}:await_suspend", msg, f, path=steps(st))
        if k != "ret": bad("submit-throws", "submission can fail by exception"); continue
        ps = [x for x in st.mon if x[0] in ("push", "pushfront", "emptied")]
        if len(ps) != 1 or ps[0][0] != "push": bad("submitted", f"{len([p for p in ps if p[0] == 'push'])} entries are queued at the back by one submission"); continue
        own = mentions(ps[0], ("v", 1, pid, pn)) or mentions(ps[0], ("root", pn, pid))
        running = flagfact(st, B)
        t = T_truth(v) if v[0] != "void" else C(1)
        susp = st.holds(t)
        if susp is None and v[0] == "in" and v[1][-1] == B: susp = running
        err = any(isinstance(x, tuple) and x[:1] == ("addr",) for x in walk_term(ps[0]))
        if running is None: bad("submit-flag", "an entry is queued without having tested whether the executor is running"); continue
        if susp is not running: bad("submit-suspends", "the submitting coroutine " + ("does not wait although the executor is running" if running else "waits although nothing is running that would resume it")); continue
        if own is not running: bad("submit-handle", "the queued entry " + ("does not hold the suspended coroutine" if running else "holds a coroutine that did not suspend: it would be resumed while running")); continue
        refs = [x for x in walk_term(ps[0]) if isinstance(x, tuple) and x[:1] == ("addr",) and x[1][:1] == (("root", "this"),)]
        if running and not refs: bad("submit-exception", "the queued entry has no place for the exception of its task")
        if not running and refs: bad("submit-exception", "the queued entry points into an awaiter that is gone when the task ends")
        if not any(isinstance(x, tuple) and x[:1] == ("in",) and x[1][:1] == (("root", "this"),) and x[1][-1] != Q or isinstance(x, Loc) for x in walk_term(ps[0])) and not refs: bad("submit-task", "the queued entry does not hold the submitted task")
    for g in m.fns.values():
        if g.clsn == f.clsn and g.short == "await_resume":
            ctx.analysed(g); e = Calls(m); e.lib_throws = lambda n, x: False
            exf = [x["n"] for c in m.classes.values() if c.n == f.clsn for x in c.fields if "exception_ptr" in x["t"]]
            ctx.count("submission results")
            for k, st, v in e.run(g, ()):
                have = next((x[0] == "ne0" for x in st.facts if x[0] in ("ne0", "eq0") and any(isinstance(y, tuple) and y and y[-1] in exf for y in walk_term(x))), None)
                if (k == "exc") != (have is True) or have is None: ctx.violation("result-exception:await_resume", "the exception of the task is not rethrown to its waiter" if k != "exc" else "an exception is thrown although the task threw none", g, path=steps(st))
        if g.clsn == f.clsn and g.short == "await_ready":
            ctx.analysed(g); e = Calls(m)
            for k, st, v in e.run(g, ()):
                if v != C(0): ctx.violation("submit-ready:await_ready", "a submission may be skipped because its awaiter claims to be ready", g, path=steps(st))

def do_serial(ctx, m, f, B, Q, chids, awcls):
    ctx.analysed(f)
    e = SE(m); e.setup(B, Q, None, "", f.clsn)
    def aw(st, fr, n, t):
        if t[0] == "lazy" and t[1] in chids: return [(e.emit(st, fr, n, ("chain", flagfact(st, B))), ("void",))]
        if t[0] == "lazy" and t[1] in m.fns and m.fns[t[1]].file == f.file: return None
        return [(e.forget(e.emit(st, fr, n, ("submit",)), ("sub", fr.id, n.id)), ("void",))]
    e.on_await = aw
    for k, st, v in e.run(f, ()):
        ctx.count("serial paths")
        def bad(key, msg): ctx.violation(f"{key}:{f.short}", msg, f, path=steps(st))
        ks = [x[0] for x in st.mon if x[0] in ("submit", "flag", "chain")]
        fl = [x for x in st.mon if x[0] == "flag"]
        if ks[:1] != ["submit"] or ks.count("submit") != 1: bad("serial-submit", "a call does not submit its task exactly once, first"); continue
        if ks == ["submit"]:
            if flagfact(st, B) is not True: bad("serial-start", "the submitted task is not started although the executor may be idle")
        elif ks == ["submit", "flag", "chain"]:
            if fl[0][1] != 1: bad("serial-flag", "the executor is marked idle while a chain runs")
            # the assignment is judged by what was known before it
            if not was_clear(st, B): bad("serial-start", "a second chain is started while one may be running")
        else: bad("serial-order", f"submission goes through {'/'.join(ks)} instead of submit, mark running, run")

def was_clear(st, B):
    for x in st.mon:
        if x[0] == "flag": return x[2] is False
    return False

def do_clear(ctx, m, f, B, Q, N, RL, S):
    ctx.analysed(f)
    e = SE(m); e.setup(B, Q, N, RL, f.clsn)
    for k, st, v in e.run(f, ()):
        ctx.count("clear paths")
        key = "dtor" if f.dtor else f.short
        def bad(kk, msg): ctx.violation(f"{kk}:{key}", msg, f, path=steps(st))
        ev = st.mon
        if not any(x[0] == "emptied" and x[1] for x in ev): bad("clear-queue", "waiting tasks stay queued")
        if not any(x[0] == "flag" and x[1] == 0 for x in ev): bad("clear-flag", "the executor still counts as running after it was cleared")
        z = st_zero(st, N) if N else True
        for x in ev:
            if x[0] == "destroy" and N and x[1] is not True: bad("destroy-on-stack", "coroutine frames are destroyed although one of them may be on the call stack")
        d = any(x[0] == "destroy" for x in ev)
        if N and z is None: bad("destroy-on-stack", "clearing does not test whether a chain is on the call stack")
        if d and not any(x[0] == "forgotten" for x in ev): bad("destroyed-kept", "destroyed frames stay in the list and are destroyed again")
        if z is True and not any(x[0] == "forgotten" for x in ev): bad("frames-kept", "the frames of the running chain are not released")
    if not any(x.k == "x" for x in ()) and not frames_destroyed(ctx, m, f): ctx.violation(f"frames-leaked:{'dtor' if f.dtor else f.short}", "the frames of the running chain are never destroyed", f)

def frames_destroyed(ctx, m, f, depth=0):
    for n in f.walk():
        if is_call(n):
            if call_short(n) == "destroy" and "coroutine_handle" in (n.name or ""): return True
            g = m.fns.get(n.get("fn"))
            if depth < 3 and g is not None and g.file == f.file and g.body is not None and frames_destroyed(ctx, m, g, depth + 1): return True
    return False

def do_final(ctx, m, f):
    """a finished chain leaves the list of running frames before its frame goes"""
    if "SerialTask" not in f.clsn and "promise" not in f.clsn: return
    ctx.analysed(f); ctx.count("chain ends")
    if not any(is_call(n) and call_short(n) in ("erase", "remove", "pop_back", "pop_front") for n in f.walk()): ctx.violation("finished-kept:final_suspend", "a finished chain stays in the list of running frames and is destroyed again later", f)
