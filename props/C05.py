"""Timers: a sleeping coroutine is resumed once, not before its time, and never forgotten; a yielding one goes to the
back of the queue and starves nobody."""
from rules import *
META = dict(title="Timers resume their coroutine once, never early, and yields starve nobody",
    statement="A coroutine that sleeps for a duration or until a time point is resumed exactly once, never before that time, and timers due at the same instant are all served; the event loop never waits longer than the time to its earliest timer. A coroutine that yields is resumed exactly once in the next turn of the loop without waiting for timers or starving timers and I/O. A timer or yield whose awaiting coroutine is destroyed first is removed from the loop and resumes nobody.",
    over=["schedules", "histories"], q="every set of timers and yields, in every order of expiry, including ones added or destroyed while others are being resumed",
    why="Tests use a few well separated sleeps; equal expiry times, timers destroyed by a losing whenAny branch and yields mixed with timers depend on scheduling.",
    files=["coroutine/loop/TimerLoop.hpp", "coroutine/loop/EventLoop.hpp"],
    mech=[("timer queue", "coroutine/loop/TimerLoop.hpp TimerLoop::run"), ("timer and yield awaiters", "coroutine/loop/TimerLoop.hpp"), ("wait timeout", "coroutine/loop/EventLoop.hpp durationToKernelTimespec")],
    technique="path-sensitive abstract interpretation with branch facts over the timer and yield queues",
    note="Every path of the timer loop and of the awaiters, to a fixed point.",
    design="""The queues are the containers of coroutine handles of the loop class. Every handle of the timed queue that is resumed lies under the fact
`expiry <= now` with `now` read from the clock; the same element is erased exactly once, after (or handle copied before) the resumption; resumption invalidates everything
known about both queues. Yields are taken from the front, popped once, and their loop carries a bound taken before it (not just "queue non-empty"). The function returns no
timeout only with both queues known empty, and a timeout only if it is `earliest expiry - now` with the yield queue known empty, or zero. A keyed queue must
allow equal keys. Awaiters: suspending inserts (own expiry, awaiting coroutine) and remembers the position; resuming forgets it; destruction erases it iff still
remembered. sleepFor stores clock now + duration, sleepUntil its argument. The event loop hands the timers' answer unchanged to the wait, and the conversion splits it
into whole seconds and the rest.""")
TUS = ["coro"]
ASSUMES = ["std::chrono::system_clock does not run backwards during a wait"]

def is_handles(t): return t.startswith("std::") and "coroutine_handle" in t and not t.startswith("std::coroutine_handle") and not t.startswith("std::optional")

def check(ctx):
    m = ctx.model("coro")
    ctx.rule("a timed handle is resumed only under expiry <= now and its element erased exactly once; a yielded handle is popped exactly once")
    ctx.rule("the loop's answer is nullopt only with both queues empty, earliest - now only with no yield queued, else zero")
    ctx.rule("awaiters insert on suspend, forget on resume, erase on destruction iff not resumed")
    loops = [c for c in m.classes.values() if any("time_point" in f["t"] and is_handles(f["t"]) for f in c.fields)]
    ctx.require(loops, "no class keeps a queue of timed coroutine handles")
    for c in {x.n: x for x in loops}.values(): one(ctx, m, c)
    timeout(ctx, m)
    for k in ("timer resumptions", "yield resumptions", "timeout answers", "awaiter paths", "expiry settings"): ctx.at_least(k, 1)

def one(ctx, m, c):
    tq = [f["n"] for f in c.fields if is_handles(f["t"]) and "time_point" in f["t"]]; yq = [f["n"] for f in c.fields if is_handles(f["t"]) and "time_point" not in f["t"]]
    for f in c.fields:
        if f["n"] in tq and f["t"].startswith(("std::map<", "std::unordered_map<", "std::set<")): ctx.violation("equal-expiry", "the timer queue cannot hold two timers with the same expiry time: one of them would be lost", c, c.line)
    ctx.require(len(tq) == 1 and len(yq) == 1, "timer/yield queues not identified")
    tq, yq = tq[0], yq[0]; this = (("root", "this"),)
    for f in [f for f in m.fns.values() if f.cls == c.id and not f.ctor and not f.dtor and "optional" in f.ret]:
        ctx.analysed(f); e = Calls(m); CUR = (("root", "$cur"),)
        def bad(key, msg, st, f=f): ctx.violation(f"{key}:{f.n}", msg, f, path=steps(st))
        def call(name, n, st, obj, args, eng, fr):
            sh = name.split("::")[-1]
            if name.startswith("std::coroutine_handle") and sh in ("resume", "operator()"):
                p = obj.p if isinstance(obj, Loc) else ()
                t = eng.val(st, obj)
                if mentions(p, yq) or mentions(t, yq):
                    ctx.count("yield resumptions"); kind = "yield"
                    mon = st.mon or ()
                    if ("yield",) in mon:
                        own = ("m", "size", st.read(this + (yq,)))
                        plain = lambda x: len(x[1][2]) == 1 and x[1][2][0][0][:2] == ("m", "size") and mentions(x[1][2][0][0][2], yq) and x[1][1] == (0 if x[0] == "ne0" else -1)
                        g = [x for x in st.facts if x[0] in ("ne0", "ge0") and not mentions(x, own) and not plain(x) or x[0] == "ge0" and len(x[1][2]) > 1]
                        if not g and not any(isinstance(y, tuple) and y[:1] == ("v",) for y in walk_term(p)): bad("yield-starves", "yielded coroutines are resumed until none is left: one that keeps yielding starves timers and I/O", st)
                else:
                    ctx.count("timer resumptions"); kind = "timer"
                    ok = False
                    for x in st.facts:
                        if x[0] == "ge0" and len(x[1][2]) == 2 and x[1][1] <= 0:
                            d = {c2: y for y, c2 in x[1][2]}
                            if set(d) == {1, -1} and is_now(d[1]) and show(d[-1]).endswith("first"): ok = True
                        if x[0] == "eq0" and len(x[1][2]) == 2 and x[1][1] == 0 and any(is_now(y) for y, _ in x[1][2]): ok = True
                    if not ok: bad("timer-early", "a timer's coroutine is resumed without its time having come", st)
                x = eng.emit(st, fr, n, (kind,)).cp()
                for q in (tq, yq):
                    x = x.havoc(this + (q,), ("resumed", fr.id, n.id, q))
                r, v = eng.fresh(x, fr, n)
                return [(r, v)]
            if obj is not None and isinstance(obj, Loc) and obj.p == this + (tq,) and sh in ("erase", "extract"): return ("erase",)
            if obj is not None and isinstance(obj, Loc) and obj.p == this + (tq,) and sh in ("clear",): return ("clear",)
            if obj is not None and isinstance(obj, Loc) and obj.p == this + (yq,) and sh in ("pop_front", "erase"): return ("pop",)
            if obj is not None and isinstance(obj, Loc) and obj.p == this + (yq,) and sh == "clear": return ("popall",)
            return None
        e.h_call = call
        e.skey = lambda st: (st.holds(T_eq0(("m", "size", st.read(this + (tq,))))), st.holds(T_eq0(("m", "size", st.read(this + (yq,))))))
        for k, st, v in e.run(f, ()):
            if k != "ret": continue
            ctx.count("timeout answers")
            ev = [x[0] for x in st.mon]
            for a, b, what in (("timer", "erase", "timer"), ("yield", "pop", "yield")):
                na, nb = ev.count(a), ev.count(b)
                if nb != na and not (a == "yield" and ("swap" in {x.name.split("::")[-1] for x in f.walk()} or any(x.name == "std::exchange" for x in f.walk()))): bad(f"{what}-count", f"{na} {what} resumption(s) but {nb} removal(s) from the queue: it would be resumed again or lost", st)
            if "clear" in ev: bad("timers-dropped", "timers are dropped without being resumed", st)
            t = st.read(v.p) if isinstance(v, Loc) else v
            te = st.holds(T_eq0(("m", "size", st.read(this + (tq,))))); ye = st.holds(T_eq0(("m", "size", st.read(this + (yq,)))))
            if t == ("empty", "std::optional") or t == ("g",) or show(t) in ("nullopt",):
                if te is not True: bad("timer-forgotten", "the loop is told there is no timer while one may be armed", st)
                if ye is not True: bad("yield-forgotten", "the loop is told nothing is ready while a yielded coroutine may be waiting", st)
                continue
            d = t[2] if t[:2] == ("ctor", "std::optional") else t
            if d == C(0): continue
            L = lin(d)
            ok = L[1] == 0 and len(L[2]) == 2 and {c2 for _, c2 in L[2]} == {1, -1} and any(c2 == -1 and is_now(y) for y, c2 in L[2]) and any(c2 == 1 and show(y).endswith("first") and mentions(y, tq) and ("begin" in show(y)) for y, c2 in L[2])
            if not ok: bad("timeout-value", f"the time to wait is {show(d)} instead of the earliest expiry minus now", st)
            if ye is not True: bad("yield-delayed", "the loop may wait for a timer although a yielded coroutine is ready", st)
    awaiters(ctx, m, c, tq, yq)

def is_now(t):
    return isinstance(t, tuple) and t and t[0] == "sym" and t[1][0] == "now" or (isinstance(t, tuple) and t and t[0] == "old" and is_now(t[1]))

def awaiters(ctx, m, c, tq, yq):
    this = (("root", "this"),)
    for a in [x for x in m.classes.values() if x.n.startswith(c.n + "::") and any(f.cls == x.id and f.short == "await_suspend" for f in m.fns.values())]:
        its = [f["n"] for f in a.fields if "iterator" in f["t"].lower()]
        exp = [f["n"] for f in a.fields if "time_point" in f["t"]]
        if len(its) != 1: ctx.violation(f"awaiter-position:{a.n}", "the awaiter does not remember its place in the queue, so it cannot leave it when destroyed", a, a.line); continue
        it = its[0]; kind = "timer" if exp else "yield"; q = tq if exp else yq
        have = set()
        for f in [f for f in m.fns.values() if f.cls == a.id]:
            def bad(key, msg, st, f=f): ctx.violation(f"{key}:{a.n}", msg, f, path=steps(st))
            e = Calls(m)
            def call(name, n, st, obj, args, eng, fr):
                if obj is None or not isinstance(obj, Loc): return None
                sh = name.split("::")[-1]
                if obj.p[-1:] == (q,) and sh in ("insert", "emplace", "push_back", "emplace_back", "push_front", "emplace_front", "erase"): return (sh, *[eng.val(st, x) for x in args])
                if obj.p == this + (it,) and sh == "reset": return ("forget",)
                return None
            e.h_call = call
            e.h_assign = lambda p, t, st, n: ("at", show(t)) if p == this + (it,) else None
            if f.short == "await_ready":
                have.add("ready"); ctx.analysed(f)
                for k, st, v in e.run(f, ()):
                    t = st.read(v.p) if isinstance(v, Loc) else v
                    if st.holds(T_truth(t)) is not False: bad(f"{kind}-ready", "the awaiter may report ready, skipping the wait", st)
            if f.short == "await_suspend":
                have.add("suspend"); ctx.analysed(f); pid, pn, _ = f.params[0]
                if f.ret not in ("void",): 
                    for k, st, v in e.run(f, ()):
                        t = st.read(v.p) if isinstance(v, Loc) else v
                        if st.holds(T_truth(t)) is not True and "coroutine_handle" not in f.ret: bad(f"{kind}-not-suspended", "suspending may be cancelled although the coroutine is queued", st)
                for k, st, v in e.run(f, ()):
                    if k != "ret": continue
                    ctx.count("awaiter paths")
                    ins = [x for x in st.mon if x[0] in ("insert", "emplace", "push_back", "emplace_back", "push_front", "emplace_front")]
                    if len(ins) != 1: bad(f"{kind}-inserted", f"suspending queues the coroutine {len(ins)} times", st); continue
                    if ins[0][0].endswith("_front"): bad(f"{kind}-order", "a yielding coroutine goes to the front of the queue", st)
                    if not mentions(ins[0][1:], ("root", pn, pid)) and not mentions(ins[0][1:], pn) and not mentions_v(ins[0][1:], pid): bad(f"{kind}-coroutine", "what is queued is not the awaiting coroutine", st)
                    if exp and not any(t == ("in", this + (exp[0],), ()) for t in walk_term(ins[0][1:])): bad("timer-expiry", "the timer is queued under something other than its expiry time", st)
                    if not exp and ins[0][0] in ("insert", "emplace") and not ("end" in show(ins[0][1])): bad("yield-order", "a yielding coroutine is not queued at the end", st)
                    if not any(x[0] == "at" for x in st.mon): bad(f"{kind}-position", "the place in the queue is not remembered", st)
            if f.short == "await_resume":
                have.add("resume"); ctx.analysed(f)
                for k, st, v in e.run(f, ()):
                    if k == "ret" and not any(x[0] in ("forget", "at") for x in st.mon): bad(f"{kind}-not-forgotten", "a resumed awaiter still refers to its removed queue entry and would erase it again", st)
            if f.dtor:
                have.add("dtor"); ctx.analysed(f)
                for k, st, v in e.run(f, ()):
                    ctx.count("awaiter paths")
                    setp = st.holds(("ne0", lin(("ptr", this + (it,)))))
                    er = [x for x in st.mon if x[0] == "erase"]
                    if setp is not False and len(er) == 0: bad(f"{kind}-not-removed", "destroying a waiting awaiter leaves its coroutine in the queue", st)
                    if setp is not True and er: bad(f"{kind}-removed-unset", "an awaiter that is not queued erases from the queue", st)
                    if len(er) > 1: bad(f"{kind}-removed-twice", "the entry is erased twice", st)
        if "dtor" not in have: ctx.violation(f"{kind}-not-removed:{a.n}", "destroying a waiting awaiter leaves its coroutine in the queue", a, a.line)
        if exp:
            # who sets the expiry
            for f in m.fns.values():
                if f.clsn.startswith(c.n) and f.clsn != a.n and f.ret.replace("&", "").strip() == a.n and f.params:
                    ctx.analysed(f); pid, pn, pt = f.params[0]
                    for k, st, v in Calls(m).run(f, ()):
                        if k != "ret": continue
                        ctx.count("expiry settings")
                        vals = [t for p, t in st.env.items() if p[-1:] == (exp[0],)]
                        if isinstance(v, Loc): vals = [st.read(v.p + (exp[0],))] if st.read(v.p + (exp[0],))[0] != "in" else vals
                        vals = [t for t in vals if t[0] != "empty"]
                        if not vals and isinstance(v, tuple): vals = [v]
                        for t in vals:
                            L = lin(t)
                            own = [y for y, c2 in L[2] if (mentions_v(y, pid) or mentions(y, pn))]
                            if "time_point" not in pt: ok = L[1] == 0 and len(L[2]) == 2 and all(c2 == 1 for _, c2 in L[2]) and any(is_now(y) for y, _ in L[2]) and len(own) == 1
                            else: ok = L[1] == 0 and len(L[2]) == 1 and L[2][0][1] == 1 and len(own) == 1
                            if not ok: ctx.violation(f"expiry:{f.n}", f"{f.short} waits until {show(t)}", f)
                        if not vals: ctx.violation(f"expiry:{f.n}", f"{f.short} does not set the expiry", f)

def mentions_v(t, pid):
    return any(isinstance(x, tuple) and x and ((x[0] == "v" and len(x) > 3 and x[2] == pid) or (x[0] == "root" and len(x) > 2 and x[2] == pid)) for x in walk_term(t))

def timeout(ctx, m):
    """the wait gets the timers' answer; the conversion splits whole seconds and rest"""
    for f in [f for f in m.fns.values() if "__kernel_timespec" in f.ret and f.params and "duration" in f.params[0][2]]:
        ctx.analysed(f); pid, pn, _ = f.params[0]
        e = Calls(m); fld = {}
        e.h_assign = lambda p, t, st, n: ("set", p[-1], t) if p[-1] in ("tv_sec", "tv_nsec") else None
        kinds = {}
        for n in f.walk():
            if n.name in ("std::chrono::duration_cast", "std::chrono::floor"): kinds[n.l] = n.t
        casts = {}
        def call(name, n, st, obj, args, eng, fr):
            if name in ("std::chrono::duration_cast", "std::chrono::floor"):
                unit = "s" if "ratio<1, 1>" in n.t or (n.t.startswith("std::chrono::duration<") and "std::ratio" not in n.t) or n.t.endswith("seconds") and "nano" not in n.t and "milli" not in n.t and "micro" not in n.t else "ns" if "1000000000" in n.t or "nanoseconds" in n.t else "?"
                return [(st, ("cast", unit, eng.val(st, args[0])))]
        e.h_call = call
        for k, st, v in e.run(f, ()):
            if k != "ret": continue
            g = {x[1]: x[2] for x in st.mon}
            d = ("in", (("root", pn, pid),), ()) if f.params[0][2].rstrip().endswith("&") else None
            s = g.get("tv_sec"); ns = g.get("tv_nsec")
            ctx.count("timespec conversions")
            sc = [x for x in walk_term(s or ()) if isinstance(x, tuple) and x[:1] == ("cast",)]; nc = [x for x in walk_term(ns or ()) if isinstance(x, tuple) and x[:1] == ("cast",)]
            if not sc or sc[0][1] != "s" or not (mentions_v(sc[0][2], pid)) or (s[0] == "lin"): ctx.violation("timespec-seconds", f"the seconds of the wait are {show(s)}", f, path=steps(st)); continue
            if ns is None: ctx.violation("timespec-rest", "the sub-second part of the wait is not set", f, path=steps(st)); continue
            outer = nc[0] if nc else None
            r = outer[2] if outer and outer[1] == "ns" else ns
            L = lin(r)
            if ns[0] == "lin" or not (L[1] == 0 and any(c2 == -1 and mentions(y, "cast") for y, c2 in L[2]) and any(c2 == 1 and mentions_v(y, pid) for y, c2 in L[2])) and not mentions(ns, "%"):
                ctx.violation("timespec-rest", f"the sub-second part of the wait is {show(ns)} instead of the rest after whole seconds", f, path=steps(st))
    for f in [f for f in m.fns.values() if any(n.name == "io_uring_submit_and_wait_timeout" for n in f.walk())]:
        ctx.analysed(f); e = Calls(m)
        pid, pn, pt = f.params[0]
        e.h_call = lambda name, n, st, obj, args, eng, fr: ("wait", eng.val(st, args[3])) if name == "io_uring_submit_and_wait_timeout" else ("conv", eng.val(st, args[0])) if name.endswith("durationToKernelTimespec") else None
        e.opaque = ("durationToKernelTimespec",)
        for k, st, v in e.run(f, ()):
            w = [x for x in st.mon if x[0] == "wait"]
            if not w: continue
            has = st.holds(("ne0", lin(("ptr", (("root", pn, pid),))))) if pt.rstrip().endswith("&") else next((x[0] == "ne0" for x in st.facts if x[0] in ("ne0", "eq0") and x[1][2][0][0][0] == "ptr" and mentions_v(x[1][2][0][0], pid)), None)
            null = w[0][1] == C(0); conv = [x for x in st.mon if x[0] == "conv"]
            ctx.count("waits")
            if has is True and null: ctx.violation(f"timeout-ignored:{f.n}", "the loop waits without limit although a timer is armed", f, path=steps(st))
            if has is True and not null and (not conv or not mentions_v(conv[0][1], pid) or conv[0][1][0] == "lin"): ctx.violation(f"timeout-changed:{f.n}", "the loop waits for something other than the time to the earliest timer", f, path=steps(st))
            if has is None: ctx.violation(f"timeout-ignored:{f.n}", "the loop waits without regard to the timers", f, path=steps(st))
            if has is False and not null: ctx.violation(f"timeout-changed:{f.n}", "a timeout is used although no timer is armed", f, path=steps(st))
    for f in [f for f in m.fns.values() if f.short == "run" and any(n.name.endswith("TimerLoop::run") for n in f.walk())]:
        ctx.analysed(f); e = Calls(m); e.opaque = ("TimerLoop::run", "IoUring::run", "IoUring::isRun", "ThreadLoop::isRun")
        def call(name, n, st, obj, args, eng, fr):
            if name.endswith("TimerLoop::run"):
                x, sym = eng.fresh(st, fr, n); return [(x, ("timersaid",))]
            if name.endswith("IoUring::run"):
                t = eng.val(st, args[0]) if args else ("none",)
                return ("waitfor", t == ("timersaid",) or (t[0] == "in" and False))
            if name.endswith("sleep_for") or name.endswith("sleep_until"): return ("sleepfor", mentions_timers(st, eng, args))
        e.h_call = call
        def mentions_timers(st, eng, args):
            a = args[0]
            t = eng.val(st, a)
            if mentions(t, ("timersaid",)): return t[0] != "lin"
            if isinstance(a, Loc): return any(st.env.get(a.p[:i]) == ("timersaid",) for i in range(1, len(a.p) + 1))
            return False
        for k, st, v in e.run(f, ()):
            for x in st.mon:
                if x[1] is False: ctx.violation(f"loop-wait:{f.n}", "the event loop waits for something other than what the timers answered", f, path=steps(st))
                ctx.count("loop waits")
