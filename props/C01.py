"""Every coroutine promise, awaiter and synchronous entry point is explored on all paths: what a
coroutine returns or throws must be what its awaiter (or the sync/trySync/tryAsync caller) gets,
and the awaiter must be the coroutine that is resumed."""
from rules import *
META = dict(title="A coroutine's result or exception reaches exactly its awaiter",
    statement="Whatever a coroutine returns or throws is what the code awaiting it, or the caller running it synchronously or asynchronously on the event loop, receives: no value is lost or replaced and no exception is swallowed. When it finishes, the coroutine that awaited it is the one resumed.",
    over=["programs", "schedules"], q="every coroutine type of the library, every path through its promise and awaiters, every interleaving of completions",
    why="Tests run a few fixed chains of coroutines, mostly returning normally; the guarantee is about every path of the promise code, including exceptions thrown at any suspension point.",
    files=["coroutine/promise/Promise.hpp", "coroutine/task/Task.hpp", "coroutine/task/RootTask.hpp", "coroutine/awaiter/PreviousAwaiter.hpp", "coroutine/awaiter/ExitAwaiter.hpp", "coroutine/loop/EventLoop.hpp"],
    mech=[("unhandled_exception/result of the promises", "coroutine/promise/Promise.hpp"), ("final awaiter", "coroutine/awaiter/PreviousAwaiter.hpp"), ("sync, trySync, tryAsync", "coroutine/loop/EventLoop.hpp")],
    technique="path-sensitive abstract interpretation of promises, awaiters and entry points with a value/exception-flow monitor",
    note="Every path of every promise/awaiter/entry-point function instantiated.",
    design="""Promises are recognised by their customisation points, the exception slot by type, the continuation slot by handle type. For each
promise: unhandled_exception stores the current exception (or ends the process) on every path; result() returns only where the stored
exception is null and otherwise rethrows it, and what it returns is the value slot; return_value stores its argument; await_suspend
records the caller in the awaited promise before transferring control to the awaited coroutine; final_suspend hands the recorded continuation on;
await_resume takes result(); sync/trySync/tryAsync store value xor exception exactly once and run the loop.""")
TUS = ["coro"]
ASSUMES = ["std::current_exception/rethrow_exception behave as specified", "promise types are those instantiated by harness/coro.cpp (all promise templates of the library)"]
EP = ("std::exception_ptr", "std::__exception_ptr::exception_ptr")
HANDLE = "std::coroutine_handle"

class E(Calls):
    opaque = ("Uninitialized::move", "Uninitialized::set", "Uninitialized::del")
    def await_throws(s, n, t): return True

def check(ctx):
    m = ctx.model("coro")
    ctx.rule("unhandled_exception: on every path the exception_ptr member becomes std::current_exception() or the process terminates")
    ctx.rule("result(): returns only on paths where the stored exception is null, otherwise rethrows exactly that exception; the value returned is the promise's value slot")
    ctx.rule("return_value(v): on every normal path the value slot (or continuation slot) is set from v")
    ctx.rule("await_suspend of a coroutine awaiter records the caller in the promise's continuation before handing over; final_suspend resumes that continuation, or nothing if none")
    ctx.rule("await_resume of a coroutine awaiter returns promise().result()")
    ctx.rule("sync/trySync/tryAsync: value stored iff the task returned, current_exception stored iff it threw; sync rethrows a stored exception")
    proms = [c for c in m.classes.values() if {"unhandled_exception", "get_return_object", "final_suspend"} <= {x["n"].split("::")[-1] for x in c.methods}]
    for c in proms:
        eps = fields_of(c, lambda t: t in EP)
        hs = fields_of(c, lambda t: t.startswith(HANDLE + "<void") or t == HANDLE + "<>")
        ctx.count("promise types")
        for fn in methods(m, c, "unhandled_exception"):
            ctx.count("unhandled_exception functions"); ctx.analysed(fn)
            e = E(m); e.lib_throws = lambda n, x: False
            term = lambda name, n, st, obj, args, eng, fr: (eng.throw(st, fr, "!term", n) or []) if name in ("std::terminate", "abort", "std::abort", "__builtin_abort") else None
            e.h_call = lambda name, n, st, obj, args, eng, fr: [] if name in ("std::terminate", "abort", "std::abort") else None
            for k, st, v in e.run(fn, ()):
                ok = k == "ret" and any(st.read((("root", "this"), f))[0] in ("sym", "call") and "current_exception" in repr(st.read((("root", "this"), f))) for f in eps)
                if not ok: ctx.violation(f"exception-dropped:{c.n}", "an exception escaping a coroutine of this promise type is neither stored nor fatal: its awaiter would see a normal completion", fn, path=steps(st))
        for fn in methods(m, c, "result"):
            ctx.count("result functions"); ctx.analysed(fn)
            check_result(ctx, m, c, fn, eps)
        for fn in methods(m, c, "return_value"):
            ctx.count("return_value functions"); ctx.analysed(fn)
            e = E(m)
            e.h_call = lambda name, n, st, obj, args, eng, fr: ("set", eng.val(st, args[0]) if args else ("?",)) if name.endswith("Uninitialized::set") else None
            e.h_assign = lambda p, t, st, n: ("put", p, t)
            pid = fn.params[0]
            src = ("in", (("root", pid[1], pid[0]),), ()) 
            for k, st, v in e.run(fn, ()):
                if k != "ret": continue
                got = any((ev[0] == "set" and mentions(ev[1], pid[1]) or ev[0] == "put" and ev[1][0] == ("root", "this") and len(ev[1]) == 2 and mentions(ev[2], pid[1])) for ev in st.mon)
                if not got: ctx.violation(f"value-dropped:{c.n}::return_value", "co_return v completes without the promise keeping v", fn, path=steps(st))
        for fn in methods(m, c, "final_suspend"):
            e = E(m)
            for k, st, v in e.run(fn, ()):
                ty = fn.ret
                if ty.endswith("PreviousAwaiter"):
                    ctx.count("final_suspend continuations")
                    if not any(mentions(t, h) or (len(p) and mentions(p, h)) for h in hs for p, t in [((), x) for x in _vals(st, v)]):
                        ctx.violation(f"continuation-lost:{c.n}", "final_suspend does not pass the recorded awaiter on", fn, path=steps(st))
    # final awaiter
    for fn in m.named("PreviousAwaiter::await_suspend", "PreviousAwaiter::await_ready"):
        ctx.analysed(fn)
        e = E(m)
        for k, st, v in e.run(fn, ()):
            if fn.short == "await_ready":
                ctx.count("final awaiter facts")
                if st.holds(v if isinstance(v, tuple) else st.read(v.p)) is not False: ctx.violation("final-awaiter-ready", "the final awaiter may report ready, so the awaiting coroutine is never resumed", fn)
            else:
                ctx.count("final awaiter paths")
                t = st.read(v.p) if isinstance(v, Loc) else v
                if "noop" in repr(t):
                    hs = [f for f in st.facts if f[0] == "eq0"]
                    if not hs: ctx.violation("final-awaiter-noop", "the final awaiter resumes nothing although a continuation may be recorded", fn, path=steps(st))
                elif not (t[0] in ("in", "fld")): ctx.violation("final-awaiter-target", f"the final awaiter resumes {show(t)}, not the recorded continuation", fn, path=steps(st))
    # awaiters that own a coroutine
    for fn in [f for f in m.fns.values() if f.short == "await_suspend" and f.params]:
        c = cls_of(m, fn)
        if c is None: continue
        own = [f for f in c.fields if f["t"].startswith(HANDLE + "<HX") or (f["t"].startswith("HX::coroutine::Task<"))]
        if not own: continue
        ctx.count("coroutine awaiters"); ctx.analysed(fn)
        e = E(m); e.h_assign = lambda p, t, st, n: ("put", p, t)
        for k, st, v in e.run(fn, ()):
            if k != "ret": continue
            pid = fn.params[0]
            rec = [ev for ev in st.mon if ev[0] == "put" and ev[1] and ev[1][-1] != "()" and mentions(ev[2], pid[1]) and mentions(ev[1], "promise")]
            if not rec: ctx.violation(f"caller-not-recorded:{c.n}", "await_suspend transfers control without recording the awaiting coroutine in the promise", fn, path=steps(st))
            t = st.read(v.p) if isinstance(v, Loc) else v
            if not any(mentions(t, f["n"]) for f in own): ctx.violation(f"wrong-transfer:{c.n}", f"await_suspend hands control to {show(t)} instead of the awaited coroutine", fn, path=steps(st))
        for g in methods(m, c, "await_resume"):
            ctx.count("await_resume functions"); ctx.analysed(g)
            e = E(m); e.opaque = E.opaque + ("result",)
            e.h_call = lambda name, n, st, obj, args, eng, fr: ("result",) if name.split("::")[-1] == "result" and "promise" in repr(obj) else None
            for k, st, v in e.run(g, ()):
                if k == "ret" and ("result",) not in st.mon: ctx.violation(f"result-skipped:{c.n}", "await_resume completes without taking the awaited coroutine's result (its exception is lost)", g, path=steps(st))
        for g in methods(m, c, "await_ready"):
            e = E(m)
            for k, st, v in e.run(g, ()):
                t = st.read(v.p) if isinstance(v, Loc) else v
                if st.holds(t) is not False: ctx.violation(f"never-started:{c.n}", "await_ready may return true: the awaited coroutine would never be started", g)
    # entry points
    for fn in m.named("EventLoop::sync"):
        ctx.count("sync functions"); ctx.analysed(fn)
        e = E(m); e.opaque = E.opaque + ("EventLoop::trySync",)
        e.lib_throws = lambda n, x: False
        e.h_call = lambda name, n, st, obj, args, eng, fr: ("run",) if name.endswith("trySync") else None
        idx0 = None
        for k, st, v in e.run(fn, ()):
            if k == "ret":
                # the branch taken must say the Try holds a value (index 0)
                if not any(f[0] == "eq0" and mentions(f, "_idx") or f[0] == "eq0" for f in st.facts): ctx.violation("sync-swallows", "sync() returns normally although the task may have ended with an exception", fn, path=steps(st))
                if ("run",) not in st.mon: ctx.violation("sync-not-run", "sync() returns without running the task", fn)
    for fn in m.named("EventLoop::trySync", "EventLoop::tryAsync"):
        ctx.count("trySync/tryAsync functions"); ctx.analysed(fn)
        e = E(m); e.opaque = E.opaque + ("Try::setVal", "Try::setException", "EventLoop::run")
        def call(name, n, st, obj, args, eng, fr):
            if name.endswith("Try::setVal"): return ("val",)
            if name.endswith("Try::setException"): return ("exc", "current_exception" in repr(args and (eng.val(st, args[0]))))
            return None
        e.h_call = call
        lams = [f for f in m.fns.values() if f.lam and f.encl == fn.id and f.coro]
        ctx.require(lams, f"no wrapper coroutine in {fn.n}")
        for l in lams:
            ctx.count("wrapper coroutines"); ctx.analysed(l)
            e.h_call = call
            for k, st, v in e.run(l, ()):
                if k == "exc": ctx.violation(f"wrapper-escape:{fn.short}", "an exception of the task escapes the wrapper coroutine of " + fn.short, l, path=steps(st)); continue
                evs = [x for x in st.mon]
                if evs not in ([("val",)], [("exc", True)], [("val",), ("exc", True)]): ctx.violation(f"wrapper-result:{fn.short}", f"the task's outcome is not stored exactly once (events: {evs})", l, path=steps(st))
            # the exception branch must exist and the value branch must follow the await
            aw = [x for x in l.walk() if x.k == "CoawaitExpr"]
            if not aw: ctx.violation(f"wrapper-noawait:{fn.short}", "the wrapper does not await the task", l)
        if fn.short == "trySync":
            e2 = E(m); e2.opaque = ("EventLoop::run", "IoUring::isRun")
            e2.h_call = lambda name, n, st, obj, args, eng, fr: ("loop",) if name.endswith("EventLoop::run") else (("resume",) if name == "std::coroutine_handle::resume" else None)
            for k, st, v in e2.run(fn, ()):
                if k == "ret" and st.mon[-2:] != (("resume",), ("loop",)): ctx.violation("trySync-not-run", f"trySync returns without starting the task and then running the loop (did {st.mon})", fn)
    for k, n in (("promise types", 10), ("unhandled_exception functions", 5), ("result functions", 5), ("return_value functions", 6), ("coroutine awaiters", 3), ("await_resume functions", 3), ("sync functions", 2), ("wrapper coroutines", 4), ("final awaiter paths", 2)): ctx.at_least(k, n)

def _vals(st, v):
    if isinstance(v, Loc):
        out = [st.read(v.p)] + [x for k, x in st.env.items() if k[0] not in ("ver", "ref") and len(k) > len(v.p) and k[:len(v.p)] == v.p]
        return out
    out = [v]
    return out + [x for k, x in st.env.items() if k[0] not in ("ver", "ref") and isinstance(k[0], tuple) and k[0][0] in ("tmp",)]

def check_result(ctx, m, c, fn, eps):
    e = E(m)
    e.h_call = lambda name, n, st, obj, args, eng, fr: ("move", obj.p) if name.endswith("Uninitialized::move") else ("rethrow", eng.val(st, args[0])) if name == "std::rethrow_exception" else None
    seen_r = False
    for k, st, v in e.run(fn, ()):
        for ev in st.mon:
            if ev[0] == "rethrow": seen_r = any(mentions(ev[1], f) for f in eps)
        if k == "ret":
            if not any(st.holds(T_truth(st.read((("root", "this"), f)))) is False for f in eps): ctx.violation(f"exception-lost:{c.n}::result", "result() returns although the coroutine may have ended with an exception", fn, path=steps(st))
            if fn.ret != "void" and not any(ev[0] == "move" and ev[1][:1] == (("root", "this"),) for ev in st.mon): ctx.violation(f"value-lost:{c.n}::result", "result() returns something other than the stored value", fn, path=steps(st))
    if not seen_r and not any("rethrow_exception" in x.name for x in fn.walk()): ctx.violation(f"no-rethrow:{c.n}::result", "result() never rethrows the stored exception", fn)
