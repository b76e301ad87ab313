"""Thread pool tasks and futures: the closures that run user functions on a worker, the shared result they publish to,
the readers of that result and the coroutine awaiter on top of it, each explored on all paths including the ones where
the user's function throws."""
from rules import *
META = dict(title="A pool task runs once and its future yields exactly its result or exception",
    statement="A function given to addTask or thenTry is run exactly once by the worker that takes it from the queue, with the arguments it was given (for thenTry: the predecessor's value or exception), and its result or the exception it threw is what get, thenTry or co_await on the returned future yields. A future becomes ready only after its result is stored, get and wait return only then, and a coroutine awaiting a future is resumed exactly once, with the result in place.",
    over=["schedules", "programs"], q="every function, argument list and return type, every interleaving of workers, waiters and continuations, every point at which the function may throw",
    why="Tests run chains of quick tasks whose results are read later; the guarantee concerns throwing functions, results read before, while and after they are produced, and coroutines resumed on another thread before the dispatching call has returned.",
    files=["container/ThreadPool.hpp", "container/FutureResult.hpp", "container/MoveApply.hpp", "container/MoveOnlyFunction.hpp"],
    mech=[("addTask, thenTry and worker loop", "container/ThreadPool.hpp"), ("shared result and coroutine awaiter", "container/FutureResult.hpp"), ("argument keeping and passing", "container/MoveApply.hpp")],
    technique="path-sensitive abstract interpretation of task closures, result accessors and the future's awaiter with an event-order and value-flow monitor",
    note="Every closure, accessor and awaiter instantiated by the harness (void, value and Try results, by-value and by-reference arguments).",
    design="""The shared result is recognised by its fields (mutex, condition variable, exception pointer, flag). Each task closure: the user's function is
called exactly once; if it returned, exactly its value is stored, if it threw, std::current_exception() is stored, then the ready flag is set and
waiters are notified, once, and nothing escapes; a continuation first obtains its predecessor's outcome and passes on that value or that exception; a Try it
returns is unwrapped with the right polarity; the future handed out shares the result the closure publishes to; the closure is queued once. Accessors: get/wait return
only on paths where the flag is known set under the predicate and no exception is stored, throw only if one is stored; get returns the stored value. Worker: each popped
task is called exactly once. Argument passing: elements in order, reference arguments are not moved from. Coroutine awaiter: the coroutine handle is stored before dispatch, the dispatched future
is not a member of the frame that may be gone, nothing of the frame is touched afterwards; the completion closure stores the outcome before its single resume and touches
nothing of the frame after it; await_resume rethrows or returns the stored outcome.""")
TUS = ["coro"]
ASSUMES = ["the pool keeps running until its futures are ready (tasks still queued when the pool is destroyed are dropped)", "mutexes, condition variables, std::queue and std::thread behave as specified", "moving a result does not throw"]
def base(t): return t.replace("const ", "").rstrip("& ").strip()

def check(ctx):
    m = ctx.model("coro")
    ctx.rule("task closure: user function called exactly once; value xor current_exception stored, then flag set, then notify; nothing escapes")
    ctx.rule("continuation: predecessor's value or exception is the argument; Try results are unwrapped")
    ctx.rule("accessors: return only with the flag known set and no exception; throw only with a stored exception")
    ctx.rule("worker: pop and call alternate; closure queued exactly once")
    ctx.rule("future awaiter: handle stored before dispatch; result stored before the only resume; frame untouched after dispatch/resume")
    RES = {}
    for c in m.classes.values():
        if "/container/" not in c.file: continue
        b = fields_of(c, lambda t: t == "bool"); x = fields_of(c, lambda t: "exception_ptr" in t); mu = fields_of(c, lambda t: "mutex" in t); cv = fields_of(c, lambda t: "condition_variable" in t)
        d = fields_of(c, lambda t: t.startswith("HX::container::Uninitialized<") or t.startswith("std::optional<"))
        if b and x and mu and cv and d: RES[c.full] = (c, d[0], x[0], b[0])
    ctx.require(len(RES) >= 2, "no shared-result classes found")
    R = list(RES.values())[0]; D, X, B = R[1:]
    rescls = {c.n for c, *_ in RES.values()}
    closures(ctx, m, D, X, B)
    accessors(ctx, m, D, X, B, rescls)
    worker(ctx, m)
    args_(ctx, m)
    awaiters(ctx, m)
    ctx.at_least("task closures", 10); ctx.at_least("continuation closures", 6); ctx.at_least("accessor paths", 8); ctx.at_least("worker loops", 1); ctx.at_least("future awaiters", 2)

class K(Calls):
    """events: user(ret|thrown, argkind), pred(ret|thrown), data(term), exc(kind), flag, notify"""
    maxlen = 40
    opaque = ("FutureResult::get", "FutureResult::wait")
    def setup(s, D, X, B, caps):
        s.caps = caps; s.D = D; s.X = X; s.B = B; s.h_call = s._call; s.h_assign = s._asg; s.lib_throws = lambda n, x: False
    def _two(s, st, fr, n, what, ev, sym):
        s.throw(s.emit(st, fr, n, (what, "thrown") + ev), fr, "?", n)
        return [(s.emit(st, fr, n, (what, "ret") + ev), sym)]
    def capname(s, p):
        if not p or not isinstance(p[0], tuple): return None
        nm = p[0][-1] if p[0][0] in ("v", "root") and isinstance(p[0][-1], str) else p[0][1] if p[0][0] == "root" else None
        return nm if nm in s.caps else None
    def _call(s, name, n, st, obj, args, eng, fr):
        short = name.split("::")[-1]
        p = obj.p if isinstance(obj, Loc) else None
        if short == "operator()" and p is not None and len(p) == 1 and s.capname(p):
            return s._two(st, fr, n, "user", (tuple(kind_of(s, st, a) for a in args),), ("sym", "user"))
        if name in ("std::invoke", "std::apply", "std::invoke_r") and args and isinstance(args[0], Loc) and len(args[0].p) == 1 and s.capname(args[0].p):
            return s._two(st, fr, n, "user", (tuple(kind_of(s, st, a) for a in args[1:]),), ("sym", "user"))
        if short in ("get", "wait") and "FutureResult" in name: return s._two(st, fr, n, "pred", (), ("sym", "pred"))
        if short == "set" and "Uninitialized" in name and p and p[-1] == s.D and "*" in p: 
            return ("data", "user" if args and mentions(eng.val(st, args[0]), ("sym", "user")) or args and derived(st, args[0], ("sym", "user")) else "empty" if args and "NonVoid" in repr(eng.val(st, args[0])) else "?" , polarity(st))
        if short in ("notify_all", "notify_one"): return ("notify",)
        if short == "emplace" and p and p[-1] == s.D and "*" in p: return ("data", "user" if args and mentions(eng.val(st, args[0]), ("sym", "user")) else "?", polarity(st))
        return None
    def _asg(s, p, t, st, n):
        if p and p[-1] == s.X and "*" in p: return ("exc", "cur" if "current_exception" in repr(t) else "pred" if mentions(t, s.X) else "?", polarity(st))
        if p and p[-1] == s.B and "*" in p: return ("flag", t)
        return None

def kind_of(s, st, a):
    vals = reach(st, a)
    if any(mentions(v, ("sym", "pred")) for v in vals): return "predval"
    if any(mentions(v, s.X) or "current_exception" in repr(v) for v in vals): return "predexc"
    return "?"
def derived(st, a, sym): return any(mentions(v, sym) for v in reach(st, a))
def polarity(st):
    """what is known about the variant index of a user-returned Try: 0 value, 1 exception"""
    return None

def closures(ctx, m, D, X, B):
    lams = [f for f in m.fns.values() if f.lam and f.short in ("operator()", "(lambda)") and f.encl in m.fns and f.body is not None]
    for f in m.fns.values():
        if not f.lam or f.encl not in m.fns or f.imp or f.ctor or f.dtor or f.body is None: continue
        E = m.fns[f.encl]
        if E.short not in ("addTask", "thenTry") or "/container/" not in f.file or f.params: continue
        cont = E.short == "thenTry"
        caps = capnames(f, E)
        ctx.analysed(f)
        e = K(m); e.setup(D, X, B, caps)
        hasans = any(is_call(n) and call_short(n) in ("setData", "unhandledException", "ready") for n in f.walk()) or any("shared_ptr" in x for x in f.raw.get("capt", []))
        ctx.count("continuation closures" if cont else "task closures")
        key = E.short
        outs = e.run(f, ())
        publishes = E.ret != "void"
        tried = E.ret and cont and publishes and is_try_result(f)
        kinds = set()
        for k, st, v in outs:
            us = [x for x in st.mon if x[0] == "user"]; pr = [x for x in st.mon if x[0] == "pred"]
            pub = [x for x in st.mon if x[0] in ("data", "exc")]; fl = [x for x in st.mon if x[0] == "flag"]
            if k != "ret": ctx.violation(f"closure-escapes:{key}", "an exception escapes the task closure and ends the worker", f, path=steps(st)); continue
            if len(us) != 1: ctx.violation(f"user-called:{key}", f"the user's function is called {len(us)} times", f, path=steps(st)); continue
            if cont:
                if len(pr) != 1 or st.mon.index(pr[0]) > st.mon.index(us[0]): ctx.violation(f"predecessor:{key}", "the continuation runs without having obtained its predecessor's outcome", f, path=steps(st)); continue
                want = "predval" if pr[0][1] == "ret" else "predexc"
                if us[0][2] != (want,) and not (pr[0][1] == "ret" and E.clsfull.endswith(("FutureResult<>", "FutureResult<void>")) and "predexc" not in us[0][2]): ctx.violation(f"predecessor-passed:{key}", f"{E.clsfull}: a predecessor that {'returned' if pr[0][1] == 'ret' else 'threw'} is passed on as {us[0][2]}", f, path=steps(st))
            if not publishes: continue
            if len(pub) != 1: ctx.violation(f"published:{key}", f"{len(pub)} outcomes are stored in the future", f, path=steps(st)); continue
            if [x[1] for x in fl] != [C(1)]: ctx.violation(f"ready:{key}", f"the future is marked ready {len(fl)} times", f, path=steps(st)); continue
            if st.mon.index(fl[0]) < st.mon.index(pub[0]): ctx.violation(f"ready-early:{key}", "the future is marked ready before its outcome is stored", f, path=steps(st))
            if ("notify",) not in st.mon[st.mon.index(fl[0]):]: ctx.violation(f"notify:{key}", "waiters are not notified after the future became ready", f, path=steps(st))
            kinds.add((us[0][1], pub[0][0]))
            if us[0][1] == "thrown" and (pub[0][0] != "exc" or pub[0][1] != "cur"): ctx.violation(f"exception-published:{key}", "the exception of the user's function is not what the future gets", f, path=steps(st))
            if us[0][1] == "ret":
                if pub[0][0] == "exc" and not tried: ctx.violation(f"value-published:{key}", "the user's function returned but the future gets an exception", f, path=steps(st))
                if pub[0][0] == "data" and pub[0][1] == "?" : ctx.violation(f"value-published:{key}", "the value stored in the future is not what the user's function returned", f, path=steps(st))
                if tried:
                    vi = try_state(st)
                    if pub[0][0] == "data" and vi is not True: ctx.violation(f"try-unwrapped:{key}", "a returned Try is taken as a value without being known to hold one", f, path=steps(st))
                    if pub[0][0] == "exc" and vi is not False: ctx.violation(f"try-unwrapped:{key}", "a returned Try that may hold a value becomes an exception", f, path=steps(st))
        if tried and ("ret", "exc") not in kinds: ctx.violation(f"try-unwrapped:{key}", "a returned Try holding an exception is not passed on as one", f)
    # the closure is queued once and shares the result
    for f in m.fns.values():
        if f.short not in ("addTask", "thenTry") or "/container/" not in f.file or f.lam or f.clsn and f.clsn.endswith("MoveOnlyFunctionAny"): continue
        ctx.analysed(f)
        e = Calls(m); e.lib_throws = lambda n, x: False; e.local = True
        e.opaque = ("ThreadPool::addTask", "SafeQueue::emplace")
        def call(name, n, st, obj, args, eng, fr):
            sh = name.split("::")[-1]
            if sh in ("emplace", "push") and obj is not None and isinstance(obj, Loc) and obj.p[:1] == (("root", "this"),): return ("queue", "")
            if sh == "addTask": return [(eng.emit(st, fr, n, ("queue", ""), ), ("sym", "fut"))]
            if sh == "getFutureResult" and isinstance(obj, Loc): return [(eng.emit(st, fr, n, ("share", obj.p)), ("sym", "shared"))]
            return None
        e.h_call = call; e.into = ("FutureResult::(ctor)",)
        ctx.count("dispatchers")
        for k, st, v in e.run(f, ()):
            q = [x for x in st.mon if x[0] == "queue"]
            if len(q) != 1: ctx.violation(f"queued:{f.short}", f"the task is queued {len(q)} times", f, path=steps(st))
            for x in st.mon:
                if x[0] == "share" and k == "ret" and isinstance(v, tuple) and v[:1] == ("in",) and v[1] != x[1]: ctx.violation(f"same-result:{f.short}", "the task fulfils a result other than the one of the returned future", f, path=steps(st))

def capnames(f, E):
    s = set()
    for n in E.walk():
        if n.k == "LambdaExpr":
            for c in n.get("caps", []) or []:
                if isinstance(c, dict): s.add(c.get("n", "")); 
                elif isinstance(c, (list, tuple)): s |= {x for x in c if isinstance(x, str)}
    return s | {"func", "_func", "ans", "self", "argWap"}
def is_try_result(f):
    return any(n.k == "DeclStmt" and any("Try<" in f.model.strs[v["t"]] and "Uninitialized<" in f.model.strs[v["t"]] and v["n"] != "data" for v in n.get("vars", [])) for n in f.walk()) or any(is_call(n) and call_short(n) == "isVal" for n in f.walk())
def try_state(st):
    for x in st.facts:
        if x[0] in ("eq0", "ne0") and any(isinstance(y, tuple) and y and y[-1] == "_idx" for y in walk_term(x)):
            return x[0] == "eq0" if x[1][1] == 0 else None
        if x[0] in ("eq0", "ne0") and mentions(x, ("sym", "user")): return x[0] == "ne0"
    return None

def accessors(ctx, m, D, X, B, rescls):
    for f in m.fns.values():
        if "/container/" not in f.file or f.lam or f.ctor or f.dtor or f.imp: continue
        own = f.clsn in rescls
        fut = any(f.clsn == c.rsplit("::", 1)[0] for c in rescls) 
        if not (own or fut) or f.short not in ("wait", "get", "data", "ready", "setData", "unhandledException", "isException", "getException"): continue
        ctx.analysed(f)
        e = Calls(m); e.lib_throws = lambda n, x: False
        e.into = tuple(c.split("::", 2)[-1] + "::" + x for c in rescls for x in ("wait", "data", "isException", "getException", "ready"))
        def call(name, n, st, obj, args, eng, fr):
            sh = name.split("::")[-1]
            if sh == "wait" and "condition_variable" in name:
                o = obj.p[:-1]
                s = eng.emit(st, fr, n, ("cvwait",)).havoc(o + (B,), ("w", n.id)).havoc(o + (X,), ("w2", n.id)).havoc(o + (D,), ("w3", n.id))
                if len(args) >= 2:
                    r = []
                    for s1, v in eng.call_lambda(eng.val(s, args[1]), s, fr, n, []):
                        y = s1.assume(T_truth(eng.val(s1, v)))
                        if y is not None: r.append((y, ("void",)))
                    return r
                return [(s, ("void",))]
            if sh == "move" and "Uninitialized" in name: return [(eng.emit(st, fr, n, ("take", obj.p[-1] if isinstance(obj, Loc) else "?")), ("sym", "taken"))]
            if sh == "set" and "Uninitialized" in name: return [(eng.emit(st, fr, n, ("put", obj.p[-1] if isinstance(obj, Loc) else "?", mentions(eng.val(st, args[0]), f.params[0][1]) if f.params and args else False)), ("void",))]
            if sh in ("notify_all", "notify_one"): return ("notify",)
        e.h_call = call; e.h_assign = lambda p, t, st, n: ("flag", t) if p and p[-1] == B else ("exc", "cur" if "current_exception" in repr(t) else "?") if p and p[-1] == X else None
        outs = e.run(f, ())
        key = f.short
        for k, st, v in outs:
            ctx.count("accessor paths")
            pre = (("root", "this"),) if own else None
            fl = [x for x in st.facts if any(isinstance(y, tuple) and y and y[-1] == B for y in walk_term(x))]
            ex = [x for x in st.facts if x[0] in ("eq0", "ne0") and any(isinstance(y, tuple) and y and y[-1] == X for y in walk_term(x))]
            flag = any(x[0] == "ne0" for x in fl); exc = True if any(x[0] == "ne0" for x in ex) else False if ex else None
            vv = st.read(v.p) if isinstance(v, Loc) else v
            if f.short in ("wait", "get"):
                if not flag: ctx.violation(f"wait-returns:{f.clsn}::{key}", "a path returns or throws without the ready flag being known set", f, path=steps(st))
                if fut and exc is None: ctx.violation(f"wait-exception:{f.clsn}::{key}", "a path does not look at the stored exception", f, path=steps(st))
                if fut and k == "ret" and exc is True: ctx.violation(f"wait-swallows:{f.clsn}::{key}", "a stored exception is not rethrown", f, path=steps(st))
                if k == "exc" and exc is not True: ctx.violation(f"wait-throws:{f.clsn}::{key}", "an exception is thrown although none is known to be stored", f, path=steps(st))
            if f.short in ("data", "get") and k == "ret":
                if exc is not False: ctx.violation(f"data-exception:{f.clsn}::{key}", "the value is returned although an exception may be stored", f, path=steps(st))
                if [x for x in st.mon if x[0] == "take"] != [("take", D)]: ctx.violation(f"data-value:{f.clsn}::{key}", "what is returned is not the stored value", f, path=steps(st))
            if f.short == "isException" and not (isinstance(vv, tuple) and vv[0] == "ne0" and mentions(vv, X)) : ctx.violation(f"is-exception:{f.clsn}", f"isException() answers {show(vv)}", f)
            if f.short == "getException" and not mentions(vv, X): ctx.violation(f"get-exception:{f.clsn}", f"getException() returns {show(vv)}", f)
            if f.short in ("ready", "setData", "unhandledException"):
                if ("flag", C(1)) not in st.mon: ctx.violation(f"ready:{f.clsn}::{key}", "the ready flag is not set", f, path=steps(st)); continue
                i = st.mon.index(("flag", C(1)))
                if ("notify",) not in st.mon[i:]: ctx.violation(f"notify:{f.clsn}::{key}", "waiters are not notified after the flag is set", f, path=steps(st))
                if f.short == "setData" and ("put", D, True) not in st.mon[:i]: ctx.violation(f"store:{f.clsn}::{key}", "the value is not stored before the flag is set", f, path=steps(st))
                if f.short == "unhandledException" and ("exc", "cur") not in st.mon[:i]: ctx.violation(f"store:{f.clsn}::{key}", "the current exception is not stored before the flag is set", f, path=steps(st))

def worker(ctx, m):
    for f in m.fns.values():
        if "/container/" not in f.file or not any(is_call(n) and n.name.endswith("MoveOnlyFunction::call") for n in f.walk()): continue
        ctx.analysed(f); ctx.count("worker loops")
        e = Calls(m); e.lib_throws = lambda n, x: False; e.rep = 3
        def call(name, n, st, obj, args, eng, fr):
            if name.endswith("SafeQueue::frontAndPop") or (name.endswith("::pop")): return ("pop", obj.p[-1] if isinstance(obj, Loc) else "?")
            if name.endswith("MoveOnlyFunction::call"): return ("call",)
        e.h_call = call; e.opaque = ("SafeQueue::frontAndPop",)
        for k, st, v in e.run(f, ()):
            seq = [x[0] for x in st.mon if x[0] in ("pop", "call")]
            for i, x in enumerate(seq):
                if x == "call" and (i == 0 or seq[i - 1] != "pop"): ctx.violation("task-run:twice", "a worker calls a task it has not just taken from the queue (it would run again or not be there)", f, path=steps(st)); break
                if x == "pop" and i + 1 < len(seq) and seq[i + 1] == "pop": ctx.violation("task-run:dropped", "a worker takes a second task without having run the first", f, path=steps(st)); break
            if seq and seq[-1] == "pop" and len(seq) < 5: ctx.violation("task-run:dropped", "a worker leaves with a task it took but did not run", f, path=steps(st))
    for f in m.named("MoveOnlyFunctionAny::call"):
        ctx.analysed(f); ctx.count("erased calls")
        e = Calls(m); e.lib_throws = lambda n, x: False; e.local = False
        e.opaque = ()
        def call(name, n, st, obj, args, eng, fr):
            if (name.endswith("operator()") or not name) and fr.fn is f: return [(eng.emit(st, fr, n, ("cb",)), ("void",))]
        e.h_call = call
        for k, st, v in e.run(f, ()):
            if [x for x in st.mon] != [("cb",)]: ctx.violation("erased-call", f"a type-erased task calls its function {len(st.mon)} times", f, path=steps(st))
    ctx.at_least("erased calls", 1)

def args_(ctx, m):
    for f in m.named("moveApplyImpl"):
        ctx.analysed(f); ctx.count("argument passing")
        e = Calls(m); e.lib_throws = lambda n, x: False
        tp = f.params[1]; R = (("root", tp[1], tp[0]),)
        def call(name, n, st, obj, args, eng, fr):
            if fr.fn is f and (name.endswith("operator()") or not name): return [(eng.emit(st, fr, n, ("user", tuple(apath(a) for a in args))), ("sym", "r"))]
        e.h_call = call
        for k, st, v in e.run(f, ()):
            want = [("user", tuple(R + (("get", i),) for i in range(count_args(base(tp[2])))))]
            if list(st.mon) != want: ctx.violation("arguments", f"the function is called with {[[show_path(p) for p in x[1]] for x in st.mon]}", f, path=steps(st))
    for f in m.named("getPreserveTupleByIdx"):
        ctx.analysed(f); ctx.count("argument categories")
        import re
        i = int(re.search(r"<(\d+)UL", f.full).group(1)); el = elems(base(f.params[0][2]))
        if i < len(el):
            lref = el[i].endswith("&") and not el[i].endswith("&&")
            if lref and f.ret.endswith("&&"): ctx.violation("argument-moved", f"an argument passed by reference ({el[i]}) is moved from", f)
    for f in m.named("makePreserveTuple"):
        ctx.count("kept arguments"); el = elems(f.ret)
        for (pid, pn, pt), t in zip(f.params, el):
            lref = pt.endswith("&") and not pt.endswith("&&")
            if lref and base(pt) == base(t) and not t.endswith("&"): pass
            if not lref and t.endswith("&"): ctx.violation("argument-dangles", f"an rvalue argument is kept as {t}: it is gone when the task runs", f)
    ctx.at_least("argument passing", 3)

def apath(a):
    if isinstance(a, Loc): return a.p
    if a[0] == "in": return a[1]
    if a[0] == "ctor" and len(a) == 3: return apath(a[2])
    return ("?",)
def elems(t):
    t = t[t.index("<") + 1:t.rindex(">")]; d = 0; o = [""]
    for ch in t:
        if ch in "<(": d += 1
        elif ch in ">)": d -= 1
        if ch == "," and d == 0: o.append(""); continue
        o[-1] += ch
    return [x.strip() for x in o if x.strip()]
def count_args(t): return len(elems(t))

def awaiters(ctx, m):
    AW = [c for c in m.classes.values() if "/container/" in c.file and any(x["t"].replace("const ", "").startswith("std::coroutine_handle") for x in c.fields) and any("FutureResult" in x["t"] for x in c.fields)]
    for c in AW:
        ctx.count("future awaiters")
        H = fields_of(c, lambda t: t.startswith("std::coroutine_handle"))[0]
        U = [x["n"] for x in c.fields if "Uninitialized<" in x["t"] or "optional<" in x["t"]][0]
        this = (("root", "this"),)
        for f in methods(m, c, "await_suspend"):
            ctx.analysed(f)
            pid = f.params[0]
            e = Calls(m); e.lib_throws = lambda n, x: False; e.opaque = ("FutureResult::thenTry", "EventLoop::makeTheradTask", "ThreadPool::addTask")
            lams = []
            def call(name, n, st, obj, args, eng, fr):
                sh = name.split("::")[-1]
                if sh in ("thenTry", "addTask"):
                    for a in args:
                        t = eng.val(st, a)
                        if t[0] == "lam" and t not in lams: lams.append(t)
                    return [(eng.emit(st, fr, n, ("dispatch", isinstance(obj, Loc) and obj.p[:1] == this)), ("void",))]
                if any(x[0] == "dispatch" for x in st.mon) and isinstance(obj, Loc) and obj.p[:1] == this: return ("frame-used", sh)
                if sh == "makeTheradTask": return ("register",)
                return None
            e.h_call = call
            e.h_assign = lambda p, t, st, n: ("handle", t) if p == this + (H,) else ("frame-used", show_path(p)) if p[:1] == this and any(x[0] == "dispatch" for x in st.mon) else None
            for k, st, v in e.run(f, ()):
                if k != "ret": continue
                d = [x for x in st.mon if x[0] == "dispatch"]
                if len(d) != 1: ctx.violation("await-dispatch", f"the continuation that resumes the coroutine is dispatched {len(d)} times", f, path=steps(st)); continue
                i = st.mon.index(d[0]); h = [x for x in st.mon[:i] if x[0] == "handle"]
                if not h or not mentions(h[-1][1], (("v", 1, pid[0], pid[1]),)): ctx.violation("await-handle", "the coroutine is not recorded before the continuation that resumes it is dispatched", f, path=steps(st))
                if d[0][1]: ctx.violation("await-frame", "the dispatched future is part of the awaiting frame, which may be gone before the dispatching call returns", f, path=steps(st))
                if any(x[0] == "frame-used" for x in st.mon): ctx.violation("await-frame", "the awaiting frame is used after the continuation was dispatched", f, path=steps(st))
                if ("register",) not in st.mon[:i]: ctx.violation("await-register", "the event loop does not know about the pending task: it may stop before the coroutine is resumed", f, path=steps(st))
            for g in m.enclosed_lambdas(f):
                if g.imp or g.ctor or g.dtor or g.body is None: continue
                ctx.analysed(g); ctx.count("completion closures")
                e = Calls(m); e.lib_throws = lambda n, x: False; e.opaque = ("Uninitialized::set", "EventLoop::makeNopAioTask", "_hx_ThreadLoopController::notify", "Uninitialized::emplace")
                def call2(name, n, st, obj, args, eng, fr):
                    sh = name.split("::")[-1]; p = obj.p if isinstance(obj, Loc) else ()
                    if sh in ("set", "emplace") and U in p: return ("store", bool(g.params) and bool(args) and (args[0].p[0] if isinstance(args[0], Loc) else None) is not None and g.params[0][1] in repr(args[0].p))
                    if sh == "resume": return ("resume", H in p)
                    if sh == "makeNopAioTask": return ("wake",)
                    if sh == "notify": return ("unregister",)
                    if any(x[0] == "resume" for x in st.mon) and (H in p or U in p): return ("frame-used", sh)
                e.h_call = call2
                for k, st, v in e.run(g, ()):
                    ev = [x[0] for x in st.mon]
                    if ev.count("resume") != 1: ctx.violation("resume-count", f"the awaiting coroutine is resumed {ev.count('resume')} times", g, path=steps(st)); continue
                    r = ev.index("resume")
                    if not any(x == ("store", True) for x in st.mon[:r]): ctx.violation("resume-result", "the coroutine is resumed before the outcome is in place", g, path=steps(st))
                    if "frame-used" in ev: ctx.violation("resume-frame", "the frame is used after the coroutine was resumed", g, path=steps(st))
                    if "unregister" not in ev[r:]: ctx.violation("resume-unregister", "the pending task stays registered after the coroutine ran (or is dropped before it did)", g, path=steps(st))
                    elif "wake" not in ev[ev.index("unregister"):]: ctx.violation("resume-wake", "the event loop is not woken after the pending task ended", g, path=steps(st))
        for f in methods(m, c, "await_resume"):
            ctx.analysed(f)
            e = Calls(m); e.lib_throws = lambda n, x: False; e.opaque = ("Uninitialized::move", "Try::move", "Try::rethrow", "Try::operator bool", "Try::isVal", "Try::get")
            def call3(name, n, st, obj, args, eng, fr):
                sh = name.split("::")[-1]
                if sh == "rethrow": eng.throw(eng.emit(st, fr, n, ("rethrow",)), fr, "?", n); return []
                if sh in ("operator bool", "isVal") and "Try" in name: return [(st, ("sym", "isval"))]
                if sh in ("move", "get") and "Try::" in name: return [(eng.emit(st, fr, n, ("value",)), ("sym", "tv"))]
            e.h_call = call3
            for k, st, v in e.run(f, ()):
                ctx.count("await_resume paths")
                h = st.holds(T_truth(("sym", "isval")))
                if k == "ret" and (h is not True or ("value",) not in st.mon): ctx.violation("resume-value", "co_await returns without the outcome being known to be a value", f, path=steps(st))
                if k == "exc" and h is not False: ctx.violation("resume-throws", "co_await throws although the outcome may be a value", f, path=steps(st))
        ctx.at_least("completion closures", 1)
