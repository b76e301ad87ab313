"""The io_uring event loop: one completion, one resumption, with that completion's result; every
prepared operation is submitted as asked; the loop returns only when nothing is pending."""
from rules import *
META = dict(title="Each I/O completion resumes exactly its own waiter with its own result",
    statement="Every asynchronous I/O operation a coroutine awaits is submitted to the kernel as requested, and its completion resumes that coroutine exactly once with that completion's result. Cancelled or internal wake-up completions resume nobody, none is lost, counted twice or delivered to an object that no longer exists. Running the event loop returns only when no operation, timer or thread task is outstanding.",
    over=["schedules", "fault_sequences"], q="every batch of completions (including cancellations, empty wake-ups, interrupted or failed waits) in every order",
    why="Tests see a handful of completions per batch on a healthy kernel; cancelled, interrupted or simultaneous completions depend on timing.",
    files=["coroutine/loop/EventLoop.hpp", "coroutine/task/AioTask.hpp"],
    mech=[("completion loop", "coroutine/loop/EventLoop.hpp IoUring::run"), ("pending-operation count", "coroutine/loop/EventLoop.hpp IoUring::getSqe"), ("operation awaiter", "coroutine/task/AioTask.hpp")],
    technique="path-sensitive abstract interpretation with an event trace per completion batch and a linear counter domain",
    note="Every path of the loop for batches of zero, one and two completions (the loop body is then repeated under the same facts).",
    design="""The operation class is the one whose constructor stores `this` with io_uring_sqe_set_data. In the completion loop, on every path: the number
handed to the completion-queue advance and subtracted from the pending count equals the number of completions taken; user data is dereferenced
only where the result is known not to be -ECANCELED and the pointer known non-null, and there the result is stored before the waiter is queued, exactly
once; the queue is resumed and emptied before the function returns. A negative wait result other than timeout/interrupt throws and touches no completion.
Acquiring a submission entry counts it exactly once and never returns null. Each prep wrapper makes exactly one io_uring_prep_* call on its own entry and passes
its parameters in order. The loop's only exit needs pending count zero, no timer and no thread task, all read after the last thing that ran. A class registered as user
data must cancel or wait in its destructor (known finding).""")
TUS = ["coro", "net"]
ASSUMES = ["liburing and the kernel behave as documented"]
CQE = "io_uring_cqe"

def check(ctx):
    m = ctx.model("coro")
    ctx.rule("completions taken = completions advanced = pending count released, on every path")
    ctx.rule("user_data dereferenced iff result != -ECANCELED and pointer non-null; result stored and waiter queued exactly once; queue resumed then emptied")
    ctx.rule("submission entries: counted once each, never null; io_uring_prep_* receives the wrapper's parameters in order on its own entry")
    ctx.rule("event loop exits only when the drive, the timers and the thread tasks are all idle")
    ctx.rule("a class whose this pointer is io_uring user data cancels or awaits its operation before it dies")
    ops = []
    for f in m.fns.values():
        if f.ctor and any(n.name == "io_uring_sqe_set_data" for n in f.walk()): ops.append((cls_of(m, f), f))
    ctx.require(ops, "no class registers itself as io_uring user data")
    op, octor = ops[0]
    ctx.count("user-data classes", len(ops))
    for c, f in ops:
        ctx.analysed(f)
        dt = [g for g in m.fns.values() if g.cls == c.id and g.dtor and not g.imp and not g.raw.get("def")]
        if not any("cancel" in n.name or "wait" in n.name for g in dt for n in g.walk()):
            ctx.violation(f"dangling-user-data:{c.n}", "an operation object registered as user data can be destroyed while the kernel still owns it: its completion is written into freed memory", f)
        e = Calls(m); e.h_call = lambda name, n, st, obj, args, eng, fr: ("data", eng.val(st, args[0]), eng.val(st, args[1])) if name == "io_uring_sqe_set_data" else None
        for k, st, v in e.run(f, ()):
            d = [x for x in st.mon if x[0] == "data"]
            if k == "ret" and (len(d) != 1 or d[0][2] != ("addr", (("root", "this"),))): ctx.violation("user-data", "the operation does not register itself exactly once as the user data of its entry", f, path=steps(st))
    # awaiter: result slot, waiter slot
    res = wait = None
    for f in m.fns.values():
        if f.short == "await_suspend" and f.cls and f.clsn.startswith(op.n + "::"):
            ctx.analysed(f); pid, pn, _ = f.params[0]
            e = Calls(m); e.h_assign = lambda p, t, st, n: ("set", p, t)
            for k, st, v in e.run(f, ()):
                w = [x for x in st.mon if x[0] == "set" and mentions(x[2], pn)]
                if not w: ctx.violation("waiter-not-recorded", "awaiting an operation does not record the awaiting coroutine", f, path=steps(st))
                else: wait = w[-1][1][-1]
        if f.short == "await_resume" and f.clsn.startswith(op.n + "::"):
            ctx.analysed(f)
            for k, st, v in Calls(m).run(f, ()):
                t = st.read(v.p) if isinstance(v, Loc) else v
                if t[0] == "in": res = t[1][-1]
                else: ctx.violation("result-replaced", f"await_resume returns {show(t)} instead of the completion's result", f)
        if f.short == "await_ready" and f.clsn.startswith(op.n + "::"):
            for k, st, v in Calls(m).run(f, ()):
                if st.holds(v if isinstance(v, tuple) else st.read(v.p)) is not False: ctx.violation("op-ready", "an operation may report ready without having been submitted", f)
    ctx.require(res and wait, "result/waiter slots of the operation not identified")
    drives = {cls_of(m, f).id: cls_of(m, f) for f in m.fns.values() if f.cls and any(n.name == "io_uring_cq_advance" or n.name == "io_uring_cqe_seen" for n in f.walk()) and cls_of(m, f) is not None}
    for d in drives.values():
        for f in [f for f in m.fns.values() if f.cls == d.id and any(n.name.startswith("io_uring_cq") for n in f.walk())]:
            completion_loop(ctx, m, d, f, res, wait)
        entries(ctx, m, d)
    preps(ctx, ctx.model("net"), op)
    loops(ctx, m, drives)
    for k, n in (("completion paths", 4), ("prep wrappers", 5), ("entry acquisitions", 1), ("loop exits", 1)): ctx.at_least(k, n)

def pend_field(d): 
    fs = fields_of(d, lambda t: t in ("unsigned long", "unsigned int", "unsigned long long", "long", "int", "std::size_t", "size_t"))
    return fs[0] if len(fs) == 1 else None

def completion_loop(ctx, m, d, f, res, wait):
    ctx.analysed(f)
    this = (("root", "this"),); pend = pend_field(d)
    p0 = ("in", this + (pend,), ()) if pend else None
    e = Calls(m)
    def facts(st):
        canceled = nullp = None
        for x in st.facts:
            if x[0] in ("eq0", "ne0") and len(x[1][2]) == 1:
                t, c = x[1][2][0]
                if mentions(t, "user_data") and not mentions(t, res) and x[1][1] == 0: nullp = x[0] == "eq0"
                if mentions(t, "cqes") and show(t).endswith(".res") and x[1][1] * c == 125: canceled = x[0] == "eq0"
        return canceled, nullp
    def first(st): return (st.mon or ()).count(("cqe",)) <= 1
    def bad(key, msg, st): ctx.violation(f"{key}:{f.n}", msg, f, path=steps(st))
    def use(st):
        if not first(st): return
        c, nl = facts(st)
        if c is not False: bad("cancelled-delivered", "a completion is delivered without excluding a cancelled operation (its object may be gone)", st)
        if nl is not False: bad("null-user-data", "user data is dereferenced without excluding the internal wake-up's null", st)
    def call(name, n, st, obj, args, eng, fr):
        sh = name.split("::")[-1]
        if name == "io_uring_cq_advance": return ("adv", eng.val(st, args[1]))
        if name == "io_uring_cqe_seen": return ("adv", C(1))
        if sh in ("push_back", "emplace_back", "push", "emplace") and args and mentions(eng.val(st, args[0]), wait):
            use(st); return ("queue",)
        if name.startswith("std::coroutine_handle") and sh in ("resume", "operator()"):
            t = eng.val(st, obj)
            if mentions(t, wait): use(st); return ("resume1",)
            return ("resume",)
        if sh == "clear" and obj is not None and isinstance(obj, Loc) and obj.p[0] == ("root", "this"): return ("clear",)
        if "wait" in name and name.startswith("io_uring_"): return ("wait",)
        return None
    def assign(p, t, st, n):
        if t[0] == "addr" and mentions(t[1], "cqes"): return ("cqe",)
        if p[-1] == res and len(p) > 1:
            use(st)
            return ("res", show(t).endswith(".res") and mentions(t, "cqes") and mentions(p, "user_data"))
        return None
    def branch(st, fr, n, t, val):
        b = t if val else T_not(t)
        if b[0] == "eq0" and len(b[1][2]) == 1 and b[1][2][0][0][0] == "sym" and str(b[1][2][0][0][1][0]).startswith("io_uring_"): return [e.emit(st, fr, n, ("werr", abs(b[1][1])))]
        if "cqe" not in {x[0] for x in st.mon}: return None
        if True in facts(st): return [e.emit(st, fr, n, ("skip",))]
    e.h_call = call; e.h_assign = assign; e.on_branch = branch
    outs = []
    for k, st, v in e.run(f, ()):
        mon = list(st.mon); ev = [x[0] for x in mon]
        n = ev.count("cqe"); ctx.count("completion paths")
        if k == "exc":
            if n or set(ev) & {"res", "queue", "resume1", "adv", "resume"}: bad("throws-midway", "the completion loop can exit by exception after taking completions", st)
            elif "wait" in ev:
                no = {abs(x[1][1]) for x in st.facts if x[0] == "ne0" and len(x[1][2]) == 1 and x[1][2][0][0][0] == "sym" and str(x[1][2][0][0][1][0]).startswith("io_uring_")}
                if not {62, 4} <= no: bad("interrupted-wait-throws", "a wait that merely timed out or was interrupted by a signal ends the event loop with an exception", st)
            continue
        if "adv" not in ev:
            if n: bad("not-advanced", "completions are taken but the completion queue is not advanced: they would be delivered again", st)
            elif "wait" in ev and not {x[1] for x in mon if x[0] == "werr"} & {62, 4}: bad("wait-error-ignored", "the loop gives up on completions although the wait neither timed out nor was interrupted", st)
            continue
        if n < e.rep or n == 0:
            adv = C(0)
            for x in mon:
                if x[0] == "adv": adv = ladd(adv, x[1])
            if adv != C(n): bad("advance-count", f"{n} completion(s) are taken but the queue is advanced by {show(adv)}", st)
            if pend is not None and n < e.rep:
                now = st.read(this + (pend,))
                if not (now[0] == "in" and now[2]) and now != ladd(p0, C(-n)): bad("pending-count", f"after {n} completion(s) the pending count changes to {show(now)}", st)
        rs = [x for x in mon if x[0] == "res"]; qs = [x for x in ev if x in ("queue", "resume1")]
        if n == 0 and (rs or qs): bad("deliver-none", "a result is delivered without a completion", st)
        if n == 1:
            if not (rs or qs):
                if "skip" not in ev: bad("completion-lost", "a completion that is neither cancelled nor internal resumes nobody", st)
            else:
                if len(rs) != 1 or not rs[0][1]: bad("result-not-stored", "the completion's result is not what the operation is given", st)
                if len(qs) != 1: bad("resume-count", f"one completion queues its waiter {len(qs)} times", st)
                if rs and "resume1" in ev and ev.index("resume1") < ev.index("res"): bad("resume-before-result", "the waiter is resumed before the result is stored", st)
                if rs and "resume" in ev and ev.index("resume") < ev.index("res"): bad("resume-before-result", "waiters are resumed before the results are stored", st)
        if "queue" in ev: outs.append((st, ev))
    if outs:
        if not any("resume" in ev for st, ev in outs): ctx.violation(f"never-resumed:{f.n}", "queued waiters are never resumed", f)
        for st, ev in outs:
            qpath = [k for k, v in st.env.items() if v == ("empty", "cleared") and k[0] == ("root", "this")]
            iq = ev.index("queue")
            if "clear" in ev:
                ic = len(ev) - 1 - ev[::-1].index("clear")
                if ic < iq or ("resume" in ev and ev.index("resume") > ic): bad("queue-cleared-early", "the waiter queue is cleared before its waiters are resumed", st)
            elif "resume" in ev and any(x.k == "MemberExpr" and x.t.startswith("std::vector<std::coroutine_handle") for x in f.walk()):
                mv = any(x.name in ("std::exchange", "std::swap") or x.name.endswith("::swap") for x in f.walk())
                if not mv: bad("queue-kept", "the waiter queue is not emptied: its coroutines would be resumed again for the next batch", st)

def entries(ctx, m, d):
    this = (("root", "this"),); pend = pend_field(d)
    p0 = ("in", this + (pend,), ())
    for f in [f for f in m.fns.values() if f.cls == d.id and "io_uring_sqe" in f.ret]:
        ctx.analysed(f)
        for k, st, v in Calls(m).run(f, ()):
            if k != "ret": continue
            ctx.count("entry acquisitions")
            t = st.read(v.p) if isinstance(v, Loc) else v
            if st.holds(T_truth(t)) is not True: ctx.violation(f"null-entry:{f.n}", "a null submission entry may be handed out", f, path=steps(st))
            now = st.read(this + (pend,))
            if now != ladd(p0, C(1)): ctx.violation(f"entry-count:{f.n}", f"acquiring an entry changes the pending count to {show(now)}", f, path=steps(st))
    for f in [f for f in m.fns.values() if f.cls == d.id and f.short == "isRun"]:
        for k, st, v in Calls(m).run(f, ()):
            t = st.read(v.p) if isinstance(v, Loc) else v
            if not mentions(t, pend) : ctx.violation("pending-query", "the drive reports activity from something other than its pending count", f)
    for f in [f for f in m.fns.values() if f.cls == d.id and any(n.name == "io_uring_prep_nop" for n in f.walk())]:
        e = Calls(m); e.into = ()
        def call(name, n, st, obj, args, eng, fr):
            if name == "io_uring_prep_nop": return ("nop",)
            if name.startswith("io_uring_submit"): return ("submit",)
        e.h_call = call
        e.h_assign = lambda p, t, st, n: ("data", t) if p[-1] == "user_data" else None
        ctx.analysed(f)
        for k, st, v in e.run(f, ()):
            if k != "ret": continue
            ds = [x for x in st.mon if x[0] == "data"]
            if not ds or ds[-1][1] != C(0): ctx.violation("nop-user-data", "the internal wake-up is submitted with user data left over from another operation", f, path=steps(st))
            ev = [x[0] for x in st.mon]
            if "nop" not in ev or "submit" not in ev[ev.index("nop"):]: ctx.violation("nop-not-submitted", "the wake-up is not submitted after being prepared", f, path=steps(st))

def preps(ctx, m, op):
    ops = [c for c in m.classes.values() if c.n == op.n]
    for f in m.fns.values():
        if f.clsn != op.n or f.ctor or f.dtor or f.lam or f.body is None: continue
        ps = [n for n in f.walk() if n.name.startswith("io_uring_prep_")]
        if not ps: continue
        ctx.count("prep wrappers"); ctx.analysed(f)
        e = Calls(m); e.h_call = lambda name, n, st, obj, args, eng, fr: ("prep", name, *[eng.val(st, a) for a in args]) if name.startswith("io_uring_prep_") else None
        for k, st, v in e.run(f, ()):
            if k != "ret": continue
            pr = [x for x in st.mon if x[0] == "prep"]
            if len(pr) != 1: ctx.violation(f"prep-count:{f.n}", f"{f.short} prepares {len(pr)} operations", f, path=steps(st)); continue
            want = {"open": "open", "socket": "socket", "accept": "accept", "connect": "connect", "read": "read", "write": "write", "recv": "recv", "send": "send", "close": "close", "poll": "poll_add", "linktimeout": "link_timeout"}
            for a, b in want.items():
                if f.short.lower().startswith("prep" + a) and b not in pr[0][1]: ctx.violation(f"prep-kind:{f.n}", f"{f.short} prepares {pr[0][1]}", f)
            order = []
            for t in pr[0][3:]:
                ix = [i for i, (pid, pn, pt) in enumerate(f.params) if mentions(t, ("root", pn, pid)) or mentions_param(t, pid, pn)]
                order.append(ix)
            flat = [i for ix in order for i in ix]
            if flat != sorted(flat): ctx.violation(f"prep-order:{f.n}", f"{f.short} passes its parameters to the kernel in the wrong order", f, path=steps(st))
            miss = [pn for i, (pid, pn, pt) in enumerate(f.params) if i not in flat]
            if miss: ctx.violation(f"prep-missing:{f.n}", f"{f.short} ignores its parameter(s) {', '.join(miss)}", f, path=steps(st))
            for t, ix in zip(pr[0][3:], order):
                for i in ix:
                    pt = f.params[i][2]
                    if "span" in pt or "string_view" in pt:
                        if t[0] == "m" and t[1] not in ("data", "size", "size_bytes"): ctx.violation(f"prep-buffer:{f.n}", f"{f.short} passes {show(t)} for its buffer", f)
                        if t[0] == "lin" and t[1] != 0: ctx.violation(f"prep-size:{f.n}", f"{f.short} passes {show(t)} as its buffer's extent", f)
                    elif t[0] == "lin": ctx.violation(f"prep-arg:{f.n}", f"{f.short} passes {show(t)} instead of its parameter", f)
    for f in m.named(op.n.split("::")[-1] + "::linkTimeout"):
        ctx.analysed(f); ctx.count("link timeouts")
        e = Calls(m); e.h_assign = lambda p, t, st, n: ("flag", p, t, n.op) if p[-1] == "flags" else None
        e.h_call = lambda name, n, st, obj, args, eng, fr: ("any", *[a.p if isinstance(a, Loc) else a for a in args]) if name.endswith("whenAny") else None
        e.opaque = ("whenAny",)
        for k, st, v in e.run(f, ()):
            if k != "ret": continue
            a = f.params[0]; b = f.params[1]
            fl = [x for x in st.mon if x[0] == "flag"]; an = [x for x in st.mon if x[0] == "any"]
            if len(fl) != 1 or not mentions(fl[0][1], a[1]) or not (mentions(fl[0][2], C(4)) or mentions(fl[0][2], ("c", 4)) or "4" in show(fl[0][2])): ctx.violation("link-flag", "the timed operation is not linked to its timeout", f, path=steps(st))
            if len(an) != 1 or not (mentions(an[0][1], a[1]) and mentions(an[0][2], b[1])): ctx.violation("link-wait", "the operation and its timeout are not awaited together, operation first", f, path=steps(st))

def mentions_param(t, pid, pn):
    for x in walk_term(t):
        if isinstance(x, tuple) and x and x[0] == "v" and len(x) > 3 and x[2] == pid: return True
        if isinstance(x, tuple) and x and x[0] == "root" and x[1] == pn: return True
    return False

def loops(ctx, m, drives):
    dn = [d.n for d in drives.values()]
    for f in [f for f in m.fns.values() if f.short == "run" and f.cls and cls_of(m, f) is not None and any(any(x["t"].endswith(n) for n in dn) for x in cls_of(m, f).fields)]:
        ctx.analysed(f)
        e = Calls(m); e.opaque = tuple(n + "::run" for n in dn) + tuple(n + "::isRun" for n in dn) + ("TimerLoop::run", "ThreadLoop::isRun"); e.rep = 2
        def call(name, n, st, obj, args, eng, fr):
            if name.endswith("TimerLoop::run"): return tagged(eng, st, fr, n, ("timers",))
            if name.endswith("ThreadLoop::isRun"): return tagged(eng, st, fr, n, ("threads?",))
            if any(name.endswith(d + "::isRun") for d in dn): return tagged(eng, st, fr, n, ("drive?",))
            if any(name.endswith(d + "::run") for d in dn):
                for q in ("drive?", "threads?", "timers"): st.facts = frozenset(f for f in st.facts if not mentions(f, ("q", q)))
                return ("drive", eng.val(st, args[0]) if args else None)
            if "sleep_for" in name: return ("sleep",)
            return None
        e.h_call = call
        # the optional the timers' answer is kept in (its own truth is a fact about that object)
        e.h_assign = lambda p, t, st, n: ("timersIn", p) if mentions(t, ("q", "timers")) else None
        for k, st, v in e.run(f, ()):
            if k != "ret": continue
            ctx.count("loop exits")
            fa = {"drive?": None, "threads?": None, "timers": None}
            for x in st.facts:
                for q in fa:
                    if mentions(x, ("q", q)): fa[q] = x[0] == "ne0"
                    elif q == "timers" and x[0] in ("eq0", "ne0") and len(x[1][2]) == 1 and x[1][2][0][0][0] == "ptr" and mentions(st.mon, x[1][2][0][0][1]): fa[q] = x[0] == "ne0"
            ev = [x[0] for x in st.mon]
            if fa["drive?"] is not False: ctx.violation(f"exit-pending-io:{f.n}", "the event loop can return while operations are pending", f, path=steps(st))
            if fa["threads?"] is not False: ctx.violation(f"exit-pending-thread:{f.n}", "the event loop can return while a thread task is outstanding", f, path=steps(st))
            if fa["timers"] is not False: ctx.violation(f"exit-pending-timer:{f.n}", "the event loop can return while a timer is armed", f, path=steps(st))
        acts = set()
        for k, st, v in e.run(f, ()): acts |= {x[0] for x in st.mon}
        for a, what in (("timers", "timers"), ("drive", "completions")):
            if a not in {n2 for n2 in acts} and not any(x.name.endswith("::run") for x in f.walk()): ctx.violation(f"loop-skips:{f.n}:{a}", f"the event loop never processes {what}", f)

def tagged(eng, st, fr, n, ev):
    x = eng.emit(st, fr, n, ev); x = x.cp()
    sym = ("sym", (("q", ev[0]), n.l, fr.id, n.id))
    x._kill_site(sym)
    if ev[0] == "timers": x.facts = frozenset(f for f in x.facts if not mentions(f, ("q", "drive?")) and not mentions(f, ("q", "threads?")))
    # facts about the previous answer are about an older state
    x.facts = frozenset(f for f in x.facts if not mentions(f, ("q", ev[0])))
    return [(x, sym)]
