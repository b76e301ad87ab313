"""whenAll / whenAny and the && / || operators: every child coroutine, the awaiter that starts them and the
coroutine that collects them are explored on all paths, in every order of completion the flags allow."""
import re
from rules import *
META = dict(title="whenAll and whenAny give every child its own result slot and wake once",
    statement="whenAll starts every awaited task, resumes the waiting coroutine exactly once, after the last of them finished, and yields each task's own value or exception at that task's position. whenAny yields the value of a finished task tagged with that task's position or rethrows its exception, also when a task finishes without ever suspending. The && and || operators keep the order of their operands.",
    over=["schedules", "programs"], q="every number and type of tasks, every order in which they complete, throw or complete synchronously",
    why="Tests combine two or three timers that complete in one known order; the guarantee covers any completion order, tasks that finish before the others are even started, and exceptions in any of them.",
    files=["coroutine/awaiter/WhenAll.hpp", "coroutine/awaiter/WhenAny.hpp"],
    mech=[("control blocks, child coroutines and awaiters", "coroutine/awaiter/WhenAll.hpp"), ("control blocks, child coroutines and awaiters", "coroutine/awaiter/WhenAny.hpp")],
    technique="path-sensitive abstract interpretation of child coroutines, starting awaiters and collecting coroutines with an event-order monitor",
    note="Every instantiation of the child, awaiter, collecting and operator templates made by the harness (2 to 4 operands, void and non-void).",
    design="""The control block is recognised by its fields (a coroutine handle plus an exception or a counter). Child: awaits its operand once; on
return stores the awaited value in the slot of its own index, on exception stores std::current_exception(); nothing escapes; whenAny's child hands
control to the recorded waiter iff starting is known to be over and otherwise sets the early-finish flag and resumes nothing; whenAll's child decrements
the counter once, after storing, and hands over to the waiter iff it became zero. Awaiter: the waiter is recorded before any child runs, all children but the
last are resumed in a loop over the whole prefix and the last gets control by transfer; whenAny checks the early-finish flag between starts and sets
the start-over flag before the transfer. Collector: child i gets operand i and index i, the counter is the number of children, the awaiter is awaited once after all
children exist, a stored exception is rethrown and otherwise the shared result returned. Operators: operands appear in source order.""")
TUS = ["coro"]
ASSUMES = ["std::span/std::array/std::tuple members behave as specified", "two and more operands behave like the instantiated counts"]
HND = "std::coroutine_handle<"
CHILD_RET = "HX::coroutine::Task<std::coroutine_handle<"

def base(t): return t.replace("const ", "").rstrip("& ").strip()
def idx_of(fn):
    g = re.search(r"<(\d+)UL", fn.full)
    return int(g.group(1)) if g else None

def check(ctx):
    m = ctx.model("coro")
    ctx.rule("child: exactly one await of its operand; value to slot Idx xor current_exception to the exception slot; the waiter is returned iff it is this child's turn to wake it")
    ctx.rule("awaiter: waiter recorded before any child is started; every child started exactly once unless the wait is already over")
    ctx.rule("collector: child i gets operand i and slot i; counter = number of children; awaiter awaited exactly once, after creating all children; rethrow iff exception stored")
    ctx.rule("operators: the operands of the combined expression appear in source order")
    blocks = {}
    for c in m.classes.values():
        hs = fields_of(c, lambda t: t.startswith(HND)); ex = fields_of(c, lambda t: "exception_ptr" in t); bl = fields_of(c, lambda t: t == "bool")
        ints = fields_of(c, lambda t: t in ("unsigned long", "std::size_t", "size_t", "int", "unsigned int", "long"))
        if "/awaiter/" not in c.file or len(hs) != 1: continue
        if ex and len(bl) >= 1: blocks[c.full] = ("any", c, hs[0], ex[0], bl)
        elif len(ints) == 1 and not ex: blocks[c.full] = ("all", c, hs[0], ints[0], None)
    ctx.require(any(b[0] == "any" for b in blocks.values()) and any(b[0] == "all" for b in blocks.values()), "no whenAny/whenAll control blocks found")
    kids = [f for f in m.fns.values() if f.coro and f.ret.startswith(CHILD_RET) and any(base(p[2]) in blocks for p in f.params)]
    aws = [(f, c) for f in m.fns.values() if f.short == "await_suspend" for c in [cls_of(m, f)] if c and any(base(x["t"]) in blocks for x in c.fields)]
    flags = {}
    for f, c in aws: flags[[base(x["t"]) for x in c.fields if base(x["t"]) in blocks][0]] = awaiter(ctx, m, f, c, blocks)
    for f in kids: child(ctx, m, f, blocks, flags)
    kidset = {f.id for f in kids}
    for f in m.fns.values():
        if f.coro and f.id not in kidset and any(n.get("fn") in kidset for n in f.walk() if is_call(n)): collect(ctx, m, f, kidset, blocks)
    wraps(ctx, m)
    proms(ctx, m, kids)
    ctx.at_least("child paths", 20); ctx.at_least("awaiters", 2); ctx.at_least("collectors", 8); ctx.at_least("operator overloads", 6); ctx.at_least("wrapped calls", 4)

def child(ctx, m, f, blocks, flags):
    ctx.analysed(f)
    bp = [p for p in f.params if base(p[2]) in blocks][0]; kind, bc, H, X, bl = blocks[base(bp[2])]
    rp = [p for p in f.params if p is not bp and p is not f.params[0]]
    ctx.require(len(rp) == 1 and f.params[0] is not bp, f"unexpected parameters of {f.n}")
    rp = rp[0]; op = f.params[0]
    B = (("root", bp[1], bp[0]),); R = (("root", rp[1], rp[0]),); O = (("root", op[1], op[0]),)
    Idx = idx_of(f)
    e = Calls(m); e.await_throws = lambda n, v: True; e.lib_throws = lambda n, x: False
    def aw(st, fr, n, v): return ("await", "own" if mentions(v, O[0]) else show(v))
    e.h_await = aw
    def call(name, n, st, obj, args, eng, fr):
        if kind == "all" and name.endswith(("Try::setVal", "Try::setException")):
            p = obj.p if isinstance(obj, Loc) else None
            v = eng.val(st, args[0]) if args else ("?",)
            return ("set", name.split("::")[-1], p, v)
    e.opaque = ("Try::setVal", "Try::setException")
    e.h_call = call
    e.h_assign = lambda p, t, st, n: ("cnt", t) if kind == "all" and p == B + (X,) else ("exc", "cur" if "current_exception" in repr(t) else "?") if p == B + (X,) else None
    key = f"{bc.short}:{f.short}"
    cur = lambda t: "current_exception" in repr(t)
    cnt0 = ("in", B + (X,), ())
    for k, st, v in e.run(f, ()):
        ctx.count("child paths")
        if k != "ret": ctx.violation(f"child-escapes:{key}", "an exception escapes the child coroutine (the process would terminate)", f, path=steps(st)); continue
        aws = [x for x in st.mon if x[0] == "await"]
        if aws != [("await", "own")]: ctx.violation(f"child-await:{key}", f"the child awaits its operand {len([a for a in aws if a[1]=='own'])} times", f, path=steps(st)); continue
        threw = any("exc" == x[0] or (x[0] == "set" and x[1] == "setException") for x in st.mon) or (not any(x[0] == "set" for x in st.mon) if kind == "all" else False)
        v = st.read(v.p) if isinstance(v, Loc) else v
        tohand = v == ("in", B + (H,), ()) or (v[0] == "in" and v[1] == B + (H,))
        noop = "noop_coroutine" in repr(v)
        if kind == "all":
            sets = [x for x in st.mon if x[0] == "set"]
            if len(sets) != 1 or sets[0][2] is None or sets[0][2][:1] != R: ctx.violation(f"child-slot:{key}", f"the child stores {len(sets)} outcomes in the results", f, path=steps(st)); continue
            if sets[0][2] != R + (("get", Idx),): ctx.violation(f"child-slot:{key}", f"child {Idx} stores its outcome at {show_path(sets[0][2])}", f, path=steps(st))
            if sets[0][1] == "setException" and not cur(sets[0][3]): ctx.violation(f"child-exception:{key}", "the stored exception is not the caught one", f, path=steps(st))
            vd = awaited_void(f)
            if sets[0][1] == "setVal" and not vd and "CoawaitExpr" not in repr(sets[0][3]): ctx.violation(f"child-value:{key}", f"the stored value {show(sets[0][3])} is not the awaited one", f, path=steps(st))
            decs = [x for x in st.mon if x[0] == "cnt"]
            if decs != [("cnt", ladd(cnt0, C(-1)))]: ctx.violation(f"child-count:{key}", f"the counter is not decremented exactly once ({[show(d[1]) for d in decs]})", f, path=steps(st)); continue
            if st.mon.index(sets[0]) > st.mon.index(decs[0]): ctx.violation(f"child-order:{key}", "the child counts itself finished before its outcome is stored", f, path=steps(st))
            zero = st.holds(T_eq0(ladd(cnt0, C(-1))))
            if tohand and zero is not True: ctx.violation(f"child-wakes-early:{key}", "the waiter is resumed although other children may still run", f, path=steps(st))
            if not tohand and zero is not False: ctx.violation(f"child-never-wakes:{key}", "the last child to finish does not resume the waiter", f, path=steps(st))
            if not tohand and not noop: ctx.violation(f"child-target:{key}", f"the child hands control to {show(v)}", f, path=steps(st))
            continue
        initf, brk = flags.get(bc.full, (None, None))
        ie = st.read(B + (X,))
        stored = [t for p, t in st.env.items() if p[0] not in ("ver", "ref") and p[:1] == R and len(p) >= 2]
        tag = [t for p, t in st.env.items() if p[0] not in ("ver", "ref") and len(p) == 2 and p[:1] == R and p[1] in intf(m, rp)]
        excs = [x for x in st.mon if x[0] == "exc"]
        if excs:
            if excs != [("exc", "cur")]: ctx.violation(f"child-exception:{key}", "the stored exception is not the caught one", f, path=steps(st))
        else:
            if not tag or tag[-1] != C(Idx): ctx.violation(f"child-slot:{key}", f"child {Idx} finishes without tagging the result with its own index ({[show(t) for t in tag]})", f, path=steps(st))
            if not awaited_void(f) and not any("CoawaitExpr" in repr(t) for t in stored): ctx.violation(f"child-value:{key}", "the awaited value is not what the result holds", f, path=steps(st))
        started = st.holds(("ne0", lin(("in", B + (initf,), ())))) if initf else None
        if started is None: ctx.violation(f"child-turn:{key}", "the child decides whom to resume without knowing whether all children were started", f, path=steps(st)); continue
        if started and not tohand: ctx.violation(f"child-never-wakes:{key}", f"a finished child hands control to {show(v)}, not to the waiter", f, path=steps(st))
        if not started:
            if tohand: ctx.violation(f"child-wakes-early:{key}", "a child that finishes while others are still being started resumes the waiter itself (it is resumed again by the starter)", f, path=steps(st))
            if st.read(B + (brk,)) != C(1): ctx.violation(f"child-early-flag:{key}", "a child that finishes while others are being started does not report it", f, path=steps(st))
            if not tohand and not noop: ctx.violation(f"child-target:{key}", f"the child hands control to {show(v)}", f, path=steps(st))

def intf(m, rp):
    for c in m.classes.values():
        if c.full == base(rp[2]): return fields_of(c, lambda t: t in ("unsigned long", "std::size_t", "size_t", "int", "unsigned int", "long", "unsigned char"))
    return []
def awaited_void(f):
    for n in f.walk():
        if n.k == "CoawaitExpr" and not n.get("imp"): return n.t == "void"
    return False

def awaiter(ctx, m, f, c, blocks):
    ctx.analysed(f); ctx.count("awaiters")
    bf = [x["n"] for x in c.fields if base(x["t"]) in blocks][0]; kind, bc, H, X, bl = blocks[[base(x["t"]) for x in c.fields if base(x["t"]) in blocks][0]]
    cf = [x["n"] for x in c.fields if "span<" in x["t"] or "array<" in x["t"]][0]
    this = (("root", "this"),); key = bc.short
    pid = f.params[0]; P = ("in", (("v", 1, pid[0], pid[1]),), ())
    cos = ("in", this + (cf,), ())
    def isb(p, fld): return len(p) >= 1 and p[-1] == fld and bf in [x for x in p if isinstance(x, str)]
    e = Calls(m); e.lib_throws = lambda n, x: False
    def call(name, n, st, obj, args, eng, fr):
        if name.endswith("coroutine_handle::resume") or (name.endswith("coroutine_handle::operator()")):
            st = st
            return [(havoc_block(eng.emit(st, fr, n, ("resume", subst_idx(eng.val(st, obj)))), n), ("void",))]
    def havoc_block(st, n):
        for fld in (bl or []) + [X]: st = st.havoc(this + (bf, fld), ("resumed", n.id))
        return st
    e.h_call = call
    e.h_assign = lambda p, t, st, n: ("prev", t) if isb(p, H) else ("flag", p[-1], t) if bl and p[-1] in bl and isb(p, p[-1]) else None
    outs = e.run(f, ())
    initf = None; brk = None
    for k, st, v in outs:
        for ev in st.mon:
            if ev[0] == "flag" and ev[2] == C(1): initf = ev[1]
    if bl:
        ctx.require(True, "")
        if initf is None: ctx.violation(f"start-flag:{key}", "the awaiter never marks that all children were started", f); initf = None
        brk = ([b for b in bl if b != initf] or [None])[0]
    size = ("m", "size", cos)
    prefix = (("m", "subspan", cos, C(0), ladd(size, C(-1))), ("m", "first", cos, ladd(size, C(-1))))
    lastloc = ("last",)
    for k, st, v in outs:
        if k != "ret": continue
        v = st.read(v.p) if isinstance(v, Loc) else v
        evs = st.mon; own = v == P
        pi = [i for i, x in enumerate(evs) if x[0] == "prev"]; ri = [i for i, x in enumerate(evs) if x[0] == "resume"]
        if not pi or evs[pi[0]][1] != P: ctx.violation(f"waiter-unrecorded:{key}", "the waiting coroutine is not recorded in the control block", f, path=steps(st)); continue
        if len(pi) > 1 or (ri and ri[0] < pi[0]): ctx.violation(f"waiter-late:{key}", "children are started before the waiting coroutine is recorded: one finishing at once would resume nothing", f, path=steps(st))
        fi = [i for i, x in enumerate(evs) if x[0] == "flag"]
        if own:
            if not bl: ctx.violation(f"waiter-resumed:{key}", "the awaiter resumes the waiter before the children finished", f, path=steps(st)); continue
            if not any(f0[0] == "ne0" and mentions(f0, brk) for f0 in st.facts): ctx.violation(f"waiter-resumed:{key}", "the awaiter returns to the waiter although no child is known to have finished", f, path=steps(st))
            continue
        # transfer to the last child
        if mentions(v, lastloc) or (v[0] in ("in", "fld") and "('last',)" in repr(v)): pass
        elif mentions(v, ladd(size, C(-1))): pass
        else: ctx.violation(f"last-child:{key}", f"control is transferred to {show(v)}, not to the last child", f, path=steps(st))
        for i in ri:
            t = evs[i][1]
            if any(mentions(t, p) for p in prefix): continue
            ix = [x[1] for x in walk_term(t) if isinstance(x, tuple) and len(x) == 2 and x[0] == "[]"]
            if ix and mentions(t, cf) and not mentions(t, "subspan") and not mentions(t, "first"): continue
            ctx.violation(f"children-started:{key}", f"the loop starts {show(t)} instead of every child but the last", f, path=steps(st))
        if bl:
            if not any(evs[i][1] == initf and evs[i][2] == C(1) for i in fi): ctx.violation(f"start-flag:{key}", "control goes to the last child without marking that all children were started", f, path=steps(st))
            if any(ri and i < ri[-1] for i in fi if evs[i][1] == initf): ctx.violation(f"start-flag:{key}", "children are marked as all started while some are still to be started", f, path=steps(st))
    if not any(x[0] == "resume" for k, st, v in outs for x in st.mon): ctx.violation(f"children-started:{key}", "no child but the last is started", f)
    # index loops: first index 0, bound size-1
    e2 = Calls(m); e2.lib_throws = lambda n, x: False
    bad = []
    def chk(name, n, st, obj, args, eng, fr):
        if not name.endswith("coroutine_handle::resume"): return None
        t = eng.val(st, obj)
        for x in walk_term(t):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "[]" and x[1][0] != "sym":
                i = x[1]
                if not any(x[0] == "resume" for x in st.mon) and i != C(0): bad.append(n)
                if st.holds(T_cmp("<", i, ladd(size, C(-1)))) is not True and i != C(0): bad.append(n)
        if bl:
            prev = [x for x in st.mon if x[0] == "resume"]
            if prev and not any(f0[0] == "eq0" and mentions(f0, brk) for f0 in st.facts): bad.append("brk")
        return [(havoc_block(eng.emit(st, fr, n, ("resume",)), n), ("void",))]
    e2.h_call = chk; e2.run(f, ())
    if "brk" in bad: ctx.violation(f"started-after-end:{key}", "further children are started although an earlier one may already have ended the wait", f)
    if any(b != "brk" for b in bad): ctx.violation(f"children-started:{key}", "the starting loop does not run over exactly the children before the last", f)
    return (initf, brk)

def collect(ctx, m, f, kidset, blocks):
    ctx.analysed(f); ctx.count("collectors")
    key = f.short
    e = Calls(m); e.lib_throws = lambda n, x: False
    ops = f.params[1:] if f.params and "integer_sequence" in f.params[0][2] else f.params
    ops = [p for p in ops if base(p[2]) not in blocks]
    pos = {(("root", p[1], p[0]),): i for i, p in enumerate(ops)}
    for i, p in enumerate(ops): pos[(("v", 1, p[0], p[1]),)] = i
    loc = {}
    def call(name, n, st, obj, args, eng, fr):
        if n.get("fn") in kidset:
            g = m.fns[n.get("fn")]
            ps = [a.p if isinstance(a, Loc) else None for a in args]
            loc[f.id] = ps[1:]
            x = eng.emit(st, fr, n, ("start", idx_of(g), pos.get(ps[0]), tuple(ps[1:])))
            return [(x, ("child", idx_of(g)))]
    e.h_call = call
    def aw(st, fr, n, v):
        x = eng_emit(st, fr, n)
        for p in loc.get(f.id, []):
            if p is not None: x = x.havoc(p, ("waited", n.id))
        return [(x, ("void",))]
    eng_emit = lambda st, fr, n: e.emit(st, fr, n, ("wait",))
    e.h_await = aw
    bid = {}
    def asg(p, t, st, n):
        for q in loc.get(f.id, []): pass
        return None
    outs = e.run(f, ())
    for k, st, v in outs:
        ss = [x for x in st.mon if x[0] == "start"]; w = [i for i, x in enumerate(st.mon) if x[0] == "wait"]
        if len(ss) != len(ops): ctx.violation(f"collect-children:{key}", f"{len(ss)} children are created for {len(ops)} operands", f, path=steps(st)); continue
        if any(x[1] != x[2] for x in ss) or {x[1] for x in ss} != set(range(len(ops))): ctx.violation(f"collect-order:{key}", f"children use operands/slots {[(x[2], x[1]) for x in ss]}", f, path=steps(st))
        if len({x[3] for x in ss}) != 1: ctx.violation(f"collect-shared:{key}", "children do not share one result and control block", f, path=steps(st))
        if len(w) != 1: ctx.violation(f"collect-wait:{key}", f"the collecting coroutine waits {len(w)} times", f, path=steps(st)); continue
        if w[0] < max(i for i, x in enumerate(st.mon) if x[0] == "start"): ctx.violation(f"collect-wait:{key}", "the wait starts before all children exist", f, path=steps(st))
        rp, bp = ss[0][3][0], ss[0][3][1]
        g = next(m.fns[n.get("fn")] for n in f.walk() if is_call(n) and n.get("fn") in kidset)
        bt = [base(p[2]) for p in g.params if base(p[2]) in blocks][0]; kind, bc, H, X, bl = blocks[bt]
        if kind == "any":
            fs = [x[0] for x in st.facts if mentions(x, bp + (X,)) and x[0] in ("eq0", "ne0")]
            h = True if 'ne0' in fs else False if 'eq0' in fs else None
            if k == "ret" and h is not False: ctx.violation(f"collect-exception:{key}", "the result is returned although a child's exception may be stored", f, path=steps(st))
            if k == "exc" and h is not True: ctx.violation(f"collect-rethrow:{key}", "an exception is raised although none is known to be stored", f, path=steps(st))
        if k == "ret":
            vv = st.read(v.p) if isinstance(v, Loc) else v
            if not (isinstance(v, Loc) and v.p == rp) and not mentions(vv, rp): ctx.violation(f"collect-result:{key}", f"the value returned is {show(vv)}, not the shared result", f, path=steps(st))
    # counter set to the number of children before waiting
    g = next(m.fns[n.get("fn")] for n in f.walk() if is_call(n) and n.get("fn") in kidset)
    bt = [base(p[2]) for p in g.params if base(p[2]) in blocks][0]; kind, bc, H, X, bl = blocks[bt]
    if kind == "all":
        e3 = Calls(m); e3.lib_throws = lambda n, x: False; e3.h_call = call
        bad = []
        def aw3(st, fr, n, v):
            bp = loc[f.id][1]
            if st.read(bp + (X,)) != C(len(ops)): bad.append(show(st.read(bp + (X,))))
            return [(st, ("void",))]
        e3.h_await = aw3; e3.run(f, ())
        if bad: ctx.violation(f"collect-count:{key}", f"the counter starts at {bad[0]} for {len(ops)} children", f)

def wraps(ctx, m):
    """operators && and ||, and the tuple unpacking that calls whenAll/whenAny"""
    W = [c for c in m.classes.values() if "/awaiter/" in c.file and any(x["t"].startswith("std::tuple<") for x in c.fields)]
    names = {c.n for c in W}
    for f in m.fns.values():
        if "/awaiter/" not in f.file: continue
        if f.short in ("operator||", "operator&&"):
            ctx.analysed(f); ctx.count("operator overloads")
            e = Calls(m); e.lib_throws = lambda n, x: False
            e.h_ctor = lambda name, p, args, st, n, eng: ("wrap", tuple(a.p if isinstance(a, Loc) else ("?",) for a in args)) if any(name.startswith(x) for x in names) and not n.get("cpy") and not n.get("mov") else None
            for k, st, v in e.run(f, ()):
                ws = [x[1] for x in st.mon if x[0] == "wrap"]
                if len(ws) != 1: ctx.violation(f"operands:{f.n}", f"the operator builds {len(ws)} combined awaitables", f, path=steps(st)); continue
                want = []
                for pid, pn, pt in f.params:
                    R = (("root", pn, pid),)
                    c = next((c for c in W if c.full == base(pt)), None)
                    if c is None: want.append(R); continue
                    tf = [x for x in c.fields if x["t"].startswith("std::tuple<")][0]
                    want += [R + (tf["n"], ("get", i)) for i in range(count_args(tf["t"]))]
                if list(ws[0]) != want: ctx.violation(f"operands:{f.n}", f"the operands are combined as {[show_path(p) for p in ws[0]]}", f, path=steps(st))
        elif f.clsn in names and not f.lam and any("std::tuple<" in p[2] for p in f.params) and not f.ctor:
            ctx.analysed(f)
            e = Calls(m); e.lib_throws = lambda n, x: False
            e.h_call = lambda name, n, st, obj, args, eng, fr: [(eng.emit(st, fr, n, ("when", tuple(a.p if isinstance(a, Loc) else ("?",) for a in args))), ("sym", "when"))] if name.split("::")[-1] in ("whenAll", "whenAny") else None
            for k, st, v in e.run(f, ()):
                ws = [x[1] for x in st.mon if x[0] == "when"]; ctx.count("wrapped calls")
                pid, pn, pt = [p for p in f.params if "std::tuple<" in p[2]][0]
                want = tuple((("root", pn, pid), ("get", i)) for i in range(count_args(base(pt))))
                if ws != [want]: ctx.violation(f"unpack:{f.n}", f"the operands are passed on as {[[show_path(p) for p in w] for w in ws]}", f, path=steps(st))
        elif f.ctor and f.clsn in names and not f.imp and len(f.params) >= 2:
            e = Calls(m); e.lib_throws = lambda n, x: False
            for a, n, w in f.inits:
                if n is None: continue
                order = [next((i for i, p in enumerate(f.params) if p[0] == x.get("d")), None) for x in n.walk() if x.k == "DeclRefExpr" and any(p[0] == x.get("d") for p in f.params)]
                ctx.count("wrap constructors")
                if order != sorted(order) or len(set(order)) != len(f.params): ctx.violation(f"operands:{f.n}", "the operands are stored out of order", f)

def subst_idx(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "[]" and isinstance(t[1], tuple) and t[1][0] != "sym": return ("[]", ("index",))
        return tuple(subst_idx(x) for x in t)
    return t

def count_args(t):
    t = t[t.index("<") + 1:t.rindex(">")]; d = 0; n = 1
    for ch in t:
        if ch in "<(": d += 1
        elif ch in ">)": d -= 1
        elif ch == "," and d == 0: n += 1
    return n

def proms(ctx, m, kids):
    ps = {re.search(r"Task<std::coroutine_handle<.*?>, (.*)>$", f.ret) for f in kids}
    ps = {g.group(1).strip() for g in ps if g}
    for c in m.classes.values():
        if c.full not in ps and c.n not in ps: continue
        ctx.count("child promises")
        H = fields_of(c, lambda t: t.startswith(HND))
        for f in methods(m, c, "return_value"):
            for k, st, v in Calls(m).run(f, ()):
                pid = f.params[0]
                if not any("('v', 1, %r" % pid[0] in repr(st.read((("root", "this"), h))) or mentions(st.read((("root", "this"), h)), (("v", 1, pid[0], pid[1]),)) for h in H): ctx.violation(f"child-target:{c.n}", "the coroutine a child hands over to is not kept", f, path=steps(st))
        for f in methods(m, c, "final_suspend"):
            for k, st, v in Calls(m).run(f, ()):
                vals = [v] if not isinstance(v, Loc) else [t for p, t in st.env.items() if p[:len(v.p)] == v.p] + [st.read(v.p)]
                if not any(mentions(t, h) for t in vals for h in H): ctx.violation(f"child-target:{c.n}", "a finished child does not hand over to the coroutine it was given", f, path=steps(st))
    ctx.at_least("child promises", 2)
