"""Special members of every class that owns a coroutine frame or a shared reference count, and
every place that ends such ownership, on all paths: each frame is destroyed exactly once, by
its single owner, and the shared object lives exactly as long as its last reference."""
from owner import *
META = dict(title="Every coroutine frame and shared block is freed exactly once",
    statement="Each coroutine frame created through the library's task types is destroyed exactly once, by the object that owns it, and moving a task transfers that ownership. An object held through the library's reference-counted pointer lives exactly as long as its last reference and is then destroyed and freed once.",
    over=["programs", "histories"], q="every sequence of construction, copy, move, self-assignment and destruction of tasks and shared pointers",
    why="A leak or double free shows only for the particular sequence of moves, assignments and exceptions that triggers it; tests exercise construct-await-destroy.",
    files=["coroutine/task/Task.hpp", "coroutine/task/RootTask.hpp", "container/CoSharedPtr.hpp", "coroutine/loop/EventLoop.hpp", "coroutine/loop/ThreadLoop.hpp"],
    mech=[("owning task special members", "coroutine/task/Task.hpp"), ("reference counted block", "container/CoSharedPtr.hpp")],
    technique="ownership typestate over all special members on all paths, plus reference-count delta analysis",
    note="All paths of all special members of every handle-owning or counting class, and every destroy() call site.",
    design="""Classes holding a coroutine_handle whose promise suspends at the end are owners: copy must be deleted, the destructor destroys the
handle exactly once iff non-null, move construction leaves the source null, move assignment destroys or swaps the old handle and survives
self-assignment. Handles whose promise never suspends at the end must not be destroyed at all. Every destroy() call must sit in an owner.
For the shared pointer the net change of the count per special member is computed per path (copy +1, move 0, destroy -1, assign +1/-1), the
block's count starts at one and it is deleted exactly when the count reaches zero.""")
TUS = ["coro", "net"]
ASSUMES = ["single-threaded use of one Task / CoSharedPtr object (the library documents them as non-atomic)"]

def never_suspends(m, ret):
    """does an awaiter of this type (final_suspend's) let the frame self-destroy?  None = unknown"""
    for c in m.classes.values():
        if c.full == ret:
            for f in methods(m, c, "await_ready"):
                vals = {st.holds(T_truth(v if isinstance(v, tuple) else st.read(v.p))) for k, st, v in Calls(m).run(f, ())}
                return vals.pop() if len(vals) == 1 else None
    return None

def check(ctx):
    ctx.rule("a class holding a coroutine_handle of a suspending-at-end promise: not copyable; destructor destroys it exactly once iff non-null; moves transfer it")
    ctx.rule("a class holding a coroutine_handle of a promise whose final_suspend does not suspend never destroys it")
    ctx.rule("coroutine_handle::destroy is called only by an owner's destructor/move, or on frames the run list still owns and that are not executing")
    ctx.rule("CoSharedPtr: copy adds one reference, move none, destructor/assignment drop exactly one; the block is deleted exactly when the count reaches zero; count starts at one; the object is destroyed with the block")
    for tu in TUS:
        m = ctx.model(tu)
        proms = {}
        for c in m.classes.values():
            for f in methods(m, c, "final_suspend"): proms[c.full] = (c, f)
        for c in m.classes.values():
            if c.lam or not c.rel or c.short in ("promise_type",) : continue
            hs = [f for f in c.fields if f["t"].startswith("std::coroutine_handle<") and not f["t"].startswith("std::coroutine_handle<void") and f["t"] != "std::coroutine_handle<>"]
            if not hs: continue
            userdtor = any(x["kind"] == "dtor" and not is_auto(x) for x in c.methods)
            ptype = c.full
            nested = any(c2.full == ptype + "::promise_type" for c2 in m.classes.values())
            is_ret = userdtor or nested or c.short.endswith("Task")
            if not is_ret: continue
            for h in hs:
                pt = h["t"][len("std::coroutine_handle<"):-1]
                p = proms.get(pt)
                if p is None: continue
                ns = never_suspends(m, p[1].ret)
                if ns is None: continue
                ctx.count("frame-holding classes")
                ctx.sample(f"{c.full}.{h['n']}: {'non-owning' if ns else 'owning'}")
                if ns and not userdtor: continue
                check_owner(ctx, m, c, h["n"], by_obj(("std::coroutine_handle::destroy",)), False, "a coroutine frame", owned=not ns)
        # destroy sites
        for f in m.fns.values():
            for n in f.walk():
                if n.name == "std::coroutine_handle::destroy":
                    ctx.count("destroy sites")
                    host = f
                    c = cls_of(m, f)
                    if f.dtor or f.short == "operator=" or (c is not None and any(x["kind"] == "dtor" for x in c.methods)): continue
                    ctx.violation(f"stray-destroy:{f.n}", "a coroutine frame is destroyed by code that does not own it", f, n.l)
    m = ctx.model("coro")
    for c in m.classes.values():
        if c.short != "RefCntBlock": continue
        cnt = [f["n"] for f in c.fields if "unsigned" in f["t"] and "[" not in f["t"]]
        ctx.require(len(cnt) == 1, "reference counter field of the shared block not identified")
        cnt = cnt[0]; this = (("root", "this"),); c0 = ("in", this + (cnt,), ())
        for f in [f for f in m.fns.values() if f.cls == c.id]:
            e = Calls(m); e.h_delete = lambda st, fr, n, v: ("delete", v); e.h_dtor = None
            e.h_call = lambda name, n, st, obj, args, eng, fr: ("dtor",) if "~" in name or name.endswith("::(dtor)") else None
            if f.ctor and not f.imp:
                e.h_place = lambda st, fr, n, p: ("construct",)
                for k, st, v in e.run(f, ()):
                    if k != "ret": continue
                    ctx.count("block constructors")
                    if st.read(this + (cnt,)) != C(1): ctx.violation("count-start", f"a new shared block starts with {show(st.read(this + (cnt,)))} references", f)
                    if st.mon.count(("construct",)) != 1: ctx.violation("block-object", "the shared block does not construct its object exactly once", f)
            elif f.short in ("add", "reduce"):
                ctx.analysed(f)
                for k, st, v in e.run(f, ()):
                    now = st.read(this + (cnt,)); dels = [x for x in st.mon if x[0] == "delete"]
                    want = ladd(c0, C(1 if f.short == "add" else -1))
                    ctx.count("count updates")
                    if st.holds(T_cmp("==", now, want)) is not True: ctx.violation(f"count-{f.short}", f"{f.short} leaves the count at {show(now)}", f, path=steps(st))
                    if f.short == "add" and dels: ctx.violation("add-deletes", "taking a reference deletes the block", f)
                    if f.short == "reduce":
                        z = st.holds(T_eq0(want))
                        if dels and z is not True: ctx.violation("early-delete", "the shared object is deleted while references remain", f, path=steps(st))
                        if not dels and z is not False: ctx.violation("never-deleted", "dropping the last reference does not delete the shared object", f, path=steps(st))
                        if len(dels) > 1: ctx.violation("double-delete", "the shared object is deleted twice", f)
            elif f.dtor:
                ctx.analysed(f)
                if not any((n.k == "CXXPseudoDestructorExpr" or "dtor" in n.name or "~" in n.name or n.mname.startswith("~")) for n in f.walk()): ctx.violation("object-not-destroyed", "the block is freed without destroying its object", f)
    for c in m.classes.values():
        if c.short != "CoSharedPtr": continue
        pf = [f["n"] for f in c.fields if f["t"].rstrip().endswith("*")]
        ctx.require(len(pf) == 1, "CoSharedPtr pointer field not identified")
        shared(ctx, m, c, pf[0])
    for k, n in (("frame-holding classes", 10), ("destructors", 8), ("move members", 4), ("destroy sites", 4), ("count updates", 3), ("block constructors", 1), ("shared-pointer members", 5)): ctx.at_least(k, n)

def shared(ctx, m, c, pf):
    this = (("root", "this"),); h0 = ("in", this + (pf,), ())
    K = {}
    for x in c.methods: K.setdefault(x["kind"], []).append(x)
    for kind in ("cctor", "cassign"):
        for x in K.get(kind, []):
            if is_auto(x) and not is_del(x): ctx.violation(f"shared-{kind}", "CoSharedPtr is copied without counting", c, c.line)
    def eng():
        e = Calls(m); e.opaque = ("RefCntBlock::add", "RefCntBlock::reduce")
        e.h_call = lambda name, n, st, obj, args, eng, fr: (("inc" if name.endswith("::add") else "dec"), ptr_of(obj)) if name.endswith("RefCntBlock::add") or name.endswith("RefCntBlock::reduce") else None
        e.h_ctor = None
        e.h_dtor = lambda p, ty, var, st: ("dec", st.read(p + (pf,))) if ty.replace("const ", "") == c.full else None
        return e
    def ptr_of(obj):
        p = obj.p if isinstance(obj, Loc) else (("t", obj),)
        if p and isinstance(p[-1], tuple) and p[-1][0] == "*" and len(p) == 1: return p[-1][1]
        return ("addr", p)
    for f in [f for f in m.fns.values() if f.cls == c.id]:
        kind = next((k for k in ("cctor", "mctor", "cassign", "massign", "dtor") for x in K.get(k, []) if x["id"] == f.id), None)
        if kind is None or f.imp or f.raw.get("def"): continue
        ctx.analysed(f); ctx.count("shared-pointer members")
        that = (("root", f.params[0][1], f.params[0][0]),) if f.params else None
        t0 = ("in", that + (pf,), ()) if that else None
        for k, st, v in eng().run(f, ()):
            if k != "ret": continue
            # temporaries of the class still holding a pointer drop it at the end of the full expression
            dec = [e[1] for e in st.mon if e[0] == "dec"]; inc = [e[1] for e in st.mon if e[0] == "inc"]
            for kk, val in st.env.items():
                if isinstance(kk, tuple) and len(kk) == 2 and isinstance(kk[0], tuple) and kk[0][0] == "tmp" and kk[1] == pf: dec.append(val)
            dec = [t for t in dec if not known_null(st, t)]
            inc = [t for t in inc if not known_null(st, t)]
            def net(t): return inc.count(t) - dec.count(t)
            me = st.read(this + (pf,))
            same = t0 is not None and st.holds(T_cmp("==", ("addr", this), ("addr", that))) is True
            def bad(key, msg): ctx.violation(f"shared-{kind}-{key}", msg, f, path=steps(st))
            n0 = known_null(st, h0); tn = t0 is not None and known_null(st, t0)
            if kind == "dtor":
                if not n0 and net(h0) != -1: bad("count", f"destroying a pointer changes the count by {net(h0)} instead of -1")
            elif kind == "cctor":
                if not tn and (me != t0 or net(t0) != 1): bad("count", "copying a pointer does not add exactly one reference")
            elif kind == "mctor":
                if net(t0) != 0 or (me != t0 and not tn): bad("count", "moving a pointer changes the count or loses the object")
                b = st.read(that + (pf,))
                if b == t0 and not tn: bad("source", "after the move both pointers hold the reference")
            elif kind == "cassign" and not same:
                if me != t0 and not tn: bad("value", "assignment does not make both refer to the same object")
                if not tn and net(t0) != 1: bad("count", f"copy assignment changes the new object's count by {net(t0)} instead of +1")
                if not n0 and net(h0) != -1: bad("old", f"copy assignment changes the old object's count by {net(h0)} instead of -1")
            elif kind == "massign" and not same:
                b = st.read(that + (pf,))
                if me != t0 and not tn: bad("value", "move assignment does not take over the object")
                if net(t0) != 0: bad("count", "move assignment changes the moved object's count")
                if b == t0 and not tn: bad("source", "after the move both pointers hold the reference")
                if not n0 and not (net(h0) == -1 or (b == h0 and net(h0) == 0)): bad("old", "move assignment does not drop the old reference exactly once")
