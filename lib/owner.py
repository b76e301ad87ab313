"""Ownership typestate of classes that hold a raw handle: who releases it, when, how often."""
from rules import *

def initial(st0, p): return ("in", p, ())
def handle_path(root, f): return root + (f,)

class Own(Calls):
    """release(name, obj, args, eng, st) -> value released or None"""
    release = None
    def setup(s):
        s.h_call = s._call
        s.h_delete = lambda st, fr, n, v: ("rel", v) if s.deletes else None
    deletes = False
    def _call(s, name, n, st, obj, args, eng, fr):
        v = s.release(name, n, st, obj, args, eng)
        return None if v is None else ("rel", v)

def by_arg(names):
    def f(name, n, st, obj, args, eng):
        if name.lstrip(":") in names and args: return eng.val(st, args[0])
        return None
    return f
def by_obj(names):
    def f(name, n, st, obj, args, eng):
        if name in names and obj is not None: return eng.val(st, obj)
        return None
    return f

def known_null(st, t): return st.holds(T_truth(t)) is False or (t[0] == "c" and t[1] == 0)
def known_set(st, t): return st.holds(T_truth(t)) is True

def kinds(c): return {x["kind"]: x for x in c.methods if x["kind"] in ("cctor", "mctor", "cassign", "massign", "dtor")}
def fn_of(m, x): return m.fns.get(x.get("id")) if x else None
def is_del(x): return bool(x.get("del"))
def is_auto(x): return bool(x.get("def") or x.get("imp"))

def check_owner(ctx, m, c, field, release, nullsafe, what, owned=True, deletes=False, extra_drop=(), key=None):
    """All five special members of class c with respect to the handle it keeps in `field`."""
    key = key or c.n
    K = {}
    for x in c.methods: K.setdefault(x["kind"], []).append(x)
    ctx.count("owning classes")
    fns = {f.id: f for f in m.fns.values() if f.cls == c.id}
    def engine():
        e = Own(m); e.release = release; e.deletes = deletes; e.setup(); e.lib_throws = lambda n, x: False
        return e
    this = (("root", "this"),)
    h0 = ("in", this + (field,), ())
    # copying must not duplicate the handle
    for kind in ("cctor", "cassign"):
        for x in K.get(kind, []):
            if not is_del(x) and is_auto(x): ctx.violation(f"copied:{key}:{field}:{kind}", f"{c.n} owns {what} and is copyable member by member: two owners would release it", c, c.line)
            ctx.count("copy members")
    for x in K.get("mctor", []) + K.get("massign", []):
        if not is_del(x) and is_auto(x): ctx.violation(f"moved-shared:{key}:{field}", f"{c.n} owns {what} and its defaulted move leaves the source owning it too", c, c.line)
    dt = [f for f in fns.values() if f.dtor]
    if owned and not dt and not any(x["kind"] == "dtor" and not is_auto(x) for x in c.methods):
        ctx.violation(f"never-released:{key}:{field}", f"{c.n} owns {what} but has no destructor releasing it", c, c.line)
    for f in dt:
        ctx.analysed(f); ctx.count("destructors")
        for k, st, v in engine().run(f, ()):
            rel = [e[1] for e in st.mon if e[0] == "rel"]
            mine = [t for t in rel if t == h0]
            if not owned:
                if mine: ctx.violation(f"double-release:{key}:{field}", f"the destructor releases {what} that releases itself", f, path=steps(st))
                continue
            if known_null(st, h0):
                if mine and not nullsafe: ctx.violation(f"null-release:{key}:{field}", f"the destructor releases a null {what}", f, path=steps(st))
                continue
            if len(mine) == 0: ctx.violation(f"not-released:{key}:{field}", f"a path through the destructor keeps {what} that it owns", f, path=steps(st))
            elif len(mine) > 1: ctx.violation(f"double-release:{key}:{field}", f"the destructor releases {what} twice", f, path=steps(st))
            elif not nullsafe and not known_set(st, h0): ctx.violation(f"null-release:{key}:{field}", f"the destructor may release a null {what}", f, path=steps(st))
    for f in fns.values():
        is_mctor = f.id in {x["id"] for x in K.get("mctor", [])}
        is_massign = f.id in {x["id"] for x in K.get("massign", [])}
        if not (is_mctor or is_massign) or f.imp or f.raw.get("def"): continue
        ctx.analysed(f); ctx.count("move members")
        pid, pn, _ = f.params[0]
        that = (("root", pn, pid),); t0 = ("in", that + (field,), ())
        for k, st, v in engine().run(f, ()):
            if k != "ret": ctx.violation(f"move-throws:{key}:{field}", "a move member can exit by exception", f, path=steps(st)); continue
            a = st.read(this + (field,)); b = st.read(that + (field,))
            rel = [e[1] for e in st.mon if e[0] == "rel"]
            same = st.holds(T_cmp("==", ("addr", this), ("addr", that))) is True
            if same:
                if rel: ctx.violation(f"self-move:{key}:{field}", "self-move releases the handle that stays in use", f, path=steps(st))
                continue
            if t0 in rel: ctx.violation(f"moved-released:{key}:{field}", f"the move releases the {what} it takes over", f, path=steps(st)); continue
            if a != t0 and not (known_null(st, t0) and known_null(st, a)): ctx.violation(f"move-loses:{key}:{field}", f"after the move the target does not hold the source's {what} (holds {show(a)})", f, path=steps(st))
            if is_mctor:
                if not known_null(st, b) and b != ("empty", "cleared") and not (b == h0): ctx.violation(f"move-keeps:{key}:{field}", f"after the move construction the source still holds {what}: released twice", f, path=steps(st))
                continue
            nrel = rel.count(h0)
            if b == h0 and nrel == 0: continue
            if b == t0 and not known_null(st, t0): ctx.violation(f"move-keeps:{key}:{field}", f"after the move assignment the source still holds {what}: released twice", f, path=steps(st)); continue
            if b == h0 and nrel: ctx.violation(f"swap-released:{key}:{field}", f"the old {what} is released and also kept by the source", f, path=steps(st)); continue
            if nrel == 0 and not known_null(st, h0): ctx.violation(f"assign-leaks:{key}:{field}", f"move assignment drops the old {what} without releasing it", f, path=steps(st))
            if nrel > 1: ctx.violation(f"double-release:{key}:{field}:massign", f"the old {what} is released twice", f, path=steps(st))
            if nrel and st.holds(T_cmp("==", ("addr", this), ("addr", that))) is None: ctx.violation(f"self-move:{key}:{field}", "move assignment releases its handle before taking the source's without excluding self-assignment", f, path=steps(st))
    return fns

