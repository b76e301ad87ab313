"""Shared rule machinery on top of the abstract interpreter."""
from engine import *
from model import *

class Tracer(Engine):
    """Explores a function with the sequence of watched events (as returned by `watch`)
    as the monitor: every distinct event order is kept apart, an event is repeated at most
    `rep` times in a sequence so loops converge."""
    rep = 2; maxlen = 60
    def __init__(s, m, **kw):
        s.evs = {}
        super().__init__(m, **kw)
    def watch(s, st, fr, n, kind, **k): return None
    def interesting(s, fn, n): return False
    def is_event(s, fn, n): return s.interesting(fn, n)
    def emit(s, st, fr, n, ev):
        if ev is None: return st
        m = st.mon or ()
        if m.count(ev) >= s.rep or len(m) >= s.maxlen: return st
        x = st.with_mon(m + (ev,))
        x = x.note(f"{fr.fn.rel}:{n.l if n is not None else fr.fn.line} {show_ev(ev)}")
        return x
    def _w(s, st, fr, n, kind, **k):
        ev = s.watch(st, fr, n, kind, **k)
        return None if ev is None else s.emit(st, fr, n, ev)

def show_ev(ev):
    if isinstance(ev, tuple):
        return ev[0] + "(" + ", ".join(show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else show_path(x) if isinstance(x, tuple) else str(x) for x in ev[1:]) + ")"
    return str(ev)

class Calls(Tracer):
    """Trace of calls/assignments chosen by predicates.
    call(name, n, st, obj, args, eng) -> event | None;   assign(path, term, st, n) -> event | None"""
    h_call = None; h_assign = None; h_ctor = None; h_dtor = None; h_throws = None; h_rel = None; h_ret = None; h_await = None; h_new = None; h_delete = None; h_place = None
    into = (); opaque = (); _skip = None; entry = None
    def interesting(s, fn, n):
        if s.h_rel is not None: return s.h_rel(fn, n)
        return False
    def no_inline(s, fn): return any(fn.n == o or fn.n.endswith("::" + o) for o in s.opaque)
    local = True
    def run(s, fn, mon, st=None, this=None):
        s.entry = fn
        return super().run(fn, mon, st, this)
    def force_inline(s, fn):
        if any(fn.n == o or fn.n.endswith("::" + o) for o in s.into): return True
        # helpers: members of the analysed class, functions and lambdas of the same file
        e = s.entry
        return s.local and e is not None and fn.file == e.file and (fn.lam or not fn.cls or fn.clsn == e.clsn)
    def on_call(s, st, fr, n, name, obj, args):
        if s.h_call is None: return None
        if s._skip is n: s._skip = None; return None
        ev = s.h_call(name, n, st, obj, args, s, fr)
        if ev is None: return None
        if isinstance(ev, list): return ev
        x = s.emit(st, fr, n, ev)
        if name in THROWERS: s.throw(x, fr, "?", n); return []
        if name in ENDERS: return []
        if n.get("fn") in s.m.fns and not s.no_inline(s.m.fns[n.get("fn")]): 
            # observed and still analysed inline
            s._skip = n
            return s.apply(n, x, fr, name, obj, args, call_args(n))
        if n.get("fn") not in s.m.fns and n.name: return s.extern(n, x, fr, name, name.split("::")[-1], obj, args, call_args(n))
        r, v = s.fresh(x, fr, n); 
        for a, an in zip(args, call_args(n)):
            if isinstance(a, Loc) and an.get("lv") and not an.t.startswith("const "): r = r.havoc(a.p, ("mut", fr.id, n.id))
            elif isinstance(a, tuple) and a[0] == "addr" and not an.t.startswith("const ") and an.t.endswith("*"):
                if a[1] and a[1] != fr.this: r = r.havoc(a[1], ("mut", fr.id, n.id))
        t = s.lib_throws(name, n)
        if t: s.throw(x, fr, t if isinstance(t, str) else "?", n)
        return [(r, v)]
    def on_assign(s, st, fr, n, p, t):
        if s.h_assign is None: return None
        ev = s.h_assign(p, t, st, n)
        return None if ev is None else [s.emit(st, fr, n, ev)]
    def on_ctor(s, st, fr, n, name, p, args):
        if s.h_ctor is None: return None
        ev = s.h_ctor(name, p, args, st, n, s)
        if ev is None: return None
        base = name.removesuffix("::(ctor)"); vals = [s.val(st, a) for a in args]
        t = vals[0] if base in ("std::basic_string", "std::basic_string_view", "std::span") and len(vals) == 1 else ("ctor", base, *vals)
        return [s.emit(st, fr, n, ev).write(p, t)]
    def on_dtor(s, st, fr, p, ty, var):
        if s.h_dtor is None: return None
        ev = s.h_dtor(p, ty, var, st)
        return None if ev is None else [s.emit(st, fr, None, ev)]
    def on_return(s, st, fr, n, v):
        if s.h_ret is None: return None
        ev = s.h_ret(st, fr, n, v)
        return None if ev is None else [s.emit(st, fr, n, ev)]
    def on_await(s, st, fr, n, v):
        if s.h_await is None: return None
        ev = s.h_await(st, fr, n, v)
        if ev is None: return None
        if isinstance(ev, list): return ev
        x = s.emit(st, fr, n, ev); r, t = s.fresh(x, fr, n)
        if s.await_throws(n, v): s.throw(x, fr, "?", n)
        return [(r, t)]
    def on_new(s, st, fr, n, args):
        if s.h_new is None: return None
        ev = s.h_new(st, fr, n, args)
        return None if ev is None else [s.emit(st, fr, n, ev)]
    def on_placement(s, st, fr, n, path):
        if s.h_place is None: return None
        ev = s.h_place(st, fr, n, path)
        return None if ev is None else [s.emit(st, fr, n, ev)]
    def on_delete(s, st, fr, n, v):
        if s.h_delete is None: return None
        ev = s.h_delete(st, fr, n, v)
        return None if ev is None else [s.emit(st, fr, n, ev)]
    def lib_throws(s, name, n):
        if s.h_throws is None: return False
        return s.h_throws(name, n)

def reach(st, a, depth=6):
    """the values an operand is made of, following copies of objects through the store"""
    out = []; seen = set()
    def path(p, d):
        if p in seen or d < 0: return
        seen.add(p)
        for q, v in st.env.items():
            if q[0] in ("ver", "ref"): continue
            if q[:len(p)] == p or p[:len(q)] == q: term(v, d - 1)
    def term(t, d):
        if d < 0 or t in out: return
        out.append(t)
        for x in walk_term(t):
            if isinstance(x, tuple) and len(x) >= 2 and x[0] in ("in", "addr") and isinstance(x[1], tuple): path(x[1], d)
    if isinstance(a, Loc): term(st.read(a.p), depth); path(a.p, depth)
    else: term(a, depth)
    return out

def fields_of(cls, pred): return [f["n"] for f in cls.fields if pred(f["t"].replace("const ", "").strip())]
def cls_of(m, fn):
    c = m.classes.get(fn.cls)
    if c: return c
    for c in m.classes.values():
        if c.full == fn.clsfull: return c
    return None
def methods(m, cls, short):
    return [f for f in m.fns.values() if f.cls == cls.id and f.short == short]
def steps(st, n=14): return list(st.tr[-n:]) if st is not None else []
