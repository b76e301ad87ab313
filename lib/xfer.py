"""Byte transfers: forks every awaited transfer on its outcome (bytes moved, end of stream, error, timeout)."""
from rules import *
RECV = ("prepRecv", "prepRead"); SEND = ("prepSend", "prepWrite")
G = ("ghost",)
VAR = "HX::container::UninitializedNonVoidVariant"
def off_of(t):
    """(base, offset) of a span/view term"""
    if t[0] == "m" and t[1] in ("subspan", "substr", "last") and len(t) >= 4 and t[1] != "last":
        b, o = off_of(t[2]); return b, ladd(o, t[3])
    if t[0] == "m" and t[1] == "first": return off_of(t[2])
    if t[0] == "m" and t[1] == "data": return off_of(t[2])
    if t[0] == "ctor" and ("span" in t[1] or "string_view" in t[1]) and len(t) >= 3: return off_of(t[2])
    if t[0] == "lin":
        for x, c in t[2]:
            if c == 1 and x[0] == "m" and x[1] == "data":
                b, o = off_of(x); return b, ladd(o, ladd(t, x, -1))
    return t, C(0)
class IO(Calls):
    """on_xfer(st, case, sym, kind, ord) may veto; prim(fn) tells which coroutine calls count as transfers."""
    h_prim = None; h_again = None; h_step = None
    def on_call(s, st, fr, n, name, obj, args):
        sh = name.split("::")[-1]
        if sh in RECV + SEND and args:
            sp = [a for a in args if isinstance(a, (Loc, tuple))][1] if len(args) > 1 else args[0]
            st = st.write((G, "off"), s.val(st, args[-1]))
            return [(st, ("xfer", "fread" if sh == "prepRead" else "recv" if sh in RECV else "send", s.span(st, sp), "int"))]
        if sh == "linkTimeout" and args:
            v = s.val(st, args[0])
            if v[0] == "xfer": return [(st, v[:3] + ("var",))]
        if name.startswith("HX::container::") and sh == "get" and n.get("ta"):
            o = args[0] if args else obj
            if isinstance(o, Loc): return [(st, Loc(o.p + (("get", str(n.get("ta")[0])),)))]
        if name.startswith(VAR) and sh == "index" and obj is not None: return [(st, ("m", "index", s.val(st, obj)))]
        o = super().on_call(st, fr, n, name, obj, args)
        if o is not None: return o
        g = s.m.fns.get(n.get("fn"))
        if g is not None and g.coro and s.h_prim:
            k = s.h_prim(g, s.entry)
            if k: return [(st, ("xfer", k[0], s.span(st, args[0]) if args else ("none",), k[1]))]
        return None
    def span(s, st, a):
        v = s.val(st, a)
        return v
    def await_(s, n, st, fr, v):
        t = s.val(st, v)
        if t[0] == "xfer": return s.transfer(n, st, fr, t)
        return super().await_(n, st, fr, v)
    def transfer(s, n, st, fr, t):
        _, dir, buf, kind = t
        k = sum(1 for x in (st.mon or ()) if x[0] == "xfer" and x[1] == dir)
        o = min(k, 2); last = [x[2] for x in (st.mon or ()) if x[0] == "xfer" and x[1] == dir]
        if last and last[-1] in ("neg", "zero", "timeout") and s.h_again:
            s.h_again(st, fr, n, dir, last[-1]); return []
        if s.h_step: s.h_step(st, fr, n, dir, buf, o)
        sym = ("sym", ("io", n.id, fr.id, o)); st = st.cp(); st._kill_site(sym)
        if buf[0] == "in" and dir == "recv": pass
        st = st.write((G, "buf", dir), buf)
        out = []
        def go(st2, case, val):
            if st2 is None: return
            x = s.emit(st2, fr, n, ("xfer", dir, case, o))
            out.append((x, val))
        if kind == "void":
            s.throw(s.emit(st, fr, n, ("xfer", dir, "fail", o)), fr, "?", n)
            go(st.write((G, "n", dir), ("m", "size", buf)), "all", ("void",)); return out
        if kind == "var":
            idx = ("m", "index", sym); r = ("fld", sym, ("get", "0"))
            go(st.assume(T_cmp("==", idx, C(1))), "timeout", sym)
            st = st.assume(T_cmp("==", idx, C(0)))
        else: r = sym
        if kind == "count": s.throw(s.emit(st, fr, n, ("xfer", dir, "neg", o)), fr, "?", n)
        st = st.write((G, "n", dir), r)
        if kind != "count": go(st.assume(T_cmp("<", r, C(0))), "neg", sym)
        if dir != "send": go(st.assume(T_eq0(r)), "zero", sym)
        go(st.assume(T_cmp(">", r, C(0))), "pos", sym)
        return out
def case_of(st, dir="recv"):
    c = [x[2] for x in (st.mon or ()) if x[0] == "xfer" and x[1] == dir]
    return c
