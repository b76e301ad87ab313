"""Byte views: string_view / span / string / receive-buffer values as (bytes, start, end) with
linear offsets, so that searches, slices, consumption and bounds become linear facts."""
from rules import *

VIEW = ("std::basic_string_view", "std::span"); STR = ("std::basic_string", "std::vector", "std::array", "HX::container::ArrayBuf")
OPT = "std::optional"
FINDS = ("find", "find_first_of", "find_first_not_of")
def is_lit(t): return t[0] == "s"
def view(t):
    """(bytes, start, end) of a value"""
    k = t[0]
    if k == "sv": return t[1:]
    if k == "s": return (t, C(0), C(len(t[1])))
    if k == "empty": return (t, C(0), C(0))
    if k == "ctor" and t[1] in VIEW + ("std::basic_string",):
        if len(t) == 2: return (("s", ""), C(0), C(0))
        if len(t) == 3: return view(t[2])
        b, o = ptr(t[2])
        if b is not None:
            b2, o2 = ptr(t[3])
            if b2 == b: return (b, o, o2)
            return (b, o, ladd(o, t[3]))
        return (("at", t[2]), C(0), t[3])
    if k == "addr" : return (t, C(0), ("m", "size", t))
    return (t, C(0), ("m", "size", t))
def sv(t):
    b, s, e = view(t); return ("sv", b, s, e)
def vlen(t):
    b, s, e = view(t); return ladd(e, s, -1)
def ptr(t):
    """(bytes, offset) of a pointer / iterator value"""
    if t[0] in ("data", "s"): return (t[1], C(0)) if t[0] == "data" else (t, C(0))
    if t[0] == "lin":
        for x, c in t[2]:
            if c == 1 and x[0] == "data": return x[1], ladd(t, x, -1)
    return None, None
def mkptr(b, o): return ladd(("data", b), o)
def nn(t): return ("ge0", lin(t))

class Views(Calls):
    """Hooks: oblige(st, fr, n, kind, need) for every slice / index whose validity `need` states;
    on_take(st, fr, n, name, obj, args) for everything else."""
    h_oblige = None
    lits = True
    # ------------------------------------------------------------ values
    def val(s, st, x):
        t = super().val(st, x)
        if isinstance(x, Loc) and len(x.p) == 1 and isinstance(x.p[0], tuple) and x.p[0][0] == "g":
            v = s.m.vars.get(x.p[0][2])
            if v is not None and isinstance(v.val, dict) and len(v.val.get("s", ())) == 2 and isinstance(v.val["s"][1], str): return ("s", v.val["s"][1][:v.val["s"][0]])
        return t
    def prove(s, st, t, depth=3):
        """holds, with case analysis on min()"""
        h = st.holds(t)
        if h is not None or depth == 0: return h is True
        seen = set()
        for src in (t,) + tuple(st.facts):
            for x in walk_term(src):
                if isinstance(x, tuple) and x[:2] == ("u", "min") and x not in seen:
                    seen.add(x); ok = True
                    for a in x[2:]:
                        o = [y for y in x[2:] if y != a]
                        t2 = subst_norm(t, x, a) if t[0] in ("ge0", "eq0", "ne0") else t
                        if t2[0] == "c":
                            if not t2[1]: ok = False; break
                            continue
                        s2 = st.cp(); s2.facts = frozenset(subst_norm(f, x, a) for f in st.facts)
                        if C(0) in s2.facts: continue
                        s2.facts = frozenset(f for f in s2.facts if f[0] != "c")
                        for b in o:
                            s2 = s2.assume(T_cmp("<=", a, b)) if s2 is not None else None
                        if s2 is None: continue
                        if not s.prove(s2, t2, depth - 1): ok = False; break
                    if ok: return True
                    if len(seen) > 2: return False
        return False
    def oblige(s, st, fr, n, kind, need):
        if s.h_oblige: s.h_oblige(st, fr, n, kind, T_truth(need), s.prove(st, T_truth(need)))
    def minv(s, st, a, b):
        if a == b: return st, a
        for x, y in ((a, b), (b, a)):
            if st.holds(T_cmp("<=", x, y)) is True: return st, x
        t = ("u", "min", *sorted((a, b), key=repr))
        st = st.cp(); st.facts = st.facts | {f for f in (T_cmp("<=", t, a), T_cmp("<=", t, b)) if f[0] != "c"}
        return st, t
    # ------------------------------------------------------------ library model
    def extern(s, n, st, fr, name, short, obj, args, argn):
        r = s.viewcall(n, st, fr, name, short, obj, args, argn)
        if r is not None: return r
        return super().extern(n, st, fr, name, short, obj, args, argn)
    def on_call(s, st, fr, n, name, obj, args):
        r = super().on_call(st, fr, n, name, obj, args)
        if r is not None: return r
        if name.startswith("HX::container::ArrayBuf::"): return s.arraybuf(st, fr, n, name.split("::")[-1], obj, args)
        return None
    def arraybuf(s, st, fr, n, sh, obj, args):
        if not isinstance(obj, Loc): return None
        p = obj.p; t = st.read(p)
        if sh == "data": return [(st, mkptr(t, C(0)))]
        if sh == "size": return [(st, st.env.get(p + ("#",), ("m", "size", t)))]
        if sh == "max_size": return None
        if sh in ("moveToHead", "clear", "addSize", "resetSize"):
            v = [s.val(st, a) for a in args]
            st = s.on_buf(st, fr, n, sh, p, v)
            if st is None: return []
            st = st.havoc(p, ("buf", n.id))
            if sh == "clear": st = st.write(p + ("#",), C(0))
            return [(st, ("void",))]
        return None
    def on_buf(s, st, fr, n, sh, p, v): return st
    def typ(s, n):
        o = call_obj(n); t = (o.t if o is not None else "").replace("const ", "")
        return t[:-1].strip() if t.endswith("*") else t
    def viewcall(s, n, st, fr, name, short, obj, args, argn):
        if name in ("std::min", "std::max") and len(args) == 2:
            a, b = (s.val(st, x) for x in args)
            if name == "std::min": return [s.minv(st, a, b)]
            return None
        cls = name.rsplit("::", 1)[0]
        if name == "std::make_pair" and len(args) == 2: return [(st, ("ctor", "std::pair", s.val(st, args[0]), s.val(st, args[1])))]
        if obj is None:
            if short == 'operator""sv' and args: return [(st, s.val(st, args[0]))]
            if n.k == "CXXOperatorCallExpr" and n.op in ("==", "!=") and len(args) == 2: return s.compare(n, st, s.val(st, args[0]), s.val(st, args[1]))
            return None
        if cls == "std::array" and short in ("size", "max_size") and (d := re.search(r", (\d+)(?:UL|ul|u|U|L)*>", s.typ(n))): return [(st, C(int(d.group(1))))]
        if cls == OPT: return s.optional(n, st, fr, short, obj, args)
        if cls not in VIEW + STR and not cls.startswith("std::basic_string"): return None
        t = s.val(st, obj); vals = [s.val(st, a) for a in args]; b, S, E = view(t); L = ladd(E, S, -1)
        if short in ("size", "length"): return [(st, L)]
        if short == "empty": return [(st, T_eq0(L))]
        if short in ("data", "begin", "cbegin", "c_str"): return [(st, mkptr(b, S))]
        if short in ("end", "cend"): return [(st, mkptr(b, E))]
        if short.startswith("operator __sv") or short.startswith("operator basic_string_view"): return [(st, sv(t))]
        if short in ("substr", "subspan", "first", "last"):
            vs = [v for v in vals if v != C(NPOS)]
            if short == "first": pos, cnt = C(0), vs[0]
            elif short == "last": pos, cnt = ladd(L, vs[0], -1), vs[0]
            else: pos = vs[0] if vs else C(0); cnt = vs[1] if len(vs) > 1 else None
            if cnt is not None and cnt[0] == "c" and cnt[1] >= NPOS: cnt = None
            s.oblige(st, fr, n, short, T_cmp("<=", pos, L))
            st = st.assume(T_cmp("<=", pos, L))
            if st is None: return []
            S2 = ladd(S, pos)
            if cnt is None: return [(st, ("sv", b, S2, E))]
            if short != "substr": s.oblige(st, fr, n, short, T_cmp("<=", ladd(pos, cnt), L)); return [(st, ("sv", b, S2, ladd(S2, cnt)))]
            if s.prove(st, T_cmp("<=", ladd(pos, cnt), L)): return [(st, ("sv", b, S2, ladd(S2, cnt)))]
            st, m = s.minv(st, cnt, ladd(L, pos, -1)); return [(st, ("sv", b, S2, ladd(S2, m)))]
        if short in ("remove_prefix", "remove_suffix") and isinstance(obj, Loc):
            s.oblige(st, fr, n, short, T_cmp("<=", vals[0], L))
            st = st.assume(T_cmp("<=", vals[0], L))
            if st is None: return []
            v = ("sv", b, ladd(S, vals[0]), E) if short == "remove_prefix" else ("sv", b, S, ladd(E, vals[0], -1))
            st = st.write(obj.p, v); o = s.on_assign(st, fr, n, obj.p, v)
            return [(x, ("void",)) for x in ([st] if o is None else o)]
        if short in ("find", "find_first_of", "find_first_not_of", "rfind", "find_last_of", "find_last_not_of") and vals:
            if cls.startswith("std::vector"): return None
            start = vals[1] if len(vals) > 1 and vals[1] != C(NPOS) and short.startswith("find_") is False and short == "find" or (len(vals) > 1 and short in ("find", "find_first_of", "find_first_not_of")) else C(0)
            nd = vals[0]; nl = C(1) if nd[0] == "c" or short not in ("find", "rfind") else (C(1) if (argn[0].t or "").replace("const ", "") in ("char", "unsigned char") else vlen(nd))
            return [(st, ("u", short, b, S, E, nd, nl, start))]
        if short in ("starts_with", "ends_with") and vals:
            at = S if short == "starts_with" else ladd(E, vlen(vals[0]), -1) if vals[0][0] != "c" else E
            return [(st, ("ne0", lin(("u", "bytes", b, at, E if short == "starts_with" else C(0), vals[0]))))]
        if short in ("operator[]", "at", "front", "back") and n.get("lv"):
            i = C(0) if short == "front" else ladd(L, C(-1)) if short == "back" else vals[0]
            if short == "at": s._maybe_throw(st, fr, n, name)
            else: s.oblige(st, fr, n, short, T_cmp("<", i, L))
            st = st.assume(T_cmp("<", i, L))
            if st is None: return []
            if isinstance(obj, Loc) and not (t[0] in ("sv", "s")): return [(st, Loc(obj.p + (("[]", i),)))]
            return [(st, Loc((("*", mkptr(b, ladd(S, i))),)))]
        if short == "operator=" and isinstance(obj, Loc) and vals and (cls in VIEW or cls.startswith("std::basic_string")):
            v = sv(vals[0]) if cls in VIEW else vals[0]
            st = st.write(obj.p, v); o = s.on_assign(st, fr, n, obj.p, v)
            return [(x, obj) for x in ([st] if o is None else o)]
        if n.k == "CXXOperatorCallExpr" and n.op in ("==", "!=") and vals: return s.compare(n, st, t, vals[0])
        return None
    def compare(s, n, st, a, b):
        for x, y in ((a, b), (b, a)):
            if is_lit(y) and not is_lit(x) and x[0] in ("sv", "in", "m", "fld", "ctor"):
                bb, S, E = view(x)
                t = ("ne0", lin(("u", "bytes", bb, S, E, y))) if st.holds(T_cmp("==", vlen(x), C(len(y[1])))) is True or True else None
                return [(st, t if n.op == "==" else T_not(t))]
        return None
    def optional(s, n, st, fr, short, obj, args):
        if not isinstance(obj, Loc): return None
        p = obj.p; t = st.read(p)
        if t[0] == "ctor" and t[1] == OPT and len(t) == 3 and (short in ("has_value", "value", "operator*", "operator->") or short.startswith("operator bool")):
            none = "nullopt" in repr(t[2])[:80]
            if short in ("has_value",) or short.startswith("operator bool"): return [(st, C(0 if none else 1))]
            if not none:
                if p + ("*",) not in st.env: st = st.write(p + ("*",), t[2])
                return [(st, Loc(p + ("*",)) if short != "operator->" else ("addr", p + ("*",)))]
        if short == "reset" or short == "operator=" and args and ("nullopt" in repr(s.val(st, args[0])) or s.val(st, args[0])[0] == "empty"):
            st = st.write(p, ("empty", "optional")); st.forget(("ptr", p))
            st = st.assume(("eq0", lin(("ptr", p)))) or st
            o = s.on_assign(st, fr, n, p, ("empty", "optional"))
            return [(x, ("void",)) for x in ([st] if o is None else o)]
        if short in ("operator=", "emplace") and args:
            v = s.val(st, args[0])
            if v[0] == "ctor" and v[1] == OPT and len(v) == 3: v = v[2]
            elif v[0] == "ctor" and v[1] == OPT: return None
            elif (argn_t(n, 0) or "").startswith(OPT): return None
            st = st.write(p + ("*",), v); st.env.pop(p, None); st.forget(("ptr", p))
            st = st.assume(("ne0", lin(("ptr", p)))) or st
            o = s.on_assign(st, fr, n, p + ("*",), v)
            return [(x, obj) for x in ([st] if o is None else o)]
        return None
    def on_ctor(s, st, fr, n, name, p, args):
        base = name.removesuffix("::(ctor)")
        if base in VIEW:
            vals = [s.val(st, a) for a in args]
            t = sv(vals[0]) if len(vals) == 1 else sv(("ctor", base, *vals))
            return [st.write(p, t)]
        return super().on_ctor(st, fr, n, name, p, args)
    # ------------------------------------------------------------ facts
    def refine(s, st):
        """what a successful search says about its position; what matched bytes say about the length"""
        add = set()
        for f in st.facts:
            if f[0] == "ne0" and len(f[1][2]) == 1:
                x, c = f[1][2][0]
                if x[:1] == ("u",) and x[1] in ("find", "find_first_of", "find_first_not_of", "rfind", "find_last_of") and abs(f[1][1]) == NPOS:
                    _, k, b, S, E, nd, nl, start = x
                    add |= {T_cmp("<=", ladd(x, nl), ladd(E, S, -1)), T_cmp(">=", x, start)}
                elif x[:2] == ("u", "bytes") and f[1][1] == 0 and x[4] != C(0):
                    ln = C(1) if x[5][0] == "c" else vlen(x[5])
                    add.add(T_cmp(">=", ladd(x[4], x[3], -1), ln))
        add = {f for f in add if f[0] != "c"} - st.facts
        if not add: return st
        st = st.cp(); st.facts = st.facts | add
        return st
    def on_branch(s, st, fr, n, t, val): return [s.refine(st)]
    # ------------------------------------------------------------ joins keep equal values equal
    def join(s, a, b, site):
        if a is b: return a
        a2, b2 = a, b; comp = {}
        for k in set(a.env) | set(b.env):
            if k[0] in ("ref", "ver"): continue
            x = a.env.get(k); y = b.env.get(k)
            if x is None: x = a.read(k)
            if y is None: y = b.read(k)
            if x != y and x[0] == "sv" and y[0] == "sv" and x[1] == y[1]: comp[k] = (x, y)
            elif x != y and onefind(x, y): comp[k] = (x, y)
        n = super().join(a, b, site)
        # representative phi for every pair of values
        rep = {}; ren = {}; finds = set()
        keys = sorted((k for k in n.env if k[0] not in ("ref", "ver") and n.env[k] == ("phi", site, k)), key=repr)
        for k in keys:
            if k in comp: continue
            x = a.env.get(k) or a.read(k); y = b.env.get(k) or b.read(k)
            if (x, y) not in rep and x[0] != "c" and y[0] != "c" and not mentions_site(x, site) and not mentions_site(y, site) and x[0] in ("lin", "in", "m", "u", "phi", "sym") and y[0] in ("lin", "in", "m", "u", "phi", "sym") and a.facts != b.facts:
                # the smaller of two values, chosen by comparison
                if s.prove(a, T_cmp("<=", x, y)) and s.prove(b, T_cmp("<=", y, x)):
                    n.forget(n.env[k]); n2, t = s.minv(n, x, y); n.facts = n2.facts; n.env[k] = rep[(x, y)] = t; continue
            if (x, y) in rep: ren[n.env[k]] = rep[(x, y)]; n.env[k] = rep[(x, y)]
            else: rep[(x, y)] = n.env[k]
        for k, (x, y) in comp.items():
            new = []
            if x[0] != "sv":
                fx, fy = onefind(x, y)
                q = rep.get((fx[7], fy[7]))
                if q is None: q = rep[(fx[7], fy[7])] = ("phi", site, k + (("sv", 7),)); n.forget(q)
                old = n.env[k]; n.env[k] = fx[:7] + (q,) if x[0] == "u" else ladd(x, ladd(fx[:7] + (q,), fx, -1)); n.forget(old)
                finds.add(fx[:7] + (q,)); continue
            for i in (2, 3):
                if x[i] == y[i]: new.append(x[i]); continue
                q = rep.get((x[i], y[i]))
                if q is None: q = rep[(x[i], y[i])] = ("phi", site, k + (("sv", i),)); n.forget(q)
                new.append(q)
            old = n.env[k]; n.env[k] = ("sv", x[1], *new); n.forget(old)
        # ghosts that keep a constant sum with a variable
        for g in s.ghosts:
            t = n.env.get(g)
            if t is None or t[0] != "phi" or t[1] != site or any(n.env[k] == t for k in keys if k != g): continue
            xo, yo = a.env.get(g), b.env.get(g)
            if xo is None or yo is None: continue
            for k in keys:
                q = n.env[k]
                if k == g or q[0] != "phi" or q[1] != site: continue
                x, y = a.env.get(k) or a.read(k), b.env.get(k) or b.read(k)
                c = ladd(xo, x)
                if c == ladd(yo, y) and not mentions(c, q) and not mentions(c, t):
                    n.env[g] = ladd(c, q, -1); n.forget(t); break
                c = ladd(xo, x, -1)
                if c == ladd(yo, y, -1) and not mentions(c, q) and not mentions(c, t):
                    n.env[g] = ladd(c, q); n.forget(t); break
        # bounds of the new phis
        extra = set(); inv = {p: xy for xy, p in rep.items() if p[0] == "phi"}
        terms = set()
        for k, v in n.env.items():
            if v[0] == "sv": terms |= {(v[2], v[3]), (C(0), v[2])}
        terms |= set(s.relations(n))
        ps = list(inv)
        for p in ps: terms |= {(p, C(0)), (C(0), p)}
        ge = [lin(f[1]) for f in a.facts | b.facts if f[0] in ("ge0", "eq0")]
        for p, (x, y) in inv.items():
            for v in (x, y):
                lv = lin(v)
                for L in ge:
                    for x1, c in L[2]:
                        if lv[2] and (x1, c) in lv[2] and len(lv[2]) == 1 and abs(c) == 1:
                            pass
        def inst(t, side):
            for p, xy in inv.items(): t = subst_any(t, p, xy[side])
            return t
        for q in finds:
            for f in (T_cmp("!=", q, C(NPOS)), T_cmp("==", q, C(NPOS))):
                if a.holds(inst(f, 0)) is True and b.holds(inst(f, 1)) is True: extra.add(f)
        for u, w in terms:
            if not any(mentions(u, p) or mentions(w, p) for p in ps): continue
            ok = s.prove(a, T_cmp("<=", inst(u, 0), inst(w, 0))) and s.prove(b, T_cmp("<=", inst(u, 1), inst(w, 1)))
            if ok:
                f = T_cmp("<=", u, w)
                if f[0] != "c": extra.add(f)
        if extra: n.facts = n.facts | extra
        return n
    def relations(s, st): return ()
    ghosts = ()
def onefind(x, y):
    """the two searches by which x and y differ, if they differ only in where one search starts"""
    if x[:1] == y[:1] == ("u",): return (x, y) if x[1] == y[1] and x[1] in FINDS and len(x) == len(y) == 8 and x[2:7] == y[2:7] else None
    if x[0] == y[0] == "lin" and x[1] == y[1]:
        p = set(x[2]) - set(y[2]); q = set(y[2]) - set(x[2])
        if len(p) == len(q) == 1:
            (t, c), (u, d) = p.pop(), q.pop()
            if c == d == 1 and t[:1] == u[:1] == ("u",): return onefind(t, u)
    return None
def mentions_site(t, site): return any(isinstance(x, tuple) and len(x) == 3 and x[0] == "phi" and x[1] == site for x in walk_term(t))
def argn_t(n, i):
    a = call_args(n); return a[i].t.replace("const ", "") if len(a) > i else ""
def subst_any(t, p, v):
    if t == p: return v
    if t[0] == "lin":
        acc = C(t[1])
        for x, c in t[2]: acc = ladd(acc, lmul(v if x == p else subst(x, p, v), c))
        return acc
    return subst(t, p, v)
