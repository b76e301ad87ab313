"""Bytes, bit fields and byte buffers: header bytes become bit-field terms with known ranges, buffers become
sequences of bytes, a received block remembers its position in the stream, an XOR pass remembers its key and progress."""
from views import *
G = ("ghost",)
def runs_of(m):
    """contiguous runs (lo, width) of a bit mask"""
    lo = 0; out = []
    while m:
        while not m & 1: m >>= 1; lo += 1
        w = 0
        while m & 1: m >>= 1; w += 1
        out.append((lo, w)); lo += w
    return out
def bits(x, lo, w):
    if w <= 0: return C(0)
    if is_c(x): return C((x[1] >> lo) & ((1 << w) - 1)) if x[1] >= 0 else C(((x[1] + (1 << 64)) >> lo) & ((1 << w) - 1))
    if x[0] == "bits": return bits(x[1], x[2] + lo, min(w, x[3] - lo))
    if x[0] == "byte": w = min(w, 8 - lo)
    if x[0] == "be" or x[0] == "le": w = min(w, 8 * x[2] - lo)
    if x[0] in ("be", "le") and lo % 8 == 0 and w == 8:
        k = lo // 8; return ("byte", ladd(x[1], C(x[2] - 1 - k if x[0] == "be" else k)))
    if w <= 0: return C(0)
    if x[0] == "byte" and lo == 0 and w == 8: return x
    if x[0] == "lin":
        # fields that do not overlap: drop multiples above, shift exact multiples
        keep = {}; k = x[1]; ok = k >= 0
        for t, c in x[2]:
            if c <= 0 or c & (c - 1): ok = False; break
            wt = width(t)
            if wt is None: ok = False; break
            sh = c.bit_length() - 1
            if sh >= lo + w: continue
            if sh + wt <= lo: continue
            keep[t] = (c, sh, wt)
        if ok:
            spans = sorted((sh, sh + wt) for c, sh, wt in [( c, c.bit_length() - 1, width(t)) for t, c in x[2]])
            if all(a[1] <= b[0] for a, b in zip(spans, spans[1:])) and not any((k >> a) & ((1 << (b - a)) - 1) for a, b in spans):
                r = C((k >> lo) & ((1 << w) - 1))
                for t, (c, sh, wt) in keep.items():
                    a = max(lo, sh); b = min(lo + w, sh + wt)
                    r = ladd(r, lmul(bits(t, a - sh, b - a), 1 << (a - lo)))
                return r
    return ("bits", x, lo, w)
def width(t):
    """number of bits a term is known to fit in"""
    if is_c(t): return t[1].bit_length() if t[1] >= 0 else None
    if t[0] == "byte": return 8
    if t[0] in ("be", "le"): return 8 * t[2]
    if t[0] == "bits": return t[3]
    if t[0] in ("ge0", "eq0", "ne0"): return 1
    return None
def isbool(t): return t[0] in ("ge0", "eq0", "ne0")
SIZES = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "std::byte": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "float": 4, "long": 8, "unsigned long": 8, "double": 8, "long long": 8, "unsigned long long": 8}
ALIAS = {"uint8_t": "unsigned char", "int8_t": "signed char", "uint16_t": "unsigned short", "int16_t": "short", "uint32_t": "unsigned int", "int32_t": "int", "uint64_t": "unsigned long", "int64_t": "long", "size_t": "unsigned long"}
def csize(t):
    t = t.replace("const ", "").replace("std::", "").strip(); t = ALIAS.get(t, t)
    return SIZES.get(t)
def unsigned(t):
    t = t.replace("const ", "").replace("std::", "").strip(); t = ALIAS.get(t, t)
    return t.startswith("unsigned") or t == "bool"

def unpack(t):
    """multi-byte loads as sums of their bytes"""
    if t[0] in ("be", "le"):
        r = C(0)
        for k in range(t[2]): r = ladd(r, lmul(("byte", ladd(t[1], C(k))), 1 << (8 * (t[2] - 1 - k if t[0] == "be" else k))))
        return r
    if t[0] == "lin":
        r = C(t[1])
        for x, c in t[2]: r = ladd(r, lmul(unpack(x), c))
        return r
    return t

class Bits(Views):
    lib_throws = lambda s, n, x: False
    unroll = 16
    def below(s, st, t, w):
        x = width(t)
        if x is not None and x <= w: return True
        return s.prove(st, T_cmp("<=", t, C((1 << w) - 1))) and (nonneg(t) or s.prove(st, T_cmp(">=", t, C(0))))
    # ------------------------------------------------------------ values
    def val(s, st, x):
        if isinstance(x, Loc) and x.p and isinstance(x.p[-1], tuple) and x.p[-1][0] == "[]":
            p, i = x.p[:-1], x.p[-1][1]
            v = s.element(st, p, i)
            if v is not None: return v
        return super().val(st, x)
    def element(s, st, p, i):
        if p + (("[]", i),) in st.env: return None
        q = st.env.get((G, "buf", p))
        if q is not None and is_c(i) and i[1] < len(q) - 1: return q[1 + i[1]]
        t = st.env.get(p)
        if t is not None and t[0] == "init" and is_c(i) and i[1] < len(t) - 2: return t[2 + i[1]]
        if t is not None and t[0] == "bswap" and is_c(i): return bits(t[1], 8 * (t[2] - 1 - i[1]), 8)
        if t is not None and t[0] in ("le", "be") and is_c(i): return ("byte", ladd(t[1], C(i[1] if t[0] == "le" else t[2] - 1 - i[1])))
        if t is not None and t[0] in ("pay", "xored"): return ("el", p, i)
        if is_c(i): return None
        el = s.elems(st, p)
        if el: return ("sel", el, i)
        return ("el", p, i)
    def elems(s, st, p):
        out = []
        while True:
            k = p + (("[]", C(len(out))),)
            v = st.env.get(k)
            if v is None: v = s.element(st, p, C(len(out))) if len(out) < 64 else None
            if v is None or v[0] == "el": break
            out.append(v)
        return tuple(out) or None
    def ev_UnaryExprOrTypeTraitExpr(s, n, st, fr):
        k = csize(n.s_("at") or "")
        return [(st, C(k))] if k else super().ev_UnaryExprOrTypeTraitExpr(n, st, fr)
    def ev_ImplicitCastExpr(s, n, st, fr):
        r = super().ev_ImplicitCastExpr(n, st, fr)
        if n.s_("ck") == "IntegralCast" and (k := csize(n.t)) and unsigned(n.t) and not n.t.endswith("bool"):
            r = [(x, v if isinstance(v, Loc) else s.trunc(x, v, 8 * k, n.kid(0).t)) for x, v in r]
        return r
    def ev_UnaryOperator(s, n, st, fr):
        r = super().ev_UnaryOperator(n, st, fr)
        if n.op in ("++", "--", "post++", "post--") and (k := csize(n.kid(0).t)) and k <= 2 and unsigned(n.kid(0).t):
            out = []
            for x, v in r:
                l = v if isinstance(v, Loc) else next((Loc(q) for y, q0 in s.ev(n.kid(0), x, fr) for q in [q0.p] if isinstance(q0, Loc)), None)
                if l is not None: x = x.write(l.p, s.trunc(x, x.read(l.p), 8 * k, "long"))
                out.append((x, v))
            return out
        return r
    def trunc(s, st, v, w, frm):
        k = csize(frm)
        if isbool(v) or k and unsigned(frm) and 8 * k <= w or w == 64: return v
        if v[0] not in ("c", "lin", "in", "sym", "phi", "u", "op", "bits", "byte", "le", "be", "m"): return v
        if is_c(v): return C(v[1] & ((1 << w) - 1))
        return v if s.below(st, v, w) else bits(v, 0, w)
    ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = ev_CXXReinterpretCastExpr = ev_CXXConstCastExpr = ev_ImplicitCastExpr
    def arith(s, op, a, b, ty=""):
        if op == "&":
            for x, m in ((a, b), (b, a)):
                if is_c(m) and not is_c(x) and m[1] >= 0 and x[0] not in ("op",) and len(runs_of(m[1])) <= 4:
                    r = C(0)
                    for lo, w in runs_of(m[1]): r = ladd(r, lmul(bits(x, lo, w), 1 << lo))
                    return r
            return super().arith(op, a, b, ty)
        if op == ">>" and is_c(b) and not is_c(a):
            return bits(a, b[1], 64 - b[1])
        if op == "<<" and is_c(b) and not is_c(a): return lmul(a, 1 << b[1])
        if op == "<<" and is_c(b) and is_c(a): return C(a[1] << b[1])
        if op == "%" and is_c(b) and b[1] > 0 and b[1] & (b[1] - 1) == 0 and not is_c(a): return bits(a, 0, b[1].bit_length() - 1)
        if op == "^":
            for x, y in ((a, b), (b, a)):
                if is_c(y) and isbool(x) and y[1] in (0, 1): return T_not(x) if y[1] else x
                if is_c(y) and y[1] == 0: return x
        if op in ("|", "^"):
            for x, y in ((a, b), (b, a)):
                r = s.disjoint(x, y)
                if r is not None: return r
        return super().arith(op, a, b, ty)
    def disjoint(s, a, b):
        """a | b == a + b when a is a multiple of 2^k and b fits in k bits"""
        w = width(b)
        L = lin(b)
        if w is None and b[0] == "lin" and L[1] >= 0 and all(c > 0 and width(t) is not None for t, c in L[2]): w = (L[1] + sum(c * ((1 << width(t)) - 1) for t, c in L[2])).bit_length()
        if w is None: return None
        A = lin(a)
        if A[1] % (1 << w) == 0 and all(c % (1 << w) == 0 for _, c in A[2]): return ladd(a, b)
        return None
    def ev_BinaryOperator(s, n, st, fr):
        if n.op in ("|", "^", "==", "!="):
            out = []
            for s1, a in s.ev_val(n.kid(0), st, fr):
                for s2, b in s.ev_val(n.kid(1), s1, fr):
                    if n.op == "|":
                        t = s.arith("|", a, b, n.t)
                        if t[0] == "op":
                            for x, y in ((a, b), (b, a)):
                                L = lin(x); low = min([k for k in [(L[1] & -L[1]).bit_length() - 1 if L[1] else 64] + [(c & -c).bit_length() - 1 for _, c in L[2]]])
                                if 0 < low < 64 and s.below(s2, y, low): t = ladd(x, y); break
                        out.append((s2, t)); continue
                    if isbool(a) and isbool(b):
                        for v in (True, False):
                            s3 = s2.assume(a, v)
                            if s3 is not None: out.append((s3, b if (v == (n.op == "==")) else T_not(b)))
                        continue
                    out.append((s2, s.arith("^", a, b, n.t) if n.op == "^" else T_cmp(n.op, a, b)))
            return out
        return super().ev_BinaryOperator(n, st, fr)
    # ------------------------------------------------------------ buffers
    def on_ctor(s, st, fr, n, name, p, args):
        base = name.removesuffix("::(ctor)")
        if base == "std::span" and args:
            v = s.span(st, args)
            if v is not None: return [st.write(p, v)]
        if base == "std::basic_string" and len(args) == 2 and csize(call_args(n)[0].t if call_args(n) else "") and not n.kid(0).t.endswith("*"):
            return [st.write(p, ("sized", s.val(st, args[0])))]
        return super().on_ctor(st, fr, n, name, p, args)
    def span(s, st, args):
        a = args[0]
        if isinstance(a, Loc) and len(args) == 1 and st.read(a.p)[0] != "sv":
            return ("sv", ("mem", a.p), C(0), s.sizeat(st, a.p))
        t = s.val(st, a)
        q, o = s.pointer(t)
        if q is not None and len(args) == 2: return ("sv", ("mem", q), o, ladd(o, s.val(st, args[1])))
        return None
    def pointer(s, t):
        if t[0] == "addr":
            p = t[1]
            if p and isinstance(p[-1], tuple) and p[-1][0] == "[]": return p[:-1], p[-1][1]
            return p, C(0)
        if t[0] == "lin":
            for x, c in t[2]:
                if c == 1 and x[0] == "addr": q, o = s.pointer(x); return q, ladd(o, ladd(t, x, -1))
        return None, None
    def sizeat(s, st, p):
        q = st.env.get((G, "buf", p))
        if q is not None: return C(len(q) - 1)
        t = st.read(p)
        return s.sizeof(t)
    def sizeof(s, t):
        if t[0] == "sized": return t[1]
        if t[0] == "pay": return t[2]
        if t[0] == "xored": return s.sizeof(t[1])
        return vlen(t)
    def viewcall(s, n, st, fr, name, short, obj, args, argn):
        if name.startswith("std::vector::") and isinstance(obj, Loc):
            p = obj.p; q = st.env.get((G, "buf", p))
            if q is None and st.read(p)[0] in ("empty", "ctor") and "vector" in str(st.read(p)[1]) and len(st.read(p)) <= 2: q = ("seq",)
            if q is not None:
                if short in ("push_back", "emplace_back") and args:
                    st = st.cp(); st.env[(G, "buf", p)] = q + (s.val(st, args[0]),); return [(st, ("void",))]
                if short == "clear": st = st.cp(); st.env[(G, "buf", p)] = ("seq",); return [(st, ("void",))]
                if short in ("size",): return [(st, C(len(q) - 1))]
                if short in ("reserve", "shrink_to_fit"): return [(st, ("void",))]
                if short in ("end", "cend"): return [(st, ("bufend", p))]
                if short in ("data", "begin", "end", "cbegin", "cend", "empty", "capacity", "operator[]", "at", "front", "back"): pass
                elif short == "pop_back" and len(q) > 1: st = st.cp(); st.env[(G, "buf", p)] = q[:-1]; return [(st, ("void",))]
                else:
                    add = None
                    if short == "insert" and len(args) == 3 and ("bufend", p) in walk_term(s.val(st, args[0])):
                        a, b = (s.pointer(s.val(st, x)) for x in args[1:])
                        if a[0] is not None and a[0] == b[0] and is_c(a[1]) and is_c(b[1]) and b[1][1] - a[1][1] <= 32:
                            add = [s.element(st, a[0], C(k)) or st.read(a[0] + (("[]", C(k)),)) for k in range(a[1][1], b[1][1])]
                    st = st.cp(); st.env[(G, "buf", p)] = q + (tuple(add) if add is not None else (("?", short),))
                    return [(st, ("void",))]
        if name.startswith(("std::vector::", "std::basic_string::")) and isinstance(obj, Loc):
            if short == "data": return [(st, ("addr", obj.p))]
            if short in ("resize", "assign") and args and not call_args(n)[0].t.endswith("*"):
                return [(st.write(obj.p, ("sized", s.val(st, args[0]))), ("void",))]
            if short in ("size", "length"): return [(st, s.sizeat(st, obj.p))]
        if name.endswith("byteswap") and name.startswith("std::") and args:
            return [(st, s.swap(s.val(st, args[0]), csize(n.t) or 1))]
        return super().viewcall(n, st, fr, name, short, obj, args, argn)
    def swap(s, v, k):
        if v[0] == "bswap": return v[1]
        if v[0] in ("le", "be") and v[2] == k: return ("be" if v[0] == "le" else "le",) + v[1:]
        return ("bswap", v, k)
    def on_call(s, st, fr, n, name, obj, args):
        if name.split("::")[-1] == "byteswapIfLittle" and args: return [(st, s.swap(s.val(st, args[0]), csize(n.t) or 1))]
        return super().on_call(st, fr, n, name, obj, args)
    def range_exit(s, st, rv):
        """a range loop whose body never ran: the range is empty"""
        if not isinstance(rv, Loc): return st
        n = s.sizeat(st, rv.p)
        return st.assume(T_eq0(n)) if nonneg(n) else st
    # ------------------------------------------------------------ XOR passes
    def skey(s, st): return (st.env.get((G, "xor")),)
    ghosts = ((G, "done"),)
    def relations(s, st):
        x = st.env.get((G, "xor")); d = st.env.get((G, "done"))
        if x is not None and d is not None and (t := st.env.get(x[0])) is not None and t[0] == "xored": return ((d, s.sizeof(t)),)
        return ()
    def xor_at(s, st, p, i, key):
        """element i of p ^= key"""
        x = st.env.get((G, "xor"))
        done = st.env.get((G, "done"), C(0)) if x is not None and x[0] == p else C(0)
        key = s.norm_key(key, st, done if i[0] == "sym" and i[1][0] == "elem" else i)
        ok = key is not None and key[0] == "sel" and key[2] == bits(done, 0, (len(key[1]) - 1).bit_length()) and len(key[1]) in (1, 2, 4, 8, 16)
        if is_c(done) and key is not None and x is None and is_c(i): pass
        st = st.cp(); old = st.env.get((G, "xor"))
        rng = i[0] == "sym" and i[1][0] == "elem"
        if not ok or not (i == done or rng): new = (p, ("bad",))
        elif old is not None and old[0] == p and old[1] != key[1]: new = (p, ("bad",))
        else: new = (p, key[1], rng)
        if old is None or old[0] != p:
            t = st.env.get(p) or st.read(p); st.env[p] = ("xored", t, new[1])
        elif new[1] != old[1]: st.env[p] = ("xored", ("?",), ("bad",))
        st.env[(G, "xor")] = new; st.env[(G, "done")] = ladd(done, C(1))
        return st
    def norm_key(s, k, st, i):
        """the key as (sel array index)"""
        k0 = k
        if k[0] == "bits" and k[2] == 0 and k[3] == 8: k = k[1]
        if k[0] == "sel": return k
        if is_c(i):
            for q in {p[:-1] for p in st.env if p and isinstance(p[-1], tuple) and p[-1] == ("[]", C(0))} | {p for p, v in st.env.items() if v[0] == "init"}:
                el = s.elems(st, q)
                if el and len(el) in (2, 4, 8, 16) and el[i[1] % len(el)] in (k, k0): return ("sel", el, C(i[1] % len(el)))
        return None
    def unconv(s, t):
        return t[1] if t[0] == "bits" and t[2] == 0 and t[3] == 8 and t[1][0] == "op" else t
    def on_assign(s, st, fr, n, p, t):
        if p and isinstance(p[-1], tuple) and p[-1][0] == "[]" and (u := s.unconv(t))[:2] == ("op", "^") and len(u) == 4:
            for a, b in ((u[2], u[3]), (u[3], u[2])):
                if a == ("el", p[:-1], p[-1][1]) or a == ("bits", ("el", p[:-1], p[-1][1]), 0, 8) or a[:2] == ("in", p) or a == item(st.read(p[:-1]), p[-1]):
                    st = st.cp(); st.env.pop(p, None)
                    return [s.xor_at(st, p[:-1], p[-1][1], b)]
        return super().on_assign(st, fr, n, p, t)
    def xor_done(s, st, p, key, n):
        """None if the first n bytes of p were XORed with the repeating key exactly once, else what is wrong"""
        x = st.env.get((G, "xor"))
        if x is None or x[0] != p: return None if s.prove(st, T_eq0(n)) else "the payload is not XORed with the mask"
        if x[1] == ("bad",): return "the XOR pass does not apply key byte i mod 4 to payload byte i, in order"
        if x[1] != key: return f"the XOR key is {[show(k) for k in x[1]]}, expected {[show(k) for k in key]}"
        d = st.env.get((G, "done"))
        if not x[2] and d != n and not s.prove(st, T_cmp("==", d, n)) and not s.prove(st, T_cmp("==", d, unpack(n))): return f"only {show(d)} of {show(n)} payload bytes are provably XORed"
        return None
