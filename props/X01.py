"""X01: base64 text is the standard encoding of the bytes, and decoding accepts nothing else and gives the bytes back."""
from views import *
from J01 import Read, bytesof, ALL
import conc
TUS = ["net"]
META = dict(title="Base64 text is exactly the encoding of its bytes, and only such text is decoded",
    statement="Encoding any bytes gives their standard base64 text (with padding), respectively their base64url text (without), and nothing more or less. Decoding base64url text gives exactly the bytes encoded in it; text of an impossible length or with a character outside the alphabet is rejected, and no other text is.",
    over=["inputs"], q="every byte string of every length below 2 GiB, every text given to the decoder",
    why="Tests encode a few strings; each byte value in each position of a group, each remainder and each foreign character is another case.",
    files=["net/protocol/codec/Base64.hpp", "net/protocol/codec/Base64Url.hpp"],
    mech=[("standard", "net/protocol/codec/Base64.hpp"), ("url and filename safe", "net/protocol/codec/Base64Url.hpp base64UrlEncode, base64UrlDecode"), ("who uses it", "net/token/Token.hpp; the WebSocket handshake")],
    technique="abstract interpretation: bit provenance of every character written, with a linear invariant over the number of groups done",
    note="Bits of the last letter that encode nothing may be anything on decoding. Inputs are shorter than 2 GiB.",
    design="""Each codec function is run on a text of symbolic length E. The abstract state counts the groups done (g) and keeps everything else as linear functions of g, so the input read for a group is [3g, 3g+3) (or [4g, 4g+4)) by
construction. Every character written is expanded into its 8 bits, each the constant 0/1 or bit j of input byte i (through the alphabet, which is read from the source, and its inverse table); they must be exactly the bits the encoding puts
there. Positions written must be consecutive and below the size the output was given; at the end all input must have been consumed and the result be as long as what was written. A decoder must know of each character it decodes that it is one
of the 64 letters (the byte sets that pass the branches are enumerated), and may throw only when one is not or the length is 1 mod 4.""")
ASSUMES = ["no text is longer than 2 GiB", "std::string, std::vector and std::array behave as the standard says"]
B = ("text",); OUT = ("out",); g = ("grp",)
G = ("ghost",); APP, SZ, EOS = ((G, x) for x in ("app", "size", "eos"))
STD = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; URL = STD[:62] + b"-_"
BYTES = frozenset(range(256))
def q(st, k): return st.env.get(k, ("q",))[1:]
# ---------------------------------------------------------------- linear integer arithmetic
def fm(facts, goal):
    """the linear facts (and integrality) imply goal >= 0"""
    cs = []; nes = []
    def row(t): a = lin(t); return (a[1], dict(a[2]))
    for f in sorted((f for f in facts if f[0] in ("ge0", "eq0", "ne0")), key=repr):
        if f[0] == "ge0": cs.append(row(f[1]))
        elif f[0] == "eq0": cs += [row(f[1]), row(lmul(f[1], -1))]
        elif f[0] == "ne0": nes.append(f[1])
    c, d = row(goal); leaves = set(d)
    if not d: leaves = {x for k, r in cs for x in r}
    for _ in range(3): leaves |= {x for k, r in cs if leaves & set(r) for x in r}
    cs = [x for x in cs if set(x[1]) <= leaves and x[1]]
    neg = (-c - 1, {k: -v for k, v in d.items()})
    nes = [t for t in nes if {x for x, _ in lin(t)[2]} <= leaves and lin(t)[2]][:6]
    def go(rows, nes):
        if unsat(rows): return True
        if not nes: return False
        t = nes[0]
        return go(rows + [row(ladd(t, C(-1)))], nes[1:]) and go(rows + [row(ladd(lmul(t, -1), C(-1)))], nes[1:])
    return go(cs + [neg], nes)
def unsat(rows):
    from math import gcd
    def norm(r):
        k, d = r; d = {x: v for x, v in d.items() if v}
        if d:
            h = 0
            for v in d.values(): h = gcd(h, v)
            if h > 1: k //= h; d = {x: v // h for x, v in d.items()}
        return (k, frozenset(d.items()))
    S = {norm(r) for r in rows}
    while True:
        if any(not d and k < 0 for k, d in S): return True
        vs = {x for k, d in S for x, _ in d}
        if not vs: return False
        def cost(x):
            p = sum(1 for k, d in S for y, v in d if y == x and v > 0); m = sum(1 for k, d in S for y, v in d if y == x and v < 0)
            return p * m - p - m
        x = min(vs, key=lambda v: (cost(v), repr(v)))
        pos = [(k, dict(d)) for k, d in S if any(y == x and v > 0 for y, v in d)]; neg = [(k, dict(d)) for k, d in S if any(y == x and v < 0 for y, v in d)]
        S = {(k, d) for k, d in S if not any(y == x for y, _ in d)}
        for k1, d1 in pos:
            for k2, d2 in neg:
                a, b = -d2[x], d1[x]; d = {}
                for y, v in d1.items(): d[y] = d.get(y, 0) + a * v
                for y, v in d2.items(): d[y] = d.get(y, 0) + b * v
                S.add(norm((a * k1 + b * k2, d)))
        if len(S) > 400: return False
# ---------------------------------------------------------------- where every bit of a value comes from
class Codec(Read):
    patience = 20
    kind = None; inc = 3; dec = False; alpha = URL; pad = False
    def skey(s, st):
        inv = frozenset(f for f in st.facts if f[0] in ("ge0", "eq0", "ne0") and lin(f[1])[2] and all(x[:2] == ("op", "%") for x, _ in lin(f[1])[2]))
        return (q(st, APP), st.env.get(EOS), inv, frozenset((k, v) for k, v in st.env.items() if v[0] == "c" and 0 <= v[1] <= 2 and len(k) == 1 and isinstance(k[0], tuple) and k[0][0] == "v"))
    def force_inline(s, fn): return super().force_inline(fn) or "/codec/" in fn.file
    def prove(s, st, t, depth=2):
        if super().prove(st, t, depth): return True
        t = T_truth(t)
        if t[0] == "ge0": return fm(st.facts, t[1])
        if t[0] == "eq0": return fm(st.facts, t[1]) and fm(st.facts, lmul(t[1], -1))
        return False
    def byteset(s, st, o):
        t = ("chr", o); fs = frozenset(f for f in st.facts if bytesof(f) == {t})
        if not fs: return BYTES
        if (t, fs) not in s.bs:
            out = set()
            for v in range(256):
                try: ok = all(v in f[2][1:] if f[0] == "inset" else conc.ev(f, s.on(v, t)) for f in fs)
                except conc.Unknown: ok = True
                if ok: out.add(v)
            s.bs[t, fs] = frozenset(out)
        return s.bs[t, fs]
    def _bv(s, st, t):
        k = t[0]; U = [("?", t, i) for i in range(64)]
        if k == "c": return [(t[1] >> i) & 1 for i in range(64)]
        if k in ("ge0", "eq0", "ne0"): return [("b", t, 0)] + [0] * 63
        if k == "chr": return [("b", t, i) for i in range(8)] + [0] * 56
        if k == "cast":
            w, sg = conc.W[t[1]]; b = s._bv(st, t[2]); return b[:w] + [b[w - 1] if sg else 0] * (64 - w)
        if k == "in" and len(t[1]) >= 2 and isinstance(t[1][-1], tuple) and t[1][-1][0] == "[]":
            tab = s.table(t[1][:-1]); i = t[1][-1][1]
            if tab is not None and i[0] == "cast": i = i[2] if s._bv(st, i) == s._bv(st, i[2]) else i
            if tab is not None and i[0] == "chr" and len(tab) == 256 and all(tab[c] == j for j, c in enumerate(s.alpha)):
                w = 6 if s.byteset(st, i[1]) <= s.letters else 8
                return [("d", i[1], j) for j in range(w)] + [0] * (64 - w)
            return U
        if k == "lin":
            if t[1] < 0: return U
            acc = s._bv(st, C(t[1]))
            for x, c in t[2]:
                if c <= 0 or c & (c - 1): return U
                acc = s.bor(acc, [0] * (c.bit_length() - 1) + s._bv(st, x), True)
                if acc is None: return U
            return acc
        if k == "op" and len(t) == 4:
            a, b = s._bv(st, t[2]), t[3]; o = t[1]
            if o in ("<<", ">>", "/", "%") and not is_c(b): return U
            if o == "<<" and 0 <= b[1] < 64: return ([0] * b[1] + a)[:64]
            if o == ">>" and 0 <= b[1] < 64: return a[b[1]:] + [a[63]] * b[1]
            if o in ("/", "%") and b[1] > 0 and b[1] & (b[1] - 1) == 0 and a[63] == 0:
                w = b[1].bit_length() - 1; return a[w:] + [0] * w if o == "/" else a[:w] + [0] * (64 - w)
            if o == "&":
                b = s._bv(st, b); out = []
                for x, y in zip(a, b): out.append(0 if x == 0 or y == 0 else x if y == 1 or x == y else y if x == 1 else ("?", t, len(out)))
                return out
            if o in ("|", "^"):
                b = s._bv(st, b)
                return s.bor(a, b, o == "^") or U
        return U
    def bor(s, a, b, strict):
        out = []
        for x, y in zip(a, b):
            if x == 0: out.append(y)
            elif y == 0: out.append(x)
            elif strict: return None
            else: out.append(x if x == y else 1 if 1 in (x, y) else None)
        return None if None in out else out
    # ---- values
    def arith(s, op, a, b, ty=""):
        r = super().arith(op, a, b, ty)
        if op in ("<<",) and (k := conc.ctype(ty)) and conc.W[k] == (32, 0) and not is_c(r): return ("cast", k, r)
        return r
    def int_cast(s, v, n):
        ty = conc.ctype(n.t)
        if ty is None or not bytesof(v): return v
        return ("cast", ty, v)
    def ev_ImplicitCastExpr(s, n, st, fr):
        r = super().ev_ImplicitCastExpr(n, st, fr)
        if n.s_("ck") == "LValueToRValue" and conc.ctype(n.t) == "char": r = [(x, ("cast", "char", v) if isinstance(v, tuple) and v[0] == "chr" else v) for x, v in r]
        return r
    ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = ev_CXXReinterpretCastExpr = ev_CXXConstCastExpr = ev_ImplicitCastExpr
    def ev_BinaryOperator(s, n, st, fr):
        r = super().ev_BinaryOperator(n, st, fr)
        return [(s.divided(x, v), v) for x, v in r] if n.op in ("/", "%") else r
    def divided(s, st, v):
        if not (isinstance(v, tuple) and v[0] == "op" and v[1] in ("/", "%") and is_c(v[3]) and v[3][1] > 0) or bytesof(v): return st
        a, c = v[2], v[3]; d = ("op", "/", a, c); r = ("op", "%", a, c); st = st.cp()
        st.facts = st.facts | {T_eq0(ladd(ladd(a, lmul(d, c[1]), -1), r, -1)), T_ge0(r), T_ge0(ladd(C(c[1] - 1), r, -1)), T_ge0(d)}
        return st
    def merge(s, sts, fr, site, loop=False):
        if loop: return super().merge(sts, fr, site, loop)
        groups = {}
        for x in sts: groups.setdefault(frozenset(f for f in x.facts if f[0] != "ge0"), []).append(x)
        return [y for v in groups.values() for y in super(Codec, s).merge(v, fr, site, loop)]
    # ---- joins: what differs by the number of groups done is a linear function of it
    def groups(s, st): return next((-lin(f[1])[1] // lin(f[1])[2][0][1] for f in st.facts if f[0] == "eq0" and len(lin(f[1])[2]) == 1 and lin(f[1])[2][0][0] == g and abs(lin(f[1])[2][0][1]) == 1), None)
    def join(s, a, b, site):
        if a is b: return a
        ca, cb = s.groups(a), s.groups(b)
        a, b = a.cp(), b.cp()
        for k in set(a.env) & set(b.env):
            if k[0] in ("ref", "ver") or a.env[k] == b.env[k]: continue
            v = s.inter(a, b, a.env[k], b.env[k], ca, cb)
            if v is not None: a.env[k] = b.env[k] = v
        n = Views.join(s, a, b, site); more = set()
        if site[2:3] == ("L",) and ca is None: n = n.cp(); n.facts = frozenset(f for f in n.facts if f in a.facts or any(isinstance(z, tuple) and z[:2] == ("phi", site) for z in walk_term(f)))
        for x, y in ((a, b), (b, a)) if ca is not None else ((a, b),):
            for f in sorted(x.facts - n.facts, key=repr):
                if f[0] == "ne0" or f[0] not in ("ge0", "eq0"): continue
                t = f[1]
                if not bytesof(f) and not any(isinstance(z, tuple) and z[:2] == ("phi", site) for z in walk_term(f)) and fm(y.facts, t) and (f[0] == "ge0" or fm(y.facts, lmul(t, -1))): more.add(f)
        if ca is not None and cb is not None and ca != cb:
            for k in ("ge0", "eq0"):
                fa, fb = (sorted((f[1] for f in y.facts if f[0] == k and not bytesof(f)), key=repr) for y in (a, b))
                for u in fa:
                    for w in fb:
                        d = ladd(w, u, -1)
                        if not is_c(d) or not d[1] or d[1] % (cb - ca): continue
                        t = ladd(u, lmul(ladd(g, C(-ca)), d[1] // (cb - ca)))
                        h = (T_ge0 if k == "ge0" else T_eq0)(t)
                        if h[0] != "c" and h not in n.facts and all(fm(y.facts, t) and (k == "ge0" or fm(y.facts, lmul(t, -1))) for y in (a, b)): more.add(h)
        if more: n = n.cp(); n.facts = n.facts | more
        return n
    def inter(s, a, b, x, y, ca, cb):
        if x == y: return x
        num = lambda t: t[0] in ("c", "lin", "in", "op", "m", "u", "E", "grp", "sym", "addr", "text", "out", mkptr(B, C(0))[0])
        if num(x) and num(y):
            if b.holds(T_cmp("==", x, y)) is True or s.prove(b, T_cmp("==", x, y)): return x
            if a.holds(T_cmp("==", x, y)) is True or s.prove(a, T_cmp("==", x, y)): return y
            if ca is not None and cb is not None and ca != cb:
                d = ladd(y, x, -1)
                if not is_c(d) or d[1] % (cb - ca): return None
                return ladd(x, lmul(ladd(g, C(-ca)), d[1] // (cb - ca)))
            return None
        if x[0] == y[0] and x[0] in ("chr", "cast", "op", "sv", "in") and len(x) == len(y):
            out = []
            for u, w in zip(x, y):
                v = u if u == w else s.inter(a, b, u, w, ca, cb) if isinstance(u, tuple) and isinstance(w, tuple) and u and w and isinstance(u[0], str) and isinstance(w[0], str) else None
                if v is None: return None
                out.append(v)
            return tuple(out)
        return None
    def on_throw(s, st, fr, *a):
        offs = sorted({t[1] for h in st.facts for t in bytesof(h)}, key=repr)
        ok = s.dec and (any(not (s.byteset(st, o) & s.letters) for o in offs) or s.prove(st, T_cmp("==", ("op", "%", ("E",), C(4)), C(1))))
        return [st.with_mon(("rejected" if ok else "refused",))]
    # ---- the text written
    def put(s, st, fr, n, t):
        s.count("characters written"); st = st.cp(); app = q(st, APP) + (t,); full = 3 if s.dec else 4
        st.env[APP] = ("q",) + app
        return s.group(st, fr, n, app, s.inc) if len(app) == full and not (s.pad and app[-1] == C(ord("="))) else st
    def at(s, st): c = s.groups(st); return g if c is None else C(c)
    def pos(s, st): return lmul(s.at(st), s.inc)
    def wrote(s, st): return ladd(lmul(s.at(st), 3 if s.dec else 4), C(len(q(st, APP))))
    def group(s, st, fr, n, app, nin):
        """app is what the nin input bytes of this group must turn into"""
        s.count("groups compared"); P = s.pos(st)
        if EOS in st.env: s.fail(st, fr, n, "after", "output follows the last group"); raise Stop
        if not s.prove(st, T_cmp("<=", ladd(P, C(nin)), ("E",))): s.fail(st, fr, n, "bounds", f"a group of {nin} is written without knowing that as many input bytes are left"); raise Stop
        for k, t in enumerate(app): s.char(st, fr, n, k, t, P, nin)
        if s.dec:
            for k in range(nin):
                if s.byteset(st, ladd(P, C(k))) != s.letters: s.fail(st, fr, n, "accept", f"character {k} of a group is decoded without being known to be one of the 64 letters" if not s.byteset(st, ladd(P, C(k))) <= s.letters else "some of the 64 letters are not decoded"); raise Stop
        st = st.cp(); st.env[APP] = ("q",)
        if nin < s.inc: st.env[EOS] = C(nin); return st
        st.facts = st.facts | {T_ge0(ladd(t, C(-1))) for f in st.facts if f[0] == "ne0" for t in (f[1], lmul(f[1], -1)) if T_ge0(t) in st.facts}
        nw = ladd(g, C(-1))
        f = lambda t: subst_norm(t, g, nw) if t[0] in ("ge0", "eq0", "ne0") else subst_any(t, g, nw)
        for k in list(st.env):
            if k[0] in ("ver",): continue
            if mentions(st.env[k], g): st.env[k] = deep(st.env[k], g, nw)
        st.facts = frozenset(x for x in (fact(deep(x, g, nw)) for x in st.facts) if x[0] != "c") | {T_ge0(g)}
        return st
    def char(s, st, fr, n, k, t, P, nin):
        if s.dec:
            d = [("d", ladd(P, C(i)), j) for i in range(nin) for j in range(5, -1, -1)]
            want = d[8 * k:8 * k + 8][::-1]; got = s._bv(st, t)[:8]
        else:
            bits = [("b", ("chr", ladd(P, C(i))), j) for i in range(nin) for j in range(7, -1, -1)] + [0] * 24
            want = (bits[6 * k:6 * k + 6][::-1]) + [0] * 58
            while t[0] == "cast" and conc.W[t[1]][0] >= 8: t = t[2]
            tab = s.table(t[1][:-1]) if t[0] == "in" and len(t[1]) >= 2 and isinstance(t[1][-1], tuple) and t[1][-1][0] == "[]" else None
            if tab is None or bytes(x & 255 for x in tab[:64]) != s.alpha: s.fail(st, fr, n, "letter", f"character {k} of a group is not a letter of the alphabet"); raise Stop
            got = s._bv(st, t[1][-1][1])
        if got != want: s.fail(st, fr, n, "value", f"{'byte' if s.dec else 'character'} {k} of a group of {nin} does not hold the bits it should"); raise Stop
    def last(s, st, fr, n):
        app = q(st, APP)
        if not app: return st
        if s.pad:
            core = tuple(t for t in app if t != C(ord("=")))
            if len(app) != 4 or app[:len(core)] != core: s.fail(st, fr, n, "pad", "the last group is not padded to four characters"); raise Stop
            app = core
        if s.dec: return s.group(st, fr, n, app, len(app) + 1)
        if len(app) < 2: s.fail(st, fr, n, "pad", "the last group is one character"); raise Stop
        return s.group(st, fr, n, app, len(app) - 1)
    def on_ctor(s, st, fr, n, name, p, args):
        base = name.removesuffix("::(ctor)")
        if base == "std::span" and len(args) == 2:
            b, o = ptr(s.val(st, args[0])); return [st.write(p, ("sv", b, o, ladd(o, s.val(st, args[1]))))]
        if base == "std::basic_string":
            v = [s.val(st, a) for a in args]
            if not v or len(v) in (2, 3) and call_args(n)[0].t.replace("const ", "") in ("unsigned long", "std::size_t", "size_t", "size_type", "unsigned int", "int", "long"):
                st = st.write(p, ("ostr",)); st.env[SZ] = v[0] if v else C(0); return [st]
        return super().on_ctor(st, fr, n, name, p, args)
    def viewcall(s, n, st, fr, name, short, obj, args, argn):
        if name.startswith("std::basic_string::") and isinstance(obj, Loc) and st.read(obj.p)[0] in ("ostr", "empty", "ctor"):
            if st.read(obj.p)[0] != "ostr": st = st.write(obj.p, ("ostr",)); st.env.setdefault(SZ, C(0))
            v = [s.val(st, a) for a in args]
            if short == "resize": st = st.cp(); st.env[SZ] = v[0]; return [(st, ("void",))]
            if short == "reserve": return [(st, ("void",))]
            if short in ("size", "length"): return [(st, st.env[SZ])]
            if short in ("data", "begin"): return [(st, mkptr(OUT, C(0)))]
            if short in ("operator[]", "at"): return [(st, Loc((("*", mkptr(OUT, v[0])),)))]
            if short in ("push_back", "operator+=") and (v[0][0] != "s" or len(v[0][1]) == 1):
                c = C(ord(v[0][1])) if v[0][0] == "s" else v[0]
                if st.env[SZ] != s.wrote(st) and not s.prove(st, T_cmp("==", st.env[SZ], s.wrote(st))): s.fail(st, fr, n, "gap", "the text has characters nobody wrote"); raise Stop
                st = st.cp(); st.env[SZ] = ladd(st.env[SZ], C(1)); return [(s.put(st, fr, n, c), obj if short != "push_back" else ("void",))]
        return super().viewcall(n, st, fr, name, short, obj, args, argn)
    def run_frame(s, fr, sts):
        if fr.depth == 0:
            p = fr.fn.params[0]
            sts = [x.write((("v", fr.id, p[0], p[1]),), ("sv", B, C(0), ("E",))) for x in sts]
        return super().run_frame(fr, sts)
    def on_assign(s, st, fr, n, p, t):
        if p and isinstance(p[0], tuple) and p[0][0] == "*":
            b, o = ptr(p[0][1])
            if len(p) == 2 and isinstance(p[1], tuple) and p[1][0] == "[]": o = ladd(o, p[1][1])
            if b == OUT and len(p) <= 2:
                st = st.cp(); st.env.pop(p, None)
                if not s.prove(st, T_cmp("==", o, s.wrote(st))): s.fail(st, fr, n, "order", f"writes position {show(o)}, the next one is {show(s.wrote(st))}"); raise Stop
                if not s.prove(st, T_cmp("<", o, st.env[SZ])): s.fail(st, fr, n, "outbounds", f"writes position {show(o)} of the output without knowing that it is that long"); raise Stop
                return [s.put(st, fr, n, t)]
        return Views.on_assign(s, st, fr, n, p, t)
class Stop(Exception): pass
def deep(t, x, v):
    if t == x: return v
    if not isinstance(t, tuple): return t
    if t and t[0] == "lin" and len(t) == 3:
        acc = C(t[1])
        for y, c in t[2]: acc = ladd(acc, lmul(deep(y, x, v), c))
        return acc
    return tuple(deep(y, x, v) for y in t)
def fact(f):
    if f[0] in ("ge0", "eq0", "ne0"): return {"ge0": T_ge0, "eq0": T_eq0, "ne0": lambda t: T_not(T_eq0(t))}[f[0]](f[1])
    return f
ONLY = None
def check(ctx):
    m = ctx.model("net")
    ctx.rule("every group of input bytes becomes the right letters, in order, and nothing else is written; only letters are decoded")
    fs = [f for f in m.fns.values() if f.body is not None and "/codec/" in f.file and f.params and "base64" in f.short.lower()]
    for f in sorted(fs, key=lambda f: f.full + f.params[0][2]):
        if ONLY and ONLY not in f.full: continue
        ctx.analysed(f); ctx.count("functions")
        e = Codec(m); e.cnt = ctx.count; e.budget = 400000
        e.dec = "decode" in f.short.lower(); e.inc = 4 if e.dec else 3; e.alpha = URL if "url" in f.short.lower() else STD; e.pad = e.alpha == STD
        e.letters = frozenset(e.alpha)
        e.bad = lambda key, msg, fn, line, path, f=f: ctx.violation(f"{key}:{f.short}", msg, fn=fn, line=line, path=path or ())
        st = St().assume(T_ge0(("E",))).assume(T_eq0(g)).cp(); st.facts = st.facts | {T_ge0(g), T_eq0(("P",))}; st.env[APP] = ("q",)
        class FR: fn = f
        try:
            for kind, x, v in e.run(f, (), st):
                if fm(x.facts, C(-1)): continue
                ctx.count("paths")
                if kind == "ret":
                    x = e.last(x, FR, None)
                    done = ladd(e.pos(x), x.env.get(EOS, C(0)))
                    if not e.prove(x, T_cmp("==", done, ("E",))): e.fail(x, FR, None, "end", f"some of the input may be left out")
                    n = x.env.get(EOS); w = lmul(e.at(x), 3 if e.dec else 4)
                    if n is not None: w = ladd(w, C(n[1] - 1 if e.dec else 4 if e.pad else n[1] + 1))
                    if not e.prove(x, T_cmp("==", x.env.get(SZ, C(0)), w)): e.fail(x, FR, None, "length", f"the result has {show(x.env.get(SZ, C(0)))} characters, {show(w)} were written")
                else:
                    if x.mon != ("rejected",): e.fail(x, FR, None, "reject", "well-formed text may be rejected" if e.dec else "encoding may fail")
        except Stop: pass
    ctx.at_least("functions", 3); ctx.at_least("groups compared", 6)
